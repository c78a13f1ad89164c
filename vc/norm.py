"""Normal form of scalar expressions and the decision procedure for equality.

norm(e, ctx): exact rewriting; ctx holds integer facts (each IX >= 0) used through z3.
equal(a, b, ctx): True  -> a == b for all values/dims (proved)
                  False -> normal forms differ (caller must look for a witness)
"""
import itertools
import os
import sys
from fractions import Fraction

from .alg import (IX, E, T, IAtom, iatom, F0, F1, DECL, Unsupported, fresh, merge, atom_fv, atom_subst,
                  ix2e, cmul, ind_eq, ind_lt, fn, real, conj, split_div, idiv_exact, _sk, epow, esqrt, fmerge)
from . import alg

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

STATS = {"z3_queries": 0, "z3_time": 0.0, "terms": 0, "norm_calls": 0}
import time as _time


# ------------------------------------------------------------------ int context
class Ctx:
    """integer facts: tuple of IX known >= 0"""

    def __init__(self, facts=(), parent=None, pfacts=()):
        self.facts = tuple(facts)
        self.pfacts = tuple(pfacts)   # scalar facts: (rel, E, truth)
        self.cache = {}
        self.low = self.mine = None

    def add(self, *ixs):
        new = [x for x in ixs if not (x.is_const() and x.cval() >= 0)]
        if not new:
            return self
        return Ctx(self.facts + tuple(new), pfacts=self.pfacts)

    def addp(self, rel, e, truth):
        return Ctx(self.facts, pfacts=self.pfacts + ((rel, e, truth),))

    # --- fast syntactic positivity
    def _fast(self, ix):
        if ix.is_const():
            return ix.cval() >= 0
        if self.low is None:
            # non-constant part -> smallest constant among the facts: ix >= some fact iff the parts agree and its constant is no smaller
            self.low = {}
            for f in self.facts:
                k, c = f.nc(), f.cval()
                if c < self.low.get(k, c + 1):
                    self.low[k] = c
        lo = self.low.get(ix.nc())
        return True if lo is not None and ix.cval() >= lo else None

    def ge0(self, ix):
        """is ix >= 0 entailed?"""
        k = ix
        if k in self.cache:
            return self.cache[k]
        r = self._fast(ix)
        if r:
            self.cache[k] = True
            return True
        if ix.is_const():
            return r
        if k in self.cache:
            return self.cache[k]
        if self.mine is None:
            self.mine = _GECACHE.setdefault(self.facts, {})
        r = self.mine.get(ix)
        if r is None:
            r = self.mine[ix] = z3_ge0(self.facts, ix)
        self.cache[k] = r
        return r

    def lt0(self, ix):
        return self.ge0(-ix - 1)

    def inconsistent(self):
        return self.ge0(IX.const(-1)) or z3_ge0(self.facts, IX.const(-1))


def _z3_int(ix, env, side):
    acc = None
    for m, c in ix.t.items():
        p = z3.IntVal(c)
        for s in m:
            if isinstance(s, str):
                v = env.get(s)
                if v is None:
                    v = env[s] = z3.Int(s)
            else:
                v = env.get(s)
                if v is None:
                    v = env[s] = z3.Int("atom:" + s._k)
                    if s.op in ("//", "%"):
                        n = _z3_int(s.args[0], env, side)
                        d = _z3_int(s.args[1], env, side)
                        key = f"{s.args[0]}|{s.args[1]}"
                        q = env.get(("q", key))
                        if q is None:
                            q = env[("q", key)] = z3.Int("q:" + key)
                            r = env[("r", key)] = z3.Int("r:" + key)
                            side.append(z3.Implies(d > 0, z3.And(n == q * d + r, r >= 0, r < d)))
                        side.append(v == (q if s.op == "//" else env[("r", key)]))
                    elif s.op == "max":
                        a = _z3_int(s.args[0], env, side)
                        b = _z3_int(s.args[1], env, side)
                        side.append(v == z3.If(a > b, a, b))
                    elif s.op == "min":
                        a = _z3_int(s.args[0], env, side)
                        b = _z3_int(s.args[1], env, side)
                        side.append(v == z3.If(a < b, a, b))
                    elif s.op == "sum01":
                        side.append(v >= 0)
            p = p * v
        acc = p if acc is None else acc + p
    return acc if acc is not None else z3.IntVal(0)


_Z3CACHE = {}
_GECACHE = {}


def _alpha_key(rel, ix):
    """query up to the names of fresh variables (numbered in order of appearance)"""
    names = {}

    def nm(x):
        if isinstance(x, str):
            if "~" in x:
                return names.setdefault(x, len(names))
            return x
        return (x.op,) + tuple(ren(y) if isinstance(y, IX) else y for y in x.args)

    def ren(e):
        it = sorted(e.t.items(), key=lambda mc: (len(mc[0]), mc[1], [names.get(x, 9999) if isinstance(x, str) and "~" in x else -1 for x in mc[0]],
                                                 [_sk(x) if not (isinstance(x, str) and "~" in x) else "" for x in mc[0]]))
        return tuple((tuple(nm(x) for x in m), c) for m, c in it)
    k0 = ren(ix)
    left, out = list(rel), []
    while left:
        # next fact: one sharing already numbered variables, for a stable order
        best = min(range(len(left)), key=lambda k: (min([names.get(x, 9999) for x in left[k].syms() if isinstance(x, str) and "~" in x] or [-1]), k))
        out.append(ren(left.pop(best)))
    return (k0, tuple(sorted(out, key=repr)))


def z3_ge0(facts, ix, timeout=1500):
    # restrict to facts connected to ix
    syms = set(ix.syms())
    facts = list(dict.fromkeys(facts))
    rel, rest = [], [(f, f.syms()) for f in facts]
    changed = True
    if ix.is_const():
        rel = facts
    else:
        while changed:
            changed = False
            nr = []
            for f, s in rest:
                if s & syms:
                    rel.append(f)
                    if len(s) > 0:
                        syms |= s
                    changed = True
                else:
                    nr.append((f, s))
            rest = nr
    key = _alpha_key(rel, ix)
    if key in _Z3CACHE:
        return _Z3CACHE[key]
    t0 = _time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    env, side = {}, []
    for f in rel:
        s.add(_z3_int(f, env, side) >= 0)
    g = _z3_int(ix, env, side) < 0
    for c in side:
        s.add(c)
    s.add(g)
    r = s.check() == z3.unsat
    STATS["z3_queries"] += 1
    STATS["z3_time"] += _time.time() - t0
    _Z3CACHE[key] = r
    return r


def int_model(facts, extra=(), timeout=2000, small=None):
    """a model for integer facts, as dict or None ; extra: list of IX >= 0"""
    s = z3.Solver()
    s.set("timeout", timeout)
    env, side = {}, []
    for f in list(facts) + list(extra):
        s.add(_z3_int(f, env, side) >= 0)
    for c in side:
        s.add(c)
    if s.check() != z3.sat:
        return None
    m = s.model()
    out = {}
    for k, v in env.items():
        if isinstance(k, str):
            x = m.eval(v, model_completion=True)
            out[k] = x.as_long()
    return out


# ------------------------------------------------------------------ keys / canonical labelling
def ix_key(ix, lab):
    if not ix.t:
        return "0"
    ps = []
    for m, c in ix.t.items():
        ss = []
        for s in m:
            if isinstance(s, str):
                ss.append(lab.get(s, s))
            else:
                ss.append(s.op + "(" + ",".join(ix_key(a, lab) if isinstance(a, IX) else
                                                (e_key(a, lab) if isinstance(a, E) else str(a)) for a in s.args) + ")")
        ss.sort()
        ps.append(("*".join(ss), c))
    ps.sort()
    return "+".join(f"{c}.{s}" for s, c in ps)


def asym_of(a):
    """declared sign symmetries [(perm, sign)] of a tensor atom, or None"""
    return DECL.get(a[1], {}).get("asym") if a[0] == "T" else None


def asym_key(a, lab):
    """representative string of a sign-symmetric tensor atom under the labels and the sign relating them (0: the entry vanishes)"""
    ks = [ix_key(i, lab) for i in a[3]]
    best, sg = None, 1
    for perm, s in DECL[a[1]]["asym"]:
        k = ",".join(ks[p] for p in perm)
        if best is None or k < best:
            best, sg = k, s
        elif k == best and s != sg:
            sg = 0
    return a[1] + ("*" if a[2] else "") + "[" + best + "]", sg


def atom_key(a, lab, asym=False):
    k = a[0]
    if k == "T":
        d = DECL.get(a[1])
        if asym and d and d.get("asym"):
            return asym_key(a, lab)[0]
        ks = [ix_key(i, lab) for i in a[3]]
        if d and d.get("sym"):
            best = None
            for perm, cj in d["sym"]:
                c = (not a[2]) if (cj and not d.get("real")) else a[2]
                s = ("*" if c else "") + "[" + ",".join(ks[p] for p in perm) + "]"
                if best is None or s < best:
                    best = s
            return a[1] + best
        return a[1] + ("*" if a[2] else "") + "[" + ",".join(ks) + "]"
    if k == "F":
        return a[1] + "(" + ";".join(e_key(x, lab) if isinstance(x, E) else
                                     (ix_key(x, lab) if isinstance(x, IX) else str(x)) for x in a[2]) + ")"
    if k == "I":
        return f"I{a[1]}<{ix_key(a[2], lab)}>"
    if k == "P":
        return f"P{a[1]}<{e_key(a[2], lab)}>"
    if k == "N":
        s = a[1]
        return "#" + (lab.get(s, s) if isinstance(s, str) else ix_key(IX.sym(s), lab))
    if k == "X":
        return "X" + ix_key(a[1], lab)
    raise Unsupported(str(a))


def c_key(c):
    return f"{c[0]}" if c[1] == 0 else f"({c[0]},{c[1]})"


def e_key(e, lab=None):
    lab = lab or {}
    ks = []
    for t in e.ts:
        _, key, _ = canon(t, lab)
        ks.append(c_key(t.c) + "!" + key)
    ks.sort()
    return "{" + "|".join(ks) + "}"


_LEAF_CAP = 3000


def canon_s(t):
    """canonical labelling up to the declared sign symmetries: (order, key, labels, sign), sign 0 when the term vanishes"""
    if not any(asym_of(a) for a, p in t.f):
        return canon(t) + (1,)
    return canon(t, None, True)


def _leaf_fs(t, lab):
    fs, sg = [], 1
    for a, p in t.f:
        if asym_of(a):
            k, s = asym_key(a, lab)
            if p != 1:
                if not (isinstance(p, int) or getattr(p, "denominator", 0) == 1) or p < 0:
                    raise Unsupported("power of a sign-symmetric tensor entry")
                s = s ** int(p)
            sg *= s
        else:
            k = atom_key(a, lab)
        fs.append(k + (f"^{p}" if p != 1 else ""))
    fs.sort()
    return fs, sg


def canon(t, lab=None, signed=False):
    """canonical labelling: returns (order list of bound vars, key string, labels)"""
    lab = lab or {}
    bvs = [v for v, _ in t.b]
    if not bvs and signed:
        fs, sg = _leaf_fs(t, lab)
        return [], "&".join(fs), lab, sg
    if not bvs:
        fs = sorted(atom_key(a, lab) + (f"^{p}" if p != 1 else "") for a, p in t.f)
        return [], "&".join(fs), lab
    bset = set(bvs)
    occ = {v: [] for v in bvs}
    for i, (a, p) in enumerate(t.f):
        for v in atom_fv(a) & bset:
            occ[v].append(i)
    uppers = dict(t.b)
    depth = getattr(canon, "_d", 0)
    tag = f"@{depth}."
    canon._d = depth + 1
    try:
        col = {}
        for v in bvs:
            col[v] = tag + "u" + ix_key(uppers[v], {**lab, **{w: "~" for w in bset}})
        best = [None, None, 1]
        leaves = [0]

        def ranks(col):
            names = sorted(set(col.values()))
            r = {n: i for i, n in enumerate(names)}
            return {v: r[c] for v, c in col.items()}

        def refine(rk):
            n = len(set(rk.values()))
            while True:
                l2 = {**lab, **{v: tag + "c" + str(rk[v]) for v in bvs}}
                sig = {}
                for v in bvs:
                    l3 = dict(l2)
                    l3[v] = tag + "#"
                    parts = []
                    for i in occ[v]:
                        a, p = t.f[i]
                        parts.append(atom_key(a, l3, signed) + f"^{p}")
                    parts.sort()
                    for w in bvs:
                        if v in uppers[w].fv():
                            parts.append("U" + ix_key(uppers[w], l3) + str(rk[w]))
                    sig[v] = (rk[v], tuple(parts))
                order = sorted(set(sig.values()))
                pos = {s: i for i, s in enumerate(order)}
                rk = {v: pos[sig[v]] for v in bvs}
                m = len(set(rk.values()))
                if m == n or m == len(bvs):
                    return rk
                n = m

        def rec(rk):
            rk = refine(rk)
            cls = {}
            for v in bvs:
                cls.setdefault(rk[v], []).append(v)
            amb = [k for k in sorted(cls) if len(cls[k]) > 1]
            if not amb:
                leaves[0] += 1
                if leaves[0] > _LEAF_CAP:
                    raise Unsupported("canonical labelling blow-up")
                order = sorted(bvs, key=lambda v: rk[v])
                l2 = {**lab, **{v: tag + str(i) for i, v in enumerate(order)}}
                sg = 1
                if signed:
                    fs, sg = _leaf_fs(t, l2)
                else:
                    fs = sorted(atom_key(a, l2) + (f"^{p}" if p != 1 else "") for a, p in t.f)
                us = [ix_key(uppers[v], l2) for v in order]
                key = "S(" + ",".join(us) + ")" + "&".join(fs)
                if best[0] is None or key < best[0]:
                    best[0], best[1], best[2] = key, order, sg
                elif key == best[0] and sg != best[2]:
                    best[2] = 0
                return
            k = amb[0]
            for v in cls[k]:
                r2 = {w: 2 * x for w, x in rk.items()}
                r2[v] -= 1
                rec(r2)
        rec(ranks(col))
    finally:
        canon._d = depth
    order = best[1]
    if signed:
        return order, best[0], {v: tag + str(i) for i, v in enumerate(order)}, best[2]
    return order, best[0], {v: tag + str(i) for i, v in enumerate(order)}


def _sym_canon_atom(a):
    """choose the representative of declared tensor symmetry by string order (free names)"""
    if a[0] == "T":
        d = DECL.get(a[1])
        if d and d.get("sym"):
            best = None
            for perm, cj in d["sym"]:
                c = (not a[2]) if (cj and not d.get("real")) else a[2]
                idx = tuple(a[3][p] for p in perm)
                k = (c, tuple(map(str, idx)))
                if best is None or k < best[0]:
                    best = (k, ("T", a[1], c, idx))
            return best[1]
    return a


# ------------------------------------------------------------------ term simplification
def has_iatom_ix(ix):
    return any(isinstance(s, IAtom) for m in ix.t for s in m)


def simp_ix(ix, ctx):
    if not has_iatom_ix(ix):
        return ix
    r = IX.const(0)
    for m, c in ix.t.items():
        p = IX.const(c)
        for s in m:
            if isinstance(s, str):
                p = p * IX.sym(s)
                continue
            args = [simp_ix(a, ctx) if isinstance(a, IX) else a for a in s.args]
            if s.op in ("//", "%"):
                n, d = args
                q, rem = split_div(n, d)
                done = False
                if q.t and ctx.ge0(d - 1):
                    if not rem.t:
                        p = p * (q if s.op == "//" else IX.const(0))
                        done = True
                    elif ctx.ge0(rem) and ctx.ge0(d - 1 - rem):
                        p = p * (q if s.op == "//" else rem)
                        done = True
                    elif ctx.ge0(-rem - 1) and ctx.ge0(d + rem):
                        p = p * (q - 1 if s.op == "//" else rem + d)
                        done = True
                    else:
                        inner = iatom(s.op, [rem, d])
                        p = p * ((q + inner) if s.op == "//" else inner)
                        done = True
                elif ctx.ge0(d - 1) and ctx.ge0(n) and ctx.ge0(d - 1 - n):
                    p = p * (IX.const(0) if s.op == "//" else n)
                    done = True
                elif ctx.ge0(d - 1) and ctx.ge0(-n - 1) and ctx.ge0(d + n):
                    p = p * (IX.const(-1) if s.op == "//" else n + d)
                    done = True
                if not done:
                    p = p * iatom(s.op, [n, d])
                continue
            if s.op in ("max", "min"):
                a, b = args
                big, sm = (a, b) if s.op == "max" else (b, a)
                if ctx.ge0(a - b):
                    p = p * big
                    continue
                if ctx.ge0(b - a):
                    p = p * sm
                    continue
            p = p * iatom(s.op, args)
        r = r + p
    return r


def mentions_placeholder(e):
    """does the expression mention the placeholder of a loop-carried variable"""
    def at(a):
        if a[0] == "T":
            return a[1].startswith("ph~")
        if a[0] in ("F",):
            return any(isinstance(x, E) and mentions_placeholder(x) for x in a[2])
        if a[0] == "P":
            return mentions_placeholder(a[2])
        return False
    return any(at(a) for t in e.ts for a, _ in t.f)


def local_ctx(t, ctx, skip=None):
    fs = []
    for v, u in t.b:
        fs.append(IX.sym(v))
        fs.append(u - 1 - IX.sym(v))
    for i, (a, p) in enumerate(t.f):
        if a[0] == "I" and i != skip:
            if a[1] == "lt":
                fs.append(-a[2] - 1)
            else:
                fs.append(a[2])
                fs.append(-a[2])
    return ctx.add(*fs) if fs else ctx


def find_ind(e, bound=frozenset()):
    """first indicator atom in e whose variables avoid `bound` (searches nested function args too)"""
    for t in e.ts:
        b2 = bound | {v for v, _ in t.b}
        for a, _ in t.f:
            if a[0] in ("I", "P"):
                if not (atom_fv(a) & b2):
                    return a
            elif a[0] == "F":
                for x in a[2]:
                    if isinstance(x, E):
                        r = find_ind(x, b2)
                        if r is not None:
                            return r
    return None


def set_ind(e, at, val):
    """replace indicator atom `at` by val (0/1) everywhere in e"""
    out = []
    for t in e.ts:
        f, dead = [], False
        for a, p in t.f:
            if a == at or (a[0] == at[0] and a[0] == "P" and a[1] == at[1] and e_key(a[2]) == e_key(at[2])):
                if val == 0:
                    dead = True
                    break
                continue
            if a[0] == "F":
                a = ("F", a[1], tuple(set_ind(x, at, val) if isinstance(x, E) else x for x in a[2]))
            elif a[0] == "P":
                a = ("P", a[1], set_ind(a[2], at, val))
            f.append((a, p))
        if not dead:
            out.append(T(t.c, t.b, tuple(f)))
    return merge(out)


NEG1 = (-F1, F0)


def tT(t, c=None, b=None, f=None):
    return T(t.c if c is None else c, t.b if b is None else b, t.f if f is None else f)


def without(f, i):
    return f[:i] + f[i + 1:]


def subst_in(t, mp):
    """substitute under t's binders (values may mention t's own bound variables)"""
    return T(t.c, tuple((v, u.subst(mp)) for v, u in t.b), tuple((atom_subst(a, mp), p) for a, p in t.f))


def mulE(t, e):
    """multiply e *under* the sums of t (names in e refer to t's bound variables)"""
    out = []
    tb = {v for v, _ in t.b}
    for s in E.of(e).ts:
        if s.b:
            if any(v in tb for v, _ in s.b) or {v for v, _ in s.b} & t.fv():
                s = s.renamed()
        f = fmerge(t.f, s.f)
        out.append(T(cmul(t.c, s.c), t.b + s.b, f))
    return merge(out).ts


def step(t, ctx):
    """one simplification step: None if irreducible else list of terms"""
    # 0. split bounds
    for bi, (v, u) in enumerate(t.b):
        if u.is_const():
            n = u.cval()
            if n <= 0:
                return []
            if n > 64:
                raise Unsupported("large constant range")
            nb = without(t.b, bi)
            base = T(t.c, nb, t.f)
            return merge([subst_in(base, {v: IX.const(k)}) for k in range(n)]).ts
    used = None
    bset = {v for v, _ in t.b}
    if t.b:
        used = set()
        for a, _ in t.f:
            used |= atom_fv(a)
        for v, u in t.b:
            used |= u.fv()
        for bi, (v, u) in enumerate(t.b):
            if v not in used:
                lc = local_ctx(T(t.c, without(t.b, bi), t.f), ctx)
                if not lc.ge0(u):
                    # range may be empty: factor max(u,0)
                    if lc.ge0(-u):
                        return []
                    return mulE(T(t.c, without(t.b, bi), t.f),
                                (ix2e(u) * (E.const(1) - ind_lt(u, 0))))
                return mulE(T(t.c, without(t.b, bi), t.f), ix2e(u))
        for bi, (v, u) in enumerate(t.b):
            if u.fv() & bset:
                # triangular: widen
                mp = {}
                for w, uw in t.b:
                    if w in u.fv():
                        lc_ = u.lin(w)
                        if lc_ is None:
                            raise Unsupported("nonlinear triangular bound")
                        mp[w] = (uw - 1) if lc_ > 0 else IX.const(0)
                U = u.subst(mp)
                k = 0
                while U.fv() & bset and k < 5:
                    U = U.subst(mp)
                    k += 1
                nb = t.b[:bi] + ((v, U),) + t.b[bi + 1:]
                return mulE(T(t.c, nb, t.f), ind_lt(v, u))
        for bi, (v, u) in enumerate(t.b):
            if len(u.t) > 1:
                if any(c < 0 for c in u.t.values()):
                    # n - c : peel if provably n >= c
                    c0 = u.t.get((), 0)
                    if c0 < 0 and len(u.t) == 2:
                        (m, c), = [(m, c) for m, c in u.t.items() if m != ()]
                        if c == 1 and ctx.ge0(u):
                            main = IX({m: 1})
                            base = T(t.c, without(t.b, bi), t.f)
                            out = [T(t.c, t.b[:bi] + ((v, main),) + t.b[bi + 1:], t.f)]
                            for k in range(c0, 0):
                                s = subst_in(base, {v: main + k})
                                out.append(T((-s.c[0], -s.c[1]), s.b, s.f))
                            return out
                    continue
                # product of sums: split along a divisor used on v
                for d in div_cands(t, v):
                    if len(d.t) > 1 and d.fv() and not (d.fv() & bset) and d != u:
                        q, r = alg.split_div(u, d)
                        if not r.t and q.t and ctx.ge0(d - 1) and ctx.ge0(q):
                            base = T(t.c, without(t.b, bi), t.f)
                            a1, a2 = fresh(), fresh()
                            s = subst_in(base, {v: IX.sym(a1) * d + IX.sym(a2)})
                            return [T(s.c, ((a1, q), (a2, d)) + s.b, s.f)]
                # split into monomials (sorted), consts peeled last
                ms = sorted(u.t.items(), key=lambda kv: (kv[0] == (), tuple((alg.DIMORD.get(x, 999), _sk(x)) for x in kv[0])))
                if all(ctx.ge0(IX({m: c})) for m, c in ms):
                    out, off = [], IX.const(0)
                    base = T(t.c, without(t.b, bi), t.f)
                    for m, c in ms:
                        if m == ():
                            for k in range(c):
                                out.append(subst_in(base, {v: off + k}))
                        else:
                            w = fresh()
                            s = subst_in(base, {v: off + IX.sym(w)})
                            out.append(T(s.c, ((w, IX({m: c})),) + s.b, s.f))
                        off = off + IX({m: c})
                    return out
            else:
                (m, c), = u.t.items()
                if len(m) > 1 or c > 1:
                    # product range: v -> v1*rest + v2
                    r = split_product(t, v, m, c, ctx)
                    if r is not None:
                        v1, u1, v2, u2 = r
                        base = T(t.c, without(t.b, bi), t.f)
                        a1, a2 = fresh(), fresh()
                        s = subst_in(base, {v: IX.sym(a1) * u2 + IX.sym(a2)})
                        return [T(s.c, ((a1, u1), (a2, u2)) + s.b, s.f)]
    # 1. index simplification
    need = False
    for a, p in t.f:
        if a[0] == "T" and any(has_iatom_ix(i) for i in a[3]):
            need = True
        elif a[0] == "I" and has_iatom_ix(a[2]):
            need = True
        elif a[0] == "N" and isinstance(a[1], IAtom):
            need = True
        elif a[0] == "X":
            return mulE(T(t.c, t.b, tuple((x, q) for x, q in t.f if x[0] != "X")),
                        _prod([epow(ix2e(x[1]), q) for x, q in t.f if x[0] == "X"]))
    if need:
        # an indicator must not be simplified under its own truth, nor two under each other's: one at a time
        for i, (a, p) in enumerate(t.f):
            if a[0] == "I" and has_iatom_ix(a[2]):
                x = simp_ix(a[2], local_ctx(t, ctx, skip=i))
                if x != a[2]:
                    return mulE(T(t.c, t.b, without(t.f, i)), ind_eq(x) if a[1] == "eq" else ind_lt(x))
        lc = local_ctx(t, ctx)
        nf, ch = [], False
        extra = E.const(1)
        for a, p in t.f:
            if a[0] == "T":
                ni = tuple(simp_ix(i, lc) for i in a[3])
                if ni != a[3]:
                    a = ("T", a[1], a[2], ni)
                    ch = True
            elif a[0] == "N" and isinstance(a[1], IAtom):
                x = simp_ix(IX.sym(a[1]), lc)
                if x != IX.sym(a[1]):
                    ch = True
                    extra = extra * epow(ix2e(x), p)
                    continue
            nf.append((a, p))
        if ch:
            return mulE(T(t.c, t.b, remerge(nf)), extra)
    # 2. integer indicators
    for i, (a, p) in enumerate(t.f):
        if a[0] != "I":
            continue
        ix = a[2]
        rest = without(t.f, i)
        if a[1] == "eq":
            # try to eliminate a bound variable
            for v in sorted(ix.fv() & bset):
                c = ix.lin(v)
                if c in (1, -1):
                    sol = (ix - IX({(v,): c})) * (-c)
                    u = dict(t.b)[v]
                    nb = tuple((w, x) for w, x in t.b if w != v)
                    if any(v in x.fv() for _, x in nb):
                        continue
                    base = subst_in(T(t.c, nb, rest), {v: sol})
                    u2 = u
                    lc = local_ctx(base, ctx)
                    g = E.const(1)
                    if not lc.ge0(sol):
                        g = g * (E.const(1) - ind_lt(sol, 0))
                    if not lc.ge0(u2 - 1 - sol):
                        g = g * ind_lt(sol, u2)
                    return mulE(base, g)
            lc = local_ctx(t, ctx, skip=i)
            if lc.ge0(ix - 1) or lc.ge0(-ix - 1):
                return []
            if lc.ge0(ix) and lc.ge0(-ix):
                return [T(t.c, t.b, rest)]
            # factorised equality a1*n + a2 == b1*n + b2 with a2,b2 in [0,n)
            r = split_radix(ix, lc)
            if r is not None:
                return mulE(T(t.c, t.b, rest), ind_eq(r[0]) * ind_eq(r[1]))
            # free variable substitution into the rest
            for v in sorted(ix.fv() - bset, reverse=True):
                c = ix.lin(v)
                if c in (1, -1):
                    sol = (ix - IX({(v,): c})) * (-c)
                    tt = T(t.c, t.b, rest)
                    if v in tt.fv() and not (sol.fv() & bset):
                        s = tt.subst({v: sol})
                        return mulE(s, E.atom(a))
                    break
        else:
            lc = local_ctx(t, ctx, skip=i)
            if lc.ge0(ix):
                return []
            if lc.ge0(-ix - 1):
                return [T(t.c, t.b, rest)]
            # sign normalisation
            m = sorted((x for x in ix.t if x != ()), key=lambda m: tuple(_sk(x) for x in m))
            # prefer bound-var guided range restriction
            for v in sorted(ix.fv() & bset):
                c = ix.lin(v)
                if c == 1:
                    e = -(ix - IX.sym(v))      # v < e
                    u = dict(t.b)[v]
                    if e.fv() & bset:
                        continue
                    if ctx.ge0(u - e) and ctx.ge0(e):
                        nb = tuple((w, e if w == v else x) for w, x in t.b)
                        return [T(t.c, nb, rest)]
                    if ctx.ge0(-e):
                        return []
                elif c == -1:
                    e = ix + IX.sym(v)        # v > e
                    if e.fv() & bset:
                        continue
                    # [v>e] = 1 - [v<e+1]
                    return [T(t.c, t.b, rest)] + mulE(T((-t.c[0], -t.c[1]), t.b, rest), ind_lt(v, e + 1))
            bv = sorted(ix.fv() & bset)
            if not bv and m and ix.t[m[0]] < 0:
                # [p<0] with negative lead = 1-[ -p-1+... ]
                q = -ix           # [ -q<0 ] = [q>0] = 1-[q<1] = 1-[q-1<0]
                return [T(t.c, t.b, rest)] + mulE(T((-t.c[0], -t.c[1]), t.b, rest), ind_lt(q - 1, 0))
            if len(bv) == 2 and set(ix.t) <= {(bv[0],), (bv[1],), ()}:
                c0, c1 = ix.t.get((bv[0],), 0), ix.t.get((bv[1],), 0)
                k = ix.t.get((), 0)
                if (c0, c1) in ((1, -1), (-1, 1)) and k != 0:
                    d = ix - k
                    # [d + k < 0]; reduce to strict [d<0] plus equalities
                    if k < 0:   # d < -k  = [d<0] + sum_{j=0}^{-k-1}[d==j]
                        x = ind_lt(d)
                        for j in range(-k):
                            x = x + ind_eq(d, j)
                    else:       # d < -k = [d<0] - sum_{j=1}^{k}... [d==-j], j=1..k
                        x = ind_lt(d)
                        for j in range(1, k + 1):
                            x = x - ind_eq(d, -j)
                    if abs(k) <= 8:
                        return mulE(T(t.c, t.b, rest), x)
    # 3. functions
    exps = []
    for i, (a, p) in enumerate(t.f):
        if a[0] == "F":
            args = a[2]
            nargs, ch = [], False
            lc = None
            for x in args:
                if isinstance(x, E):
                    if getattr(x, "_n", None) is None or True:
                        lc = lc or local_ctx(t, ctx)
                        n = norm(x, lc)
                        if n is not x and not same(n, x):
                            ch = True
                        nargs.append(n)
                    else:
                        nargs.append(x)
                else:
                    nargs.append(x)
            if a[1] not in ("ite",):
                for x in nargs:
                    if isinstance(x, E):
                        at = find_ind(x)
                        if at is not None:
                            e1 = E.atom(at)
                            f1 = fnp(a[1], [set_ind(y, at, 1) if isinstance(y, E) else y for y in nargs], p)
                            f0 = fnp(a[1], [set_ind(y, at, 0) if isinstance(y, E) else y for y in nargs], p)
                            rest = T(t.c, t.b, without(t.f, i))
                            return mulE(rest, e1 * f1) + mulE(rest, (E.const(1) - e1) * f0)
            if ch or a[1] in ("sqrt", "inv", "abs", "pow", "cosh", "sinh", "conj", "max", "min"):
                r = fnp(a[1], nargs, p)
                if not (len(r.ts) == 1 and r.ts[0].f and len(r.ts[0].f) == 1 and not r.ts[0].b
                        and r.ts[0].c == (F1, F0) and r.ts[0].f[0][1] == p
                        and atom_key(r.ts[0].f[0][0], {}) == atom_key(a, {})):
                    return mulE(T(t.c, t.b, without(t.f, i)), r)
            if a[1] == "exp":
                exps.append((i, nargs[0], p))
            if a[1] == "abs" and p.denominator == 1 and p % 2 == 0:
                x = nargs[0]
                if not x.ts or (len(x.ts) >= 1):
                    return mulE(T(t.c, t.b, without(t.f, i)), epow(x * conj(x), p / 2))
            if a[1] == "sqrt" and p.denominator == 1 and (p >= 2 or p <= -2):
                q = int(p) // 2 if p > 0 else -((-int(p)) // 2)
                r = epow(nargs[0], q)
                rem = p - 2 * q
                if rem:
                    r = r * E.atom(("F", "sqrt", (nargs[0],)), rem)
                return mulE(T(t.c, t.b, without(t.f, i)), r)
            if a[1] == "rt":
                q = p // 2
                if q != 0:
                    base = nargs[0]
                    r = epow(base, q)
                    rem = p - 2 * q
                    if rem:
                        r = r * E.atom(a, rem)
                    return mulE(T(t.c, t.b, without(t.f, i)), r)
            if a[1] == "log":
                x = nargs[0]
                if len(x.ts) == 1 and not x.ts[0].b and len(x.ts[0].f) == 1 and x.ts[0].c == (F1, F0):
                    b, q = x.ts[0].f[0]
                    if b[0] == "F" and b[1] == "exp" and is_real(b[2][0]):
                        return mulE(T(t.c, t.b, without(t.f, i)), epow(b[2][0].scale(q), p))
    if len(exps) > 1 or (exps and exps[0][2] != 1):
        idx = {i for i, _, _ in exps}
        tot = E([])
        for _, x, p in exps:
            tot = tot + x.scale(p)
        f2 = tuple(f for i, f in enumerate(t.f) if i not in idx)
        return mulE(T(t.c, t.b, f2), fn("exp", norm(tot, local_ctx(t, ctx))))
    # 4. scalar predicates
    for i, (a, p) in enumerate(t.f):
        if a[0] == "P":
            lc = local_ctx(t, ctx)
            n = norm(a[2], lc)
            rest = T(t.c, t.b, without(t.f, i))
            at = find_ind(n)
            if at is not None:
                e1 = E.atom(at)
                return mulE(rest, e1 * ind_p(a[1], set_ind(n, at, 1))) + \
                    mulE(rest, (E.const(1) - e1) * ind_p(a[1], set_ind(n, at, 0)))
            r = ind_p_n(a[1], n)
            if not (len(r.ts) == 1 and len(r.ts[0].f) == 1 and r.ts[0].c == (F1, F0)
                    and atom_key(r.ts[0].f[0][0], {}) == atom_key(a, {})):
                return mulE(rest, r)
            tv = p_truth(ctx, a[1], n)
            if tv is not None:
                return [rest] if tv else []
            # |x| + c with c > 0 (or c = 0 and "<")
            cc = [x for x in n.ts if not x.f and not x.b]
            oth = [x for x in n.ts if x.f or x.b]
            c0 = cc[0].c[0] if cc else F0
            if c0 >= 0 and (c0 > 0 or a[1] == "lt") and all(
                    x.c[0] > 0 and x.c[1] == 0 and all(nonneg_atom(y, q) for y, q in x.f) for x in oth):
                return []
            # x * [x == 0]
            if a[1] == "eq" and len(n.ts) == 1 and not n.ts[0].b:
                have = {atom_key(y, {}): q for y, q in rest.f if y[0] in ("T", "F")}
                if all(have.get(atom_key(y, {}), -1) > 0 for y, q in n.ts[0].f):
                    return []
            # pairs of predicates on the same quantity
            for j in range(i):
                b = t.f[j][0]
                if b[0] != "P":
                    continue
                df = norm(n - b[2], lc)
                if not df.is_const() or df.cval()[1] != 0:
                    continue
                dc = df.cval()[0]           # n = b[2] + dc
                if a[1] == "eq" and b[1] == "eq":
                    if dc != 0:
                        return []
                elif a[1] == "lt" and b[1] == "eq":      # b[2] == 0 -> n == dc
                    return [rest] if dc < 0 else []
                elif a[1] == "eq" and b[1] == "lt":      # n == 0 -> b[2] == -dc
                    return [T(t.c, t.b, without(t.f, j))] if dc > 0 else []
                else:                                    # n < 0 and n - dc < 0
                    return [T(t.c, t.b, without(t.f, j))] if dc >= 0 else [rest]
    # 5. merging powers of symmetric-equal atoms
    f2 = remerge(t.f)
    if len(f2) != len(t.f):
        return [T(t.c, t.b, f2)]
    # 6. inverse-matrix rule
    for i, (a, p) in enumerate(t.f):
        if a[0] == "T" and p == 1:
            d = DECL.get(a[1], {})
            if d.get("inv_of"):
                r = inv_rule(t, i, a, d, ctx)
                if r is not None:
                    return r
    # 7. canonical shift of a summation variable: smallest constant offset among tensor indices is 0
    for bi, (v, u) in enumerate(t.b):
        m = None
        ok = True
        for a, p in t.f:
            if a[0] != "T":
                continue
            for ix in a[3]:
                if v in ix.fv():
                    if ix.lin(v) != 1:
                        ok = False
                        break
                    c = ix.t.get((), 0)
                    m = c if m is None else min(m, c)
        if not ok or m in (None, 0) or abs(m) > 4 or u.fv() & {w for w, _ in t.b} \
                or any(v in x.fv() for _, x in t.b):
            continue
        if m < 0 and not ctx.ge0(u + m):
            continue
        base = T(t.c, without(t.b, bi), t.f)
        s = subst_in(base, {v: IX.sym(v) - m})
        out = [T(s.c, ((v, u + m),) + s.b, s.f)]
        for j in range(abs(m)):
            s = subst_in(base, {v: IX.const(j if m < 0 else j - m)})
            out.append(T(s.c if m < 0 else (-s.c[0], -s.c[1]), s.b, s.f))
        return merge(out).ts
    return None


def inv_rule(t, i, a, d, ctx):
    """inv[...,x,k] * M[...,k,y] summed over k -> delta(x,y); M an atomic tensor"""
    name = d["inv_of"]
    bset = dict(t.b)
    for j, (b, q) in enumerate(t.f):
        if b[0] == "T" and b[1] == name and q == 1 and b[2] == a[2]:
            la, lb = a[3], b[3]
            if la[:-2] != lb[:-2]:
                continue
            for (xa, ka, kb, yb) in ((la[-2], la[-1], lb[-2], lb[-1]), (la[-1], la[-2], lb[-1], lb[-2])):
                if ka == kb and len(ka.t) == 1:
                    (m, c), = ka.t.items()
                    if c == 1 and len(m) == 1 and m[0] in bset:
                        v = m[0]
                        others = [x for k, x in enumerate(t.f) if k not in (i, j)]
                        if any(v in atom_fv(x[0]) for x in others) or v in xa.fv() or v in yb.fv():
                            continue
                        if bset[v] != d["n"]:
                            continue
                        if any(v in la_.fv() for la_ in la[:-2]):
                            continue
                        nb = tuple((w, u) for w, u in t.b if w != v)
                        return mulE(T(t.c, nb, tuple(others)), ind_eq(xa, yb))
    return None


def _prod(es):
    r = E.const(1)
    for e in es:
        r = r * e
    return r


def remerge(f):
    d = {}
    order = []
    for a, p in f:
        a = _sym_canon_atom(a)
        k = atom_key(a, {}) if a[0] in ("F", "P") else a
        if k in d:
            d[k][1] += p
        else:
            d[k] = [a, p]
            order.append(k)
    out = []
    for k in order:
        a, p = d[k]
        if a[0] in ("I", "P"):
            p = F1
        if p != 0:
            out.append((a, p))
    return tuple(out)


def same(x, y):
    return len(x.ts) == len(y.ts) and e_key(x) == e_key(y)


def fnp(name, args, p):
    if name in ("max", "min"):
        a, b = args
        c = ind_p("lt", a - b)
        big = c * b + (E.const(1) - c) * a
        small = c * a + (E.const(1) - c) * b
        return epow_ind(big if name == "max" else small, p)
    r = fn(name, *args)
    if p == 1:
        return r
    if len(r.ts) == 1 and not r.ts[0].b:
        return epow_ind(r, p)
    return epow(r, p)


def epow_ind(e, p):
    if p == 1:
        return e
    at = find_ind(e)
    if at is None:
        return epow(e, p)
    x = E.atom(at)
    return x * epow_ind(set_ind(e, at, 1), p) + (E.const(1) - x) * epow_ind(set_ind(e, at, 0), p)


def is_real(e):
    return same(merge_norm(conj(e)), merge_norm(e))


def merge_norm(e):
    return e


def nonneg_atom(a, q):
    return a[0] == "F" and a[1] in ("abs", "sqrt") or alg.is_pos_atom(a) or (q.denominator == 1 and q.numerator % 2 == 0 and is_real(E.atom(a)))


def ind_p(rel, e):
    """[e < 0] or [e == 0] for a real scalar expression"""
    e = E.of(e)
    if e.is_const():
        v = e.cval()[0]
        if rel == "eq":
            return E.const(1 if v == 0 and e.cval()[1] == 0 else 0)
        return E.const(1 if v < 0 else 0)
    return E.atom(("P", rel, e))


def ind_p_n(rel, e):
    """normalised version: scale leading coefficient, sign"""
    e = E.of(e)
    if e.is_const():
        return ind_p(rel, e)
    # positive-definite shortcut
    ks = sorted(((canon(t)[1], t) for t in e.ts), key=lambda kt: kt[0])
    lead = None
    for k, t in ks:
        if t.f or t.b:
            lead = t
            break
    c = lead.c[0] if lead.c[0] != 0 else lead.c[1]
    if lead.c[1] != 0 and lead.c[0] != 0:
        return E.atom(("P", rel, e))
    if lead.c[0] == 0:
        return E.atom(("P", rel, e))
    s = e.scale(1 / abs(c))
    # single positive factors can be divided out
    if len(s.ts) == 1:
        t = s.ts[0]
        f = tuple((a, p) for a, p in t.f if not (alg.is_pos_atom(a) and a[0] != "N") and not (a[0] == "F" and a[1] == "exp" and is_real(a[2][0])))
        if len(f) != len(t.f) and not t.b:
            if not f:
                if rel == "eq":
                    return E.const(0)
                return E.const(1 if t.c[0] < 0 else 0)
            s = E([T(t.c, t.b, f)])
    if c > 0:
        return E.atom(("P", rel, s))
    n = -s
    if rel == "eq":
        return E.atom(("P", "eq", n))
    # [-n<0] = [n>0] = 1-[n<0]-[n==0]
    return E.const(1) - E.atom(("P", "lt", n)) - E.atom(("P", "eq", n))


def p_truth(ctx, rel, n):
    for r, e, tv in ctx.pfacts:
        if r == rel and same(e, n):
            return tv
    return None


def div_cands(t, v):
    """divisors of // and % atoms applied to v, those applied to v itself first"""
    direct, cand = [], []

    def scan(ix):
        for mm in ix.t:
            for s in mm:
                if isinstance(s, IAtom):
                    if s.op in ("//", "%") and v in s.args[0].fv():
                        (direct if any(v in m for m in s.args[0].t) else cand).append(s.args[1])
                    for a in s.args:
                        if isinstance(a, IX):
                            scan(a)

    def scan_e(e):
        for tt in e.ts:
            for a, _ in tt.f:
                scan_a(a)

    def scan_a(a):
        if a[0] == "T":
            for i in a[3]:
                scan(i)
        elif a[0] == "I":
            scan(a[2])
        elif a[0] == "F":
            for x in a[2]:
                if isinstance(x, E):
                    scan_e(x)
                elif isinstance(x, IX):
                    scan(x)
        elif a[0] == "P":
            scan_e(a[2])
        elif a[0] == "N" and isinstance(a[1], IAtom):
            scan(IX.sym(a[1]))
    for a, _ in t.f:
        scan_a(a)
    return list(dict.fromkeys(direct + cand))


def split_product(t, v, m, c, ctx):
    """choose how to split v < prod(m)*c ; look at // and % atoms on v"""
    cand = div_cands(t, v)
    full = IX({m: c})
    for d in cand:
        q = idiv_exact(full, d)
        if q is not None and not (d.is_const() and d.cval() == 1) and not (q.is_const() and q.cval() == 1):
            return v, q, v, d
    # default: last symbol (sorted) is the fast index
    if c > 1:
        if len(m) == 1:      # stacked blocks
            return v, IX.const(c), v, IX({m: 1})
        return v, IX({m: 1}), v, IX.const(c)
    return v, IX({m[:-1]: 1}), v, IX({(m[-1],): 1})


def split_radix(ix, lc):
    """ix = n*A + B with |B| < n  =>  ix==0 iff A==0 and B==0"""
    syms = {}
    for m, c in ix.t.items():
        for s in m:
            syms.setdefault(s, 0)
    for n in sorted(syms, key=_sk):
        A, B = {}, {}
        for m, c in ix.t.items():
            if n in m and len(m) > 1:
                l = list(m)
                l.remove(n)
                A[tuple(l)] = c
            else:
                B[m] = c
        if not A or not B:
            continue
        if (n,) in B:
            A[()] = A.get((), 0) + B.pop((n,))
        A, B = IX(A), IX(B)
        nn = IX.sym(n)
        if lc.ge0(nn - 1) and lc.ge0(nn - 1 - B) and lc.ge0(nn - 1 + B):
            return A, B
    return None


# ------------------------------------------------------------------ normal form
_NCACHE = {}


class BlowUp(Unsupported):
    pass


def norm(e, ctx, limit=60000):
    e = E.of(e)
    STATS["norm_calls"] += 1
    acc = {}
    work = list(e.ts)
    n = 0
    tri = []
    while work:
        t = work.pop()
        n += 1
        if n > limit:
            raise BlowUp("normalisation blow-up")
        r = step(t, ctx)
        if r is not None:
            work.extend(r)
            continue
        r = tri_step(t, ctx)
        if r is not None:
            work.extend(r)
            continue
        order, key, _, sg = canon_s(t)
        if sg == 0:
            continue
        if key in acc:
            c = acc[key][0]
            acc[key][0] = (c[0] + sg * t.c[0], c[1] + sg * t.c[1])
        else:
            acc[key] = [(sg * t.c[0], sg * t.c[1]), t, sg]
    out = []
    for key in sorted(acc):
        c, t, sg = acc[key]
        if c[0] == 0 and c[1] == 0:
            continue
        out.append(T((sg * c[0], sg * c[1]), t.b, t.f))
    STATS["terms"] += n
    return E(out)


def tri_step(t, ctx):
    """[v<w] with both bound over the same range: choose an orientation"""
    ub = dict(t.b)
    for i, (a, p) in enumerate(t.f):
        if a[0] == "I" and a[1] == "lt":
            ix = a[2]
            bv = sorted(ix.fv() & ub.keys())
            if len(bv) != 2 or set(ix.t) != {(bv[0],), (bv[1],)} or ub[bv[0]] != ub[bv[1]]:
                continue
            v, w = bv
            if sorted(ix.t.values()) != [-1, 1]:
                continue
            rest = T(t.c, t.b, without(t.f, i))
            # is there any other lt atom sharing v,w? keep simple
            swap = {v: IX.sym(w), w: IX.sym(v)}
            nb = tuple((w if x == v else (v if x == w else x), u) for x, u in rest.b)
            sw = T(rest.c, nb, tuple((atom_subst(x, swap), q) for x, q in rest.f))
            k0 = canon(rest)[1]
            # keys of rest with v,w individualised
            kv = canon(T(rest.c, tuple(x for x in rest.b if x[0] not in (v, w)), rest.f), {v: "@v", w: "@w"})[1]
            ks = canon(T(rest.c, tuple(x for x in rest.b if x[0] not in (v, w)), rest.f), {v: "@w", w: "@v"})[1]
            diag = mulE(T((-t.c[0], -t.c[1]), t.b, rest.f), ind_eq(v, w))
            if kv == ks:
                h = Fraction(1, 2)
                return [T((rest.c[0] * h, rest.c[1] * h), rest.b, rest.f)] + \
                    [T((x.c[0] * h, x.c[1] * h), x.b, x.f) for x in diag]
            lo = v if ix.t[(v,)] == 1 else w          # [lo < hi]
            # canonical orientation: key with lo->@v must be the smaller
            klo = kv if lo == v else ks
            if klo != min(kv, ks):
                # full - diag - [hi<lo]
                return [rest] + diag + mulE(T((-t.c[0], -t.c[1]), t.b, rest.f), E.atom(("I", "lt", -ix)))
    return None


# ------------------------------------------------------------------ equality
def free_inds(e):
    out = []
    for t in e.ts:
        bs = {v for v, _ in t.b}
        for a, _ in t.f:
            if a[0] in ("I", "P") and not (atom_fv(a) & bs):
                if a not in out:
                    out.append(a)
    return out


def equal(a, b, ctx, depth=0):
    d = norm(E.of(a) - E.of(b), ctx)
    return zero(d, ctx, depth)


def zero(d, ctx, depth=0):
    if d.is_zero():
        return True
    # clear denominators
    d2 = clear_den(d, ctx)
    if d2 is not None:
        d = d2
        if d.is_zero():
            return True
    inds = free_inds(d)
    if inds and depth < 8:
        inds.sort(key=lambda a: (a[0] != "I", a[1] != "eq", atom_key(a, {})))
        a = inds[0]
        for val in (1, 0):
            if a[0] == "I":
                if val:
                    c2 = ctx.add(a[2], -a[2]) if a[1] == "eq" else ctx.add(-a[2] - 1)
                    subs = [(c2, d)]
                    if a[1] == "eq":
                        for v in sorted(a[2].fv(), reverse=True):
                            c = a[2].lin(v)
                            if c in (1, -1):
                                sol = (a[2] - IX({(v,): c})) * (-c)
                                subs = [(Ctx([f.subst({v: sol}) for f in c2.facts], pfacts=c2.pfacts), set_ind(d, a, 1).subst({v: sol}))]
                                break
                elif a[1] == "eq":
                    subs = [(ctx.add(a[2] - 1), d), (ctx.add(-a[2] - 1), d)]
                else:
                    subs = [(ctx.add(a[2]), d)]
                for c2, dd in subs:
                    if c2.inconsistent():
                        continue
                    if not zero(norm(set_ind(dd, a, val), c2), c2, depth + 1):
                        return False
            else:
                c2 = ctx.addp(a[1], a[2], bool(val))
                if p_inconsistent(c2):
                    continue
                if not zero(norm(set_ind(d, a, val), c2), c2, depth + 1):
                    return False
        return True
    return False


def p_inconsistent(ctx):
    """are the scalar facts contradictory (z3 over reals with opaque atoms)?"""
    if not ctx.pfacts:
        return False
    s = z3.Solver()
    s.set("timeout", 1000)
    env = {}
    try:
        for rel, e, tv in ctx.pfacts:
            x = z3_real(e, env, s)
            c = (x < 0) if rel == "lt" else (x == 0)
            s.add(c if tv else z3.Not(c))
    except Unsupported:
        return False
    t0 = _time.time()
    r = s.check() == z3.unsat
    STATS["z3_queries"] += 1
    STATS["z3_time"] += _time.time() - t0
    return r


def z3_real(e, env, s):
    acc = z3.RealVal(0)
    for t in e.ts:
        if t.c[1] != 0:
            raise Unsupported("complex in predicate")
        p = z3.RealVal(f"{t.c[0]}")
        if t.b:
            k = "sum:" + canon(t)[1]
            v = env.get(k)
            if v is None:
                v = env[k] = z3.Real(f"v{len(env)}")
            p = p * v
        else:
            # complex atoms only occur linearly: their product is one opaque quantity (its real part)
            cx = [(a, q) for a, q in t.f if not is_real(E.atom(a)) and a[0] not in ("I", "P", "N")]
            rest, done = list(cx), []
            while rest:                                   # z z* pairs are nonnegative factors
                a, q = rest.pop(0)
                ca = norm(conj(E.atom(a)), Ctx([]))
                j = next((j for j, (b, r) in enumerate(rest) if r == q and same(ca, E.atom(b))), None)
                if j is None:
                    done.append(([(a, q)], False))
                else:
                    done.append(([(a, q), rest.pop(j)], True))
            odd = [x for l, pr in done if not pr for x in l]
            for fs, pr in [(l, True) for l, pr in done if pr] + ([(odd, False)] if odd else []):
                m = E([T((F1, F0), (), tuple(fs))])
                k = "cplx:" + e_key(m)
                v = env.get(k)
                if v is None:
                    v = env[k] = z3.Real(f"v{len(env)}")
                    if pr:
                        s.add(v > 0 if fs[0][0][0] == "F" and fs[0][0][1] == "pow" else v >= 0)
                p = p * v
            for a, q in t.f:
                if any(a is x for x, _ in cx):
                    continue
                k = atom_key(a, {})
                v = env.get(k)
                if v is None:
                    v = env[k] = z3.Real(f"v{len(env)}")
                    if alg.is_pos_atom(a) and a[0] != "N" or a[0] == "F" and a[1] == "exp":
                        s.add(v > 0)
                    elif a[0] == "F" and a[1] in ("abs", "sqrt") or a[0] == "N":
                        s.add(v >= 0)
                    elif a[0] in ("I", "P"):
                        s.add(z3.Or(v == 0, v == 1))
                if q.denominator != 1:
                    raise Unsupported("fractional power")
                q = int(q)
                if q < 0:
                    kk = ("inv", k)
                    w = env.get(kk)
                    if w is None:
                        w = env[kk] = z3.Real(f"v{len(env)}")
                        s.add(z3.Implies(v != 0, w * v == 1))
                    v, q = w, -q
                for _ in range(q):
                    p = p * v
        acc = acc + p
    return acc


def clear_den(d, ctx):
    """multiply by common denominators (negative powers of atoms / inv(...) functions) assumed nonzero"""
    invs = {}
    for t in d.ts:
        bs = {v for v, _ in t.b}
        for a, p in t.f:
            if a[0] == "F" and a[1] == "inv" and not (atom_fv(a) & bs):
                k = atom_key(a, {})
                if k not in invs or invs[k][1] < p:
                    invs[k] = (a, p)
    if not invs:
        return None
    k = sorted(invs)[0]
    a, p = invs[k]
    den = a[2][0]
    if len(d.ts) * max(1, len(den.ts)) > 4000:
        return None
    out = E([])
    for t in d.ts:
        q = F0
        f = []
        for b, r in t.f:
            if b[0] == "F" and b[1] == "inv" and atom_key(b, {}) == k:
                q += r
            else:
                f.append((b, r))
        if (p - q).denominator != 1 or p < q:
            return None
        out = out + E([T(t.c, t.b, tuple(f))]) * epow(den, p - q)
    out = norm(out, ctx)
    if out.is_zero():
        return out
    nxt = clear_den(out, ctx)
    return nxt if nxt is not None else out
