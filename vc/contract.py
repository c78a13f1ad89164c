"""Contracts: one scenario text, executed (a) symbolically over the real source for all inputs,
(b) natively on the real code for concrete inputs (replay / bounded stand-in)."""
import contextlib
import importlib
import json
import math
import os
import signal
import sys
import threading
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

from . import alg, norm as N, sym as Y, interp as IP
from .alg import IX, E, T, F0, F1, Unsupported, DECL, DIMORD, fresh
from .sym import S, SI, SB, Sc, Arr, Cell, SymObj, PyRaise, to_ix, to_e, mkint, mkbool, as_arr, binop

CONTRACTS = []


class Skip(Exception):
    """contract target absent (renamed/removed)"""


class Violation(Exception):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail
        super().__init__(f"{label}: {detail}")


class Inconclusive(Exception):
    pass


class Reject(Exception):
    """concrete input outside the precondition"""


def contract(prop, cid, fns=(), unroll=(), modes=("sym", "num"), num=10, weight=1, note="", maxdims=None, paths=64, assumes=(), hoare=None):
    def deco(f):
        CONTRACTS.append(dict(prop=prop if isinstance(prop, (list, tuple)) else [prop], id=cid, fn=f, fns=list(fns),
                              unroll=list(unroll), modes=modes, num=num, note=note or (f.__doc__ or "").strip(),
                              paths=paths, assumes=list(assumes), hoare=hoare))
        return f
    return deco


def resolve(path):
    mod, _, q = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for p in q.split("."):
            if isinstance(o, type):
                # raw attribute (staticmethod unwrapped)
                for c in o.__mro__:
                    if p in c.__dict__:
                        d = c.__dict__[p]
                        o = d.__func__ if isinstance(d, (staticmethod, classmethod)) else d
                        break
                else:
                    raise AttributeError(p)
            else:
                o = getattr(o, p)
        return o
    except (ImportError, AttributeError) as e:
        raise Skip(f"{path}: {e}")


# ------------------------------------------------------------------ symbolic environment
class SymEnv:
    sym = True

    def __init__(self, decisions=(), concrete=None, overrides=None):
        self.concrete = concrete or {}
        self.I = IP.Interp(decisions=decisions, overrides=dict(overrides or {}))
        self.obl = []          # (label, status, detail)
        self.inputs = {}
        self.frame = {}
        self.mod = set()
        self.dims = {}
        self.failed = []
        S.reset()

    # ---- inputs
    def dim(self, name, lo=1, hi=4, ge=()):
        if name in self.concrete:
            if any(isinstance(g, int) and g > self.concrete[name] for g in ge):
                raise IP.InfeasiblePath()
            self.dims[name] = self.concrete[name]
            return self.concrete[name]
        DIMORD.setdefault(name, len(DIMORD))
        S.fact(IX.sym(name) - lo)
        for g in ge:
            S.fact(IX.sym(name) - to_ix(g))
        self.dims[name] = name
        return SI(IX.sym(name))

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        S.fact(IX.sym(name), to_ix(n) - 1 - IX.sym(name))
        if to_ix(n).is_const() and to_ix(n).cval() == 1:
            return 0
        return SI(IX.sym(name))

    def tensor(self, name, shape, cplx=False, sym=None, pos=False, scale=1.0, lo=None, hi=None, asym=None):
        a = Y.tensor(name, [to_ix(s) for s in shape], cplx, parse_sym(sym, cplx), pos, asym)
        self.track(name, a)
        return a

    def track(self, name, a):
        self.frame[name] = (a, a.cell.e)

    def scalar(self, name, cplx=False, pos=False, scale=1.0, lo=None, hi=None):
        alg.decl(name, real=not cplx, pos=pos)
        return Sc(E.atom(("T", name, False, ())), "c" if cplx else "f")

    def boolean(self, name):
        """concrete flag: enumerated by forking"""
        b = IP.SB(E.atom(("I", "eq", IX.sym("flag_" + name))))
        return self.I.decide(b)

    def choose(self, name, options):
        for o in options[:-1]:
            if self.boolean(f"{name}_{o}"):
                return o
        return options[-1]

    def obj(self, cls=None, label=None, **attrs):
        if isinstance(cls, str):
            cls = resolve(cls)
        return SymObj(cls, attrs, label or (cls.__name__ if cls else "ns"))

    def stub(self, fn):
        """a callable object: fn is a native python function over env values"""
        return NativeStub(fn)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def set(self, o, name, v):
        self.I.setattr(o, name, v)

    def modifies(self, *names):
        self.mod |= set(names)

    def random(self, **src):
        """the values returned by np.random draws: normal=array (reshaped to the requested size) or list of arrays"""
        self.I.rand_src = src

    # ---- calls
    def call(self, target, *args, **kw):
        f = resolve(target) if isinstance(target, str) else target
        return self.I.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def override(self, target, fn):
        """replace a callee by its contract: fn(env, *args)"""
        f = resolve(target) if isinstance(target, str) else target
        self.I.overrides[f] = lambda I, *a, **k: fn(*a, **k)
        if hasattr(f, "py_func"):
            self.I.overrides[f.py_func] = self.I.overrides[f]

    # ---- spec language
    def einsum(self, s, *a):
        return Y.einsum(s, *a)

    def comp(self, shape, f, dtype="c"):
        shape = [to_ix(s) for s in shape]
        vs = [fresh("q") for _ in shape]
        c0 = S.ctx
        fs = []
        for v, d in zip(vs, shape):
            fs += [IX.sym(v), d - 1 - IX.sym(v)]
        S.ctx = S.ctx.add(*fs)
        try:
            r = f(*[0 if (d.is_const() and d.cval() == 1) else SI(IX.sym(v)) for v, d in zip(vs, shape)])
            e, d = to_e(r)
        finally:
            S.ctx = c0
        return Y.demote(Arr(Cell(vs, shape, e, "c" if d == "c" else "f")))

    def sum(self, n, f):
        n = to_ix(n)
        v = fresh("q")
        c0 = S.ctx
        S.ctx = S.ctx.add(IX.sym(v), n - 1 - IX.sym(v))
        try:
            r = f(SI(IX.sym(v)))
        finally:
            S.ctx = c0
        if isinstance(r, Arr):
            return Y.new_arr(r.shape, lambda ix: alg.esum(r.at(ix), v, n), r.dtype)
        e, d = to_e(r)
        return Sc(alg.esum(e, v, n), d)

    def ind(self, b):
        """0/1 value of a comparison"""
        return Sc(to_e(b)[0], "f")

    def ieq(self, a, b):
        return Sc(alg.ind_eq(to_ix(a), to_ix(b)), "f")

    def ite(self, c, a, b):
        return IP.merge_val(to_e(c)[0], a, b)

    def exp(self, a): return Y.ufn("exp")(a)
    def sqrt(self, a): return Y.ufn("sqrt")(a if not isinstance(a, SI) else Sc(alg.ix2e(a.ix)))
    def abs(self, a): return Y.ufn("abs")(a)
    def log(self, a): return Y.ufn("log")(a)
    def cos(self, a): return Y.ufn("cos")(a)
    def sin(self, a): return Y.ufn("sin")(a)
    def angle(self, a): return Y.elementwise(lambda e: alg.fn("angle", e), "f", a)
    def cosh(self, a): return Y.ufn("cosh")(a)
    def sinh(self, a): return Y.ufn("sinh")(a)
    def conj(self, a): return Y.npf_conj(a)
    def real(self, a): return Y.npf_real(a)
    def imag(self, a): return Y.npf_imag(a)
    def inv(self, a): return Y.linalg_inv(a)
    def det(self, a): return Y.linalg_det(a)
    def expm(self, a): return IP._nh._expm(None, a)
    def eye(self, n): return Y.eye(n)
    def reshape(self, a, s): return Y.reshape(a, s)
    def transpose(self, a, p): return Y.transpose(a, p)
    def copy(self, a): return Y.copy(a)
    def zeros(self, s): return Y.new_arr([to_ix(x) for x in s], lambda ix: E([]), "f")
    def asum(self, a, axis=None): return Y.asum(a, axis)
    def max(self, a, b): return Y.elementwise(lambda u, v: alg.fn("max", u, v), "f", a, b)
    def min(self, a, b): return Y.elementwise(lambda u, v: alg.fn("min", u, v), "f", a, b)
    def arr(self, l): return as_arr(IP._nh._conv_list(l) if isinstance(l, (list, tuple)) else l)

    def fn(self, name, f):
        raise Unsupported("native function")

    def sequence(self, x):
        return x

    # ---- obligations
    def eq(self, label, a, b, tol=None, mag=0.0):
        try:
            self._eq(label, a, b)
        except Unsupported as ex:
            self.obl.append((label, "undecided", f"unsupported: {ex}"))

    def _eq(self, label, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if not any(isinstance(x, IP.CompSeg) for x in a) and not any(isinstance(x, IP.CompSeg) for x in b):
                if len(a) != len(b):
                    self.obl.append((label, "refuted", "length"))
                    return
                for k, (x, y) in enumerate(zip(a, b)):
                    self._eq(f"{label}[{k}]", x, y)
                return
        if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
            ok = a is b or (type(a) is type(b) and a == b)
            if isinstance(a, SB) or isinstance(b, SB):
                a, b = to_e(a)[0], to_e(b)[0]
                ok = N.equal(a, b, S.ctx)
            self.obl.append((label, "proved" if ok else "refuted", ""))
            return
        x, y = self.arr(a), self.arr(b)
        if len(x.shape) != len(y.shape):
            self.obl.append((label, "refuted", f"rank {x.shape} vs {y.shape}"))
            return
        for p, q in zip(x.shape, y.shape):
            r = Y.dim_eq(p, q)
            if r is not True:
                self.obl.append((label, "refuted" if r is False else "undecided", f"shape {x.shape} vs {y.shape}"))
                return
        res = self._eq_at(x, y)
        small = [k for k, d in enumerate(x.shape) if d.is_const() and 1 < d.cval() <= 4]
        if res[0] != "proved" and small:
            # small constant extents: check every element separately
            import itertools
            for combo in itertools.product(*[range(x.shape[k].cval()) for k in small]):
                res = self._eq_at(x, y, dict(zip(small, combo)))
                if res[0] != "proved":
                    break
        self.obl.append((label,) + res)

    def _eq_at(self, x, y, fixed={}):
        facts, ix = [], []
        for k, d in enumerate(x.shape):
            if k in fixed or (d.is_const() and d.cval() == 1):
                ix.append(IX.const(fixed.get(k, 0)))
                continue
            v = fresh("o")
            facts += [IX.sym(v), d - 1 - IX.sym(v)]
            ix.append(IX.sym(v))
        ctx = S.ctx.add(*facts)
        raw = x.at(ix) - y.at(ix)
        d = N.norm(raw, ctx)
        if N.zero(d, ctx):
            if AUDIT and not ctx.pfacts and audit(raw, ctx):
                return "undecided", "audit: the unsimplified difference does not vanish at a random point (engine defect)"
            return "proved", "difference has empty normal form"
        st, why = residual_nonzero(d, ctx)
        return "refuted" if st else "undecided", f"residual: {str(d)[:300]} {why}"

    def true(self, label, cond):
        """cond: SB/bool must be true"""
        if isinstance(cond, (bool, np.bool_)):
            self.obl.append((label, "proved" if cond else "refuted", ""))
            return
        try:
            e = N.norm(E.const(1) - to_e(cond)[0], S.ctx)
            ok = N.zero(e, S.ctx)
        except Unsupported as ex:
            self.obl.append((label, "undecided", str(ex)))
            return
        self.obl.append((label, "proved" if ok else "undecided", "" if ok else f"residual {str(e)[:300]}"))

    def raises(self, label, f, *names):
        """running f() ends in one of the named exceptions, on every path"""
        try:
            f()
        except PyRaise as ex:
            self.obl.append((label, "proved" if ex.exc in names else "refuted", f"raises {ex.exc}: {ex.msg}"))
        else:
            self.obl.append((label, "refuted", "no exception"))

    def ge(self, label, a, b):
        """a >= b elementwise/scalar (z3 over the reals after normalisation)"""
        try:
            d = N.norm(to_e(binop("-", a, b))[0], S.ctx)
            ok = nonneg(d, S.ctx)
        except Unsupported as ex:
            self.obl.append((label, "undecided", str(ex)))
            return
        self.obl.append((label, "proved" if ok else "undecided", "" if ok else f"cannot prove {str(d)[:300]} >= 0"))

    def unchanged(self, label="inputs unchanged"):
        for nm, (a, e0) in self.frame.items():
            if nm in self.mod:
                continue
            if a.cell.e is e0 or N.same(a.cell.e, e0):
                self.obl.append((f"{label}: {nm}", "proved", "frame"))
            else:
                facts = []
                for v, d in zip(a.cell.vars, a.cell.shape):
                    facts += [IX.sym(v), d - 1 - IX.sym(v)]
                ok = N.equal(a.cell.e, e0, S.ctx.add(*facts))
                self.obl.append((f"{label}: {nm}", "proved" if ok else "refuted", "frame"))


class NativeStub:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


def _call_stub(I, st, args, kw):
    return st.fn(*args, **kw)


_old_call = IP.Interp.call


def _call(self, f, args, kw):
    if isinstance(f, NativeStub):
        return f.fn(*args, **kw)
    return _old_call(self, f, args, kw)


IP.Interp.call = _call


def parse_sym(sym, cplx):
    if sym is None:
        return None
    if sym == "ij":
        return [((0, 1), False), ((1, 0), False)]
    if sym == "herm":
        return [((0, 1), False), ((1, 0), True)]
    if sym == "last2":       # symmetric in the last two of three axes
        return [((0, 1, 2), False), ((0, 2, 1), False)]
    if sym == "eri8":
        out = []
        for p in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2)):
            out.append((p, False))
            out.append(((p[2], p[3], p[0], p[1]), False))
        return out
    return sym


def nonneg(d, ctx, depth=0):
    """is the real expression d >= 0: case split over indicators, then z3 over reals with monomials as atoms"""
    import z3
    if d.is_zero():
        return True
    inds = [a for a in N.free_inds(d) if a[0] == "P" or a[1] == "eq" or a[1] == "lt"]
    if inds and depth < 8:
        a = inds[0]
        for val in (1, 0):
            if a[0] == "P":
                cs = [ctx.addp(a[1], a[2], bool(val))]
                if N.p_inconsistent(cs[0]):
                    continue
            elif a[1] == "lt":
                cs = [ctx.add(-a[2] - 1) if val else ctx.add(a[2])]
            else:
                cs = [ctx.add(a[2], -a[2])] if val else [ctx.add(a[2] - 1), ctx.add(-a[2] - 1)]
            for c2 in cs:
                if a[0] == "I" and c2.inconsistent():
                    continue
                if not nonneg(N.norm(N.set_ind(d, a, val), c2), c2, depth + 1):
                    return False
        return True
    s = z3.Solver()
    s.set("timeout", 5000)
    env = {}
    x = N.z3_real(d, env, s)
    for rel, e, tv in ctx.pfacts:
        y = N.z3_real(e, env, s)
        c = (y < 0) if rel == "lt" else (y == 0)
        s.add(c if tv else z3.Not(c))
    s.add(x < 0)
    N.STATS["z3_queries"] += 1
    return s.check() == z3.unsat


# ------------------------------------------------------------------ numeric evaluation of residuals
class _Opq(Exception):
    pass


def residual_nonzero(d, ctx, seeds=3, rel=0.0):
    """evaluate a residual at random points consistent with the integer context"""
    try:
        for t in d.ts:
            if any(_has_opaque(a) for a, _ in t.f):
                return False, "(contains opaque functions)"
        big = 0.0
        for seed in range(seeds):
            rng = np.random.default_rng(seed)
            lim = []
            fv = set(d.fv())
            for f in ctx.facts:
                fv |= f.fv()
            extra = [IX.const(3 + seed) - IX.sym(v) for v in sorted(fv)]
            low = [IX.sym(v) - (2 + seed % 2) for v in sorted(fv) if "~" not in v]
            m = N.int_model(ctx.facts, extra + low) or N.int_model(ctx.facts, extra) or N.int_model(ctx.facts)
            if m is None:
                return False, "(no integer model)"
            for v in fv:
                m.setdefault(v, 1)
            val = eval_e(d, m, {}, rng)
            ref = sum(abs(eval_e(E([t]), m, _CACHE_EV, rng)) for t in d.ts)
            big = max(big, abs(val) - rel * ref)
        return big > 1e-6, f"(numeric residual {big:.3g})"
    except (_Opq, Unsupported, OverflowError, ZeroDivisionError, KeyError, RecursionError) as ex:
        return False, f"(not evaluated: {type(ex).__name__} {ex})"


_CACHE_EV = {}
AUDIT = os.environ.get("VC_AUDIT", "1") != "0"
AUDITED = [0, 0]


def audit(raw, ctx):
    """evaluate the difference as built (before any simplification) at a random point; True if it is not zero"""
    if sum(1 for _ in raw.ts) > 4000:
        return False
    st, why = residual_nonzero(raw, ctx, seeds=1, rel=1e-7)
    AUDITED["numeric" in why] += 1
    return st




def _has_opaque(a):
    if a[0] == "T":
        return "#" in a[1] or a[1].startswith("uninit")
    if a[0] == "F":
        return a[1] in ("nonfinite",) or any(isinstance(x, E) and any(_has_opaque(b) for t in x.ts for b, _ in t.f) for x in a[2])
    if a[0] == "P":
        return any(_has_opaque(b) for t in a[2].ts for b, _ in t.f)
    return False


def eval_ix(ix, env):
    r = 0
    for m, c in ix.t.items():
        p = c
        for s in m:
            if isinstance(s, str):
                p *= env[s]
            else:
                a = [eval_ix(x, env) if isinstance(x, IX) else x for x in s.args]
                if s.op == "//":
                    p *= a[0] // a[1]
                elif s.op == "%":
                    p *= a[0] % a[1]
                elif s.op in ("max", "min"):
                    p *= (max if s.op == "max" else min)(a)
                else:
                    raise Unsupported("iatom " + s.op)
        r += p
    return r


def eval_e(e, env, cache, rng):
    tot = 0j
    for t in e.ts:
        tot += complex(float(t.c[0]), float(t.c[1])) * _ev_t(t.b, t.f, env, cache, rng)
    return tot


def _ev_t(b, f, env, cache, rng):
    if b:
        v, u = b[0]
        n = eval_ix(u, env)
        s = 0j
        for k in range(max(0, n)):
            env2 = dict(env)
            env2[v] = k
            s += _ev_t(b[1:], f, env2, cache, rng)
        return s
    p = 1 + 0j
    for a, q in sorted(f, key=lambda x: x[0][0] not in ("I",)):
        v = _ev_a(a, env, cache, rng)
        if v == 0 and q > 0:
            return 0j
        p *= v ** float(q) if q != 1 else v
    return p


def _ev_a(a, env, cache, rng):
    k = a[0]
    if k == "T":
        idx = tuple(eval_ix(i, env) for i in a[3])
        d = DECL.get(a[1], {})
        if d.get("sym"):
            best = None
            for perm, cj in d["sym"]:
                kk = (tuple(idx[p] for p in perm), (a[2] != cj) if not d.get("real") else False)
                if best is None or kk < best:
                    best = kk
            idx, cj = best
        else:
            cj = a[2]
        sg = 1
        if d.get("asym"):
            im = [(tuple(idx[p] for p in perm), s) for perm, s in d["asym"]]
            k0 = min(i for i, s in im)
            ss = {s for i, s in im if i == k0}
            sg = ss.pop() if len(ss) == 1 else 0
            idx = k0
        key = (a[1], idx)
        if key not in cache:
            x = rng.normal() + (0 if d.get("real") else 1j * rng.normal())
            if d.get("pos"):
                x = abs(x) + 0.1
            cache[key] = complex(x)
        v = sg * cache[key]
        return v.conjugate() if cj else v
    if k == "I":
        x = eval_ix(a[2], env)
        return 1.0 if (x == 0 if a[1] == "eq" else x < 0) else 0.0
    if k == "P":
        x = eval_e(a[2], env, cache, rng)
        return 1.0 if (abs(x) < 1e-12 if a[1] == "eq" else x.real < 0) else 0.0
    if k == "N":
        return complex(eval_ix(IX.sym(a[1]), env))
    if k == "F":
        import cmath
        args = [eval_e(x, env, cache, rng) if isinstance(x, E) else (eval_ix(x, env) if isinstance(x, IX) else x) for x in a[2]]
        nm = a[1]
        if nm == "exp":
            return cmath.exp(args[0])
        if nm in ("sqrt", "rt"):
            return cmath.sqrt(args[0])
        if nm == "inv":
            return 1 / args[0]
        if nm == "abs":
            return abs(args[0])
        if nm == "log":
            return cmath.log(args[0])
        if nm == "cos":
            return cmath.cos(args[0])
        if nm == "sin":
            return cmath.sin(args[0])
        if nm == "angle":
            return cmath.phase(args[0])
        if nm == "max":
            return max(args, key=lambda z: z.real)
        if nm == "min":
            return min(args, key=lambda z: z.real)
        if nm == "ipow":
            return args[0] ** args[1]
        if nm == "fact":
            return math.factorial(args[0])
        if nm == "lag":
            from scipy.special import eval_genlaguerre
            return complex(eval_genlaguerre(args[0], args[1], args[2].real))
        raise Unsupported("function " + nm)
    raise Unsupported("atom")


# ------------------------------------------------------------------ numeric environment
PROFILES = ["normal", "normal", "small", "large", "sparse", "normal", "ints", "normal", "neg", "tiny"]


class NumEnv:
    sym = False

    def __init__(self, seed, dims=None, tol=1e-7):
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.profile = PROFILES[seed % len(PROFILES)] if seed >= 0 else "normal"
        self.over = dims or {}
        self.dims = {}
        self.frame = {}
        self.mod = set()
        self.count = 0
        self.tol = tol
        self.patched = []
        self.flags = {}

    def dim(self, name, lo=1, hi=4, ge=()):
        lo = max([lo, *[int(g) for g in ge]])
        hi = max(lo + (1 if ge else 0), hi)
        if name in self.over:
            n = max(lo, int(self.over[name]))
        else:
            n = int(self.rng.integers(lo, hi + 1))
        self.dims[name] = n
        return n

    def index(self, name, n):
        return int(self.rng.integers(0, n))

    def _draw(self, shape, cplx, pos, scale):
        r = self.rng
        x = r.normal(size=shape)
        if cplx:
            x = x + 1j * r.normal(size=shape)
        p = self.profile
        if p == "small":
            x = x * 1e-2
        elif p == "large":
            x = x * 30.0 if scale <= 1.0 and not pos else x
        elif p == "tiny":
            x = x * 1e-6 if not pos else x
        elif p == "sparse":
            x = x * (r.random(size=shape) < 0.6)
        elif p == "ints":
            x = np.round(2 * x)
        elif p == "neg":
            x = -np.abs(x) if not cplx else x
        x = x * scale
        if pos:
            x = np.abs(x) + 0.05 * abs(scale) + (0.0 if scale else 0.0)
        return x

    def tensor(self, name, shape, cplx=False, sym=None, pos=False, scale=1.0, lo=None, hi=None, asym=None):
        shape = tuple(int(s) for s in shape)
        x = self._draw(shape, cplx, pos, scale)
        if asym:
            x = sum(s * np.transpose(x, perm) for perm, s in asym) / len(asym)
        sp = parse_sym(sym, cplx)
        if sp:
            acc = 0
            for perm, cj in sp:
                y = np.transpose(x, perm)
                acc = acc + (y.conj() if cj else y)
            x = acc / len(sp)
        if lo is not None:
            x = lo + (hi - lo) * self.rng.random(size=shape)
        x = np.ascontiguousarray(x)
        self.frame[name] = (x, x.copy())
        return x

    def track(self, name, a):
        self.frame[name] = (a, np.array(a, copy=True))

    def scalar(self, name, cplx=False, pos=False, scale=1.0, lo=None, hi=None):
        if lo is not None:
            return float(lo + (hi - lo) * self.rng.random())
        x = self._draw((), cplx, pos, scale)
        return complex(x) if cplx else float(x)

    def boolean(self, name):
        return bool(self.rng.integers(0, 2))

    def choose(self, name, options):
        return options[int(self.rng.integers(0, len(options)))]

    def obj(self, cls=None, label=None, **attrs):
        if isinstance(cls, str):
            cls = resolve(cls)
        if cls is None:
            return types.SimpleNamespace(**attrs)
        o = cls.__new__(cls)
        for k, v in attrs.items():
            try:
                object.__setattr__(o, k, v)
            except AttributeError:
                setattr(type(o), k, v)
        return o

    def stub(self, fn):
        return fn

    def get(self, o, name):
        if not name.startswith("_") and not hasattr(o, name):
            raise Violation(f"result {name}", f"{type(o).__name__} object has no attribute {name!r}")
        return getattr(o, name)

    def set(self, o, name, v):
        setattr(o, name, v)

    def modifies(self, *names):
        self.mod |= set(names)

    def random(self, **src):
        self.rand_src = {k: (list(a) if isinstance(a, list) else a) for k, a in src.items()}

    def _rand(self, kind, shape):
        a = self.rand_src[kind]
        if isinstance(a, list):
            if not a:
                raise Inconclusive("more random draws than the contract provides")
            a = a.pop(0)
        shape = () if shape is None else shape if isinstance(shape, (tuple, list)) else (shape,)
        if shape == () or (shape == (None,)):
            return float(a)
        if int(np.prod(shape)) != np.size(a):
            raise Inconclusive("random draw of another size")
        return np.array(a, copy=True).reshape(shape)

    def _rpatch(self):
        """while the code under contract runs, numpy's global generator returns the contract's draws"""
        src = getattr(self, "rand_src", None)
        if not src:
            return {}
        d = {}
        if "normal" in src:
            d["normal"] = lambda loc=0.0, scale=1.0, size=None: loc + scale * self._rand("normal", size)
            d["randn"] = lambda *s: self._rand("normal", s)
            d["standard_normal"] = lambda size=None: self._rand("normal", size)
        if "uniform" in src:
            d["random"] = d["random_sample"] = lambda size=None: self._rand("uniform", size)
            d["rand"] = lambda *s: self._rand("uniform", s)
            d["uniform"] = lambda low=0.0, high=1.0, size=None: low + (high - low) * self._rand("uniform", size)
        g = types.SimpleNamespace(**d)
        d["default_rng"] = lambda *a, **k: g
        return d

    def call(self, target, *args, **kw):
        f = resolve(target) if isinstance(target, str) else target
        return self._guard(f, args, kw, str(target))

    def method(self, o, name, *args, **kw):
        return self._guard(getattr(o, name), args, kw, name)

    def _guard(self, f, args, kw, nm):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with open(os.devnull, "w") as dn:
                    so = sys.stdout
                    sys.stdout = dn
                    pat = self._rpatch()
                    sav = {k: getattr(np.random, k) for k in pat}
                    try:
                        for k, g in pat.items():
                            setattr(np.random, k, g)
                        return f(*args, **kw)
                    finally:
                        for k, g in sav.items():
                            setattr(np.random, k, g)
                        sys.stdout = so
        except (Skip, Violation, Inconclusive, Reject):
            raise
        except AttributeError as ex:
            raise Inconclusive(f"{nm}: {ex}")
        except (np.linalg.LinAlgError, SystemError) as ex:
            raise Inconclusive(f"{nm}: {ex}")
        except (MemoryError, RecursionError) as ex:
            raise Violation(nm, f"raises {type(ex).__name__}")
        except Exception as ex:
            if isinstance(ex, TypeError) and any(m in str(ex) for m in ("unexpected keyword", "positional argument", "required keyword")):
                raise Inconclusive(f"{nm}: {ex}")      # a stand-in or signature this contract does not fit any more
            if type(ex).__module__.startswith("numba"):
                raise Inconclusive(f"{nm}: {type(ex).__name__}")
            raise Violation(nm, f"raises {type(ex).__name__}: {ex}")

    def call_draws(self, target, u, *args, **kw):
        """call with numpy/random generators returning the draws u (in order)"""
        import random as _r
        seq = [float(x) for x in u]

        def nxt(size=None):
            if size in (None, ()):
                if not seq:
                    raise Inconclusive("more random draws than provided")
                return seq.pop(0)
            n = int(np.prod(size))
            return np.array([seq.pop(0) for _ in range(n)]).reshape(size)
        d = dict(rand=lambda *s: nxt(s or None), random=nxt, random_sample=nxt,
                 uniform=lambda low=0.0, high=1.0, size=None: low + (high - low) * nxt(size))
        g = types.SimpleNamespace(**{k: f for k, f in d.items() if k != "rand"})
        d["default_rng"] = lambda *a, **k: g
        sav = {k: getattr(np.random, k) for k in d}
        so = _r.random
        try:
            for k, f in d.items():
                setattr(np.random, k, f)
            _r.random = nxt
            return self._guard(resolve(target) if isinstance(target, str) else target, args, kw, str(target))
        finally:
            for k, f in sav.items():
                setattr(np.random, k, f)
            _r.random = so

    def override(self, target, fn):
        """concrete side: the module attribute is replaced while this contract instance runs"""
        mod, _, q = target.partition(":")
        o = importlib.import_module(mod)
        parts = q.split(".")
        for x in parts[:-1]:
            o = getattr(o, x)
        self.patched.append((o, parts[-1], o.__dict__[parts[-1]]))
        setattr(o, parts[-1], fn)

    def restore(self):
        while self.patched:
            o, n, f = self.patched.pop()
            setattr(o, n, f)

    def einsum(self, s, *a):
        return np.einsum(s, *[np.asarray(x) for x in a])

    def comp(self, shape, f, dtype="c"):
        out = np.zeros([int(s) for s in shape], dtype=complex)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(*ix)
        if not np.any(out.imag):
            out = out.real.copy()
        return out if out.shape else out[()]

    def sum(self, n, f):
        r = 0.0
        for k in range(int(n)):
            r = r + f(k)
        return r

    def ind(self, b): return 1.0 if b else 0.0
    def ieq(self, a, b): return 1.0 if a == b else 0.0
    def ite(self, c, a, b): return a if c else b
    def exp(self, a): return np.exp(a)
    def sqrt(self, a): return np.sqrt(a)
    def abs(self, a): return np.abs(a)
    def log(self, a): return np.log(a)
    def cos(self, a): return np.cos(a)
    def sin(self, a): return np.sin(a)
    def angle(self, a): return np.angle(a)
    def cosh(self, a): return np.cosh(a)
    def sinh(self, a): return np.sinh(a)
    def conj(self, a): return np.conj(a)
    def real(self, a): return np.real(a)
    def imag(self, a): return np.imag(a)
    def inv(self, a):
        """precondition of every contract naming an inverse: the matrix is (numerically) regular"""
        if np.asarray(a).size and not np.all(np.linalg.cond(a) < 1e5):
            raise Reject("ill-conditioned matrix")
        return np.linalg.inv(a)

    def det(self, a):
        if np.asarray(a).size and not np.all(np.linalg.cond(a) < 1e5):
            raise Reject("ill-conditioned matrix")
        return np.linalg.det(a)

    def expm(self, a):
        import scipy.linalg
        return scipy.linalg.expm(a)
    def eye(self, n): return np.eye(n)
    def reshape(self, a, s): return np.reshape(a, s)
    def transpose(self, a, p): return np.transpose(a, p)
    def copy(self, a): return np.array(a, copy=True)
    def zeros(self, s): return np.zeros(s)
    def asum(self, a, axis=None): return np.sum(a, axis)
    def max(self, a, b): return np.maximum(a, b)
    def min(self, a, b): return np.minimum(a, b)
    def arr(self, l): return np.asarray(l)

    def eq(self, label, a, b, tol=None, mag=0.0):
        self.count += 1
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and not _homog(a):
            for k, (x, y) in enumerate(zip(a, b)):
                self.eq(f"{label}[{k}]", x, y, tol, mag)
            return
        if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
            if not (a is b or a == b):
                raise Violation(label, f"{a!r} != {b!r}")
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            raise Violation(label, f"shape {x.shape} expected {y.shape}")
        if x.size == 0:
            return
        if not np.all(np.isfinite(y)):
            raise Reject("expected value not finite")
        t = tol if tol is not None else self.tol
        scale = max(1e-300, float(np.max(np.abs(y))), mag)     # mag: size of the summands that may cancel
        err = np.abs(x - y)
        if not np.all(np.isfinite(x)):
            raise Violation(label, "result not finite")
        worst = float(np.max(err))
        if worst > t * max(scale, min(1.0, scale * 1e3)) + 1e-12 * 0:
            # allow pure roundoff for tiny expected values coming from cancellation
            if worst < 1e-13:
                return
            k = np.unravel_index(int(np.argmax(err)), err.shape)
            raise Violation(label, f"got {x[k]!r}, expected {y[k]!r} at {tuple(int(q) for q in k)} (max err {worst:.3g})")

    def raises(self, label, f, *names):
        self.count += 1
        try:
            f()
        except Violation as ex:
            if not any(f"raises {n}" in str(ex) for n in names):
                raise
        else:
            raise Violation(label, "no exception")

    def true(self, label, cond):
        self.count += 1
        if not bool(np.all(cond)):
            raise Violation(label, "condition false")

    def ge(self, label, a, b):
        self.count += 1
        if not np.all(np.asarray(a) >= np.asarray(b) - 1e-9 * (1 + np.abs(b))):
            raise Violation(label, f"{a} < {b}")

    def unchanged(self, label="inputs unchanged"):
        for nm, (a, c) in self.frame.items():
            if nm in self.mod:
                continue
            self.count += 1
            if not np.array_equal(a, c, equal_nan=True):
                raise Violation(f"{label}: {nm}", "argument was modified")


def _homog(a):
    try:
        s = {np.shape(x) for x in a}
        return len(s) == 1 and all(isinstance(x, (int, float, complex, np.generic, np.ndarray)) for x in a)
    except Exception:
        return False


# ------------------------------------------------------------------ running
@contextlib.contextmanager
def alarm(seconds, exc, msg):
    """raise exc in the main thread after the given time (and again every 2 s)"""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def on(*_):
        raise exc(msg)
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 1), 2)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_symbolic(c, budget=60.0, concrete=None):
    """-> dict(status, obligations=[...], functions, loops, paths, reason)"""
    t0 = time.time()
    work = [[]]
    obls, fns, loops, asm = [], {}, 0, set()
    npaths = 0
    safety = 0
    models = []
    while work:
        dec = work.pop()
        if npaths >= c["paths"]:
            return dict(status="unsupported", reason="too many paths", obl=obls, fns=fns, loops=loops, paths=npaths, asm=asm, safety=safety, models=models)
        if time.time() - t0 > budget:
            return dict(status="unsupported", reason="time budget", obl=obls, fns=fns, loops=loops, paths=npaths, asm=asm, safety=safety, models=models)
        env = SymEnv(decisions=dec, concrete=concrete)
        st = None
        try:
            with alarm(budget + 20 - (time.time() - t0), Unsupported, "time budget"):
                c["fn"](env)
                env.unchanged()
        except IP.InfeasiblePath:
            st = "infeasible"
        except PyRaise as ex:
            # the program raises on this path: the contract does not allow it
            env.obl.append((f"no exception ({ex.exc})", "refuted", str(ex)))
        except Skip as ex:
            return dict(status="missing", reason=str(ex), obl=[], fns={}, loops=0, paths=0, asm=set(), safety=0, models=[])
        except (Unsupported, IP.MergeFail, RecursionError, ZeroDivisionError, KeyError, TypeError, AttributeError,
                IndexError, AssertionError, ValueError) as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
            kind = type(ex).__name__
            return dict(status="unsupported", reason=f"{kind}: {ex} ({loc})", obl=obls, fns=dict(fns, **env.I.functions),
                        loops=loops, paths=npaths, asm=asm | S.assumptions, safety=safety, models=models)
        work.extend(env.I.forks)
        if st == "infeasible":
            continue
        npaths += 1
        if S.ctx.inconsistent():
            env.obl.append(("vacuity: path facts consistent", "undecided", "contradictory facts"))
        m = N.int_model(S.ctx.facts)
        if m:
            models.append({k: v for k, v in m.items() if k in env.dims.values() or k in env.dims})
        for o in env.obl:
            obls.append(o + (describe_path(),))
        for u in S.undecided:
            obls.append((f"safety: {u}", "undecided", "", describe_path()))
        fns.update(env.I.functions)
        loops += len(env.I.loops)
        safety += S.safety
        asm |= S.assumptions
    if not obls:
        return dict(status="unsupported", reason="no obligations generated", obl=[], fns=fns, loops=loops, paths=npaths, asm=asm, safety=safety, models=models)
    bad = [o for o in obls if o[1] == "refuted"]
    und = [o for o in obls if o[1] == "undecided"]
    status = "refuted" if bad else ("undecided" if und else "proved")
    return dict(status=status, reason="; ".join(f"{o[0]}: {o[2]}" for o in (bad + und)[:4]), obl=obls, fns=fns,
                loops=loops, paths=npaths, asm=asm, safety=safety, models=models)


def describe_path():
    return " & ".join(("" if d else "not ") + str(e)[:80] for e, d in S.path)


def run_numeric(c, seeds, dims=None, limit=None, known=(), hits=None):
    """-> (n_ok, n_checked, violation or None, inconclusive reasons); violations labelled in known are collected in hits and skipped"""
    ok, checks, reasons, rejected = 0, 0, [], 0
    t0 = time.time()
    seeds = list(seeds)
    extra = 3 * len(seeds)
    for s in seeds:
        if limit and time.time() - t0 > limit:
            break
        env = NumEnv(s, dims=dims)
        try:
            old = np.seterr(all="ignore")
            try:
                with alarm(120, Inconclusive, "one concrete run took over 120 s"):
                    c["fn"](env)
                    env.unchanged()
            finally:
                np.seterr(**old)
                env.restore()
            ok += 1
            checks += env.count
        except Violation as v:
            if v.label in known:
                if hits is not None:
                    hits[v.label] = v.detail
                ok += 1
                checks += env.count
                continue
            return ok, checks, dict(seed=s, dims=dict(env.dims), label=v.label, detail=v.detail, profile=env.profile,
                                    forced=dims), reasons
        except Skip as ex:
            reasons.append("missing: " + str(ex))
            return ok, checks, None, reasons
        except Reject:
            rejected += 1
            if extra:
                extra -= 1
                seeds.append(s + 100003)
        except Inconclusive as ex:
            reasons.append(str(ex))
        except Exception as ex:   # spec-side failure on an odd input: inconclusive, never an alarm
            reasons.append(f"harness {type(ex).__name__}: {ex}")
    return ok, checks, None, reasons
