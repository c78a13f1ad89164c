"""Exact tensor algebra used by the verifier.

IX   integer expressions: polynomials over integer symbols (dimensions, index
     variables, opaque integer atoms) with integer coefficients.
E    scalar expressions: finite sums of terms
         coef * SUM_{v1<u1,...} prod_i atom_i ** p_i
     coef is a Gaussian rational, atoms are tensor elements, function
     applications, integer/scalar indicators ([cond] in {0,1}).
norm(E) rewrites to a normal form that is invariant under renaming/reordering of
bound variables, commutativity, declared tensor symmetries, indicator (delta)
elimination, range peeling and integer-division reasoning; two expressions with
equal normal form are equal for ALL dimensions and ALL values.
Everything is exact (real/complex arithmetic, not floating point).
"""
from fractions import Fraction
import itertools, hashlib

F0, F1 = Fraction(0), Fraction(1)
_cnt = itertools.count(1)


def fresh(p="k"):
    return f"{p}~{next(_cnt)}"


class Unsupported(Exception):
    pass


# --------------------------------------------------------------- integers
class IAtom:
    __slots__ = ("op", "args", "_k")

    def __init__(self, op, args):
        self.op, self.args = op, tuple(args)
        self._k = f"{op}({','.join(str(a) for a in self.args)})"

    def __str__(self):
        return self._k
    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, IAtom) and self._k == o._k

    def __hash__(self):
        return hash(self._k)


def _sk(s):
    return s if isinstance(s, str) else s._k


class IX:
    __slots__ = ("t", "_h", "_s", "_sy", "_v", "_nc")

    def __init__(self, t):
        self.t = t
        self._nc = None
        self._h = None
        self._s = None
        self._sy = None
        self._v = None

    @staticmethod
    def const(c):
        c = int(c)
        return IX({(): c} if c else {})

    @staticmethod
    def sym(s):
        return IX({(s,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, IX):
            return x
        if isinstance(x, bool):
            return IX.const(int(x))
        if isinstance(x, (str, IAtom)):
            return IX.sym(x)
        return IX.const(int(x))

    def is_const(self):
        t = self.t
        return not t or len(t) == 1 and () in t

    def cval(self):
        return self.t.get((), 0)

    def nc(self):
        """hashable non-constant part"""
        if self._nc is None:
            self._nc = frozenset((m, c) for m, c in self.t.items() if m)
        return self._nc

    def __add__(self, o):
        o = IX.of(o)
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return IX(r)
    __radd__ = __add__

    def __neg__(self):
        return IX({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-IX.of(o))

    def __rsub__(self, o):
        return IX.of(o) - self

    def __mul__(self, o):
        o = IX.of(o)
        r = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                mm = tuple(sorted(m + m2, key=_sk))
                v = r.get(mm, 0) + c * c2
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        return IX(r)
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, IX):
            try:
                o = IX.of(o)
            except Exception:
                return False
        return self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.nc(), self.t.get((), 0)))
        return self._h

    def __str__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                ps = []
                for m in sorted(self.t, key=lambda m: tuple(_sk(x) for x in m)):
                    c = self.t[m]
                    ms = "*".join(_sk(x) for x in m)
                    ps.append((f"{c}" if not m else (ms if c == 1 else f"{c}*{ms}")))
                self._s = "+".join(ps)
        return self._s
    __repr__ = __str__

    def syms(self, deep=True):
        if deep and self._sy is not None:
            return self._sy
        out = set()
        for m in self.t:
            for s in m:
                out.add(s)
                if deep and isinstance(s, IAtom):
                    for a in s.args:
                        if isinstance(a, (IX, E)):
                            out |= a.fv()
        if deep:
            self._sy = out = frozenset(out)
        return out

    def fv(self):
        """free integer variable names (strings)"""
        if self._v is None:
            self._v = frozenset(s for s in self.syms() if isinstance(s, str))
        return self._v

    def subst(self, mp):
        if not mp:
            return self
        if not (self.fv() & mp.keys()):
            return self
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and isinstance(m[0], str):
                return mp[m[0]]
        r = IX.const(0)
        for m, c in self.t.items():
            p = IX.const(c)
            for s in m:
                if isinstance(s, str):
                    p = p * (mp[s] if s in mp else IX.sym(s))
                else:
                    p = p * iatom(s.op, [a.subst(mp) if isinstance(a, (IX, E)) else a for a in s.args])
            r = r + p
        return r

    def lin(self, v):
        """coefficient of symbol v if linear with constant coeff, and v nowhere else; else None"""
        c = self.t.get((v,), 0)
        for m in self.t:
            if m == (v,):
                continue
            for s in m:
                if s == v:
                    return None
                if isinstance(s, IAtom):
                    for a in s.args:
                        if isinstance(a, (IX, E)) and v in a.fv():
                            return None
        return c

    def as_monomial(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None


def iatom(op, args):
    args = [a if isinstance(a, E) else IX.of(a) for a in args]
    if op == "//":
        n, d = args
        if d.is_const() and d.cval() == 1:
            return n
        if n.is_const() and d.is_const() and d.cval() != 0:
            return IX.const(n.cval() // d.cval())
        if not n.t:
            return IX.const(0)
        # exact divisibility termwise
        q = idiv_exact(n, d)
        if q is not None:
            return q
        return IX.sym(IAtom(op, (n, d)))
    if op == "%":
        n, d = args
        if d.is_const() and d.cval() == 1:
            return IX.const(0)
        if n.is_const() and d.is_const() and d.cval() != 0:
            return IX.const(n.cval() % d.cval())
        if not n.t:
            return IX.const(0)
        if idiv_exact(n, d) is not None:
            return IX.const(0)
        return IX.sym(IAtom(op, (n, d)))
    return IX.sym(IAtom(op, args))


def idiv_mono(m, c, dm, dc):
    if c % dc:
        return None
    l = list(m)
    for s in dm:
        if s in l:
            l.remove(s)
        else:
            return None
    return tuple(l), c // dc


def idiv_exact(n, d):
    """polynomial exact division of IX by a monomial IX, or equal polys"""
    if n == d:
        return IX.const(1)
    dm = d.as_monomial()
    if dm is None:
        # try long division for products like (a*b*c)/(b*c) only monomials supported,
        # and polynomial multiples with single quotient monomial
        if not d.t:
            return None
        lead = sorted(d.t.items(), key=lambda kv: (len(kv[0]), [_sk(x) for x in kv[0]]))[-1]
        rem, quo = n, IX.const(0)
        for _ in range(20):
            if not rem.t:
                return quo
            ok = False
            for m, c in sorted(rem.t.items(), key=lambda kv: (-len(kv[0]), [_sk(x) for x in kv[0]])):
                q = idiv_mono(m, c, lead[0], lead[1])
                if q is not None:
                    qi = IX({q[0]: q[1]})
                    quo = quo + qi
                    rem = rem - qi * d
                    ok = True
                    break
            if not ok:
                return None
        return None
    c, m = dm
    r = {}
    for mm, cc in n.t.items():
        q = idiv_mono(mm, cc, m, c)
        if q is None:
            return None
        r[q[0]] = q[1]
    return IX(r)


def split_div(n, d):
    """n = q*d + r with q collecting termwise divisible terms"""
    dm = d.as_monomial()
    if dm is None:
        if not d.t:
            return IX.const(0), n
        lead = sorted(d.t.items(), key=lambda kv: (len(kv[0]), [_sk(x) for x in kv[0]]))[-1]
        q, r = IX.const(0), n
        for mm, cc in list(n.t.items()):
            if r.t.get(mm) is None:
                continue
            z = idiv_mono(mm, r.t[mm], lead[0], lead[1]) or idiv_part(mm, r.t[mm], lead[0], lead[1])
            if z is None:
                continue
            for qc in ((z[1], z[1] - 1) if z[1] > 1 else (z[1],)):
                x = IX({z[0]: qc}) * d
                if all(k in r.t and abs(r.t[k]) >= abs(v) and r.t[k] * v > 0 for k, v in x.t.items()):
                    q, r = q + IX({z[0]: qc}), r - x
                    break
        return q, r
    c, m = dm
    q, r = {}, {}
    for mm, cc in n.t.items():
        z = idiv_mono(mm, cc, m, c) or (idiv_part(mm, cc, m, c) if m else None)
        if z is None:
            r[mm] = cc
        else:
            q[z[0]] = z[1]
            if cc - z[1] * c:
                r[mm] = cc - z[1] * c
    return IX(q), IX(r)


def idiv_part(mm, cc, m, c):
    """whole part of a coefficient that is not divisible: 3F = 1*(2F) + F"""
    if c > 1 and cc > c:
        return idiv_mono(mm, cc // c * c, m, c)
    return None


# --------------------------------------------------------------- scalars
class E:
    """sum of Terms"""
    __slots__ = ("ts", "_fv", "_n")

    def __init__(self, ts):
        self.ts = ts
        self._fv = None
        self._n = None

    @staticmethod
    def const(c, im=0):
        if isinstance(c, complex):
            c, im = tofrac(c.real), tofrac(c.imag)
        c, im = tofrac(c), tofrac(im)
        if c == 0 and im == 0:
            return E([])
        return E([T((c, im), (), ())])

    @staticmethod
    def of(x):
        if isinstance(x, E):
            return x
        if isinstance(x, IX):
            return ix2e(x)
        return E.const(x)

    @staticmethod
    def atom(a, p=F1):
        return E([T((F1, F0), (), ((a, Fraction(p)),))])

    def is_const(self):
        return all(not t.b and not t.f for t in self.ts)

    def cval(self):
        re = sum((t.c[0] for t in self.ts), F0)
        im = sum((t.c[1] for t in self.ts), F0)
        return re, im

    def is_zero(self):
        return not self.ts

    def __add__(self, o):
        o = E.of(o)
        return merge(self.ts + o.ts)
    __radd__ = __add__

    def __neg__(self):
        return E([T((-t.c[0], -t.c[1]), t.b, t.f) for t in self.ts])

    def __sub__(self, o):
        return self + (-E.of(o))

    def __rsub__(self, o):
        return E.of(o) - self

    def __mul__(self, o):
        o = E.of(o)
        out = []
        for a in self.ts:
            for b in o.ts:
                out.append(tmul(a, b))
        return merge(out)
    __rmul__ = __mul__

    def scale(self, c):
        return self * E.const(c)

    def fv(self):
        if self._fv is None:
            s = set()
            for t in self.ts:
                s |= t.fv()
            self._fv = frozenset(s)
        return self._fv

    def subst(self, mp):
        if not mp or not (self.fv() & mp.keys()):
            return self
        return merge([t.subst(mp) for t in self.ts])

    def __str__(self):
        return " + ".join(str(t) for t in self.ts) or "0"
    __repr__ = __str__


def tofrac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    try:
        import numpy as _np
        if isinstance(c, _np.generic):
            c = c.item()
    except Exception:
        pass
    if isinstance(c, int):
        return Fraction(c)
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(repr(c))
    raise Unsupported(f"constant {c!r}")


class T:
    """term: c=(re,im), b=((var,IX upper),...), f=((atom,power),...)"""
    __slots__ = ("c", "b", "f", "_fv", "_key")

    def __init__(self, c, b, f):
        self.c, self.b, self.f = c, b, f
        self._fv = None
        self._key = None

    def fv(self):
        if self._fv is None:
            s = set()
            for a, _ in self.f:
                s |= atom_fv(a)
            bv = {v for v, _ in self.b}
            for v, u in self.b:
                s |= u.fv()
            self._fv = frozenset(s - bv)
        return self._fv

    def subst(self, mp):
        bv = {v for v, _ in self.b}
        mp = {k: v for k, v in mp.items() if k not in bv}
        clash = set()
        for v in mp.values():
            clash |= v.fv()
        t = self
        if clash & bv:
            t = t.renamed()
        return T(t.c, tuple((v, u.subst(mp)) for v, u in t.b),
                 tuple((atom_subst(a, mp), p) for a, p in t.f))

    def renamed(self):
        mp = {v: IX.sym(fresh()) for v, _ in self.b}
        nm = {v: next(iter(mp[v].t))[0] for v in mp}
        return T(self.c, tuple((nm[v], u.subst(mp)) for v, u in self.b),
                 tuple((atom_subst(a, mp), p) for a, p in self.f))

    def __str__(self):
        c = str(self.c[0]) if self.c[1] == 0 else f"({self.c[0]}+{self.c[1]}i)"
        b = "".join(f"SUM[{v}<{u}] " for v, u in self.b)
        f = " ".join(atom_str(a) + (f"^{p}" if p != 1 else "") for a, p in self.f)
        return f"{c} {b}{f}".strip()


_DIMS_FV = frozenset()


def atom_fv(a):
    k = a[0]
    if k == "T":
        s = set()
        for i in a[3]:
            s |= i.fv()
        return s
    if k == "F":
        s = set()
        for x in a[2]:
            if isinstance(x, (E, IX)):
                s |= x.fv()
        return s
    if k == "I":
        return a[2].fv()
    if k == "P":
        return set(a[2].fv())
    if k == "N":
        s = a[1]
        return {s} if isinstance(s, str) else IX.sym(s).fv()
    raise Unsupported(f"atom {a}")


def atom_subst(a, mp):
    k = a[0]
    if k == "T":
        return ("T", a[1], a[2], tuple(i.subst(mp) for i in a[3]))
    if k == "F":
        return ("F", a[1], tuple(x.subst(mp) if isinstance(x, (E, IX)) else x for x in a[2]))
    if k == "I":
        return ("I", a[1], a[2].subst(mp))
    if k == "P":
        return ("P", a[1], a[2].subst(mp))
    if k == "N":
        ix = IX.sym(a[1]).subst(mp)
        if ix.t == {(a[1],): 1}:
            return a
        return ("X", ix)      # to be expanded by norm
    if k == "X":
        return ("X", a[1].subst(mp))
    raise Unsupported(f"atom {a}")


def _atom_fv_X(a):
    return a[1].fv()


_old_atom_fv = atom_fv


def atom_fv(a):  # noqa: F811
    if a[0] == "X":
        return a[1].fv()
    return _old_atom_fv(a)


def atom_str(a):
    k = a[0]
    if k == "T":
        return f"{a[1]}{'*' if a[2] else ''}[{','.join(map(str, a[3]))}]"
    if k == "F":
        return f"{a[1]}({'; '.join(map(str, a[2]))})"
    if k == "I":
        return f"[{a[2]}{'==0' if a[1] == 'eq' else '<0'}]"
    if k == "P":
        return f"[{a[2]} {a[1]}]"
    return f"#{a[1]}"


def ix2e(x):
    out = E([])
    for m, c in x.t.items():
        t = E.const(c)
        for s in m:
            t = t * E.atom(("N", s))
        out = out + t
    return out


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def tmul(a, b):
    if a.b and b.b:
        va = {v for v, _ in a.b}
        if any(v in va for v, _ in b.b):
            b = b.renamed()
    if a.b or b.b:
        # avoid capture of free vars
        bvb = {v for v, _ in b.b}
        if bvb & a.fv():
            b = b.renamed()
        bva = {v for v, _ in a.b}
        if bva & b.fv():
            a = a.renamed()
    return T(cmul(a.c, b.c), a.b + b.b, fmerge(a.f, b.f))


def fmerge(f, g):
    if not f:
        return g
    if not g:
        return f
    d = {}
    for a, p in f + g:
        k = a
        if k in d:
            d[k] += p
        else:
            d[k] = p
    out = []
    for a, p in d.items():
        if a[0] in ("I", "P"):
            p = F1
        if p != 0:
            out.append((a, p))
    return tuple(out)


def merge(ts):
    """cheap merge of syntactically identical terms without bounds"""
    d = {}
    out = []
    for t in ts:
        if t.c[0] == 0 and t.c[1] == 0:
            continue
        if t._key is None and any(a[0] == "X" for a, _ in t.f):
            for t2 in _expandX(t).ts:
                out.append(t2)
            continue
        out.append(t)
    if len(out) > 1:
        d = {}
        for t in out:
            k = t._key
            if k is None:
                k = t._key = HKey((t.b, frozenset(t.f)))
            if k in d:
                o = d[k]
                o = d[k] = T((o.c[0] + t.c[0], o.c[1] + t.c[1]), o.b, o.f)
                o._key = k
            else:
                d[k] = t
        out = [t for t in d.values() if t.c[0] != 0 or t.c[1] != 0]
    return E(out)


class HKey:
    """tuple with a cached hash"""
    __slots__ = ("k", "h")

    def __init__(self, k):
        self.k, self.h = k, hash(k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or self.h == o.h and self.k == o.k


def _expandX(t):
    """expand integer polynomials used as values; they may mention t's bound variables, so the binders are
    taken off for the multiplication and put back afterwards"""
    acc = E([T(t.c, (), tuple((a, p) for a, p in t.f if a[0] != "X"))])
    for a, p in t.f:
        if a[0] == "X":
            acc = acc * epow(ix2e(a[1]), p)
    return E([T(s.c, t.b + s.b, s.f) for s in acc.ts])


def epow(e, p):
    p = Fraction(p)
    if p.denominator == 1 and p >= 0:
        r = E.const(1)
        for _ in range(int(p)):
            r = r * e
        return r
    if len(e.ts) == 1 and not e.ts[0].b:
        t = e.ts[0]
        if p.denominator == 1:
            n = int(-p)
            c = cinv(t.c)
            r = (F1, F0)
            for _ in range(n):
                r = cmul(r, c)
            if any(a[0] in ("I", "P") for a, _ in t.f):
                raise Unsupported("division by an indicator")
            return E([T(r, (), tuple((a, q * p) for a, q in t.f))])
    if p.denominator == 1:
        return E.atom(("F", "inv", (e,)), -p)
    if p.denominator == 2:
        return epow(esqrt(e), p * 2)
    return E.atom(("F", "pow", (e, E.const(p))))


def cinv(c):
    d = c[0] * c[0] + c[1] * c[1]
    if d == 0:
        raise ZeroDivisionError("symbolic division by literal zero")
    return (c[0] / d, -c[1] / d)


def _sqrt_int(n):
    """n>0 int -> (a, b) with sqrt(n) = a*sqrt(b), b squarefree"""
    a, b = 1, 1
    d = 2
    while d * d <= n:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        a *= d ** (k // 2)
        if k % 2:
            b *= d
        d += 1
    return a, b * n


def esqrt(e):
    """principal square root of a real nonnegative expression (domain obligation left to the caller)"""
    if e.is_zero():
        return E([])
    if len(e.ts) == 1:
        t = e.ts[0]
        if not t.b and t.c[1] == 0 and t.c[0] > 0:
            q = t.c[0]
            a, b = _sqrt_int(q.numerator * q.denominator)
            r = E.const(Fraction(a, q.denominator))
            if b != 1:
                r = r * E.atom(("F", "rt", (E.const(b),)))
            rest = []
            for at, p in t.f:
                if at[0] in ("I", "P"):
                    r = r * E.atom(at)
                elif is_pos_atom(at):
                    r = r * E([T((F1, F0), (), ((at, p / 2),))])
                else:
                    rest.append((at, p))
            if rest:
                r = r * E.atom(("F", "sqrt", (E([T((F1, F0), (), tuple(rest))]),)))
            return r
    return E.atom(("F", "sqrt", (e,)))


# registry of tensor declarations: name -> dict(real, pos, sym=[(perm,conj)...])
DECL = {}
# declaration order of dimension symbols (order of the parts of a composite range)
DIMORD = {}


def decl(name, **kw):
    DECL[name] = kw
    return name


def is_pos_atom(a):
    if a[0] == "T":
        return bool(DECL.get(a[1], {}).get("pos"))
    if a[0] == "F":
        return a[1] in ("exp_r", "rt", "absq")
    if a[0] == "N":
        return True   # integer symbols used under sqrt are indices/dims (>=0)
    return False


REAL_F = {"abs", "inv", "sqrt", "rt", "exp", "log", "cos", "sin", "cosh", "sinh", "tanh", "max", "min", "floor",
          "lag", "fact", "pow", "arccos", "sign", "rootabs", "angle"}


def is_real_exp(a):
    return all(all(x[0] in ("I", "P", "N") or x[0] == "T" and DECL.get(x[1], {}).get("real") for x, p in t.f) and t.c[1] == 0 and not t.b for t in a[2][0].ts)


def atom_conj(a):
    k = a[0]
    if k == "T":
        if DECL.get(a[1], {}).get("real"):
            return a
        return ("T", a[1], not a[2], a[3])
    if k == "F":
        if a[1] in ("abs", "rt", "angle"):
            return a
        return ("F", a[1], tuple(conj(x) if isinstance(x, E) else x for x in a[2]))
    return a


def conj(e):
    e = E.of(e)
    out = []
    for t in e.ts:
        out.append(T((t.c[0], -t.c[1]), t.b, tuple((atom_conj(a), p) for a, p in t.f)))
    return merge(out)


def real(e):
    e = E.of(e)
    return (e + conj(e)).scale(Fraction(1, 2))


def imag(e):
    e = E.of(e)
    return (e - conj(e)) * E.const(0, Fraction(-1, 2))


def esum(e, var, upper):
    e = E.of(e)
    out = []
    for t in e.ts:
        if var in {v for v, _ in t.b}:
            t = t.renamed()
        out.append(T(t.c, ((var, IX.of(upper)),) + t.b, t.f))
    return E(out)


def ind_eq(a, b=0):
    ix = IX.of(a) - IX.of(b)
    if ix.is_const():
        return E.const(1 if ix.cval() == 0 else 0)
    # sign-normalise
    m = sorted(ix.t, key=lambda m: tuple(_sk(x) for x in m))
    m = [x for x in m if x != ()]
    if ix.t[m[0]] < 0:
        ix = -ix
    return E.atom(("I", "eq", ix))


def ind_lt(a, b=0):
    """[a<b]"""
    ix = IX.of(a) - IX.of(b)
    if ix.is_const():
        return E.const(1 if ix.cval() < 0 else 0)
    return E.atom(("I", "lt", ix))


def fn(name, *args):
    """function application with light simplification"""
    args = tuple(E.of(a) if not isinstance(a, IX) else a for a in args)
    if name == "exp":
        if args[0].is_zero():
            return E.const(1)
        pre, keep = E.const(1), []
        for t in args[0].ts:
            # exp(c log x + r) = x^c exp(r)
            if not t.b and len(t.f) == 1 and t.f[0][1] == 1 and t.f[0][0][0] == "F" and t.f[0][0][1] == "log" \
                    and t.c[1] == 0:
                pre = pre * epow(t.f[0][0][2][0], t.c[0])
            else:
                keep.append(t)
        if len(keep) != len(args[0].ts):
            return pre * fn("exp", E(keep))
        return E.atom(("F", "exp", args))
    if name == "sqrt":
        return esqrt(args[0])
    if name == "inv":
        return epow(args[0], -1)
    if name == "abs":
        e = args[0]
        if e.is_zero():
            return e
        if len(e.ts) == 1 and not e.ts[0].b:
            t = e.ts[0]
            r = E.const(1)
            if t.c[1] == 0:
                r = E.const(abs(t.c[0]))
            else:
                r = esqrt(E.const(t.c[0] ** 2 + t.c[1] ** 2))
            for a, p in t.f:
                if a[0] in ("I", "P", "N") or is_pos_atom(a) or a[0] == "F" and a[1] == "abs":
                    r = r * E([T((F1, F0), (), ((a, p),))])
                elif a[0] == "F" and a[1] == "exp":
                    r = r * E([T((F1, F0), (), ((("F", "exp", (real(a[2][0]),)), p),))])
                else:
                    if a[0] == "T" and a[2]:
                        a = ("T", a[1], False, a[3])
                    r = r * E([T((F1, F0), (), ((("F", "abs", (E.atom(a),)), p),))])
            return r
        if e.ts and all(not t.b and t.c[1] == 0 and t.c[0] > 0 and all(is_pos_atom(a) and a[0] != "N" or a[0] == "F" and (a[1] == "abs" or a[1] == "exp" and is_real_exp(a)) for a, p in t.f) for t in e.ts):
            return e   # a sum of positive terms
        return E.atom(("F", "abs", args))
    if name in ("sinh", "sin", "log") and args[0].is_zero() and name != "log":
        return E([])
    if name in ("cosh", "cos") and args[0].is_zero():
        return E.const(1)
    if name == "cosh":
        x = args[0]
        return (fn("exp", x) + fn("exp", -x)).scale(Fraction(1, 2))
    if name == "sinh":
        x = args[0]
        return (fn("exp", x) - fn("exp", -x)).scale(Fraction(1, 2))
    if name == "cos":
        pass
    if name == "log" and args[0].is_const() and args[0].cval() == (F1, F0):
        return E([])
    return E.atom(("F", name, args))


def efact(ix):
    """n! as a function of an integer expression (n >= 0)"""
    ix = IX.of(ix)
    if ix.is_const():
        import math
        return E.const(math.factorial(ix.cval()))
    return E.atom(("F", "fact", (ix,)))


def ipow(a, ix):
    """a ** ix with symbolic non-negative integer exponent"""
    if ix.is_const():
        return epow(a, ix.cval())
    if a.is_const() and a.cval() == (F1, F0):
        return E.const(1)
    if len(a.ts) == 1 and not a.ts[0].b:
        t = a.ts[0]
        r = E.const(1)
        if t.c != (F1, F0):
            r = r * E.atom(("F", "ipow", (E.const(*t.c), ix)))
        for at, p in t.f:
            if p.denominator != 1:
                if at[0] == "F" and at[1] == "rt" or True:
                    b = E([T((F1, F0), (), ((at, p),))])
                    r = r * E.atom(("F", "ipow", (b, ix)))
                    continue
            b = E.atom(at)
            r = r * E.atom(("F", "ipow", (b, ix * int(p))))
        return r
    return E.atom(("F", "ipow", (a, ix)))
