"""Symbolic values: integers (SI), booleans (SB), scalars (Sc), arrays (Arr) over the exact algebra."""
import itertools
import math
from fractions import Fraction
import numpy as np

from . import alg
from .alg import (IX, E, T, F0, F1, Unsupported, fresh, ind_eq, ind_lt, fn, conj, real, imag, esum, epow, esqrt,
                  ix2e, iatom, DECL, decl, tofrac)
from . import norm as N


class PyRaise(Exception):
    """the interpreted program raises"""

    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg
        super().__init__(f"{exc}: {msg}")


class State:
    """global verification state of one symbolic execution"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.ctx = N.Ctx()
        self.frames = []        # write journal
        self.assumptions = set()
        self.undecided = []
        self.safety = 0
        self.path = []
        self.opaque = {}

    def fact(self, *ixs):
        self.ctx = self.ctx.add(*ixs)


S = State()


def touch(obj):
    for fr in reversed(S.frames):
        if id(obj) in fr:
            break
        fr[id(obj)] = (obj, snapshot(obj))
        break


def snapshot(o):
    if isinstance(o, Cell):
        return (o.e, o.dtype)
    if isinstance(o, list):
        return list(o)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, set):
        return set(o)
    if isinstance(o, SymObj):
        return dict(o.attrs)
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, SymSeq):
        return list(o.segs)
    raise Unsupported(f"journal {type(o)}")


def restore(o, s):
    if isinstance(o, Cell):
        o.e, o.dtype = s
    elif isinstance(o, list):
        o[:] = s
    elif isinstance(o, dict):
        o.clear()
        o.update(s)
    elif isinstance(o, set):
        o.clear()
        o.update(s)
    elif isinstance(o, SymObj):
        o.attrs = s if isinstance(s, dict) else dict(s)
    elif isinstance(o, np.ndarray):
        o[...] = s
    elif isinstance(o, SymSeq):
        o.segs = list(s)


class SymObj:
    """an object of a real class with symbolic attributes"""

    def __init__(self, cls=None, attrs=None, label="obj"):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.label = label

    def __repr__(self):
        return f"<SymObj {self.label}>"


class SymSeq:
    """list built in a summarised loop: segments ('item', value) / ('comp', var, upper, value)"""

    def __init__(self, segs=()):
        self.segs = list(segs)

    def length(self):
        r = IX.const(0)
        for s in self.segs:
            r = r + (IX.const(1) if s[0] == "item" else s[2])
        return r


# ---------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SI, SB, Sc, Arr, SymObj, SymSeq, MArr)) or type(x).__name__ == "SymRange"


class SI:
    __slots__ = ("ix",)

    def __init__(self, ix):
        self.ix = IX.of(ix)

    def __repr__(self):
        return f"SI({self.ix})"

    def __hash__(self):
        return hash(self.ix)


class SB:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SB({self.e})"


class Sc:
    __slots__ = ("e", "dtype")

    def __init__(self, e, dtype="f"):
        self.e, self.dtype = E.of(e), dtype

    def __repr__(self):
        return f"Sc({self.e})"

    @property
    def real(self):
        return Sc(real(self.e)) if self.dtype == "c" else self

    @property
    def imag(self):
        return Sc(imag(self.e)) if self.dtype == "c" else Sc(E([]))

    def conj(self):
        return Sc(conj(self.e), self.dtype) if self.dtype == "c" else self
    conjugate = conj


def mkint(ix):
    return ix.cval() if ix.is_const() else SI(ix)


def mkbool(e):
    e = E.of(e)
    if e.is_const():
        return e.cval()[0] != 0
    return SB(e)


def to_ix(x):
    if isinstance(x, SI):
        return x.ix
    if isinstance(x, IX):
        return x
    if isinstance(x, (bool, np.bool_)):
        return IX.const(int(x))
    if isinstance(x, (int, np.integer)):
        return IX.const(int(x))
    if isinstance(x, SB):
        raise Unsupported("bool as int")
    if isinstance(x, Sc):
        e = N.norm(x.e, S.ctx)
        ix = e2ix(e)
        if ix is not None:
            return ix
        raise Unsupported("scalar used as integer")
    if isinstance(x, Arr) and not x.shape and x.dtype == "i":
        ix = e2ix(x.at([]))
        if ix is not None:
            return ix
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype.kind in "iu":
        return IX.const(int(x))
    raise Unsupported(f"not an integer: {x!r}")


def e2ix(e):
    """integer-valued E made only of N atoms -> IX"""
    r = IX.const(0)
    for t in e.ts:
        if t.b or t.c[1] != 0 or t.c[0].denominator != 1:
            return None
        p = IX.const(int(t.c[0]))
        for a, q in t.f:
            if a[0] != "N" or q.denominator != 1 or q < 0:
                return None
            for _ in range(int(q)):
                p = p * IX.sym(a[1])
        r = r + p
    return r


def to_e(x):
    """scalar -> (E, dtype)"""
    if isinstance(x, Sc):
        return x.e, x.dtype
    if isinstance(x, E):
        return x, "c"
    if isinstance(x, SI):
        return ix2e(x.ix), "i"
    if isinstance(x, IX):
        return ix2e(x), "i"
    if isinstance(x, SB):
        return x.e, "b"
    if isinstance(x, (bool, np.bool_)):
        return E.const(int(x)), "b"
    if isinstance(x, (int, np.integer)):
        return E.const(int(x)), "i"
    if isinstance(x, (float, np.floating)):
        return cfloat(float(x)), "f"
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return cfloat(x.real) + cfloat(x.imag) * E.const(0, 1), "c"
    if isinstance(x, Fraction):
        return E.const(x), "f"
    if isinstance(x, Arr) and not x.shape:
        return x.at([]), x.dtype
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_e(x.item())
    raise Unsupported(f"scalar {type(x)}")


_KNOWN = {}
for _k in range(2, 50):
    _KNOWN[math.sqrt(_k)] = lambda _k=_k: esqrt(E.const(_k))


def cfloat(x):
    """float literal -> exact: decimal reading, or a recognised sqrt(k)"""
    if x != x or x in (float("inf"), float("-inf")):
        return E.atom(("F", "nonfinite", (repr(x),)))
    f = Fraction(repr(x))
    if f.denominator < 10 ** 9 or abs(x) < 1e-6:
        return E.const(f)
    s = -1 if x < 0 else 1
    for k in (abs(x),):
        if k in _KNOWN:
            return _KNOWN[k]().scale(s)
        sq = Fraction(k * k).limit_denominator(1000)
        if sq > 0 and abs(math.sqrt(sq) - k) < 2e-16 * k:
            return esqrt(E.const(sq)).scale(s)
        q = Fraction(k).limit_denominator(1000)
        if abs(float(q) - k) < 2e-16 * k:
            return E.const(q).scale(s)
        if k == math.pi:
            return E.atom(("T", "pi", False, ())).scale(s)
    return E.const(f)


decl("pi", real=True, pos=True)

DT = "bifc"


def dmax(*ds):
    return max(ds, key=DT.index)


def np_dtype_kind(d):
    if d is None:
        return "f"
    if isinstance(d, str) and d in ("b", "i", "f", "c"):
        return d
    if d is bool or d is np.bool_:
        return "b"
    k = np.dtype(d).kind
    return {"f": "f", "c": "c", "i": "i", "u": "i", "b": "b"}[k]


# ---------------------------------------------------------------- arrays
class Cell:
    __slots__ = ("vars", "shape", "e", "dtype", "label", "rv", "born", "__weakref__")
    count = 0

    def __init__(self, vars_, shape, e, dtype, label=""):
        Cell.count += 1
        self.born = Cell.count
        self.rv = None      # (base array, "real"|"imag"): this cell is numpy's real/imag view of base
        self.vars, self.shape, self.e, self.dtype, self.label = tuple(vars_), tuple(shape), e, dtype, label


def ident(idx):
    return idx


def is_var(ix, name):
    return len(ix.t) == 1 and ix.t.get((name,)) == 1


class Arr:
    __slots__ = ("cell", "shape", "fwd", "inv")

    def __init__(self, cell, shape=None, fwd=None, inv=None):
        self.cell = cell
        self.shape = tuple(cell.shape if shape is None else shape)
        self.fwd = fwd          # view idx -> base idx ; None = identity
        self.inv = inv          # base idx -> (guard E, view idx) ; None = identity

    @property
    def dtype(self):
        return self.cell.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        idx = [to_ix(i) for i in idx]
        b = self.fwd(idx) if self.fwd else idx
        if self.cell.rv is not None and self.cell.rv[0].cell.e is not self.cell.rv[2]:
            raise Unsupported("read of a real/imag view after its base was modified")
        mp = {k: i for k, i in zip(self.cell.vars, b) if not is_var(i, k)}
        return self.cell.e.subst(mp) if mp else self.cell.e

    def __repr__(self):
        return f"Arr{tuple(str(s) for s in self.shape)}:{self.dtype}"

    def __array__(self, *a, **k):
        raise Unsupported("symbolic array passed to native numpy")

    def __len__(self):
        raise Unsupported("native len() of symbolic array")

    # ---- python operators (used by contract specs; interpreter uses the same functions)
    def __add__(self, o): return binop("+", self, o)
    def __radd__(self, o): return binop("+", o, self)
    def __sub__(self, o): return binop("-", self, o)
    def __rsub__(self, o): return binop("-", o, self)
    def __mul__(self, o): return binop("*", self, o)
    def __rmul__(self, o): return binop("*", o, self)
    def __truediv__(self, o): return binop("/", self, o)
    def __rtruediv__(self, o): return binop("/", o, self)
    def __pow__(self, o): return binop("**", self, o)
    def __matmul__(self, o): return matmul(self, o)
    def __neg__(self): return unary(lambda e: -e, self)
    def __getitem__(self, k): return getitem(self, k)
    def __setitem__(self, k, v): setitem(self, k, v)

    @property
    def T(self):
        return transpose(self, tuple(reversed(range(self.ndim))))

    def transpose(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        return transpose(self, p or tuple(reversed(range(self.ndim))))

    def conj(self): return npf_conj(self)
    def sum(self, axis=None): return asum(self, axis)
    def copy(self): return copy(self)
    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    @property
    def real(self): return npf_real(self)

    @property
    def imag(self): return npf_imag(self)


def _install_scalar_ops():
    def mk(op, rev):
        if rev:
            return lambda self, o: binop(op, o, self)
        return lambda self, o: binop(op, self, o)
    for cls in (Sc, SI):
        for nm, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("pow", "**"),
                       ("floordiv", "//"), ("mod", "%")):
            setattr(cls, f"__{nm}__", mk(op, False))
            setattr(cls, f"__r{nm}__", mk(op, True))
        cls.__neg__ = lambda self: binop("-", 0, self)
        for nm, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            setattr(cls, f"__{nm}__", (lambda op: lambda self, o: compare(op, self, o))(op))

    def sbop(f):
        return lambda self, o: mkbool(f(self.e, to_e(o)[0]))
    SB.__and__ = SB.__rand__ = sbop(lambda a, b: a * b)
    SB.__or__ = SB.__ror__ = sbop(lambda a, b: a + b - a * b)
    SB.__invert__ = lambda self: mkbool(E.const(1) - self.e)


def new_arr(shape, f, dtype="f", label="", vs=None):
    """array with element function f(list of IX) -> E"""
    shape = tuple(to_ix(s) for s in shape)
    vs = vs or [fresh("x") for _ in shape]
    e = f([IX.sym(v) for v in vs])
    return Arr(Cell(vs, shape, E.of(e), dtype, label))


def tensor(name, shape, complex_=False, sym=None, pos=False, asym=None):
    """opaque input tensor"""
    d = dict(real=not complex_, pos=pos)
    if asym:
        d["asym"] = asym
    if sym:
        d["sym"] = sym
    decl(name, **d)
    return new_arr(shape, lambda ix: E.atom(("T", name, False, tuple(ix))), "c" if complex_ else "f", label=name)


def const_arr(a):
    """concrete ndarray -> symbolic array (element by indicator expansion, small only) """
    a = np.asarray(a)
    if a.size > 64:
        raise Unsupported("large concrete array mixed with symbolic")
    if a.dtype == object:
        raise Unsupported("object array")

    def f(ix):
        if all(i.is_const() for i in ix):
            return to_e(a[tuple(i.cval() for i in ix)])[0]
        r = E([])
        flat = a.reshape(-1)
        if a.size and all(flat[0] == x for x in flat):
            return to_e(flat[0])[0]
        for k in np.ndindex(*a.shape):
            v = a[k]
            if v == 0:
                continue
            t = to_e(v)[0]
            for x, kk in zip(ix, k):
                t = t * ind_eq(x, kk)
            r = r + t
        return r
    return new_arr([IX.const(s) for s in a.shape], f, np_dtype_kind(a.dtype))


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray):
        return const_arr(x)
    if isinstance(x, SymSeq):
        return seq_to_arr(x)
    if isinstance(x, range):
        return const_arr(np.array(x, dtype=int))
    if type(x).__name__ == "SymRange":
        return new_arr((to_ix(x.n),), lambda ix: to_e(x.val(ix[0]))[0], "i")
    if isinstance(x, (list, tuple)):
        return stack([as_arr(y) for y in x], 0)
    e, d = to_e(x)
    return Arr(Cell((), (), e, d))


def seq_to_arr(s):
    parts = []
    for seg in s.segs:
        if seg[0] == "item":
            a = as_arr(seg[1])
            parts.append(new_arr((IX.const(1),) + a.shape, lambda ix, a=a: a.at(ix[1:]), a.dtype))
        else:
            _, v, u, val = seg
            a = as_arr(val)
            parts.append(new_arr((u,) + a.shape, lambda ix, a=a, v=v: a.at(ix[1:]).subst({v: ix[0]}), a.dtype))
    if len(parts) == 1:
        return parts[0]
    return concat(parts, 0)


def scal(e, d):
    if d == "b":
        return mkbool(e)
    if e.is_const():
        re, im = e.cval()
        if d == "i" and re.denominator == 1:
            return int(re)
        if d == "f" and re.denominator == 1 and im == 0 and abs(re) < 2 ** 50:
            return float(re)
    if d == "i":
        ix = e2ix(e)
        if ix is not None:
            return mkint(ix)
    return Sc(e, d)


def demote(a):
    """0-d array -> scalar"""
    if isinstance(a, Arr) and not a.shape:
        return scal(a.at([]), a.dtype)
    return a


def dim_eq(a, b):
    if a == b:
        return True
    if a.is_const() and b.is_const():
        return False
    d = a - b
    if S.ctx.ge0(d) and S.ctx.ge0(-d):
        return True
    if S.ctx.ge0(d - 1) or S.ctx.ge0(-d - 1):
        return False
    return None


def is_one(d):
    return d.is_const() and d.cval() == 1


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = IX.const(1)
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_one(d):
                continue
            if is_one(cur):
                cur = d
            else:
                q = dim_eq(cur, d)
                S.safety += 1
                if q is False:
                    raise PyRaise("ValueError", f"shapes do not broadcast: {shapes}")
                if q is None:
                    raise Unsupported(f"cannot prove dimensions equal: {cur} vs {d}")
        out.append(cur)
    return tuple(out)


def bat(a, shape, idx):
    off = len(shape) - a.ndim
    ii = []
    for k, d in enumerate(a.shape):
        ii.append(IX.const(0) if is_one(d) and not is_one(shape[k + off]) else idx[k + off])
    return a.at(ii)


class MArr:
    """A[mask]: the selected entries of `full`, in row-major order of the mask (length not tracked)"""

    def __init__(self, full, mask):
        self.full, self.mask = full, mask

    def _b(op, sw=False):
        def g(self, o):
            return binop(op, o, self) if sw else binop(op, self, o)
        return g
    __add__, __radd__, __sub__, __rsub__ = _b("+"), _b("+", True), _b("-"), _b("-", True)
    __mul__, __rmul__, __truediv__, __rtruediv__ = _b("*"), _b("*", True), _b("/"), _b("/", True)
    __pow__ = _b("**")

    def __neg__(self):
        return binop("*", -1, self)


def same_mask(m1, m2):
    if m1 is m2:
        return True
    if len(m1.shape) != len(m2.shape) or any(dim_eq(x, y) is not True for x, y in zip(m1.shape, m2.shape)):
        return False
    vs = [fresh("k") for _ in m1.shape]
    ix = [IX.sym(v) for v in vs]
    fs = []
    for v, d in zip(vs, m1.shape):
        fs += [IX.sym(v), d - 1 - IX.sym(v)]
    return N.equal(m1.at(ix), m2.at(ix), S.ctx.add(*fs))


def marr_apply(f, args):
    ms = [a for a in args if isinstance(a, MArr)]
    for m in ms[1:]:
        if not same_mask(ms[0].mask, m.mask):
            raise Unsupported("arithmetic on differently masked selections")
    for a in args:
        if not isinstance(a, MArr) and isinstance(a, (Arr, np.ndarray, list, tuple, SymSeq)) and as_arr(a).ndim:
            raise Unsupported("masked selection combined with a dense array")
    return MArr(f(*[a.full if isinstance(a, MArr) else a for a in args]), ms[0].mask)


def elementwise(f, dt, *args):
    if any(isinstance(a, MArr) for a in args):
        return marr_apply(lambda *q: elementwise(f, dt, *q), args)
    if any(isinstance(a, (Arr, np.ndarray, list, tuple, SymSeq)) for a in args):
        arrs = [as_arr(a) for a in args]
        sh = bshape(*[a.shape for a in arrs])
        d = dt([a.dtype for a in arrs]) if callable(dt) else dt
        # the new array may share the index variables of an operand of the same shape: no substitution in that operand
        base = max((a for a in arrs if a.fwd is None and a.shape == sh and len(a.cell.e.ts) > 3), key=lambda a: len(a.cell.e.ts), default=None)
        r = new_arr(sh, lambda ix: f(*[bat(a, sh, ix) for a in arrs]), d, vs=None if base is None else base.cell.vars)
        return demote(r)
    es = [to_e(a) for a in args]
    d = dt([x[1] for x in es]) if callable(dt) else dt
    return scal(f(*[x[0] for x in es]), d)


def ediv(a, b):
    if b.is_zero():
        raise PyRaise("ZeroDivisionError")
    if not b.is_const():
        S.assumptions.add("division: denominators assumed nonzero")
    return a * epow(N.norm(b, S.ctx) if len(b.ts) > 1 or any(x[0] in ("I", "P") for x, _ in b.ts[0].f) else b, -1)


def _pow(a, b):
    if b.is_const():
        p = b.cval()[0]
        if p.denominator == 1 and p >= 0:
            return epow(a, p)
        if p.denominator == 1:
            return epow(ediv(E.const(1), a), -p)
        if p.denominator == 2:
            q = p * 2
            s = esqrt(a)
            return epow(s, q) if q >= 0 else epow(ediv(E.const(1), s), -q)
    ix = e2ix(b)
    if ix is not None:
        return alg.ipow(a, ix)
    raise Unsupported("symbolic power")


def binop(op, a, b):
    if isinstance(a, (int, np.integer)) and not isinstance(a, bool) and isinstance(b, SI) or \
       isinstance(a, SI) and isinstance(b, (int, np.integer, SI)):
        x, y = to_ix(a), to_ix(b)
        if op == "+":
            return mkint(x + y)
        if op == "-":
            return mkint(x - y)
        if op == "*":
            return mkint(x * y)
        if op in ("//", "%"):
            S.safety += 1
            if not S.ctx.ge0(y - 1):
                raise Unsupported("integer division by possibly non-positive")
            return mkint(N.simp_ix(iatom(op, [x, y]), S.ctx))
        if op == "**":
            if y.is_const() and y.cval() >= 0:
                r = IX.const(1)
                for _ in range(y.cval()):
                    r = r * x
                return mkint(r)
            if x.is_const() and S.ctx.ge0(y):
                return Sc(alg.ipow(E.const(x.cval()), y), "i")
            raise Unsupported("int power")
        if op == "/":
            return Sc(ediv(ix2e(x), ix2e(y)), "f")
        raise Unsupported(op)
    mx = lambda ds: dmax("i", *ds) if op != "*" else dmax(*ds)
    if op == "+":
        return elementwise(lambda x, y: x + y, mx, a, b)
    if op == "-":
        return elementwise(lambda x, y: x - y, mx, a, b)
    if op == "*":
        return elementwise(lambda x, y: x * y, lambda ds: dmax(*ds), a, b)
    if op == "/":
        return elementwise(ediv, lambda ds: dmax("f", *ds), a, b)
    if op == "**":
        return elementwise(_pow, lambda ds: dmax("i", *ds), a, b)
    if op == "@":
        return matmul(a, b)
    if op == "//":
        xa, xb = to_ix(a), to_ix(b)
        if not S.ctx.ge0(xb - 1):
            raise Unsupported("integer division by possibly non-positive")
        return mkint(N.simp_ix(iatom("//", [xa, xb]), S.ctx))
    if op == "%":
        xa, xb = to_ix(a), to_ix(b)
        if not S.ctx.ge0(xb - 1):
            raise Unsupported("modulo by possibly non-positive")
        return mkint(N.simp_ix(iatom("%", [xa, xb]), S.ctx))
    if op == "&":
        return elementwise(lambda x, y: x * y, "b", a, b)
    if op == "|":
        return elementwise(lambda x, y: x + y - x * y, "b", a, b)
    raise Unsupported(f"operator {op}")


def cmp_e(op, x, dx, y, dy):
    """indicator E for comparison of scalar expressions"""
    d = x - y
    ix = e2ix(d)
    if ix is not None:
        if op == "<":
            return ind_lt(ix)
        if op == "<=":
            return ind_lt(ix - 1)
        if op == ">":
            return ind_lt(-ix)
        if op == ">=":
            return ind_lt(-ix - 1)
        if op == "==":
            return ind_eq(ix)
        return E.const(1) - ind_eq(ix)
    if op in ("==", "!="):
        if d.is_zero():
            return E.const(1 if op == "==" else 0)
        r = N.ind_p("eq", d)
        return r if op == "==" else E.const(1) - r
    if op == "<":
        return N.ind_p("lt", d)
    if op == ">=":
        return E.const(1) - N.ind_p("lt", d)
    if op == ">":
        return N.ind_p("lt", -d)
    if op == "<=":
        return E.const(1) - N.ind_p("lt", -d)
    raise Unsupported(op)


def compare(op, a, b):
    if any(isinstance(x, (Arr, np.ndarray)) for x in (a, b)):
        return elementwise(lambda x, y: cmp_e(op, x, "f", y, "f"), "b", a, b)
    x, dx = to_e(a)
    y, dy = to_e(b)
    return mkbool(cmp_e(op, x, dx, y, dy))


def unary(f, a, dt=None):
    return elementwise(f, (lambda ds: dt) if dt else (lambda ds: ds[0]), a)


def npf_conj(a):
    if isinstance(a, (list, tuple)):
        a = as_arr(a)
    if isinstance(a, Arr) and a.dtype != "c":
        return a
    return unary(lambda e: conj(e), a)


def npf_real(a):
    if isinstance(a, Arr) and a.dtype != "c":
        return a
    r = unary(real, a, "f")
    if isinstance(a, Arr) and isinstance(r, Arr):
        r.cell.rv = (a, "real", a.cell.e)
    return r


def npf_imag(a):
    if isinstance(a, Arr) and a.dtype != "c":
        return unary(lambda e: E([]), a, "f")
    r = unary(imag, a, "f")
    if isinstance(a, Arr) and isinstance(r, Arr):
        r.cell.rv = (a, "imag", a.cell.e)
    return r


def ufn(name):
    def g(a):
        def dt(ds):
            if name == "abs":
                return "i" if ds[0] == "i" else "f"
            return dmax("f", ds[0])
        return elementwise(lambda e: fn(name, e), dt, a)
    return g


def copy(a):
    a = as_arr(a)
    return new_arr(a.shape, lambda ix: a.at(ix), a.dtype)


# ---------------------------------------------------------------- views
def compose(a, shape, f, g):
    """view of view: f: new idx -> a idx ; g: a idx -> (guard, new idx)"""
    fwd = (lambda ix: a.fwd(f(ix))) if a.fwd else f

    if a.inv:
        def inv(b):
            g1, i1 = a.inv(b)
            g2, i2 = g(i1)
            return g1 * g2, i2
    else:
        inv = g
    return Arr(a.cell, shape, fwd, inv)


def transpose(a, p):
    a = as_arr(a)
    p = tuple(int(x) % a.ndim for x in p)
    q = [0] * len(p)
    for i, x in enumerate(p):
        q[x] = i

    def f(ix):
        return [ix[q[k]] for k in range(len(p))]

    def g(ix):
        return E.const(1), [ix[x] for x in p]
    return compose(a, [a.shape[x] for x in p], f, g)


def flat_index(shape, idx):
    r = IX.const(0)
    for s, i in zip(shape, idx):
        r = r * s + i
    return r


def unflat(shape, k):
    out = []
    rest = k
    for d in reversed(shape[1:]):
        out.append(iatom("%", [rest, d]))
        rest = iatom("//", [rest, d])
    out.append(rest)
    return list(reversed(out))


def prod(shape):
    r = IX.const(1)
    for s in shape:
        r = r * s
    return r


def reshape(a, shape):
    a = as_arr(a)
    shape = [to_ix(s) for s in shape]
    for s in shape:
        pass
    if any(s.is_const() and s.cval() == -1 for s in shape):
        known = prod([s for s in shape if not (s.is_const() and s.cval() == -1)])
        q = alg.idiv_exact(prod(a.shape), known)
        if q is None:
            raise Unsupported("reshape -1")
        shape = [q if (s.is_const() and s.cval() == -1) else s for s in shape]
    tot = prod(a.shape)
    S.safety += 1
    if prod(shape) != tot:
        q = dim_eq(prod(shape), tot)
        if q is False:
            raise PyRaise("ValueError", "reshape size")
        if q is None:
            raise Unsupported("reshape size not provable")
    old = list(a.shape)
    # strip identical leading axes (common: merge/split trailing axes)
    k = 0
    while k < len(old) and k < len(shape) and old[k] == shape[k]:
        k += 1
    if k == len(old) == len(shape):
        return a
    o2, s2 = old[k:], shape[k:]
    # strip identical trailing axes
    m = 0
    while m < len(o2) and m < len(s2) and o2[-1 - m] == s2[-1 - m]:
        m += 1
    ot, st = (o2[:len(o2) - m], s2[:len(s2) - m])
    tail = m

    def conv(src, dst, ix):
        mid = ix[k:len(ix) - tail] if tail else ix[k:]
        if not src:
            fl = IX.const(0)
        else:
            fl = flat_index(src, mid)
        if not dst:
            new = []
        else:
            new = unflat(dst, fl)
            # reduce using S.ctx-independent exact rules
        return list(ix[:k]) + new + (list(ix[len(ix) - tail:]) if tail else [])

    def f(ix):
        return conv(st, ot, ix)

    def g(ix):
        return E.const(1), conv(ot, st, ix)
    return compose(a, shape, f, g)


def norm_index(i, n):
    """python index semantics; returns IX in [0,n) (safety obligation)"""
    ix = to_ix(i)
    S.safety += 1
    c = S.ctx
    if ix.is_const() and ix.cval() < 0:
        r = n + ix
        if not c.ge0(r):
            if c.ge0(-r - 1):
                raise PyRaise("IndexError", f"{ix} for size {n}")
            S.undecided.append(f"index {ix} within size {n}")
        return r
    if c.ge0(ix):
        if not c.ge0(n - 1 - ix):
            if c.ge0(ix - n):
                raise PyRaise("IndexError", f"{ix} for size {n}")
            S.undecided.append(f"index {ix} < {n}")
        return ix
    if c.ge0(-ix - 1):
        r = n + ix
        if not c.ge0(r):
            S.undecided.append(f"index {ix} within size {n}")
        return r
    S.undecided.append(f"index {ix} sign")
    raise Unsupported(f"index of undetermined sign: {ix}")


def clamp_bound(b, n, default):
    if b is None:
        return default
    ix = to_ix(b)
    c = S.ctx
    if ix.is_const() and ix.cval() < 0 or c.ge0(-ix - 1):
        r = n + ix
        if c.ge0(r):
            return r
        raise Unsupported("slice bound")
    if c.ge0(ix):
        if c.ge0(n - ix):
            return ix
        if c.ge0(ix - n):
            return n
        raise Unsupported(f"slice bound {ix} vs {n} undecided")
    raise Unsupported(f"slice bound {ix} sign")


def getitem(a, key, scalar=True):
    a = as_arr(a) if not isinstance(a, Arr) else a
    if not isinstance(key, tuple):
        key = (key,)
    kc = key_cases(key) if any(isinstance(k, Sc) for k in key) else None
    if kc:
        c0, parts = S.ctx, []
        for g, kk, c in kc:
            S.ctx = c
            try:
                parts.append((g, as_arr(getitem(a, kk, scalar=False))))
            finally:
                S.ctx = c0
        for _, x in parts[1:]:
            if any(dim_eq(p, q) is not True for p, q in zip(x.shape, parts[0][1].shape)):
                raise Unsupported("piecewise index shapes")

        def pel(ix):
            r = E([])
            for g, x in parts:
                r = r + g * x.at(ix)
            return r
        r = new_arr(parts[0][1].shape, pel, a.dtype)
        return demote(r) if not r.shape and scalar else r
    # boolean masks / fancy
    nexp = a.ndim - sum(1 for k in key if k is not None and k is not Ellipsis)
    if nexp < 0:
        raise PyRaise("IndexError", "too many indices")
    ks = []
    seen = False
    for k in key:
        if k is Ellipsis:
            seen = True
            ks += [slice(None)] * nexp
        else:
            ks.append(k)
    if not seen:
        ks += [slice(None)] * nexp
    mk = [k for k in ks if isinstance(k, MArr)]
    if mk:
        if any(isinstance(k, slice) or k is None for k in ks) or not all(same_mask(mk[0].mask, k.mask) for k in mk):
            raise Unsupported("selection index mixed with slices")
        return MArr(as_arr(fancy_get(a, [k.full if isinstance(k, MArr) else k for k in ks])), mk[0].mask)
    if any(isinstance(k, (Arr, np.ndarray, list, SymSeq)) for k in ks):
        return fancy_get(a, ks)
    shape, fw, base = [], [], 0   # fw: per base axis ('fix', ix)|('ax', view axis, start)
    for k in ks:
        if k is None:
            shape.append(IX.const(1))
            continue
        n = a.shape[base]
        if isinstance(k, slice):
            st = k.step
            if st is not None and not (isinstance(st, (int, np.integer)) and st in (1, -1)):
                if isinstance(st, (int, np.integer)) and st > 1 and k.start is not None:
                    pass
                return strided_get(a, ks)
            if st == -1:
                if k.start is None and k.stop is None:
                    fw.append(("rev", len(shape), n))
                    shape.append(n)
                    base += 1
                    continue
                raise Unsupported("reverse slice")
            lo = clamp_bound(k.start, n, IX.const(0))
            hi = clamp_bound(k.stop, n, n)
            ln = hi - lo
            if not S.ctx.ge0(ln):
                if S.ctx.ge0(-ln):
                    ln = IX.const(0)
                else:
                    raise Unsupported(f"slice length sign {ln}")
            fw.append(("ax", len(shape), lo))
            shape.append(ln)
        else:
            if isinstance(k, (SB, bool)):
                raise Unsupported("boolean index")
            fw.append(("fix", norm_index(k, n)))
        base += 1

    def f(ix):
        out = []
        for x in fw:
            if x[0] == "fix":
                out.append(x[1])
            elif x[0] == "ax":
                out.append(x[2] + ix[x[1]])
            else:
                out.append(x[2] - 1 - ix[x[1]])
        return out
    nview = len(shape)
    ashape = a.shape

    def g(b):
        gd = E.const(1)
        out = [IX.const(0)] * nview
        for ax, (x, bi) in enumerate(zip(fw, b)):
            if x[0] == "fix":
                gd = gd * ind_eq(bi, x[1])
            elif x[0] == "rev":
                out[x[1]] = x[2] - 1 - bi
            else:
                out[x[1]] = bi - x[2]
                if x[2].t:
                    gd = gd * (E.const(1) - ind_lt(bi, x[2]))
                if shape[x[1]] + x[2] != ashape[ax]:
                    gd = gd * ind_lt(bi, x[2] + shape[x[1]])
        return gd, out
    r = compose(a, shape, f, g)
    if not shape and scalar:
        return demote(r)
    return r


def strided_get(a, ks):
    """slices with constant step (copy semantics for reads, no writes)"""
    shape, fw, base = [], [], 0
    for k in ks:
        if k is None:
            shape.append(IX.const(1))
            continue
        n = a.shape[base]
        if isinstance(k, slice):
            st = 1 if k.step is None else to_ix(k.step)
            st = IX.of(st)
            if not S.ctx.ge0(st - 1):
                raise Unsupported("slice step")
            lo = clamp_bound(k.start, n, IX.const(0))
            hi = clamp_bound(k.stop, n, n)
            ln = N.simp_ix(iatom("//", [hi - lo + st - 1, st]), S.ctx)
            fw.append(("ax", len(shape), lo, st))
            shape.append(ln)
        else:
            fw.append(("fix", norm_index(k, n)))
        base += 1

    def f(ix):
        return [x[1] if x[0] == "fix" else x[2] + x[3] * ix[x[1]] for x in fw]

    def g(b):
        gd = E.const(1)
        out = [IX.const(0)] * len(shape)
        for x, bi in zip(fw, b):
            if x[0] == "fix":
                gd = gd * ind_eq(bi, x[1])
            else:
                d = bi - x[2]
                if x[3] == IX.const(1):
                    out[x[1]] = d
                else:
                    out[x[1]] = iatom("//", [d, x[3]])
                    gd = gd * ind_eq(iatom("%", [d, x[3]]))
                gd = gd * (E.const(1) - ind_lt(bi, x[2])) * ind_lt(out[x[1]], shape[x[1]])
        return gd, out
    return compose(a, shape, f, g)


def int_elem(arr, ix):
    """integer-array element as IX"""
    e = arr.at(ix)
    r = e2ix(N.norm(e, S.ctx))
    if r is None:
        raise Unsupported("fancy index not integer-affine")
    return r


def int_cases(e, lim=16):
    """integer-valued expression, possibly piecewise on integer comparisons -> [(guard, IX, context)]"""
    e = N.norm(e, S.ctx)
    r = e2ix(e)
    if r is not None:
        return [(E.const(1), r, S.ctx)]
    inds = [a for a in N.free_inds(e) if a[0] == "I"]
    if not inds or lim < 2:
        raise Unsupported("index not integer-affine")
    a, c0, out = inds[0], S.ctx, []
    for val in (1, 0):
        ix = a[2]
        if a[1] == "lt":
            c = c0.add(-ix - 1) if val else c0.add(ix)
        elif val:
            c = c0.add(ix, -ix)
        else:
            c = c0.add(ix - 1) if c0.ge0(ix) else c0.add(-ix - 1) if c0.ge0(-ix) else c0
        if c.inconsistent():
            continue
        S.ctx = c
        try:
            g = E.atom(a) if val else E.const(1) - E.atom(a)
            out += [(g * gg, i, cc) for gg, i, cc in int_cases(N.set_ind(e, a, val), lim // 2)]
        finally:
            S.ctx = c0
    return out


def key_cases(key):
    """[(guard, key, context)] with scalar piecewise-integer components split into cases (None: nothing to split)"""
    out, split = [(E.const(1), (), S.ctx)], False
    for k in key:
        if isinstance(k, Sc) and k.dtype == "i":
            c0, new = S.ctx, []
            for g, kk, c in out:
                S.ctx = c
                try:
                    cs = int_cases(k.e)
                finally:
                    S.ctx = c0
                split = split or len(cs) > 1
                new += [(g * gg, kk + (mkint(i),), cc) for gg, i, cc in cs]
            out = new
        else:
            out = [(g, kk + (k,), c) for g, kk, c in out]
    return out if split else None


def _ind_atoms(e, out):
    for t in e.ts:
        for at, _ in t.f:
            if at[0] == "I" and at[1] == "lt":
                out.append(at[2])
            elif at[0] == "P":
                _ind_atoms(at[2], out)
    return out


def mask_range(m):
    """(lo, hi) if the mask provably selects exactly lo <= i < hi with one end at the border of the axis"""
    n = IX.of(m.shape[0])
    v = fresh("k")
    i = IX.sym(v)
    ctx = S.ctx.add(i, n - 1 - i)
    e = m.at([i])
    for a in _ind_atoms(e, []):
        c = (a.subst({v: IX.const(1)}) - a.subst({v: IX.const(0)}))
        if not c.is_const() or abs(c.cval()) != 1:
            continue
        a0 = a.subst({v: IX.const(0)})
        t = -a0 if c.cval() == 1 else a0 + 1     # i < t, or i >= t
        if v in t.fv() or not (S.ctx.ge0(t) and S.ctx.ge0(n - t)):
            continue
        lt = ind_lt(i - t)
        if N.equal(e, lt, ctx):
            return None, t
        if N.equal(e, E.const(1) - lt, ctx):
            return t, None
    return None


def fancy_get(a, ks):
    # supported: integer index arrays (arange-like / affine), None and slices; one broadcast block
    idxs = [(i, as_arr(k)) for i, k in enumerate(ks) if isinstance(k, (Arr, np.ndarray, list, SymSeq))]
    if any(x.dtype == "b" for _, x in idxs):
        m = idxs[0][1]
        if len(idxs) == 1 and idxs[0][0] == 0 and m.ndim <= a.ndim and all(
                isinstance(k, slice) and k == slice(None) for k in ks[1:]):
            for p, q in zip(m.shape, a.shape):
                if dim_eq(p, q) is False:
                    raise PyRaise("IndexError", "boolean index did not match")
                if dim_eq(p, q) is not True:
                    raise Unsupported("mask shape")
            r = mask_range(m) if m.ndim == 1 else None
            if r is not None:
                return getitem(a, (slice(*r),) + tuple(ks[1:]))
            return MArr(copy(a), new_arr(a.shape, lambda ix: m.at(ix[:m.ndim]), "b"))
        if len(idxs) == 1 and m.ndim == 1:
            r = mask_range(m)
            if r is not None:
                return getitem(a, tuple(slice(*r) if i == idxs[0][0] else k for i, k in enumerate(ks)))
        raise Unsupported("boolean mask read")
    for i, x in idxs:
        if x.dtype != "i":
            raise PyRaise("IndexError", "float index array")
    if any(k is None for k in ks):
        raise Unsupported("newaxis with fancy index")
    pos = [i for i, _ in idxs] + [i for i, k in enumerate(ks) if not isinstance(k, (slice, Arr, np.ndarray, list, SymSeq))]
    sh = bshape(*[x.shape for _, x in idxs])
    adv = sorted(pos)
    contiguous = all(adv[i] + 1 == adv[i + 1] for i in range(len(adv) - 1))
    ins = adv[0] if contiguous else 0
    # output: slices dims before ins, then sh, then the rest
    out_shape, srcs = [], {}
    sl = [(i, k) for i, k in enumerate(ks) if isinstance(k, slice)]
    pre = [x for x in sl if x[0] < ins] if contiguous else []
    post = [x for x in sl if x not in pre]
    for i, k in pre:
        lo = clamp_bound(k.start, a.shape[i], IX.const(0))
        hi = clamp_bound(k.stop, a.shape[i], a.shape[i])
        srcs[i] = (len(out_shape), lo)
        out_shape.append(hi - lo)
    p0 = len(out_shape)
    out_shape += list(sh)
    for i, k in post:
        lo = clamp_bound(k.start, a.shape[i], IX.const(0))
        hi = clamp_bound(k.stop, a.shape[i], a.shape[i])
        srcs[i] = (len(out_shape), lo)
        out_shape.append(hi - lo)
    amap = dict(idxs)

    def f(ix):
        bases = [(E.const(1), [])]
        for i, k in enumerate(ks):
            if i in srcs:
                v, lo = srcs[i]
                opts = [(None, ix[v] + lo)]
            elif i in amap:
                x = amap[i]
                sub = ix[p0:p0 + len(sh)]
                off = len(sh) - x.ndim
                sub = [IX.const(0) if is_one(d) else sub[j + off] for j, d in enumerate(x.shape)]
                opts = [(g, r) for g, r, _ in int_cases(x.at(sub))]
            else:
                opts = [(None, norm_index(k, a.shape[i]))]
            bases = [(g if h is None else g * h, b + [r]) for g, b in bases for h, r in opts]
        return bases

    def el(ix):
        r = E([])
        for g, b in f(ix):
            r = r + g * a.at(b)
        return r
    return new_arr(out_shape, el, a.dtype)


def setitem(a, key, val, op=None):
    """a[key] = val"""
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, (Arr, np.ndarray, list, MArr)) for k in key):
        return mask_set(a, key, val)
    kc = key_cases(key) if any(isinstance(k, Sc) for k in key) else None
    if kc:
        c0 = S.ctx
        for g, kk, c in kc:
            S.ctx = c
            try:
                v = getitem(a, kk, scalar=False)
            finally:
                S.ctx = c0
            assign_view(v, val, g)
        return
    v = getitem(a, key, scalar=False)
    assign_view(v, val)


def coerce(e, src, dst):
    if DT.index(src) <= DT.index(dst):
        return e
    if src == "c" and dst == "f":
        S.assumptions.add("complex stored into real array keeps the real part (numpy ComplexWarning)")
        return real(e)
    if src in "fc" and dst in "ib":
        ix = e2ix(N.norm(e, S.ctx))
        if ix is not None:
            return e
        raise Unsupported("float stored into integer array")
    if src == "i" and dst == "b":
        raise Unsupported("int to bool store")
    return e


def assign_view(v, val, guard=None):
    val = as_arr(val)
    while val.ndim > v.ndim and is_one(val.shape[0]):
        val = getitem(val, 0, scalar=False)
    sh = bshape(v.shape, val.shape)
    if len(sh) != len(v.shape) or any(dim_eq(x, y) is False for x, y in zip(sh, v.shape)):
        raise PyRaise("ValueError", "could not broadcast in assignment")
    cell = v.cell
    # value element must be captured before the write (aliasing)
    bi = [IX.sym(x) for x in cell.vars]
    vs = [fresh("x") for _ in v.shape] if v.inv or v.fwd else cell.vars
    ve = coerce(bat(val, v.shape, [IX.sym(x) for x in vs]), val.dtype, cell.dtype)
    if v.inv:
        g, ii = v.inv(bi)
    else:
        g, ii = E.const(1), bi
    if guard is not None:
        g = g * guard
    touch(cell)
    newv = ve.subst(dict(zip(vs, ii))) if vs is not cell.vars else ve
    if g.is_const() and g.cval()[0] == 1:
        cell.e = newv
    else:
        cell.e = tidy(g * newv + (E.const(1) - g) * cell.e, [f for x, d in zip(bi, cell.shape) for f in (x, d - 1 - x)])
    if cell.rv is not None:
        base, part, e0 = cell.rv
        if base.cell.e is not e0:
            raise Unsupported("write through a real/imag view of an array modified meanwhile")
        w = Arr(cell)
        r, i = (w, npf_imag(base)) if part == "real" else (npf_real(base), w)
        assign_view(base, binop("+", r, binop("*", 1j, i)))
        cell.rv = (base, part, base.cell.e)


def mask_set(a, key, val):
    if len(key) == 1 and isinstance(key[0], (Arr, np.ndarray)):
        m = as_arr(key[0])
        if m.dtype == "b" and m.ndim < a.ndim and all(dim_eq(p, q) is True for p, q in zip(m.shape, a.shape)):
            m0 = m
            m = new_arr(a.shape, lambda ix: m0.at(ix[:m0.ndim]), "b")
        if m.dtype == "b" and m.ndim == a.ndim:
            if isinstance(val, MArr):
                if not same_mask(m, val.mask):
                    raise Unsupported("masked store with another mask")
                val = as_arr(val.full)
            else:
                val = as_arr(val)
                if val.ndim:
                    r = mask_range(as_arr(key[0])) if as_arr(key[0]).ndim == 1 else None
                    if r is None:
                        raise Unsupported("masked array store")
                    return setitem(a, (slice(*r),), val)
            x = where(m, val, a)
            assign_view(a, x)
            return
    return index_set(a, key, val)


def index_set(a, key, val):
    """a[i1, i2, ...] = val with integer index arrays whose broadcast variables can be solved for (distinct targets)"""
    if a.inv is not None or any(k is Ellipsis or k is None for k in key):
        raise Unsupported("fancy store")
    key = list(key) + [slice(None)] * (a.ndim - len(key))
    if len(key) != a.ndim:
        raise PyRaise("IndexError", "too many indices")
    for k in key:
        if isinstance(k, slice) and not (k == slice(None)):
            raise Unsupported("fancy store with a partial slice")
    mk = [k for k in key if isinstance(k, MArr)]
    if mk and not all(same_mask(mk[0].mask, k.mask) for k in mk):
        raise Unsupported("fancy store")
    arrs = {i: as_arr(k.full if isinstance(k, MArr) else k) for i, k in enumerate(key) if isinstance(k, (Arr, np.ndarray, list, MArr))}
    if any(x.dtype != "i" for x in arrs.values()):
        raise Unsupported("fancy store")
    sl = [i for i, k in enumerate(key) if isinstance(k, slice)]
    if mk and sl:
        raise Unsupported("fancy store")
    nonsl = [i for i in range(a.ndim) if i not in sl]
    if sl and (nonsl != list(range(nonsl[0], nonsl[-1] + 1))):
        raise Unsupported("fancy store")
    sh = bshape(*[x.shape for x in arrs.values()])
    vs = [fresh("w") for _ in sh]
    sub = [IX.sym(v) for v in vs]
    exprs = {}
    c0 = S.ctx
    fs = []
    for v, d in zip(vs, sh):
        fs += [IX.sym(v), d - 1 - IX.sym(v)]
    S.ctx = S.ctx.add(*fs)
    try:
        for i, x in arrs.items():
            off = len(sh) - x.ndim
            exprs[i] = int_elem(x, [IX.const(0) if is_one(d) else sub[j + off] for j, d in enumerate(x.shape)])
    finally:
        S.ctx = c0
    for i, k in enumerate(key):
        if i not in exprs and i not in sl:
            exprs[i] = norm_index(k, a.shape[i])
    cell = a.cell
    tgt = [IX.sym(x) for x in cell.vars]
    sol = {}
    for v, d in zip(vs, sh):
        if is_one(d):
            sol[v] = IX.const(0)
            continue
        for i, e in exprs.items():
            c = e.t.get((v,), 0)
            if c in (1, -1) and all(m in ((), (v,)) or not any(str(w) in map(str, m) for w in vs) for m in e.t):
                rest = e - IX.sym(v) * c
                sol[v] = (tgt[i] - rest) * c
                break
        else:
            raise Unsupported("fancy store: index not solvable")
    g = E.const(1)
    for v, d in zip(vs, sh):
        if not is_one(d):
            w = sol[v]
            g = g * (E.const(1) - ind_lt(w, 0)) * ind_lt(w, d)
    for i, e in exprs.items():
        g = g * ind_eq(tgt[i], e.subst(sol))
    if mk:
        m = mk[0].mask
        g = g * m.at([sol[v] for v in vs])
    if isinstance(val, MArr):
        if not mk or not same_mask(mk[0].mask, val.mask):
            raise Unsupported("fancy store of another selection")
        val = val.full
        vsh = list(sh)
    else:
        val = as_arr(val)
        if mk and val.ndim:
            raise Unsupported("fancy store of a dense array at a selection")
        vsh = [a.shape[i] for i in sl if i < nonsl[0]] + list(sh) + [a.shape[i] for i in sl if i > nonsl[0]]
    val = as_arr(val)
    pre = [i for i in sl if i < nonsl[0]]
    post = [i for i in sl if i > nonsl[0]]
    at = [tgt[i] for i in pre] + [sol[v] for v in vs] + [tgt[i] for i in post]
    if not mk or val.ndim:
        if len(bshape(vsh, val.shape)) != len(vsh):
            raise PyRaise("ValueError", "could not broadcast in assignment")
    ve = coerce(bat(val, vsh, at), val.dtype, cell.dtype)
    touch(cell)
    cell.e = N.norm(g * ve + (E.const(1) - g) * cell.e, S.ctx.add(*[f for t, d in zip(tgt, cell.shape) for f in (t, d - 1 - t)]))


def where(c, x, y):
    return elementwise(lambda c, x, y: c * x + (E.const(1) - c) * y, lambda ds: dmax(*ds[1:]), c, x, y)


TIDY = 40


def tidy(e, facts=()):
    if len(e.ts) > TIDY:
        try:
            return N.norm(e, S.ctx.add(*facts) if facts else S.ctx, limit=8000)
        except N.BlowUp:
            return e      # left as it is: simplified where it is used, with the facts known there
    return e


# ---------------------------------------------------------------- contractions
def einsum(sub, *ops):
    sub = sub.replace(" ", "")
    ops = [as_arr(o) for o in ops]
    if "->" in sub:
        lhs, rhs = sub.split("->")
    else:
        lhs = sub
        letters = [c for c in lhs if c.isalpha()]
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if "..." in lhs:
            rhs = "..." + rhs
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise PyRaise("ValueError", "einsum operands")
    if any("..." in s for s in ins) or "..." in rhs:
        nm = max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        pool = [c for c in "ZYXWVUTSRQPONMLKJIHGFEDCBA" if c not in sub][:nm]
        def ex(s, n):
            return s.replace("...", "".join(pool[nm - n:]))
        ins = [ex(s, o.ndim - len(s.replace("...", ""))) if "..." in s else s for s, o in zip(ins, ops)]
        rhs = rhs.replace("...", "".join(pool))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise("ValueError", f"einsum rank {s} for {o}")
        for c, d in zip(s, o.shape):
            if c in dims:
                if is_one(dims[c]):
                    dims[c] = d
                    continue
                if is_one(d):
                    continue
                S.safety += 1
                q = dim_eq(dims[c], d)
                if q is False:
                    raise PyRaise("ValueError", f"einsum dimension mismatch {sub}: {dims[c]} vs {d}")
                if q is None:
                    raise Unsupported(f"einsum dims {dims[c]} vs {d}")
            else:
                dims[c] = d
    summed = [c for c in dims if c not in rhs]
    for c in rhs:
        if c not in dims:
            raise PyRaise("ValueError", "einsum output index")

    def f(ix):
        m = dict(zip(rhs, ix))
        bv = {}
        for c in summed:
            v = fresh()
            bv[c] = v
            m[c] = IX.sym(v)
        r = E.const(1)
        for s, o in zip(ins, ops):
            idx = [IX.const(0) if (is_one(d) and not is_one(dims[c])) else m[c] for c, d in zip(s, o.shape)]
            r = r * o.at(idx)
            if r.is_zero():
                return r
        # bind each summation variable, restricted to the terms
        for c in summed:
            r = esum(r, bv[c], dims[c])
        return tidy(r)
    d = dmax("i", *[o.dtype for o in ops])
    return demote(new_arr([dims[c] for c in rhs], f, d))


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise PyRaise("ValueError", "matmul scalar")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("*", a, b)
    if b.ndim == 1:
        return einsum("...i,i->...", a, b)
    L = "abcdefgh"
    sa = L[:a.ndim - 1] + "z"
    sb = "ijklmnop"[:b.ndim]
    sb = sb[:-2] + "z" + sb[-1]
    return einsum(f"{sa},{sb}->{sa[:-1]}{sb.replace('z', '')}", a, b)


def tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    sa = list("abcdefgh"[:a.ndim])
    sb = list("ijklmnop"[:b.ndim])
    for k, (x, y) in enumerate(zip(aa, bb)):
        sb[y] = sa[x]
    out = [c for i, c in enumerate(sa) if i not in aa] + [c for i, c in enumerate(sb) if i not in bb]
    return einsum(f"{''.join(sa)},{''.join(sb)}->{''.join(out)}", a, b)


def asum(a, axis=None, keepdims=False):
    a = as_arr(a)
    if axis is None:
        axs = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axs = [int(x) % a.ndim for x in axis]
    else:
        axs = [int(axis) % a.ndim]
    keep = [k for k in range(a.ndim) if k not in axs]

    def f(ix):
        idx = [None] * a.ndim
        if keepdims:
            for k in keep:
                idx[k] = ix[k]
        else:
            for k, i in zip(keep, ix):
                idx[k] = i
        bv = []
        for k in axs:
            v = fresh()
            idx[k] = IX.sym(v)
            bv.append((v, a.shape[k]))
        r = a.at(idx)
        for v, u in bv:
            r = esum(r, v, u)
        return tidy(r)
    sh = [IX.const(1) if k in axs else a.shape[k] for k in range(a.ndim)] if keepdims else [a.shape[k] for k in keep]
    return demote(new_arr(sh, f, dmax("i", a.dtype)))


def stack(arrs, axis=0):
    arrs = [as_arr(a) for a in arrs]
    if not arrs:
        return const_arr(np.zeros((0,)))
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh) or any(dim_eq(x, y) is not True for x, y in zip(a.shape, sh)):
            raise Unsupported("stack of different shapes")
    nd = len(sh) + 1
    axis = axis % nd

    def f(ix):
        k = ix[axis]
        rest = ix[:axis] + ix[axis + 1:]
        if k.is_const():
            return arrs[k.cval()].at(rest)
        r = E([])
        for j, a in enumerate(arrs):
            r = r + ind_eq(k, j) * a.at(rest)
        return r
    d = dmax(*[a.dtype for a in arrs])
    return new_arr(list(sh[:axis]) + [IX.const(len(arrs))] + list(sh[axis:]), f, d)


def concat(arrs, axis=0):
    arrs = [as_arr(a) for a in arrs]
    axis = axis % arrs[0].ndim
    tot = IX.const(0)
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = tot + a.shape[axis]

    def f(ix):
        r = E([])
        for k, (a, o) in enumerate(zip(arrs, offs)):
            i = list(ix)
            i[axis] = ix[axis] - o
            g = E.const(1)
            if k > 0:
                g = g * (E.const(1) - ind_lt(ix[axis], o))
            if k < len(arrs) - 1:
                g = g * ind_lt(ix[axis], o + a.shape[axis])
            r = r + g * a.at(i)
        return r
    sh = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(len(sh)):
            if k != axis:
                q = dim_eq(a.shape[k], sh[k])
                if q is False:
                    raise PyRaise("ValueError", "concatenate dims")
                if q is None:
                    raise Unsupported("concatenate dims")
    sh[axis] = tot
    return new_arr(sh, f, dmax(*[a.dtype for a in arrs]))


def eye(n, m=None, dtype="f"):
    n = to_ix(n)
    m = n if m is None else to_ix(m)
    return new_arr([n, m], lambda ix: ind_eq(ix[0], ix[1]), dtype)


def diag(a, k=0):
    a = as_arr(a)
    if a.ndim == 1:
        n = a.shape[0]
        kk = int(k)
        m = n + abs(kk)
        if kk == 0:
            return new_arr([n, n], lambda ix: ind_eq(ix[0], ix[1]) * a.at([ix[0]]), a.dtype)
        if kk > 0:
            return new_arr([m, m], lambda ix: ind_eq(ix[0] + kk, ix[1]) * a.at([ix[0]]), a.dtype)
        return new_arr([m, m], lambda ix: ind_eq(ix[0], ix[1] - kk) * a.at([ix[1]]), a.dtype)
    if k != 0:
        raise Unsupported("offset diagonal")
    return new_arr([a.shape[0]], lambda ix: a.at([ix[0], ix[0]]), a.dtype)


def kron(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron rank")
    r = einsum("ij,kl->ikjl", a, b)
    return reshape(r, [a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]])


# ---------------------------------------------------------------- opaque matrix functions
def _params(e, exclude):
    return sorted(v for v in e.fv() if v not in exclude and ("~" in v or v.startswith("%")))


def opaque(name, a, out_shapes, nmat=2, real_out=False, canon_T=False):
    """opaque matrix function of the trailing nmat axes of a; leading axes are batch.
    Returns list of Arr; equal arguments (normal form) give equal atoms (congruence)."""
    a = as_arr(a)
    nb = a.ndim - nmat
    bv = [fresh("x") for _ in range(nb)]
    mv = [fresh("x") for _ in range(nmat)]
    facts = []
    for v, d in zip(bv + mv, a.shape):
        facts += [IX.sym(v), d - 1 - IX.sym(v)]
    e = N.norm(a.at([IX.sym(v) for v in bv + mv]), S.ctx.add(*facts))
    if N.mentions_placeholder(e):
        raise Unsupported("opaque function of loop-carried state")
    # batch axes are parameters like any enclosing loop index; the smallest key over parameter orders is canonical
    allp = _params(e, set(mv))
    best = None
    head = name + ":" + ",".join(str(d) for d in a.shape[nb:]) + ":"
    for perm in (itertools.permutations(allp) if len(allp) <= 3 else [tuple(allp)]):
        for sw in ((False, True) if canon_T and nmat == 2 else (False,)):
            m = [mv[1], mv[0]] if sw else mv
            lab = {v: f"?m{i}" for i, v in enumerate(m)}
            lab.update({v: f"?p{i}" for i, v in enumerate(perm)})
            kk = head + N.e_key(e, lab)
            if best is None or kk < best[0]:
                best = (kk, sw, list(perm))
    key, swap, ps = best
    reg = S.opaque.get(key)
    if reg is None:
        # congruence up to provable (not merely syntactic) equality of the arguments
        cx = S.ctx.add(*facts)
        for r0 in list(S.opaque.values()):
            if r0["name"] != name or len(r0["ps"]) != len(allp) or r0["nmat"] != nmat or len(allp) > 3 \
                    or any(dim_eq(x, y) is not True for x, y in zip(r0["shape"][r0["nb"]:], a.shape[nb:])):
                continue
            for perm in itertools.permutations(allp):
                mp = {q: IX.sym(v) for q, v in zip(r0["ps"], perm)}
                for rel in ((False, True) if canon_T and nmat == 2 else (False,)):
                    m = [mv[1], mv[0]] if rel else mv
                    mp.update({q: IX.sym(v) for q, v in zip(r0["mv"], m)})
                    try:
                        ok = N.equal(e, r0["e"].subst(mp), cx)
                    except Unsupported:
                        ok = False
                    if ok:
                        reg, ps, swap = r0, list(perm), r0["swap"] != rel
                        break
                if reg:
                    break
            if reg:
                break
    if reg is None:
        reg = S.opaque[key] = dict(id=len(S.opaque), key=key, name=name, bv=bv, mv=mv, ps=ps, e=e, nmat=nmat,
                                   shape=a.shape, swap=swap, nb=nb)
    outs = []
    for o, sh in enumerate(out_shapes):
        tn = f"{name}.{o}#{reg['id']}"
        if tn not in DECL:
            decl(tn, real=(real_out if isinstance(real_out, bool) else real_out[o]) or a.dtype != "c",
                 opaque=key, out=o)
            # a bare input tensor argument enables the inverse rule
            if name == "inv" and len(e.ts) == 1 and not e.ts[0].b and len(e.ts[0].f) == 1 and not swap \
                    and e.ts[0].c == (F1, F0):
                at, p = e.ts[0].f[0]
                want = tuple(IX.sym(v) for v in ps + mv)
                if at[0] == "T" and p == 1 and not at[2] and at[3][-2:] == want[-2:] and len(at[3]) == len(want) and at[3] == want:
                    DECL[tn]["inv_of"] = at[1]
                    DECL[tn]["n"] = a.shape[-1]

        def f(ix, tn=tn):
            ix = list(ix)
            if swap and len(ix) == nb + 2:
                ix[-1], ix[-2] = ix[-2], ix[-1]
            bm = dict(zip(bv, ix[:nb]))
            return E.atom(("T", tn, False, tuple(bm.get(p, IX.sym(p)) for p in ps) + tuple(ix[nb:])))
        dt = "f" if DECL[tn]["real"] else "c"
        outs.append(demote(new_arr(list(a.shape[:nb]) + list(sh), f, dt)))
    return outs


def linalg_inv(a):
    a = as_arr(a)
    S.assumptions.add("numpy.linalg.inv: matrix invertible; inv is a function of its argument, inv(A^T)=inv(A)^T")
    return opaque("inv", a, [a.shape[-2:]], canon_T=True)[0]


def linalg_det(a):
    a = as_arr(a)
    S.assumptions.add("numpy.linalg.det: a function of its argument, det(A^T)=det(A)")
    return opaque("det", a, [()], canon_T=True)[0]


_install_scalar_ops()
