"""Meaning of numpy / scipy / builtin calls on symbolic values (assumed contracts of dependencies)."""
import builtins
import math
import types
from fractions import Fraction
import numpy as np

from . import alg, norm as N, sym as Y
from .alg import IX, E, Unsupported, fresh, ind_eq, ind_lt, esum, ix2e, fn, decl, DECL, iatom
from .sym import (S, SI, SB, Sc, Arr, Cell, SymObj, PyRaise, touch, to_ix, to_e, mkint, mkbool, as_arr, binop, compare,
                  demote, new_arr, is_sym, scal, e2ix)


def H(*fs, always=False):
    def deco(g):
        g.always = always
        for f in fs:
            TABLE[f] = g
        return g
    return deco


TABLE = {}


def install(d):
    d.update(TABLE)


def _I():
    from . import interp
    return interp


# ---------------------------------------------------------------- builtins
def _rng(I, *a):
    if all(not is_sym(x) for x in a):
        return range(*[int(x) for x in a])
    a = [to_ix(x) for x in a]
    if len(a) == 1:
        lo, hi, st = IX.const(0), a[0], IX.const(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], IX.const(1)
    else:
        lo, hi, st = a
    if st == IX.const(1):
        n = hi - lo
        if not S.ctx.ge0(n):
            if S.ctx.ge0(-n):
                n = IX.const(0)
            else:
                n = iatom("max", [n, IX.const(0)])
        return _I().SymRange(n, lambda k: mkint(lo + k))
    if st.is_const() and st.cval() == -1:
        n = lo - hi
        if not S.ctx.ge0(n):
            raise Unsupported("reverse range sign")
        return _I().SymRange(n, lambda k: mkint(lo - k))
    if S.ctx.ge0(st - 1) and S.ctx.ge0(hi - lo):
        n = N.simp_ix(iatom("//", [hi - lo + st - 1, st]), S.ctx)
        return _I().SymRange(n, lambda k: mkint(lo + st * k))
    raise Unsupported("range step")


H(range, always=True)(_rng)
try:
    import numba
    H(numba.prange, always=True)(_rng)
except Exception:
    pass


@H(len, always=True)
def _len(I, x):
    if isinstance(x, Arr):
        if not x.shape:
            raise PyRaise("TypeError", "len of 0-d")
        return mkint(x.shape[0])
    if isinstance(x, (list, tuple)):
        I.check_list(x)
        return mkint(_I().seq_len(x))
    if isinstance(x, _I().SymRange):
        return mkint(x.n)
    try:
        return len(x)
    except TypeError as e:
        raise PyRaise("TypeError", str(e))


@H(print, always=True)
def _print(I, *a, **k):
    return None


@H(abs, np.abs, np.absolute, np.fabs)
def _abs(I, x, **k):
    if isinstance(x, SI):
        if S.ctx.ge0(x.ix):
            return x
        if S.ctx.ge0(-x.ix):
            return mkint(-x.ix)
        raise Unsupported("abs of int")
    x = as_arr(x) if isinstance(x, (list, tuple)) else x

    def dt(ds):
        return "i" if ds[0] == "i" else "f"
    return Y.elementwise(lambda e: fn("abs", e), dt, x)


@H(isinstance, always=True)
def _isinst(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SymObj):
        return any(isinstance(c, type) and x.cls is not None and issubclass(x.cls, c) for c in ts)
    if isinstance(x, Arr):
        return any(c is np.ndarray or c is object for c in ts)
    if isinstance(x, SI):
        return any(c in (int, np.integer, np.int64, object) for c in ts)
    if isinstance(x, SB):
        return any(c in (bool, np.bool_) for c in ts)
    if isinstance(x, Sc):
        k = {"f": (float, np.floating, np.float64), "c": (complex, np.complexfloating, np.complex128), "i": (int,), "b": (bool,)}[x.dtype]
        return any(c in k for c in ts)
    return isinstance(x, t)


@H(hasattr, always=True)
def _hasattr(I, o, n):
    if isinstance(o, SymObj):
        if n in o.attrs:
            return True
        return o.cls is not None and hasattr(o.cls, n)
    if isinstance(o, Arr):
        return hasattr(np.ndarray, n)
    return hasattr(o, n)


@H(getattr, always=True)
def _getattr(I, o, n, *d):
    if d and not _hasattr(I, o, n):
        return d[0]
    return I.getattr(o, n)


@H(setattr, always=True)
def _setattr(I, o, n, v):
    return I.setattr(o, n, v)


@H(enumerate, always=True)
def _enum(I, x, start=0):
    items, sym = I.iter_spec(x)
    if items is not None:
        return list(enumerate(items, start))
    n, val = sym
    return _I().SymRange(n, lambda k: (mkint(k + to_ix(start)), val(k)))


@H(zip, always=True)
def _zip(I, *xs):
    sp = [I.iter_spec(x) for x in xs]
    if all(s[0] is not None for s in sp):
        return list(zip(*[s[0] for s in sp]))
    if any(s[0] is not None for s in sp):
        raise Unsupported("zip of mixed sequences")
    n = sp[0][1][0]
    for s in sp[1:]:
        if Y.dim_eq(n, s[1][0]) is not True:
            raise Unsupported("zip lengths")
    return _I().SymRange(n, lambda k: tuple(s[1][1](k) for s in sp))


@H(reversed, always=True)
def _rev(I, x):
    items, sym = I.iter_spec(x)
    if items is not None:
        return list(reversed(items))
    n, val = sym
    return _I().SymRange(n, lambda k: val(n - 1 - k))


@H(list, always=True)
def _list(I, x=()):
    items, sym = I.iter_spec(x)
    if items is not None:
        return list(items)
    n, val = sym
    k = fresh("c")
    return [_I().CompSeg(k, n, _I().freeze(val(IX.sym(k))))]


@H(tuple, always=True)
def _tuple(I, x=()):
    items, sym = I.iter_spec(x)
    if items is None:
        raise Unsupported("tuple of symbolic sequence")
    return tuple(items)


@H(sum)
def _sum(I, x, start=0):
    if isinstance(x, Arr):
        return binop("+", Y.asum(x, 0), start)
    r = start
    for y in x:
        if isinstance(y, _I().CompSeg):
            a = as_arr(y.val)
            v = new_arr(a.shape, lambda ix: esum(a.at(ix), y.var, y.upper), a.dtype)
            r = I.bin("+", r, demote(v))
        else:
            r = I.bin("+", r, y)
    return r


def _minmax(name):
    def g(I, *a, **k):
        if k:
            raise Unsupported("min/max key")
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return _amax_arr(name, a[0])
            a = list(a[0])
        r = a[0]
        for x in a[1:]:
            if isinstance(r, (SI, int)) and isinstance(x, (SI, int)) and not isinstance(r, bool):
                p, q = to_ix(r), to_ix(x)
                if S.ctx.ge0(p - q):
                    r = mkint(p if name == "max" else q)
                elif S.ctx.ge0(q - p):
                    r = mkint(q if name == "max" else p)
                else:
                    r = mkint(iatom(name, [p, q]))
                continue
            r = Y.elementwise(lambda u, v: fn(name, u, v), lambda ds: Y.dmax(*ds), r, x)
        return r
    return g


H(max)(_minmax("max"))
H(min)(_minmax("min"))


def _amax_arr(name, a):
    return Y.opaque("a" + name, a, [()], nmat=a.ndim, real_out=True)[0]


@H(np.maximum)
def _maximum(I, a, b, **k):
    return Y.elementwise(lambda u, v: fn("max", u, v), lambda ds: Y.dmax(*ds), a, b)


@H(np.minimum)
def _minimum(I, a, b, **k):
    return Y.elementwise(lambda u, v: fn("min", u, v), lambda ds: Y.dmax(*ds), a, b)


@H(np.clip)
def _clip(I, a, lo=None, hi=None, a_min=None, a_max=None, **k):
    r = a
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if lo is not None:
        r = _maximum(I, r, lo)
    if hi is not None:
        r = _minimum(I, r, hi)
    return r


@H(int)
def _int(I, x):
    if isinstance(x, SI):
        return x
    if isinstance(x, SB):
        return Sc(x.e, "i")
    if isinstance(x, Sc):
        ix = e2ix(N.norm(x.e, S.ctx))
        if ix is not None:
            return mkint(ix)
        e = N.norm(x.e, S.ctx)
        # rational with integer denominator: (poly)/d
        den = 1
        for t in e.ts:
            den = den * t.c[0].denominator // math.gcd(den, t.c[0].denominator)
        num = e2ix(e.scale(den))
        if num is not None and S.ctx.ge0(num):
            return mkint(N.simp_ix(iatom("//", [num, IX.const(den)]), S.ctx))
        raise Unsupported("int() of scalar")
    raise Unsupported("int()")


@H(float, np.float64)
def _float(I, x):
    e, d = to_e(demote(x) if isinstance(x, Arr) else x)
    if d == "c":
        raise PyRaise("TypeError", "float of complex")
    return Sc(e, "f")


@H(complex, np.complex128)
def _complex(I, x, y=0):
    return binop("+", binop("*", x, 1.0 + 0j), binop("*", y, 1j))


@H(bool)
def _bool(I, x):
    t = I.truth(x)
    return t if t is not None else I.sbool(x)


@H(any, np.any)
def _any(I, x, **k):
    if isinstance(x, Arr):
        if not x.shape:
            return demote(x)
        # any = not all zero: opaque boolean unless decidable: count>0
        c = Y.asum(Y.unary(lambda e: e, x) if x.dtype == "b" else compare("!=", x, 0))
        e = N.norm(to_e(c)[0], S.ctx)
        if e.is_zero():
            return False
        S.assumptions.add("any(): modelled as an opaque predicate of the count")
        return mkbool(E.const(1) - N.ind_p("eq", e))
    r = E([])
    for y in x:
        t = I.truth(y)
        if t is True:
            return True
        if t is None:
            e = I.sbool(y).e
            r = r + e - r * e
    return mkbool(r)


@H(all, np.all)
def _all(I, x, **k):
    if isinstance(x, Arr):
        return mkbool(E.const(1) - to_e(_any(I, Y.unary(lambda e: E.const(1) - e, x, "b")))[0])
    r = E.const(1)
    for y in x:
        t = I.truth(y)
        if t is False:
            return False
        if t is None:
            r = r * I.sbool(y).e
    return mkbool(r)


@H(type, always=True)
def _type(I, x, *a):
    if isinstance(x, SymObj):
        return x.cls
    if isinstance(x, Arr):
        return np.ndarray
    if isinstance(x, SI):
        return int
    if isinstance(x, Sc):
        return {"f": float, "c": complex, "i": int, "b": bool}[x.dtype]
    return type(x)


@H(str, repr)
def _str(I, x):
    return "<str>"


@H(slice, always=True)
def _slice(I, *a):
    return slice(*a)


@H(callable, always=True)
def _callable(I, x):
    return callable(x) or isinstance(x, (_I().Closure, _I().Bound))


@H(id, always=True)
def _id(I, x):
    return id(x)


# ---------------------------------------------------------------- constructors
def _shape(s):
    if isinstance(s, (tuple, list)):
        return [to_ix(x) for x in s]
    return [to_ix(s)]


def _kind(dtype, default="f"):
    if dtype is None:
        return default
    if hasattr(dtype, "k"):
        return dtype.k
    return Y.np_dtype_kind(dtype)


def _filled(val):
    def g(I, shape, dtype=None, order=None, **k):
        return new_arr(_shape(shape), lambda ix: E.const(val), _kind(dtype))
    return g


def _always_if_small(f):
    return f


for _f, _v in ((np.zeros, 0), (np.ones, 1)):
    H(_f, always=True)(_filled(_v))


@H(np.empty, always=True)
def _empty(I, shape, dtype=None, order=None, **k):
    nm = fresh("uninit")
    kd = _kind(dtype)
    decl(nm, real=kd != "c")
    return new_arr(_shape(shape), lambda ix: E.atom(("T", nm, False, tuple(ix))), kd)


@H(np.full, always=True)
def _full(I, shape, v, dtype=None, **k):
    e, d = to_e(v)
    return new_arr(_shape(shape), lambda ix: e, _kind(dtype, d))


@H(np.zeros_like)
def _zl(I, a, dtype=None, **k):
    a = as_arr(a)
    return new_arr(a.shape, lambda ix: E([]), _kind(dtype, a.dtype))


@H(np.ones_like)
def _ol(I, a, dtype=None, **k):
    a = as_arr(a)
    return new_arr(a.shape, lambda ix: E.const(1), _kind(dtype, a.dtype))


@H(np.empty_like)
def _el(I, a, dtype=None, **k):
    a = as_arr(a)
    return _empty(I, [mkint(d) for d in a.shape], {"f": float, "c": complex, "i": int, "b": bool}[_kind(dtype, a.dtype)])


@H(np.full_like)
def _fl(I, a, v, dtype=None, **k):
    a = as_arr(a)
    e, d = to_e(v)
    return new_arr(a.shape, lambda ix: e, _kind(dtype, a.dtype))


@H(np.eye, np.identity, always=True)
def _eye(I, n, M=None, k=0, dtype=None, **kw):
    if k:
        kk = int(k)
        n = to_ix(n)
        m = n if M is None else to_ix(M)
        return new_arr([n, m], lambda ix: ind_eq(ix[0] + kk, ix[1]), _kind(dtype))
    return Y.eye(n, M, _kind(dtype))


@H(np.arange)
def _arange(I, *a, dtype=None, **k):
    a = [to_ix(x) for x in a]
    if len(a) == 1:
        lo, hi, st = IX.const(0), a[0], IX.const(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], IX.const(1)
    else:
        lo, hi, st = a
    kd = _kind(dtype, "i")
    if st == IX.const(1) and S.ctx.ge0(hi - lo):
        return new_arr([hi - lo], lambda ix: ix2e(lo + ix[0]), kd)
    if st.is_const() and st.cval() == -1 and S.ctx.ge0(lo - hi):
        return new_arr([lo - hi], lambda ix: ix2e(lo - ix[0]), kd)
    if st.is_const() and st.cval() > 1 and S.ctx.ge0(hi - lo):
        n = N.simp_ix(iatom("//", [hi - lo + st - 1, st]), S.ctx)
        return new_arr([n], lambda ix: ix2e(lo + st * ix[0]), kd)
    raise Unsupported("arange")


def _conv_list(x):
    if isinstance(x, list) and any(isinstance(y, _I().CompSeg) for y in x):
        parts = []
        for y in x:
            if isinstance(y, _I().CompSeg):
                a = as_arr(_conv_list(y.val) if isinstance(y.val, list) else y.val)
                parts.append(new_arr((y.upper,) + a.shape, lambda ix, a=a, y=y: a.at(ix[1:]).subst({y.var: ix[0]}), a.dtype))
            else:
                a = as_arr(_conv_list(y))
                parts.append(new_arr((IX.const(1),) + a.shape, lambda ix, a=a: a.at(ix[1:]), a.dtype))
        return parts[0] if len(parts) == 1 else Y.concat(parts, 0)
    if isinstance(x, (list, tuple)):
        return Y.stack([as_arr(_conv_list(y)) for y in x], 0)
    return x


@H(np.array, np.asarray, np.ascontiguousarray, np.asfortranarray, np.atleast_1d)
def _array(I, x, dtype=None, copy=True, **k):
    if isinstance(x, (list, tuple)):
        x = _conv_list(x)
    a = as_arr(x)
    kd = _kind(dtype, a.dtype)
    return astype(a, kd)


@H(np.copy)
def _copy(I, x, **k):
    return Y.copy(_conv_list(x) if isinstance(x, (list, tuple)) else x)


import copy as _copymod


@H(_copymod.deepcopy, _copymod.copy)
def _deepcopy(I, x, *a):
    if isinstance(x, Arr):
        return Y.copy(x)
    if isinstance(x, (SI, Sc, SB)):
        return x
    if isinstance(x, list):
        return [_deepcopy(I, y) if is_sym(y) else y for y in x]
    raise Unsupported("deepcopy")


def astype(a, kd):
    if kd == a.dtype:
        return Y.copy(a)
    return new_arr(a.shape, lambda ix: Y.coerce(a.at(ix), a.dtype, kd), kd)


# ---------------------------------------------------------------- contractions
def _einsum_handler(I, sub, *ops, **k):
    if not isinstance(sub, str):
        raise Unsupported("einsum form")
    ops = [_conv_list(o) if isinstance(o, (list, tuple)) else o for o in ops]
    out = k.get("out")
    r = Y.einsum(sub, *ops)
    if out is not None:
        Y.assign_view(out, r)
        return out
    return r


H(np.einsum)(_einsum_handler)
try:
    from pyscf import lib as _pl
    H(_pl.einsum)(_einsum_handler)
    from pyscf.lib import numpy_helper as _nph
    H(_nph.einsum)(_einsum_handler)

    @H(_pl.dot)
    def _pdot(I, a, b, alpha=1, c=None, beta=0, **k):
        r = binop("*", Y.dot(a, b), alpha)
        if c is not None:
            r = binop("+", r, binop("*", c, beta))
            Y.assign_view(c, r)
            return c
        return r

    @H(_pl.unpack_tril)
    def _unpack_tril(I, a, filltriu=1, **k):
        raise Unsupported("unpack_tril")
    from pyscf.lib import logger as _plog
except Exception:
    pass


@H(np.dot)
def _dot(I, a, b, out=None):
    r = Y.dot(a, b)
    if out is not None:
        Y.assign_view(out, r)
        return out
    return r


@H(np.matmul)
def _mm(I, a, b, **k):
    return Y.matmul(a, b)


@H(np.vdot)
def _vdot(I, a, b):
    a, b = as_arr(a), as_arr(b)
    a = Y.npf_conj(Y.reshape(a, [Y.prod(a.shape)]))
    return Y.einsum("i,i->", a, Y.reshape(b, [Y.prod(b.shape)]))


@H(np.inner)
def _inner(I, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return Y.einsum("i,i->", a, b)
    return Y.tensordot(a, b, ([a.ndim - 1], [b.ndim - 1]))


@H(np.outer)
def _outer(I, a, b, **k):
    a, b = as_arr(a), as_arr(b)
    return Y.einsum("i,j->ij", Y.reshape(a, [Y.prod(a.shape)]), Y.reshape(b, [Y.prod(b.shape)]))


@H(np.tensordot)
def _td(I, a, b, axes=2):
    return Y.tensordot(a, b, axes)


@H(np.kron)
def _kron(I, a, b):
    return Y.kron(a, b)


@H(np.trace)
def _trace(I, a, *r, **k):
    axis1, axis2 = k.get("axis1", 0), k.get("axis2", 1)
    a = as_arr(a)
    if a.ndim == 2:
        return Y.einsum("ii->", a)
    ax = [axis1 % a.ndim, axis2 % a.ndim]
    L = list("abcdefg"[:a.ndim])
    L[ax[1]] = L[ax[0]]
    out = [c for i, c in enumerate(L) if i not in ax]
    return Y.einsum("".join(L) + "->" + "".join(out), a)


@H(np.sum)
def _npsum(I, a, axis=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)):
        a = _conv_list(a)
    return Y.asum(a, axis, keepdims)


@H(np.mean)
def _mean(I, a, axis=None, **k):
    a = as_arr(a)
    s = Y.asum(a, axis)
    n = Y.prod(a.shape) if axis is None else a.shape[int(axis) % a.ndim]
    return binop("/", s, mkint(n))


@H(np.var)
def _var(I, a, axis=None, **k):
    a = as_arr(a)
    if axis is not None or k:
        raise Unsupported("var with options")
    d = binop("-", a, _mean(I, a))
    return _mean(I, Y.elementwise(lambda x: x * alg.conj(x), lambda ds: "f", d))


@H(np.std)
def _std(I, a, axis=None, **k):
    return I.call(np.sqrt, [_var(I, a, axis, **k)], {})


@H(np.average)
def _average(I, a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(I, a, axis)
    a, w = as_arr(a), as_arr(weights)
    return binop("/", Y.asum(binop("*", a, w), axis), Y.asum(w, axis))


@H(np.prod)
def _prod(I, a, axis=None, **k):
    if isinstance(a, (list, tuple)) and all(isinstance(x, (SI, int)) for x in a):
        r = 1
        for x in a:
            r = I.bin("*", r, x)
        return r
    a = as_arr(a)
    if axis is None and a.ndim == 1 and a.shape[0].is_const():
        r = 1
        for j in range(a.shape[0].cval()):
            r = I.bin("*", r, Y.getitem(a, j))
        return r
    if axis is None:
        return Y.opaque("prod", a, [()], nmat=a.ndim)[0]
    ax = int(axis) % a.ndim
    if a.shape[ax].is_const():
        r = None
        for j in range(a.shape[ax].cval()):
            x = Y.getitem(a, tuple([slice(None)] * ax + [j]))
            r = x if r is None else binop("*", r, x)
        return r
    if ax == a.ndim - 1:
        return Y.opaque("prod", a, [()], nmat=1)[0]
    raise Unsupported("prod axis")


# ---------------------------------------------------------------- elementwise
for _nm, _fs in dict(exp=(np.exp,), sqrt=(np.sqrt,), log=(np.log,), cos=(np.cos,), sin=(np.sin,), cosh=(np.cosh,),
                     sinh=(np.sinh,), tanh=(np.tanh,), arccos=(np.arccos,)).items():
    def _mk(nm):
        f = Y.ufn(nm)

        def g(I, a, out=None, **k):
            if isinstance(a, (list, tuple)):
                a = _conv_list(a)
            if nm in ("sqrt", "log"):
                S.assumptions.add(f"{nm}: argument in the real domain")
            if isinstance(a, (SI,)):
                a = Sc(ix2e(a.ix), "f")
            return f(a)
        return g
    H(*_fs)(_mk(_nm))
H(math.sqrt)(TABLE[np.sqrt])
H(math.exp)(TABLE[np.exp])
H(math.log)(TABLE[np.log])
H(math.cos)(TABLE[np.cos])
H(math.sin)(TABLE[np.sin])


@H(np.conj, np.conjugate)
def _conj(I, a, **k):
    return Y.npf_conj(a)


@H(np.real)
def _real(I, a):
    return Y.npf_real(a)


@H(np.imag)
def _imag(I, a):
    return Y.npf_imag(a)


@H(np.square)
def _square(I, a, **k):
    return binop("*", a, a)


@H(np.power)
def _power(I, a, b, **k):
    return binop("**", a, b)


@H(np.add)
def _add(I, a, b, **k):
    return binop("+", a, b)


@H(np.subtract)
def _sub(I, a, b, **k):
    return binop("-", a, b)


@H(np.multiply)
def _mul(I, a, b, **k):
    return binop("*", a, b)


@H(np.divide, np.true_divide)
def _div(I, a, b, **k):
    if k:
        raise Unsupported("divide(where)")
    return binop("/", a, b)


@H(np.negative)
def _neg(I, a, **k):
    return Y.unary(lambda e: -e, a)


@H(np.where)
def _where(I, c, *xy):
    if len(xy) != 2:
        raise Unsupported("where(cond)")
    return Y.where(c, *xy)


@H(np.angle)
def _angle(I, a, **k):
    return Y.elementwise(lambda e: fn("angle", e), "f", a)


@H(np.sign)
def _sign(I, a, **k):
    return Y.elementwise(lambda e: fn("sign", e), lambda d: d[0], a)


@H(np.isnan, np.isinf)
def _isnan(I, a, **k):
    S.assumptions.add("no NaN/inf (exact arithmetic)")
    return Y.elementwise(lambda e: E([]), "b", a)


@H(np.isfinite)
def _isfin(I, a, **k):
    S.assumptions.add("no NaN/inf (exact arithmetic)")
    return Y.elementwise(lambda e: E.const(1), "b", a)


@H(np.logical_and)
def _land(I, a, b, **k):
    return binop("&", a, b)


@H(np.logical_or)
def _lor(I, a, b, **k):
    return binop("|", a, b)


@H(np.logical_not)
def _lnot(I, a, **k):
    return Y.elementwise(lambda e: E.const(1) - e, "b", a)


for _f, _o in ((np.less, "<"), (np.greater, ">"), (np.less_equal, "<="), (np.greater_equal, ">="), (np.equal, "==")):
    H(_f)((lambda o: lambda I, a, b, **k: compare(o, a, b))(_o))


@H(np.iscomplexobj)
def _iscomplexobj(I, a):
    return (a.dtype if isinstance(a, Arr) else to_e(a)[1]) == "c"


@H(np.ndim)
def _ndim(I, a):
    return a.ndim if isinstance(a, Arr) else 0


@H(np.shape)
def _npshape(I, a):
    return tuple(mkint(d) for d in as_arr(a).shape)


@H(np.size)
def _npsize(I, a, axis=None):
    a = as_arr(a)
    return mkint(Y.prod(a.shape) if axis is None else a.shape[axis])


# ---------------------------------------------------------------- shape manipulation
@H(np.transpose)
def _transpose(I, a, axes=None):
    a = as_arr(a)
    return Y.transpose(a, axes if axes is not None else tuple(reversed(range(a.ndim))))


@H(np.swapaxes)
def _swapaxes(I, a, i, j):
    a = as_arr(a)
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return Y.transpose(a, p)


@H(np.moveaxis)
def _moveaxis(I, a, s, d):
    a = as_arr(a)
    if not isinstance(s, int):
        raise Unsupported("moveaxis")
    p = [k for k in range(a.ndim) if k != s % a.ndim]
    p.insert(d % a.ndim, s % a.ndim)
    return Y.transpose(a, p)


@H(np.reshape)
def _reshape(I, a, shape, order="C", **k):
    if order not in ("C", None):
        raise Unsupported("Fortran reshape")
    return Y.reshape(a, shape if isinstance(shape, (tuple, list)) else [shape])


@H(np.ravel)
def _ravel(I, a, order="C"):
    a = as_arr(a)
    return Y.reshape(a, [Y.prod(a.shape)])


@H(np.expand_dims)
def _expand(I, a, axis):
    a = as_arr(a)
    ax = axis % (a.ndim + 1)
    return Y.getitem(a, tuple([slice(None)] * ax + [None]))


@H(np.squeeze)
def _squeeze(I, a, axis=None):
    a = as_arr(a)
    key = tuple(0 if Y.is_one(d) and (axis is None or k == axis % a.ndim) else slice(None) for k, d in enumerate(a.shape))
    return Y.getitem(a, key)


@H(np.concatenate)
def _concatenate(I, arrs, axis=0, **k):
    xs = []
    for x in arrs:
        if isinstance(x, _I().CompSeg):
            raise Unsupported("concatenate of comprehension")
        xs.append(_conv_list(x) if isinstance(x, (list, tuple)) else x)
    if axis is None:
        xs = [_ravel(I, x) for x in xs]
        axis = 0
    return Y.concat(xs, axis)


@H(np.ix_)
def _ix(I, *seqs):
    xs = [_I().range_arr(s) if isinstance(s, _I().SymRange) else as_arr(_conv_list(s) if isinstance(s, (list, tuple)) else s) for s in seqs]
    if any(x.ndim != 1 for x in xs):
        raise PyRaise("ValueError", "Cross index must be 1 dimensional")
    return tuple(Y.reshape(x, [1] * k + [x.shape[0]] + [1] * (len(xs) - k - 1)) for k, x in enumerate(xs))


@H(np.append)
def _append(I, a, b, axis=None):
    if axis is None:
        return Y.concat([_ravel(I, a), _ravel(I, b)], 0)
    return Y.concat([a, b], axis)


@H(np.hstack)
def _hstack(I, arrs, **k):
    xs = [as_arr(x) for x in arrs]
    xs = [Y.reshape(x, [1]) if x.ndim == 0 else x for x in xs]
    return Y.concat(xs, 0 if xs[0].ndim == 1 else 1)


@H(np.vstack)
def _vstack(I, arrs, **k):
    xs = [as_arr(x) for x in arrs]
    xs = [Y.getitem(x, (None,)) if x.ndim == 1 else x for x in xs]
    return Y.concat(xs, 0)


@H(np.stack)
def _stack(I, arrs, axis=0, **k):
    if isinstance(arrs, list) and any(isinstance(x, _I().CompSeg) for x in arrs):
        a = _conv_list(arrs)
        if axis == 0:
            return a
        return _moveaxis(I, a, 0, axis)
    return Y.stack(arrs, axis)


@H(np.diag)
def _diag(I, a, k=0):
    return Y.diag(a, k)


@H(np.diagonal)
def _diagonal(I, a, offset=0, axis1=0, axis2=1):
    a = as_arr(a)
    if offset:
        raise Unsupported("diagonal offset")
    if a.ndim == 2:
        return Y.diag(a)
    L = list("abcdefg"[:a.ndim])
    i, j = axis1 % a.ndim, axis2 % a.ndim
    L[j] = L[i]
    out = [c for q, c in enumerate(L) if q not in (i, j)] + [L[i]]
    return Y.einsum("".join(L) + "->" + "".join(out), a)


@H(np.triu)
def _triu(I, a, k=0):
    a = as_arr(a)
    kk = to_ix(k)
    return new_arr(a.shape, lambda ix: (E.const(1) - ind_lt(ix[-1] - ix[-2], kk)) * a.at(ix), a.dtype)


@H(np.tril)
def _tril(I, a, k=0):
    a = as_arr(a)
    kk = to_ix(k)
    return new_arr(a.shape, lambda ix: ind_lt(ix[-1] - ix[-2], kk + 1) * a.at(ix), a.dtype)


def _tri_indices(n, k, lower, m=None):
    n, m = to_ix(n), to_ix(n if m is None else m)
    k = to_ix(k)
    # upper: j - i >= k ; lower: j - i <= k
    mask = new_arr((n, m), lambda ix: (E.const(1) - Y.ind_lt(k, ix[1] - ix[0])) if lower else (E.const(1) - Y.ind_lt(ix[1] - ix[0], k)), "b")
    row = new_arr((n, m), lambda ix: to_e(mkint(ix[0]))[0], "i")
    col = new_arr((n, m), lambda ix: to_e(mkint(ix[1]))[0], "i")
    return Y.MArr(row, mask), Y.MArr(col, mask)


@H(np.triu_indices)
def _triui(I, n, k=0, m=None):
    return _tri_indices(n, k, False, m)


@H(np.tril_indices)
def _trili(I, n, k=0, m=None):
    return _tri_indices(n, k, True, m)


@H(np.flip)
def _flip(I, a, axis=None):
    a = as_arr(a)
    axs = range(a.ndim) if axis is None else [axis % a.ndim]
    return Y.getitem(a, tuple(slice(None, None, -1) if k in axs else slice(None) for k in range(a.ndim)))


@H(np.tile)
def _tile(I, a, reps):
    a = as_arr(a)
    r = [to_ix(x) for x in (reps if isinstance(reps, (tuple, list)) else [reps])]
    nd = max(a.ndim, len(r))
    r = [IX.const(1)] * (nd - len(r)) + r
    ash = [IX.const(1)] * (nd - a.ndim) + list(a.shape)

    def f(ix):
        ii = []
        for k in range(nd - a.ndim, nd):
            ii.append(ix[k] if Y.is_one(r[k]) else (IX.const(0) if Y.is_one(ash[k]) else iatom("%", [ix[k], ash[k]])))
        return a.at(ii)
    return new_arr([x * y for x, y in zip(r, ash)], f, a.dtype)


@H(np.repeat)
def _repeat(I, a, n, axis=None):
    a = as_arr(a)
    n = to_ix(n)
    if axis is None:
        a = _ravel(I, a)
        axis = 0
    ax = axis % a.ndim
    sh = list(a.shape)
    one = Y.is_one(sh[ax])
    sh[ax] = sh[ax] * n

    def f(ix):
        ix = list(ix)
        ix[ax] = IX.const(0) if one else iatom("//", [ix[ax], n])
        return a.at(ix)
    return new_arr(sh, f, a.dtype)


@H(np.broadcast_to)
def _bto(I, a, shape, **k):
    a = as_arr(a)
    sh = _shape(shape)
    return new_arr(sh, lambda ix: Y.bat(a, sh, ix), a.dtype)


@H(np.cumsum)
def _cumsum(I, a, axis=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum rank")

    def f(ix):
        v = fresh()
        return esum(a.at([IX.sym(v)]), v, ix[0] + 1)
    return new_arr(a.shape, f, a.dtype)


# ---------------------------------------------------------------- linear algebra
@H(np.linalg.inv)
def _inv(I, a):
    return Y.linalg_inv(a)


@H(np.linalg.det)
def _det(I, a):
    return Y.linalg_det(a)


@H(np.linalg.slogdet)
def _slogdet(I, a):
    S.assumptions.add("numpy.linalg.slogdet(A) = (det(A)/|det(A)|, log|det(A)|) with det(A) != 0")
    d = Y.linalg_det(a)
    ab = Y.elementwise(lambda e: alg.fn("abs", e), "f", d)
    sg = Y.elementwise(lambda e: e * alg.epow(alg.fn("abs", e), -1), "c", d)
    lg = Y.elementwise(lambda e: alg.fn("log", e), "f", ab)
    return (sg, lg)


@H(np.linalg.solve)
def _solve(I, a, b):
    i = Y.linalg_inv(a)
    return Y.matmul(i, b)


@H(np.linalg.norm)
def _norm(I, a, ord=None, axis=None, **k):
    if ord not in (None, 2, "fro") or (ord == 2 and as_arr(a).ndim != 1 and axis is None):
        raise Unsupported("norm order")
    a = as_arr(a)
    s = Y.asum(Y.elementwise(lambda e: e * alg.conj(e), "f", a), axis)
    return TABLE[np.sqrt](I, s)


@H(np.linalg.eigh)
def _eigh(I, a, *r, **k):
    a = as_arr(a)
    S.assumptions.add("numpy.linalg.eigh: a deterministic function of its argument (opaque)")
    w, v = Y.opaque("eigh", a, [a.shape[-1:], a.shape[-2:]], real_out=[True, False])
    return (w, v)


@H(np.linalg.qr)
def _qr(I, a, mode="reduced"):
    a = as_arr(a)
    S.assumptions.add("numpy.linalg.qr: a deterministic function of its argument (opaque)")
    if not S.ctx.ge0(a.shape[-2] - a.shape[-1]):
        raise Unsupported("wide qr")
    n = a.shape[-1]
    return tuple(Y.opaque("qr", a, [a.shape[-2:], [n, n]]))


try:
    import scipy.linalg as _sl
    H(_sl.inv)(lambda I, a, **k: Y.linalg_inv(a))
    H(_sl.det)(lambda I, a, **k: Y.linalg_det(a))

    @H(_sl.expm)
    def _expm(I, a):
        a = as_arr(a)
        S.assumptions.add("scipy.linalg.expm: opaque function of its argument, expm(A^T)=expm(A)^T")
        return Y.opaque("expm", a, [a.shape[-2:]], canon_T=True)[0]

    @H(_sl.qr)
    def _slqr(I, a, mode="full", **k):
        if mode != "economic":
            raise Unsupported("scipy qr mode")
        return _qr(I, a)
    H(_sl.eigh)(lambda I, a, b=None, **k: _eigh(I, a) if b is None else (_ for _ in ()).throw(Unsupported("generalised eigh")))

    @H(_sl.block_diag)
    def _bd(I, *ms):
        ms = [as_arr(m) for m in ms]
        tot0, tot1, offs = IX.const(0), IX.const(0), []
        for m in ms:
            offs.append((tot0, tot1))
            tot0, tot1 = tot0 + m.shape[0], tot1 + m.shape[1]

        def f(ix):
            r = E([])
            for m, (a, b) in zip(ms, offs):
                g = (E.const(1) - ind_lt(ix[0], a)) * ind_lt(ix[0], a + m.shape[0]) * \
                    (E.const(1) - ind_lt(ix[1], b)) * ind_lt(ix[1], b + m.shape[1])
                r = r + g * m.at([ix[0] - a, ix[1] - b])
            return r
        return new_arr([tot0, tot1], f, Y.dmax(*[m.dtype for m in ms]))
except Exception:
    pass

try:
    from scipy import special as _sp

    @H(_sp.factorial, math.factorial)
    def _factorial(I, x, **k):
        def f(e):
            ix = e2ix(e)
            if ix is None:
                raise Unsupported("factorial of non-integer")
            return alg.efact(ix)
        return Y.elementwise(f, "f", x)

    @H(_sp.genlaguerre, always=True)
    def _genlag(I, n, alpha=0, **k):
        n, a = to_ix(n), to_ix(alpha)
        if n.is_const() and a.is_const() and 0 <= n.cval() <= 12:
            nn, aa = int(n.cval()), int(a.cval())

            def poly(e):
                r = E.const(0)
                for i in range(nn + 1):
                    c = Fraction((-1) ** i * math.comb(nn + aa, nn - i), math.factorial(i))
                    r = r + (alg.epow(e, i) if i else E.const(1)).scale(c)
                return r
            g = lambda x: Y.elementwise(poly, "f", x)
        else:
            g = lambda x: Y.elementwise(lambda e: E.atom(("F", "lag", (n, a, e))), "f", x)
        g._vc_direct = True
        return g

    @H(_sp.eval_genlaguerre)
    def _evlag(I, n, a, x, **k):
        n, a = to_ix(n), to_ix(a)
        return Y.elementwise(lambda e: E.atom(("F", "lag", (n, a, e))), "f", x)
except Exception:
    pass

# random numbers: universally quantified fresh tensors
def _rand(I, shape, kind):
    src = getattr(I, "rand_src", None)
    if src is not None and src.get(kind) is not None:
        S.assumptions.add("random draws are universally quantified (any value)")
        a = src[kind]
        if isinstance(a, list):
            if not a:
                raise Unsupported("more random draws than the contract provides")
            a = a.pop(0)
        if not shape:
            if isinstance(a, Arr) and a.ndim:
                raise Unsupported("scalar draw")
            return a
        return Y.reshape(a, shape)
    I.rnd += 1
    nm = f"rnd{I.rnd}"
    decl(nm, real=True)
    if not shape:
        r = Sc(E.atom(("T", nm, False, ())), "f")
    else:
        r = new_arr(shape, lambda ix: E.atom(("T", nm, False, tuple(ix))), "f")
    I.random_log.append((kind, r))
    S.assumptions.add("random draws are universally quantified (any value)")
    return r


@H(np.random.normal, always=True)
def _rnormal(I, loc=0.0, scale=1.0, size=None):
    sh = [] if size is None else _shape(size)
    r = _rand(I, sh, "normal")
    if loc != 0.0 or scale != 1.0:
        r = binop("+", binop("*", r, scale), loc)
    return r


@H(np.random.random, np.random.rand, np.random.random_sample, always=True)
def _rrandom(I, *size):
    if len(size) == 1 and isinstance(size[0], (tuple, list)):
        size = size[0]
    return _rand(I, [to_ix(s) for s in size], "uniform")


@H(np.random.randn, np.random.standard_normal, always=True)
def _rrandn(I, *size, **k):
    if "size" in k:
        size = (k["size"],)
    if len(size) == 1 and isinstance(size[0], (tuple, list)):
        size = size[0]
    return _rand(I, [to_ix(s) for s in size], "normal")


@H(np.random.uniform, always=True)
def _runiform(I, low=0.0, high=1.0, size=None):
    r = _rand(I, [] if size is None else _shape(size), "uniform")
    if low != 0.0 or high != 1.0:
        r = binop("+", binop("*", r, high - low), low)
    return r


@H(np.random.seed, always=True)
def _rseed(I, *a):
    return None


import time as _time
for _f in (_time.time, _time.perf_counter, _time.process_time):
    H(_f, always=True)(lambda I: 0.0)


# ---------------------------------------------------------------- array methods
def arr_method(I, a, name, args, kw):
    if name == "dot":
        return Y.dot(a, args[0])
    if name == "sum":
        return Y.asum(a, args[0] if args else kw.get("axis"), kw.get("keepdims", False))
    if name == "mean":
        return _mean(I, a, args[0] if args else kw.get("axis"))
    if name in ("conj", "conjugate"):
        return Y.npf_conj(a)
    if name == "reshape":
        if kw.get("order", "C") != "C":
            raise Unsupported("Fortran reshape")
        s = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        return Y.reshape(a, list(s))
    if name == "ravel":
        return Y.reshape(a, [Y.prod(a.shape)])
    if name == "flatten":
        return Y.copy(Y.reshape(a, [Y.prod(a.shape)]))
    if name == "copy":
        return Y.copy(a)
    if name == "transpose":
        p = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        return Y.transpose(a, tuple(p) or tuple(reversed(range(a.ndim))))
    if name == "swapaxes":
        return _swapaxes(I, a, *args)
    if name == "astype":
        return astype(a, _kind(args[0] if args else kw.get("dtype")))
    if name == "trace":
        return _trace(I, a)
    if name == "diagonal":
        return _diagonal(I, a, *args, **kw)
    if name == "fill":
        Y.assign_view(a, args[0])
        return None
    if name == "squeeze":
        return _squeeze(I, a, *args, **kw)
    if name == "item":
        if args:
            return Y.getitem(a, args[0])
        if all(Y.is_one(d) for d in a.shape):
            return scal(a.at([IX.const(0)] * a.ndim), a.dtype)
        raise PyRaise("ValueError", "item")
    if name in ("max", "min"):
        if args or kw:
            raise Unsupported("max axis")
        return _amax_arr(name, a)
    if name == "prod":
        return _prod(I, a, *args, **kw)
    if name in ("any", "all"):
        return (_any if name == "any" else _all)(I, a, *args, **kw)
    if name == "cumsum":
        return _cumsum(I, a)
    if name == "view":
        return a
    if name == "repeat":
        return _repeat(I, a, *args, **kw)
    raise Unsupported(f"ndarray.{name}")


def ogrid(k):
    out = []
    for i, sl in enumerate(k):
        if not isinstance(sl, slice) or sl.step not in (None, 1):
            raise Unsupported("ogrid form")
        lo = to_ix(sl.start) if sl.start is not None else IX.const(0)
        n = to_ix(sl.stop) - lo
        out.append(new_arr([n if j == i else IX.const(1) for j in range(len(k))], lambda ix, i=i, lo=lo: to_e(mkint(ix[i] + lo))[0], "i"))
    return out
