"""Symbolic interpreter for the repository's own Python source.

The AST of each function is taken from the imported module's source file on every run
(inspect.getsource), so the verified text is the text CPython runs.  Dropped: printing/logging/timing
calls, docstrings, type annotations, decorators (numba.jit: the undecorated py_func is interpreted).
"""
import ast
import builtins
import inspect
import math
import textwrap
import types
from fractions import Fraction
import numpy as np

from . import alg, norm as N, sym as Y
from .alg import IX, E, T, IAtom, F0, F1, Unsupported, fresh, ind_eq, ind_lt, esum, ix2e, fn, decl, DECL, merge
from .sym import (S, SI, SB, Sc, Arr, Cell, SymObj, PyRaise, touch, restore, snapshot, to_ix, to_e, mkint, mkbool,
                  as_arr, binop, compare, demote, new_arr, is_sym, scal, e2ix)


class Fork(Exception):
    pass


class MergeFail(Exception):
    pass


class CompSeg:
    """list segment produced by a summarised loop: values val(var), var < upper"""

    def __init__(self, var, upper, val):
        self.var, self.upper, self.val = var, upper, val


class Poison:
    def __repr__(self):
        return "<undefined after loop>"


class Closure:
    def __init__(self, node, env, globs, name, defaults, kwdefaults, interp):
        self.node, self.env, self.globs, self.name = node, env, globs, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.interp = interp

    def __call__(self, *a, **k):
        return self.interp.call_node(self.node, self.globs, self.env, self.name, self.defaults, self.kwdefaults,
                                     list(a), dict(k))


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ArrMethod:
    def __init__(self, arr, name):
        self.arr, self.name = arr, name


class DType:
    """dtype attribute of a symbolic array"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, DType):
            return o.k == self.k
        try:
            return Y.np_dtype_kind(o) == self.k
        except Exception:
            return False

    def __hash__(self):
        return hash(self.k)


class SuperProxy:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


_AST = {}


def func_ast(f):
    code = f.__code__
    if code not in _AST:
        try:
            src = textwrap.dedent(inspect.getsource(code))
            tree = ast.parse(src)
        except (OSError, SyntaxError, TypeError, IndentationError) as e:
            raise Unsupported(f"no source for {f}: {e}")
        node = tree.body[0]
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            _AST[code] = node
        else:
            # lambda inside an expression
            lam = [n for n in ast.walk(tree) if isinstance(n, ast.Lambda)]
            if len(lam) != 1:
                raise Unsupported("lambda source")
            _AST[code] = lam[0]
    return _AST[code]


def deep_sym(x, d=0):
    if is_sym(x) or isinstance(x, (Closure, Bound, CompSeg, Poison)):
        return True
    if isinstance(x, (list, tuple, set)) and d < 4:
        return any(deep_sym(y, d + 1) for y in x)
    if isinstance(x, dict) and d < 4:
        return any(deep_sym(y, d + 1) for y in x.values())
    if isinstance(x, slice):
        return deep_sym(x.start) or deep_sym(x.stop) or deep_sym(x.step)
    return False


NOOP_MODULES = ("logging", "warnings", "openms.lib.logger", "pyscf.lib.logger")


# pure functions of installed dependencies whose own source is interpreted too
INTERPRET = {"pyscf.scf.hf.level_shift", "pyscf.scf.hf.damping"}


class Interp:
    def __init__(self, overrides=None, decisions=None, noops=()):
        self.overrides = overrides or {}
        self.decisions = list(decisions or [])
        self.dpos = 0
        self.forks = []          # alternative decision prefixes discovered
        self.nofork = 0
        self.functions = {}      # functions interpreted (qualified name -> file:line)
        self.loops = []
        self.depth = 0
        self.noops = set(noops)
        self.looplists = set()
        self.newlists = None   # lists created inside the loop iteration being summarised
        self.steps = 0
        self.rnd = 0
        self.random_log = []

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        h = None
        try:
            h = self.overrides.get(f)
        except TypeError:
            pass
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, Bound):
            fo = f.func
            try:
                h = self.overrides.get(fo)
            except TypeError:
                h = None
            if h is not None:
                return h(self, f.obj, *args, **kw)
            return self.call(fo, [f.obj] + list(args), kw)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.globs, f.env, f.name, f.defaults, f.kwdefaults, list(args), dict(kw))
        if isinstance(f, ArrMethod):
            return arr_method(self, f.arr, f.name, args, kw)
        if hasattr(f, "py_func") and isinstance(getattr(f, "py_func"), types.FunctionType):
            f = f.py_func
            h = self.overrides.get(f)
            if h is not None:
                return h(self, *args, **kw)
        if isinstance(f, types.MethodType):
            mod = getattr(f.__func__, "__module__", "") or ""
            if mod in NOOP_MODULES:
                return None
            if mod.startswith("openms"):
                return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, types.FunctionType):
            mod = f.__module__ or ""
            if getattr(f, "__name__", "") == "timer" and mod in NOOP_MODULES:
                return (0.0, 0.0)
            if getattr(f, "_vc_direct", False):
                return f(*args, **kw)
            if mod in NOOP_MODULES or f in self.noops:
                return None
            if mod.startswith("openms") or f"{mod}.{f.__qualname__}" in INTERPRET:
                hh = HANDLERS.get(f)
                if hh is None:
                    return self.call_py(f, list(args), dict(kw))
        try:
            hh = HANDLERS.get(f)
        except TypeError:
            hh = None
        if hh is not None:
            always = getattr(hh, "always", False)
            if always or deep_sym(args) or deep_sym(kw):
                out = kw.get("out")
                if out is not None:
                    kw = {k: v for k, v in kw.items() if k != "out"}
                    if not isinstance(out, Arr):
                        raise Unsupported("out= argument")
                    r = as_arr(hh(self, *args, **kw))
                    Y.assign_view(out, r)
                    return out
                if kw.get("where", True) is not True:
                    raise Unsupported("where= argument")
                return hh(self, *args, **kw)
            return native(f, args, kw)
        if isinstance(f, type) and (f.__module__ or "").startswith("openms") and not issubclass(f, BaseException):
            o = SymObj(f, label=f.__name__)
            init = f.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, type) and issubclass(f, BaseException):
            return f
        if not deep_sym(args) and not deep_sym(kw):
            return native(f, args, kw)
        import functools
        if f is functools.reduce and isinstance(args[1], (list, tuple)) and not any(isinstance(x, CompSeg) for x in args[1]):
            seq = list(args[2:]) + list(args[1])
            if seq:
                acc = seq[0]
                for x in seq[1:]:
                    acc = self.call(args[0], [acc, x], {})
                return acc
        # native container methods with symbolic payloads
        slf = getattr(f, "__self__", None)
        if isinstance(slf, (list, dict, set, tuple, str)):
            return self.container_method(slf, f.__name__, args, kw)
        raise Unsupported(f"call of {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} with symbolic arguments")

    def container_method(self, o, name, args, kw):
        if isinstance(o, list):
            if name in ("append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse"):
                touch(o)
                if name in ("append", "extend"):
                    return getattr(o, name)(*args, **kw)
                if id(o) in self.looplists:
                    raise Unsupported("list mutation in summarised loop")
                return getattr(o, name)(*args, **kw)
            if name == "copy":
                return list(o)
            if name in ("index", "count") and not deep_sym(o) and not deep_sym(args):
                return getattr(o, name)(*args)
        if isinstance(o, dict):
            if name in ("update", "setdefault", "pop", "clear"):
                touch(o)
            return getattr(o, name)(*args, **kw)
        if isinstance(o, str):
            if name == "format":
                return o
            if name == "join":
                return o.join(str(x) for x in args[0])
        raise Unsupported(f"{type(o).__name__}.{name}")

    def call_py(self, f, args, kw):
        node = func_ast(f)
        try:
            self.functions[f.__module__ + "." + f.__qualname__] = f"{f.__code__.co_filename}:{f.__code__.co_firstlineno}"
        except AttributeError:
            pass
        env = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env[n] = c.cell_contents
                except ValueError:
                    pass
        defaults = list(f.__defaults__ or ())
        return self.call_node(node, f.__globals__, env, f.__name__, defaults, dict(f.__kwdefaults__ or {}), args, kw)

    def call_node(self, node, globs, env, name, defaults, kwdefaults, args, kw):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion depth")
        try:
            a = node.args
            loc = dict()
            pos = [x.arg for x in a.posonlyargs + a.args]
            kw = dict(kw)
            for i, n in enumerate(pos):
                if i < len(args):
                    loc[n] = args[i]
                elif n in kw:
                    loc[n] = kw.pop(n)
                else:
                    j = i - (len(pos) - len(defaults))
                    if j < 0:
                        raise PyRaise("TypeError", f"missing argument {n} of {name}")
                    loc[n] = defaults[j]
            if len(args) > len(pos):
                if a.vararg:
                    loc[a.vararg.arg] = tuple(args[len(pos):])
                else:
                    raise PyRaise("TypeError", f"too many arguments for {name}")
            elif a.vararg:
                loc[a.vararg.arg] = ()
            for x in a.kwonlyargs:
                if x.arg in kw:
                    loc[x.arg] = kw.pop(x.arg)
                elif x.arg in kwdefaults:
                    loc[x.arg] = kwdefaults[x.arg]
                else:
                    raise PyRaise("TypeError", f"missing kwonly {x.arg}")
            if a.kwarg:
                loc[a.kwarg.arg] = kw
            elif kw:
                raise PyRaise("TypeError", f"unexpected keyword {list(kw)} for {name}")
            fr = Frame(loc, globs, env)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            fr.nl = _nonlocals(node)
            st = self.block(node.body, fr)
            if st and st[0] == "ret":
                return st[1]
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ branching
    def truth(self, v):
        """concrete truth value or None"""
        if isinstance(v, SB):
            e = N.norm(v.e, S.ctx)
            if e.is_const():
                return e.cval()[0] != 0
            v.e = e
            # a compound condition decided before keeps its value
            for pe, d in S.path:
                if len(pe.ts) == len(e.ts) and (pe is e or N.same(pe, e)):
                    return d
            # integer predicates through z3: try both
            if N.zero(e, S.ctx):
                return False
            if N.zero(N.norm(e - 1, S.ctx), S.ctx):
                return True
            return None
        if isinstance(v, SI):
            return self.truth(compare("!=", v, 0))
        if isinstance(v, Sc):
            return self.truth(compare("!=", v, 0))
        if isinstance(v, Arr):
            if not v.shape:
                return self.truth(demote(v))
            if all(d.is_const() and d.cval() == 1 for d in v.shape):
                return self.truth(scal(v.at([IX.const(0)] * v.ndim), v.dtype))
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (SymObj, Bound, Closure, ArrMethod)):
            return True
        if isinstance(v, np.ndarray) and v.size != 1:
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, list) and any(isinstance(x, CompSeg) for x in v):
            n = seq_len(v)
            return self.truth(mkbool(E.const(1) - ind_eq(n)))
        if isinstance(v, Poison):
            raise Unsupported("undefined value")
        return bool(v)

    def sbool(self, v):
        if isinstance(v, SB):
            return v
        if isinstance(v, (SI, Sc)):
            r = compare("!=", v, 0)
            return r if isinstance(r, SB) else r
        if isinstance(v, Arr):
            if all(d.is_const() and d.cval() == 1 for d in v.shape):
                return self.sbool(scal(v.at([IX.const(0)] * v.ndim), v.dtype))
        return v

    def assume(self, e, val):
        """add the branch condition to the context (integer facts used by z3, scalar facts as literals)"""
        e = N.norm(e, S.ctx)
        ctx = S.ctx
        for t, truth in literals(e, val):
            if t[0] == "I":
                if t[1] == "lt":
                    ctx = ctx.add(-t[2] - 1) if truth else ctx.add(t[2])
                elif truth:
                    ctx = ctx.add(t[2], -t[2])
                else:
                    # disequality: if one side is known, strengthen
                    if ctx.ge0(t[2]):
                        ctx = ctx.add(t[2] - 1)
                    elif ctx.ge0(-t[2]):
                        ctx = ctx.add(-t[2] - 1)
            else:
                ctx = ctx.addp(t[1], t[2], truth)
        S.ctx = ctx

    def decide(self, sb, why=""):
        """fork the execution on a symbolic condition"""
        if self.nofork:
            raise Unsupported(f"unmergeable branch in summarised loop ({why})")
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = True
            self.forks.append(self.decisions[:self.dpos] + [False])
            self.decisions.append(True)
        self.dpos += 1
        S.path.append((sb.e, d))
        self.assume(sb.e, d)
        if S.ctx.inconsistent() or N.p_inconsistent(S.ctx):
            raise InfeasiblePath()
        # a compound condition decided earlier may now have the other value
        for e, was in S.path[:-1]:
            e = N.norm(e, S.ctx)
            if e.is_const() and (e.cval()[0] != 0) != was:
                raise InfeasiblePath()
        return d

    def force(self, v, why=""):
        t = self.truth(v)
        if t is not None:
            return t
        sb = self.sbool(v)
        if not isinstance(sb, SB):
            return bool(sb)
        return self.decide(sb, why)

    def branch(self, sb, fr, run_t, run_f):
        """execute two branches and merge, or fork"""
        snap_dpos, snap_dec, snap_forks = self.dpos, list(self.decisions), list(self.forks)
        ctx0, path0 = S.ctx, list(S.path)
        loc0 = dict(fr.locals)
        outs = []
        self.nofork += 1
        try:
            try:
                for val, run in ((True, run_t), (False, run_f)):
                    S.frames.append({})
                    fr.locals = dict(loc0)
                    S.ctx, S.path = ctx0, list(path0)
                    st, exc = None, None
                    try:
                        self.assume(sb.e, val)
                        st = run(fr)
                    finally:
                        jr = S.frames.pop()
                        new = [(o, old, snapshot(o)) for o, old in jr.values()]
                        for o, old, _ in new:
                            restore(o, old)
                    outs.append((st, fr.locals, new))
                    fr.locals = dict(loc0)
                S.ctx, S.path = ctx0, path0
                r = self.merge_states(sb, fr, loc0, outs)
                return r
            except (MergeFail, PyRaise) as ex:
                if self.nofork > 1:
                    raise Unsupported(f"unmergeable branch: {ex}")
                raise
        except (MergeFail, PyRaise):
            pass
        finally:
            self.nofork -= 1
        # fork
        fr.locals = dict(loc0)
        S.ctx, S.path = ctx0, path0
        self.dpos, self.decisions, self.forks = snap_dpos, snap_dec, snap_forks
        d = self.decide(sb, "branch")
        return (run_t if d else run_f)(fr)

    def merge_states(self, sb, fr, loc0, outs):
        (st1, l1, w1), (st2, l2, w2) = outs
        c = sb.e
        st = None
        if (st1 is None) != (st2 is None) or (st1 and st1[0] != st2[0]):
            raise MergeFail("control flow")
        if st1 and st1[0] == "ret":
            st = ("ret", merge_val(c, st1[1], st2[1]))
        elif st1:
            st = st1
        objs = {}
        for o, old, new in w1:
            objs[id(o)] = [o, old, new, old]
        for o, old, new in w2:
            if id(o) in objs:
                objs[id(o)][3] = new
            else:
                objs[id(o)] = [o, old, old, new]
        todo = []
        for o, old, n1, n2 in objs.values():
            if isinstance(o, Cell):
                e = n1[0] if N.same(n1[0], n2[0]) else Y.tidy(c * n1[0] + (E.const(1) - c) * n2[0])
                if n1[1] != n2[1]:
                    raise MergeFail("dtype")
                todo.append((o, (e, n1[1])))
            elif isinstance(o, SymObj):
                d = {}
                for k in set(n1) | set(n2):
                    if k not in n1 or k not in n2:
                        raise MergeFail("attribute")
                    d[k] = merge_val(c, n1[k], n2[k])
                todo.append((o, d))
            elif isinstance(o, list):
                if len(n1) != len(n2):
                    raise MergeFail("list length")
                todo.append((o, [merge_val(c, a, b) for a, b in zip(n1, n2)]))
            elif isinstance(o, dict):
                if set(n1) != set(n2):
                    raise MergeFail("dict keys")
                todo.append((o, {k: merge_val(c, n1[k], n2[k]) for k in n1}))
            elif isinstance(o, np.ndarray):
                if np.array_equal(n1, n2):
                    todo.append((o, n1))
                else:
                    raise MergeFail("concrete array")
            else:
                raise MergeFail("state")
        loc = {}
        for k in set(l1) | set(l2):
            if k in l1 and k in l2:
                try:
                    loc[k] = merge_val(c, l1[k], l2[k])
                except MergeFail:
                    raise
            elif k in loc0:
                raise MergeFail("deleted local")
            else:
                loc[k] = Poison()     # defined on one side only
        for o, s in todo:
            touch(o)
            restore(o, s)
        fr.locals = loc
        return st

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            r = self.stmt(st, fr)
            if r is not None:
                return r
        return None

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("step limit")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        return None

    def st_Return(self, s, fr):
        return ("ret", self.ev(s.value, fr) if s.value else None)

    def st_Break(self, s, fr):
        return ("brk",)

    def st_Continue(self, s, fr):
        return ("cont",)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = fr.get(t.id)
            v = self.ev(s.value, fr)
            fr.set(t.id, self.iop(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.subscript(o, k)
            v = self.ev(s.value, fr)
            if isinstance(cur, (Arr, Y.MArr)):
                new = self.bin(op, cur, v)
                self.store(o, k, new)
            else:
                self.store(o, k, self.iop(op, cur, v))
        else:
            raise Unsupported("augassign")

    def iop(self, op, cur, v):
        if isinstance(cur, Arr):
            new = as_arr(self.bin(op, cur, v))
            if len(new.shape) != len(cur.shape) or any(Y.dim_eq(a, b) is not True for a, b in zip(new.shape, cur.shape)):
                raise PyRaise("ValueError", "in-place broadcast")
            if Y.DT.index(new.dtype) > Y.DT.index(cur.dtype):
                if new.dtype == "c" or cur.dtype in "ib":
                    raise PyRaise("TypeError", f"cannot cast {new.dtype} to {cur.dtype} in place")
            Y.assign_view(cur, new)
            return cur
        if isinstance(cur, np.ndarray) and deep_sym(v):
            raise Unsupported("in-place update of a concrete array with symbolic data")
        if isinstance(cur, np.ndarray):
            touch(cur)
            return INPLACE[op](cur, v)
        if isinstance(cur, list):
            if op == "+":
                touch(cur)
                cur.extend(list(v))
                return cur
        return self.bin(op, cur, v)

    def st_If(self, s, fr):
        c = self.ev(s.test, fr)
        t = self.truth(c)
        if t is True:
            return self.block(s.body, fr)
        if t is False:
            return self.block(s.orelse, fr)
        sb = self.sbool(c)
        return self.branch(sb, fr, lambda f: self.block(s.body, f), lambda f: self.block(s.orelse, f))

    def st_While(self, s, fr):
        n = 0
        while True:
            c = self.ev(s.test, fr)
            if not self.force(c, "while"):
                break
            n += 1
            if n > 200:
                raise Unsupported("while loop without a contract")
            r = self.block(s.body, fr)
            if r:
                if r[0] == "brk":
                    return None
                if r[0] == "cont":
                    continue
                return r
        return self.block(s.orelse, fr)

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        items, sym = self.iter_spec(it)
        if items is not None:
            for v in items:
                self.assign(s.target, v, fr)
                r = self.block(s.body, fr)
                if r:
                    if r[0] == "brk":
                        return None
                    if r[0] == "cont":
                        continue
                    return r
            return self.block(s.orelse, fr) if s.orelse else None
        n, val = sym
        self.sym_loop(n, lambda k, f: self.assign(s.target, val(k), f), lambda f: self.block(s.body, f), fr, f"line {s.lineno}")
        return None

    def iter_spec(self, it):
        """-> (list, None) or (None, (n IX, value(k IX)))"""
        if isinstance(it, SymRange):
            if it.n.is_const():
                return [it.val(IX.const(k)) for k in range(max(0, it.n.cval()))], None
            return None, (it.n, it.val)
        if isinstance(it, Arr):
            if not it.shape:
                raise PyRaise("TypeError", "iteration over 0-d")
            n = it.shape[0]
            val = lambda k: Y.getitem(it, (mkint(k),))
            if n.is_const():
                return [val(IX.const(k)) for k in range(n.cval())], None
            return None, (n, lambda k: demote(Y.compose(it, it.shape[1:], lambda ix: [k] + list(ix), lambda b: (ind_eq(b[0], k), b[1:]))))
        if isinstance(it, (list, tuple)):
            self.check_list(it)
            if any(isinstance(x, CompSeg) for x in it):
                if len(it) == 1:
                    c = it[0]
                    return None, (c.upper, lambda k: subst_val(c.val, {c.var: k}))
                raise Unsupported("iteration over mixed list")
            return list(it), None
        if isinstance(it, (range, dict, str, set, np.ndarray)) or hasattr(it, "__iter__"):
            out = list(it)
            return out, None
        raise Unsupported(f"iteration over {type(it)}")

    def check_list(self, l):
        if id(l) in self.looplists:
            raise Unsupported("list read inside the loop that builds it")

    def st_FunctionDef(self, s, fr):
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        fr.set(s.name, Closure(s, fr, fr.globs, s.name, defaults, kwd, self))

    def st_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.set(a.asname, m)
            else:
                fr.set(a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def st_ImportFrom(self, s, fr):
        import importlib
        if s.level:
            raise Unsupported("relative import")
        m = importlib.import_module(s.module)
        for a in s.names:
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                v = importlib.import_module(s.module + "." + a.name)
            fr.set(a.asname or a.name, v)

    def st_Raise(self, s, fr):
        nm = "Exception"
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = ast.unparse(x)
        raise PyRaise(nm)

    def st_Assert(self, s, fr):
        if not self.force(self.ev(s.test, fr), "assert"):
            raise PyRaise("AssertionError")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                touch(o)
                del o[self.ev(t.slice, fr)]

    def st_Global(self, s, fr):
        return None
    st_Nonlocal = st_Global

    def st_Try(self, s, fr):
        try:
            r = self.block(s.body, fr)
        except PyRaise as ex:
            for h in s.handlers:
                names = []
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(t).split(".")[-1] for t in ts]
                if h.type is None or ex.exc in names or "Exception" in names:
                    if h.name:
                        fr.set(h.name, ex)
                    r = self.block(h.body, fr)
                    break
            else:
                raise
        else:
            if r is None and s.orelse:
                r = self.block(s.orelse, fr)
        if s.finalbody:
            r2 = self.block(s.finalbody, fr)
            r = r2 or r
        return r

    def st_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        return self.block(s.body, fr)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items, sym = self.iter_spec(v)
            if items is None:
                raise Unsupported("unpacking a symbolic sequence")
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                m = len(t.elts) - 1
                parts = items[:i] + [items[i:len(items) - (m - i)]] + items[len(items) - (m - i):]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyRaise("ValueError", "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.store(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assign target")

    def setattr(self, o, name, v):
        if isinstance(o, SymObj):
            touch(o)
            o.attrs = dict(o.attrs)
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute store on {type(o)}")

    def store(self, o, k, v):
        if isinstance(o, Arr):
            k = fix_key(k)
            Y.setitem(o, k, v)
            return
        if isinstance(o, np.ndarray):
            if deep_sym(k) or deep_sym(v):
                raise Unsupported("symbolic store into a concrete array")
            touch(o)
            o[k] = v
            return
        if isinstance(o, (list, dict)):
            if isinstance(k, SI):
                raise Unsupported("symbolic list index store")
            if isinstance(o, list):
                self.check_list(o)
            touch(o)
            o[k] = v
            return
        raise Unsupported(f"store into {type(o)}")

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        v = m(n, fr)
        if self.newlists is not None and type(v) is list and isinstance(n, (ast.List, ast.ListComp, ast.BinOp)):
            self.newlists[id(v)] = v
        return v

    def ex_Constant(self, n, fr):
        return n.value

    def ex_Name(self, n, fr):
        v = fr.get(n.id)
        return v

    def ex_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def getattr(self, o, name):
        if isinstance(o, SymObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return o.cls
            if o.cls is not None:
                for c in o.cls.__mro__:
                    if name in c.__dict__:
                        d = c.__dict__[name]
                        if isinstance(d, property):
                            return self.call(d.fget, [o], {})
                        if isinstance(d, staticmethod):
                            return d.__func__
                        if isinstance(d, classmethod):
                            return Bound(o.cls, d.__func__)
                        if isinstance(d, types.FunctionType) or hasattr(d, "py_func"):
                            return Bound(o, d)
                        return d
            if "__getattr_default__" in o.attrs:
                return o.attrs["__getattr_default__"](name)
            raise Unsupported(f"attribute {name} of {o.label} not modelled")
        if isinstance(o, SuperProxy):
            mro = (o.obj.cls or object).__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return Bound(o.obj, d)
                    if name == "__init__":
                        return lambda *a, **k: None
            raise Unsupported(f"super().{name}")
        if isinstance(o, Arr):
            if name == "shape":
                return tuple(mkint(d) for d in o.shape)
            if name == "ndim":
                return o.ndim
            if name == "size":
                return mkint(Y.prod(o.shape))
            if name == "T":
                return o.T
            if name == "real":
                return Y.npf_real(o)
            if name == "imag":
                return Y.npf_imag(o)
            if name == "dtype":
                return DType(o.dtype)
            return ArrMethod(o, name)
        if isinstance(o, (Sc, SI, SB)):
            if name in ("real", "imag"):
                if isinstance(o, Sc):
                    return getattr(o, name)
                return o if name == "real" else 0
            if name in ("conj", "conjugate"):
                return (lambda: Sc(alg.conj(o.e), o.dtype) if isinstance(o, Sc) else o)
            if name == "dtype":
                return DType(to_e(o)[1])
            if name == "shape":
                return ()
            return ArrMethod(as_arr(o), name)
        if isinstance(o, DType):
            if name == "kind":
                return {"f": "f", "c": "c", "i": "i", "b": "b"}[o.k]
            raise Unsupported("dtype attr")
        if isinstance(o, Poison):
            raise Unsupported("undefined value")
        if isinstance(o, list) and name in ("append", "extend", "insert", "pop", "clear", "copy", "remove", "sort", "reverse", "index", "count"):
            return ListMethod(self, o, name)
        if isinstance(o, dict) and name in ("update", "setdefault", "pop", "clear"):
            return ListMethod(self, o, name)
        try:
            return getattr(o, name)
        except AttributeError:
            raise PyRaise("AttributeError", f"{type(o)}.{name}")

    def ex_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.subscript(o, self.ev(n.slice, fr))

    def subscript(self, o, k):
        if isinstance(o, Arr):
            return Y.getitem(o, fix_key(k))
        if isinstance(o, np.ndarray):
            if deep_sym(k):
                return Y.getitem(Y.const_arr(o), fix_key(k))
            return o[k]
        if isinstance(o, (list, tuple)):
            self.check_list(o)
            if any(isinstance(x, CompSeg) for x in o):
                if isinstance(k, slice):
                    return type(o)(seg_slice(o, k))
                if len(o) == 1 and not isinstance(k, slice):
                    c = o[0]
                    return subst_val(c.val, {c.var: Y.norm_index(k, c.upper)})
                raise Unsupported("index into mixed list")
            if isinstance(k, SI):
                # finite list, symbolic index: merge
                r = None
                for j, x in enumerate(o):
                    if r is None:
                        r = x
                    else:
                        r = merge_val(ind_eq(k.ix, j), x, r)
                return r
            if isinstance(k, (Sc, SB)):
                raise Unsupported("symbolic list index")
            return o[k]
        if isinstance(o, SymRange):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("stepped slice of a range")
                lo, hi = Y.clamp_bound(k.start, o.n, IX.const(0)), Y.clamp_bound(k.stop, o.n, o.n)
                if not S.ctx.ge0(hi - lo):
                    raise Unsupported("slice of a range")
                return SymRange(hi - lo, lambda j: o.val(j + lo))
            return o.val(Y.norm_index(k, o.n))
        if o is np.r_ and not isinstance(k, tuple) and is_sym(k) or o is np.r_ and isinstance(k, list) and deep_sym(k):
            return as_arr(fix_key(k))
        if isinstance(o, dict):
            if k not in o:
                raise PyRaise("KeyError", str(k))
            return o[k]
        if o is np.ogrid and isinstance(k, tuple) and deep_sym([x for sl in k if isinstance(sl, slice) for x in (sl.start, sl.stop, sl.step)]):
            return _nh.ogrid(k)
        if isinstance(o, (Sc, SI)):
            return Y.getitem(as_arr(o), fix_key(k))
        try:
            return o[k]
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(type(e).__name__, str(e))

    def ex_Slice(self, n, fr):
        g = lambda x: self.ev(x, fr) if x is not None else None
        return slice(g(n.lower), g(n.upper), g(n.step))

    def ex_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def ex_List(self, n, fr):
        return list(self.elts(n.elts, fr))

    def ex_Set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                items, sym = self.iter_spec(v)
                if items is None:
                    raise Unsupported("star of symbolic sequence")
                out += items
            else:
                out.append(self.ev(e, fr))
        return out

    def ex_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def ex_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.bin(BINOPS[type(n.op)], a, b)

    def bin(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("undefined value")
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                if op == "+" and type(a) is type(b):
                    return a + b
                if op == "*":
                    return a * b
                if isinstance(a, list) and deep_sym(a) or isinstance(b, list) and deep_sym(b):
                    return binop(op, as_arr(a), as_arr(b))
            try:
                return NATIVE[op](a, b)
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError")
            except (TypeError, ValueError) as e:
                raise PyRaise(type(e).__name__, str(e))
        if op == "%" and isinstance(a, str):
            return a
        if op == "*" and isinstance(a, list) and isinstance(b, SI):
            if len(a) == 1:
                return [CompSeg(fresh("c"), b.ix, a[0])]
        if op == "*" and isinstance(b, (list, tuple)) or isinstance(a, (list, tuple)) and op == "*":
            pass
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            raise Unsupported("operator on object")
        return binop(op, a, b)

    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return not t
            sb = self.sbool(v)
            return mkbool(E.const(1) - sb.e)
        if isinstance(n.op, ast.USub):
            if not is_sym(v):
                return -v
            if isinstance(v, SI):
                return mkint(-v.ix)
            return Y.unary(lambda e: -e, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, SB):
                return mkbool(E.const(1) - v.e)
            if isinstance(v, Arr) and v.dtype == "b":
                return Y.unary(lambda e: E.const(1) - e, v)
            if not is_sym(v):
                return ~v
        raise Unsupported("unary")

    def ex_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        acc = None
        for x in n.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if t is None:
                sb = self.sbool(v)
                if not isinstance(sb, SB):
                    raise Unsupported("boolop")
                if acc is None:
                    acc = sb.e
                else:
                    acc = acc * sb.e if is_and else acc + sb.e - acc * sb.e
                continue
            if is_and and not t:
                return v if acc is None else False
            if not is_and and t:
                return v if acc is None else True
            last = v
        if acc is None:
            return last
        return mkbool(acc)

    def ex_Compare(self, n, fr):
        l = self.ev(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r, fr)
            c = self.cmp(op, l, rv)
            if res is None:
                res = c
            else:
                a, b = self.sbool(res), self.sbool(c)
                if isinstance(a, SB) or isinstance(b, SB):
                    res = mkbool(to_e(a)[0] * to_e(b)[0])
                else:
                    res = a and b
            l = rv
        return res

    def cmp(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("undefined value")
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, (SI, Sc)):
                acc = E([])
                for x in b:
                    c = self.cmp(ast.Eq(), a, x)
                    acc = acc + to_e(c)[0] - acc * to_e(c)[0]
                r = mkbool(acc)
                return r if isinstance(op, ast.In) else mkbool(E.const(1) - acc)
            r = a in b
            return r if isinstance(op, ast.In) else not r
        sop = CMPS[type(op)]
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, (DType,)) or isinstance(b, DType):
                r = (a == b) if isinstance(a, DType) else (b == a)
                return r if sop == "==" else not r
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and deep_sym([a, b]) and sop in ("==", "!="):
                if len(a) != len(b):
                    return sop == "!="
                acc = E.const(1)
                for x, y in zip(a, b):
                    acc = acc * to_e(self.cmp(ast.Eq(), x, y))[0]
                return mkbool(acc if sop == "==" else E.const(1) - acc)
            return NATIVE[sop](a, b)
        if sop in ("==", "!=") and (a is None or b is None or isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict))):
            return sop == "!="
        if isinstance(a, SymObj) or isinstance(b, SymObj):
            return (a is b) == (sop == "==")
        return compare(sop, a, b)

    def ex_IfExp(self, n, fr):
        c = self.ev(n.test, fr)
        t = self.truth(c)
        if t is not None:
            return self.ev(n.body if t else n.orelse, fr)
        sb = self.sbool(c)
        r = self.branch(sb, fr, lambda f: ("ret", self.ev(n.body, f)), lambda f: ("ret", self.ev(n.orelse, f)))
        return r[1]

    def ex_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = fr.env_get("__class__")
            return SuperProxy(fr.locals[next(iter(fr.locals))], cls)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            return fr.locals
        f = self.ev(n.func, fr)
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def ex_Lambda(self, n, fr):
        return Closure(n, fr, fr.globs, "<lambda>", [self.ev(d, fr) for d in n.args.defaults], {}, self)

    def ex_JoinedStr(self, n, fr):
        return "<fstring>"

    def ex_FormattedValue(self, n, fr):
        return ""

    def ex_Starred(self, n, fr):
        raise Unsupported("starred")

    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        fr.set(n.target.id, v)
        return v

    def ex_ListComp(self, n, fr):
        out = []
        f2 = Frame(dict(fr.locals), fr.globs, fr.env)
        f2.parent = fr
        self.comp(n.generators, 0, f2, lambda: out.append(self.ev(n.elt, f2)), out)
        return out

    def ex_GeneratorExp(self, n, fr):
        return self.ex_ListComp(n, fr)

    def ex_SetComp(self, n, fr):
        return set(self.ex_ListComp(n, fr))

    def ex_DictComp(self, n, fr):
        out = {}
        f2 = Frame(dict(fr.locals), fr.globs, fr.env)

        def add():
            out[self.ev(n.key, f2)] = self.ev(n.value, f2)
        self.comp(n.generators, 0, f2, add, None)
        return out

    def comp(self, gens, i, fr, emit, out):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        items, sym = self.iter_spec(self.ev(g.iter, fr))
        if items is None:
            if len(gens) != 1 or g.ifs or out is None:
                raise Unsupported("nested symbolic comprehension")
            n, val = sym
            k = fresh("c")
            kx = IX.sym(k)
            c0 = S.ctx
            S.ctx = S.ctx.add(kx, n - 1 - kx)
            self.nofork += 1
            try:
                self.assign(g.target, val(kx), fr)
                m = len(out)
                emit()
                v = out.pop()
                assert len(out) == m
            finally:
                S.ctx = c0
                self.nofork -= 1
            out.append(CompSeg(k, n, freeze(v)))
            return
        for v in items:
            self.assign(g.target, v, fr)
            if all(self.force(self.ev(c, fr), "comprehension if") for c in g.ifs):
                self.comp(gens, i + 1, fr, emit, out)

    # ------------------------------------------------------------ symbolic loops
    def sym_loop(self, n, set_target, body, fr, where):
        try:
            return self.sym_loop1(n, set_target, body, fr, where, False)
        except Unsupported as ex:
            if "opaque function of loop-carried state" not in str(ex):
                raise
        return self.sym_loop1(n, set_target, body, fr, where, True)

    def sym_loop1(self, n, set_target, body, fr, where, private):
        """private: in iteration k, row k of an array written only in row k is taken to hold its value before the loop
        (checked in finish_loop: each iteration changes exactly its own row)"""
        if S.ctx.ge0(-n):
            return
        k = fresh("k")
        kx = IX.sym(k)
        ctx0 = S.ctx
        loc0 = dict(fr.locals)
        self.nofork += 1
        looplists0 = set(self.looplists)
        newlists0 = self.newlists
        try:
            touched, names = {}, set()
            havoc = None
            for attempt in range(4):
                S.ctx = ctx0.add(kx, n - 1 - kx)
                S.frames.append({})
                fr.locals = dict(loc0)
                born = Cell.count
                self.newlists = {}
                try:
                    if havoc is not None:
                        havoc_state(self, fr, havoc)
                    inloc = dict(fr.locals)
                    born = Cell.count
                    set_target(kx, fr)
                    st = body(fr)
                    if st is not None and st[0] != "cont":
                        raise Unsupported(f"break/return in symbolic loop ({where})")
                finally:
                    jr = S.frames.pop()
                    # arrays created by the iteration itself are not loop state
                    new = [(o, old, snapshot(o)) for o, old in jr.values() if not (isinstance(o, Cell) and o.born > born) and id(o) not in self.newlists]
                    if newlists0 is not None:
                        newlists0.update(self.newlists)
                    lend = fr.locals
                    for o, old, _ in new:
                        restore(o, old)
                    fr.locals = dict(loc0)
                t2 = {id(o): o for o, _, _ in new}
                n2 = {x for x in lend if x not in inloc or lend[x] is not inloc[x]}
                if havoc is not None and set(t2) <= set(touched) | havoc["own"] and n2 <= names:
                    break
                for i, o in t2.items():
                    if havoc is None or i not in havoc["own"]:
                        touched[i] = o
                names |= n2
                if private and havoc is None:
                    priv = {id(o): private_axis(o, sn, kx) for o, _, sn in new if isinstance(o, Cell)}
                havoc = make_havoc(self, loc0, touched, names, where)
                if private:
                    for ent in havoc["ents"]:
                        if ent["kind"] == "cell" and priv.get(id(ent["obj"])) is not None:
                            ent["priv"] = (priv[id(ent["obj"])], kx)
            else:
                raise Unsupported(f"loop state did not stabilise ({where})")
            S.ctx = ctx0.add(kx, n - 1 - kx)
            self.finish_loop(k, n, havoc, new, lend, loc0, fr, ctx0, where)
        finally:
            S.ctx = ctx0
            self.nofork -= 1
            self.looplists = looplists0
            self.newlists = newlists0
        self.loops.append(where)

    def finish_loop(self, k, n, hv, new, lend, loc0, fr, ctx0, where):
        """solve the recurrences given by one generic iteration"""
        kx = IX.sym(k)
        newd = {id(o): s for o, _, s in new}
        vars_ = {}   # placeholder name -> dict(kind, idxvars, init E, new E, setter)
        lists = []
        tail = []    # closures applied at the end
        for ent in hv["ents"]:
            kind = ent["kind"]
            if kind == "cell":
                c = ent["obj"]
                if id(c) not in newd:
                    ne, nd = E.atom(("T", ent["ph"], False, tuple(IX.sym(v) for v in c.vars))), c.dtype
                else:
                    ne, nd = newd[id(c)]
                vars_[ent["ph"]] = dict(idx=c.vars, shape=c.shape, init=c.e, new=ne, set=("cell", c, nd), priv=ent.get("priv"))
            elif kind in ("local", "attr"):
                if kind == "local":
                    nv = lend.get(ent["name"])
                else:
                    o = ent["obj"]
                    nv = newd.get(id(o), o.attrs).get(ent["name"])
                pv = ent["pre"]
                if ent["t"] == "int":
                    vars_[ent["ph"]] = dict(int=True, init=to_ix(pv), new=nv, set=(kind, ent))
                elif ent["t"] == "scalar":
                    try:
                        e, d = to_e(demote(nv) if isinstance(nv, Arr) else nv)
                    except Unsupported:
                        raise Unsupported(f"loop variable {ent['name']} changes type ({where})")
                    vars_[ent["ph"]] = dict(idx=(), shape=(), init=to_e(pv)[0], new=e, set=(kind, ent, Y.dmax(d, to_e(pv)[1])))
                elif ent["t"] == "arr":
                    if not isinstance(nv, Arr) or len(nv.shape) != len(pv.shape):
                        raise Unsupported(f"loop variable {ent['name']} changes rank ({where})")
                    for a, b in zip(nv.shape, pv.shape):
                        if Y.dim_eq(a, b) is not True:
                            raise Unsupported("loop array changes shape")
                    vs = tuple(fresh("x") for _ in pv.shape)
                    ii = [IX.sym(v) for v in vs]
                    # value of nv after the iteration (its cell may have been restored)
                    ne = value_at(nv, ii, newd)
                    vars_[ent["ph"]] = dict(idx=vs, shape=pv.shape, init=pv.at(ii), new=ne,
                                            set=(kind, ent, Y.dmax(nv.dtype, pv.dtype)))
                elif ent["t"] == "temp":
                    tail.append(("temp", ent["name"], nv, newd))
            elif kind == "list":
                l = ent["obj"]
                items = newd.get(id(l), [])
                lists.append((l, items))
        # ---- integer counters first
        ints = {}
        for ph, v in vars_.items():
            if v.get("int"):
                nv = v["new"]
                try:
                    nx = to_ix(nv)
                except Unsupported:
                    raise Unsupported(f"integer loop variable not affine ({where})")
                step = nx - IX.sym(ph)
                if ph in step.fv() or k in step.fv() or any(p in step.fv() for p in vars_):
                    # plain overwrite by a function of k
                    if ph not in nx.fv() and not any(p in nx.fv() for p in vars_):
                        ints[ph] = ("last", nx, v["init"])
                        continue
                    raise Unsupported(f"integer recurrence ({where})")
                ints[ph] = ("lin", v["init"] + step * kx, v["init"] + step * n)
        isub = {ph: x[1] for ph, x in ints.items() if x[0] == "lin"}
        bad_last = {ph for ph, x in ints.items() if x[0] == "last"}

        def isubst(e):
            if isinstance(e, (E, IX)):
                if e.fv() & bad_last:
                    raise Unsupported(f"integer carried value ({where})")
                return e.subst(isub)
            return e
        pend = {}
        ctxk = ctx0.add(kx, n - 1 - kx)
        for ph, v in vars_.items():
            if v.get("int"):
                continue
            e = isubst(v["new"])
            facts = []
            for x, d in zip(v["idx"], v["shape"]):
                facts += [IX.sym(x), d - 1 - IX.sym(x)]
            cx = ctxk.add(*facts)
            e = N.norm(e, cx)
            own = ("T", ph, False, tuple(IX.sym(x) for x in v["idx"]))
            a, b = [], []
            for t in e.ts:
                if any(at[0] == "T" and at[1] == ph and at != own for at, p in t.f):
                    # ph[j] with j == idx forced by the indicators of the term is the element itself
                    lc = N.local_ctx(t, cx)
                    t = T(t.c, t.b, tuple((own if at[0] == "T" and at[1] == ph and not at[2] and all(
                        lc.ge0(p1 - p2) and lc.ge0(p2 - p1) for p1, p2 in zip(at[3], own[3])) else at, p) for at, p in t.f))
                pw = [p for (at, p) in t.f if at == own]
                if pw == [F1] and not any(has_ph(at, ph) for at, p in t.f if at != own):
                    a.append(T(t.c, t.b, tuple((at, p) for at, p in t.f if at != own)))
                else:
                    b.append(t)
            a, b = merge(a), merge(b)
            if any(has_ph_e(a, p) for p in vars_):
                raise Unsupported(f"nonlinear recurrence ({where})")
            g = N.norm(E.const(1) - a, cx)
            pend[ph] = dict(v=v, g=g, b=b, cx=cx)
        closed = {}

        def state_fn(ph, upper):
            """value of variable ph after `upper` iterations as function of idx"""
            d = closed[ph]
            v = d["v"]

            def f(idx):
                mp = dict(zip(v["idx"], idx))
                init = v["init"].subst(mp)
                kk = fresh("k")
                # rename the loop variable first: idx may itself mention it
                bk = d["b"].subst({k: IX.sym(kk)}).subst(mp)
                if d["mode"] == "acc":
                    return init + esum(bk, kk, upper)
                if d["mode"] == "over":
                    z = E.const(1) - ind_lt(upper, 1)
                    return z * bk.subst({kk: IX.of(upper) - 1}) + (E.const(1) - z) * init
                gk = d["g"].subst({k: IX.sym(kk)}).subst(mp)
                kk2 = fresh("k")
                gk2 = gk.subst({kk: IX.sym(kk2)})
                return esum(bk, kk, upper) + init - esum(gk2, kk2, upper) * init
            return f

        progress = True
        while pend and progress:
            progress = False
            for ph in list(pend):
                d = pend[ph]
                v, g, b, cx = d["v"], d["g"], d["b"], d["cx"]
                # substitute closed states of others
                for q in list(closed):
                    if has_ph_e(b, q):
                        b = subst_tensor(b, q, state_fn(q, kx))
                        b = N.norm(b, cx)
                    if has_ph_e(g, q):
                        raise Unsupported("guard depends on loop state")
                others = [q for q in vars_ if q != ph and has_ph_e(b, q) and not vars_[q].get("int")]
                if others or any(has_ph_e(g, q) for q in vars_):
                    d["b"] = b
                    continue
                if g.is_zero():
                    if has_ph_e(b, ph):
                        # updates confined to the elements selected by common equality indicators (row k of an array):
                        # every element is touched in at most one iteration, so what it reads is still the initial value
                        com = None
                        for t in b.ts:
                            q = {at for at, p in t.f if at[0] == "I" and at[1] == "eq" and k in at[2].fv()
                                 and not any(bv in at[2].fv() for bv, _ in t.b)}
                            com = q if com is None else com & q
                        if not com:
                            raise Unsupported(f"recurrence through other elements ({where})")
                        gg = E([T((F1, F0), (), tuple((at, F1) for at in sorted(com, key=str)))])
                        k2 = fresh("k")
                        x2 = IX.sym(k2)
                        cx2 = cx.add(x2, n - 1 - x2)
                        if not N.zero(N.norm(gg * gg.subst({k: x2}) * ind_lt(kx, x2), cx2), cx2):
                            raise Unsupported(f"recurrence through other elements ({where})")

                        def ref(idx):
                            kk = fresh("k")
                            mp = dict(zip(v["idx"], idx))
                            return esum(gg.subst({k: IX.sym(kk)}).subst(mp), kk, kx), v["init"].subst(mp)
                        b = N.norm(subst_own(b, ph, ref, cx, where), cx)
                    mode = "acc"
                elif N.same(g, E.const(1)):
                    if has_ph_e(b, ph):
                        raise Unsupported(f"carried recurrence ({where})")
                    mode = "over"
                else:
                    # stores guarded by g: need exclusivity and b = g*b
                    k2 = fresh("k")
                    x2 = IX.sym(k2)
                    ex = g * g.subst({k: x2}) * ind_lt(kx, x2)
                    cx2 = cx.add(x2, n - 1 - x2)
                    if not N.zero(N.norm(ex, cx2), cx2):
                        raise Unsupported(f"overlapping stores in loop ({where})")
                    if not N.equal(g * b, b, cx):
                        raise Unsupported(f"mixed store/accumulate ({where})")
                    if has_ph_e(b, ph):
                        # references to own cell elements not yet written in earlier iterations -> init
                        def ref(idx):
                            kk = fresh("k")
                            mp = dict(zip(v["idx"], idx))
                            w = esum(g.subst({k: IX.sym(kk)}).subst(mp), kk, kx)
                            return w, v["init"].subst(mp)
                        b = subst_own(b, ph, ref, cx, where)
                        b = N.norm(b, cx)
                    mode = "store"
                if v.get("priv") and (mode != "store" or not N.equal(g, ind_eq(IX.sym(v["idx"][v["priv"][0]]), kx), cx)):
                    raise Unsupported(f"row not private to its iteration ({where})")
                closed[ph] = dict(v=v, g=g, b=b, mode=mode)
                del pend[ph]
                progress = True
        if pend:
            raise Unsupported(f"mutually dependent loop state ({where})")

        def final_e(e, at):
            e = isubst(e) if isinstance(e, (E, IX)) else e
            return e
        # ---- lists
        lvals = []
        for l, items in lists:
            def conv(val):
                val = map_val(val, lambda e: close_e(isubst(e), closed, state_fn, kx), lambda ix: isubst(ix), newd)
                return val
            its = [conv(x) for x in items]
            if len(its) == 0:
                continue
            if len(its) != 1:
                raise Unsupported("several appends per iteration")
            lvals.append((l, CompSeg(k, n, its[0])))
        # ---- write back
        results = []
        for ph, d in closed.items():
            f = state_fn(ph, n)
            v = d["v"]
            e = f([IX.sym(x) for x in v["idx"]])
            facts = []
            for x, dd in zip(v["idx"], v["shape"]):
                facts += [IX.sym(x), dd - 1 - IX.sym(x)]
            e = N.norm(e, ctx0.add(*facts))
            results.append((v, e))
        tvals = {}
        for _, name, nv, nd in tail:
            try:
                if not ctx0.ge0(n - 1):
                    raise Unsupported("maybe empty")
                last = {k: n - 1}
                val = map_val(nv, lambda e: close_e(isubst(e), closed, state_fn, kx).subst(last),
                              lambda ix: isubst(ix).subst(last), nd)
                tvals[name] = val
            except (Unsupported, MergeFail):
                tvals[name] = Poison()
        for v, e in results:
            s = v["set"]
            if s[0] == "cell":
                touch(s[1])
                s[1].e = e
                s[1].dtype = s[2]
            else:
                ent = s[1]
                if ent["t"] == "scalar":
                    val = scal(e, s[2])
                else:
                    val = Arr(Cell(v["idx"], v["shape"], e, s[2]))
                self.put(s[0], ent, val, fr)
        for ph, x in ints.items():
            v = vars_[ph]
            if x[0] == "lin":
                val = mkint(x[2])
            elif ctx0.ge0(n - 1):
                val = mkint(x[1].subst({k: n - 1}))
            else:
                val = Poison()
            self.put(v["set"][0], v["set"][1], val, fr)
        for name, val in tvals.items():
            fr.locals[name] = val
        for l, seg in lvals:
            touch(l)
            l.append(seg)

    def put(self, kind, ent, val, fr):
        if kind == "local":
            fr.locals[ent["name"]] = val
        else:
            self.setattr(ent["obj"], ent["name"], val)


class InfeasiblePath(Exception):
    pass


class ListMethod:
    def __init__(self, interp, o, name):
        self.i, self.o, self.name = interp, o, name
        self.__self__ = o
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.i.container_method(self.o, self.name, a, k)


def close_e(e, closed, state_fn, kx):
    for q in closed:
        if has_ph_e(e, q):
            e = subst_tensor(e, q, state_fn(q, kx))
    return e


def literals(e, val):
    """indicator literals implied by e == val (0/1): [(atom, truth)]"""
    out = []
    if len(e.ts) == 1 and e.ts[0].c == (F1, F0) and not e.ts[0].b:
        fs = [a for a, p in e.ts[0].f]
        if all(a[0] in ("I", "P") for a in fs):
            if val:
                return [(a, True) for a in fs]
            if len(fs) == 1:
                return [(fs[0], False)]
            return []
    # 1 - x
    c = E.const(1) - e
    if len(c.ts) == 1 and c.ts[0].c == (F1, F0) and not c.ts[0].b:
        fs = [a for a, p in c.ts[0].f]
        if all(a[0] in ("I", "P") for a in fs):
            if not val:
                return [(a, True) for a in fs]
            if len(fs) == 1:
                return [(fs[0], False)]
    # product structure: e==1 with e = (1-[a])(1-[b]).. : literals entailed individually
    if val:
        res = []
        for a in N.free_inds(e):
            if N.set_ind(e, a, 1).is_zero():
                res.append((a, False))
            elif N.set_ind(e, a, 0).is_zero():
                res.append((a, True))
        return res
    if not val:
        res = []
        for a in N.free_inds(e):
            if N.same(N.set_ind(e, a, 1), E.const(1)):
                res.append((a, False))
            elif N.same(N.set_ind(e, a, 0), E.const(1)):
                res.append((a, True))
        return res
    return out


def has_ph(a, ph):
    if a[0] == "T":
        return a[1] == ph or any(ph in i.fv() for i in a[3])
    if a[0] == "F":
        return any(has_ph_e(x, ph) if isinstance(x, E) else (isinstance(x, IX) and ph in x.fv()) for x in a[2])
    if a[0] == "P":
        return has_ph_e(a[2], ph)
    if a[0] in ("I", "X"):
        ix = a[2] if a[0] == "I" else a[1]
        return ph in ix.fv()
    if a[0] == "N":
        return a[1] == ph
    return False


def has_ph_e(e, ph):
    return any(has_ph(a, ph) for t in e.ts for a, p in t.f)


def subst_tensor(e, name, f):
    """replace every element of tensor `name` by f(idx)"""
    out = E([])
    for t in e.ts:
        keep, rep = [], []
        for a, p in t.f:
            if a[0] == "T" and a[1] == name:
                v = f(list(a[3]))
                if a[2]:
                    v = alg.conj(v)
                rep.append(alg.epow(v, p))
            elif a[0] == "F" and has_ph(a, name):
                rep.append(N.fnp(a[1], [subst_tensor(x, name, f) if isinstance(x, E) else x for x in a[2]], p))
            elif a[0] == "P" and has_ph(a, name):
                rep.append(N.ind_p(a[1], subst_tensor(a[2], name, f)))
            else:
                keep.append((a, p))
        if not rep:
            out = out + E([t])
            continue
        x = E.const(1)
        for r in rep:
            x = x * r
        out = out + E(N.mulE(T(t.c, t.b, tuple(keep)), x))
    return out


def subst_own(b, ph, ref, cx, where):
    out = E([])
    for t in b.ts:
        if not any(has_ph(a, ph) for a, p in t.f):
            out = out + E([t])
            continue
        keep, rep = [], []
        for a, p in t.f:
            if a[0] == "T" and a[1] == ph:
                rep.append((a, p))
            elif has_ph(a, ph):
                raise Unsupported(f"own element inside a function ({where})")
            else:
                keep.append((a, p))
        guard = E([T((F1, F0), (), tuple((a, p) for a, p in keep if a[0] in ("I", "P")))])
        val = E.const(1)
        cxt = N.local_ctx(t, cx)
        for a, p in rep:
            w, init = ref(list(a[3]))
            if not N.zero(N.norm(w * guard, cxt), cxt):
                raise Unsupported(f"element carried between iterations ({where})")
            val = val * alg.epow(alg.conj(init) if a[2] else init, p)
        out = out + E(N.mulE(T(t.c, t.b, tuple(keep)), val))
    return out


def value_at(arr, idx, newd):
    c = arr.cell
    e = newd[id(c)][0] if id(c) in newd else c.e
    b = arr.fwd(idx) if arr.fwd else idx
    return e.subst(dict(zip(c.vars, b)))


def map_val(v, fe, fi, newd=None):
    newd = newd or {}
    if isinstance(v, SI):
        return mkint(fi(v.ix))
    if isinstance(v, Sc):
        return Sc(fe(v.e), v.dtype)
    if isinstance(v, SB):
        return mkbool(fe(v.e))
    if isinstance(v, Arr):
        vs = [fresh("x") for _ in v.shape]
        e = value_at(v, [IX.sym(x) for x in vs], newd)
        return Arr(Cell(vs, tuple(fi(d) for d in v.shape), fe(e), v.dtype))
    if isinstance(v, tuple):
        return tuple(map_val(x, fe, fi, newd) for x in v)
    if isinstance(v, list):
        return [map_val(x, fe, fi, newd) for x in v]
    if isinstance(v, (int, float, complex, str, type(None), bool, np.generic)):
        return v
    raise Unsupported(f"value {type(v)} escaping a loop")


def subst_val(v, mp):
    return map_val(v, lambda e: e.subst(mp), lambda ix: ix.subst(mp))


def freeze(v):
    return map_val(v, lambda e: e, lambda ix: ix)


def private_axis(c, sn, kx):
    """axis j of cell c such that one iteration k changed nothing outside [idx_j == k], or None"""
    try:
        ne = sn[0]
        facts = [f for x, d in zip(c.vars, c.shape) for f in (IX.sym(x), d - 1 - IX.sym(x))]
        for j, x in enumerate(c.vars):
            if all(N.equal(ne, c.e, S.ctx.add(*facts, f)) for f in (kx - IX.sym(x) - 1, IX.sym(x) - kx - 1)):
                return j
    except Unsupported:
        pass
    return None


def make_havoc(interp, loc0, touched, names, where):
    ents = []
    own = set()
    for i, o in touched.items():
        if isinstance(o, Cell):
            ph = fresh("ph")
            decl(ph, real=o.dtype != "c")
            ents.append(dict(kind="cell", obj=o, ph=ph))
        elif isinstance(o, list):
            ents.append(dict(kind="list", obj=o))
        elif isinstance(o, SymObj):
            ents.append(dict(kind="obj", obj=o))
        else:
            raise Unsupported(f"loop mutates {type(o).__name__} ({where})")
    for nm in sorted(names):
        if nm not in loc0 or isinstance(loc0[nm], Poison):
            ents.append(dict(kind="local", name=nm, t="temp", pre=None, ph=None))
            continue
        pre = loc0[nm]
        ents.append(var_ent("local", nm, pre, None, where))
    return dict(ents=ents, own=own)


def var_ent(kind, nm, pre, obj, where):
    ph = fresh("ph")
    if isinstance(pre, (bool, np.bool_)) or pre is None or isinstance(pre, (str, tuple, list, dict, SymObj, Closure, Bound, np.ndarray)):
        # value of an earlier, unrelated use: treat as temporary (reads before writes are caught by Poison)
        return dict(kind=kind, name=nm, t="temp", pre=None, ph=None, obj=obj)
    if isinstance(pre, (SI, int, np.integer)):
        return dict(kind=kind, name=nm, t="int", pre=pre, ph=ph, obj=obj)
    if isinstance(pre, Arr) and pre.shape:
        decl(ph, real=False)
        return dict(kind=kind, name=nm, t="arr", pre=pre, ph=ph, obj=obj)
    try:
        d = to_e(pre)[1]
    except Unsupported:
        return dict(kind=kind, name=nm, t="temp", pre=None, ph=None, obj=obj)
    decl(ph, real=False)
    return dict(kind=kind, name=nm, t="scalar", pre=pre, ph=ph, obj=obj)


def havoc_state(interp, fr, hv):
    for ent in hv["ents"]:
        k = ent["kind"]
        if k == "cell":
            c = ent["obj"]
            touch(c)
            old, c.e = c.e, E.atom(("T", ent["ph"], False, tuple(IX.sym(v) for v in c.vars)))
            if ent.get("priv"):
                j, kx = ent["priv"]
                own = ind_eq(IX.sym(c.vars[j]), kx)
                c.e = own * old + (E.const(1) - own) * c.e
        elif k == "list":
            l = ent["obj"]
            touch(l)
            l.clear()
            interp.looplists.add(id(l))
        elif k == "obj":
            raise Unsupported("attribute assignment in a summarised loop")
        elif k == "local":
            if ent["t"] == "temp":
                fr.locals[ent["name"]] = Poison()
            elif ent["t"] == "int":
                fr.locals[ent["name"]] = SI(IX.sym(ent["ph"]))
            elif ent["t"] == "scalar":
                d = to_e(ent["pre"])[1]
                d = "c" if d in "fc" else d
                if to_e(ent["pre"])[1] in "if":
                    # keep real unless the loop makes it complex
                    DECL[ent["ph"]]["real"] = ent.get("real", True)
                    d = "f"
                fr.locals[ent["name"]] = Sc(E.atom(("T", ent["ph"], False, ())), d)
            elif ent["t"] == "arr":
                pre = ent["pre"]
                DECL[ent["ph"]]["real"] = pre.dtype != "c"
                a = new_arr(pre.shape, lambda ix: E.atom(("T", ent["ph"], False, tuple(ix))), pre.dtype)
                hv["own"].add(id(a.cell))
                hv.setdefault("keep", []).append(a)
                fr.locals[ent["name"]] = a


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison()
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, (str, SymObj)) or isinstance(b, (str, SymObj)):
            raise MergeFail("array vs other")
        try:
            x, y = as_arr(a), as_arr(b)
        except Unsupported:
            raise MergeFail("array vs other")
        if len(x.shape) != len(y.shape) or any(Y.dim_eq(p, q) is not True for p, q in zip(x.shape, y.shape)):
            raise MergeFail("shapes")
        return new_arr(x.shape, lambda ix: Y.tidy(c * x.at(ix) + (E.const(1) - c) * y.at(ix)), Y.dmax(x.dtype, y.dtype))
    num = (int, float, complex, np.generic, SI, Sc, SB)
    if isinstance(a, num) and isinstance(b, num):
        if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
            return a
        x, dx = to_e(a)
        y, dy = to_e(b)
        return scal(c * x + (E.const(1) - c) * y, Y.dmax(dx, dy))
    if type(a) is type(b) and isinstance(a, (tuple, list)):
        if len(a) != len(b):
            raise MergeFail("length")
        return type(a)(merge_val(c, p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return {k: merge_val(c, a[k], b[k]) for k in a}
    try:
        if type(a) is type(b) and bool(a == b):
            return a
    except Exception:
        pass
    raise MergeFail(f"{type(a).__name__} vs {type(b).__name__}")


class Frame:
    def __init__(self, loc, globs, env):
        self.locals, self.globs, self.env = loc, globs, env
        self.nl = ()

    def get(self, n):
        if n in self.locals:
            v = self.locals[n]
            if isinstance(v, Poison):
                raise Unsupported(f"variable {n} may be undefined")
            return v
        e = self.env
        while e is not None:
            if isinstance(e, Frame):
                if n in e.locals:
                    return e.locals[n]
                e = e.env
            else:
                if n in e:
                    return e[n]
                e = None
        if n in self.globs:
            return self.globs[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise("NameError", n)

    def env_get(self, n):
        e = self.env
        while e is not None:
            if isinstance(e, Frame):
                e = e.env
            else:
                if n in e:
                    return e[n]
                e = None
        raise Unsupported(f"free variable {n}")

    def set(self, n, v):
        if n in self.nl:
            e = self.env
            while isinstance(e, Frame):
                if n in e.locals:
                    e.locals[n] = v
                    return
                e = e.env
            raise Unsupported("nonlocal/global store")
        self.locals[n] = v


def _nonlocals(node):
    s = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Nonlocal, ast.Global)):
            s |= set(x.names)
    return s


def fix_key(k):
    if isinstance(k, tuple):
        return tuple(fix_key(x) for x in k)
    if isinstance(k, Sc) and k.dtype == "i":
        ix = Y.e2ix(N.norm(k.e, S.ctx))
        return k if ix is None else SI(ix)      # piecewise integers: split by getitem/setitem
    if isinstance(k, list) and any(isinstance(x, CompSeg) for x in k):
        return as_arr(_nh._conv_list(k))
    if isinstance(k, SymRange):
        return range_arr(k)
    return k


def range_arr(r):
    return new_arr((r.n,), lambda ix: Y.to_e(r.val(ix[0]))[0], "i")


def seg_slice(l, k):
    """slice (step 1) of a list made of segments"""
    if k.step not in (None, 1):
        raise Unsupported("stepped slice of a symbolic list")
    n = seq_len(l)
    lo, hi = Y.clamp_bound(k.start, n, IX.const(0)), Y.clamp_bound(k.stop, n, n)
    out, off = [], IX.const(0)
    for x in l:
        m = x.upper if isinstance(x, CompSeg) else IX.const(1)
        a, b = lo - off, hi - off      # wanted part of this segment, clamped to [0, m]
        off = off + m

        def cl(t):
            if S.ctx.ge0(-t):
                return IX.const(0)
            if S.ctx.ge0(t - m):
                return m
            if S.ctx.ge0(t) and S.ctx.ge0(m - t):
                return t
            raise Unsupported("slice of a mixed list")
        a, b = cl(a), cl(b)
        if S.ctx.ge0(a - b):
            continue
        if not S.ctx.ge0(b - a):
            raise Unsupported("slice of a mixed list")
        if isinstance(x, CompSeg):
            v = fresh("c")
            out.append(CompSeg(v, b - a, subst_val(x.val, {x.var: IX.sym(v) + a})))
        else:
            out.append(x)
    return out


class SymRange:
    def __init__(self, n, val):
        self.n, self.val = n, val


def seq_len(l):
    r = IX.const(0)
    for x in l:
        r = r + (x.upper if isinstance(x, CompSeg) else IX.const(1))
    return r


def native(f, args, kw):
    try:
        return f(*args, **kw)
    except (Unsupported, PyRaise, InfeasiblePath):
        raise
    except Exception as e:
        raise PyRaise(type(e).__name__, str(e))


import operator as _op
NATIVE = {"+": _op.add, "-": _op.sub, "*": _op.mul, "/": _op.truediv, "//": _op.floordiv, "%": _op.mod, "**": _op.pow,
          "@": _op.matmul, "&": _op.and_, "|": _op.or_, "^": _op.xor, "<<": _op.lshift, ">>": _op.rshift,
          "<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge, "==": _op.eq, "!=": _op.ne}
INPLACE = {"+": _op.iadd, "-": _op.isub, "*": _op.imul, "/": _op.itruediv, "//": _op.ifloordiv, "**": _op.ipow,
           "@": _op.imatmul, "%": _op.imod, "&": _op.iand, "|": _op.ior}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

HANDLERS = {}
from . import nphandlers as _nh  # noqa: E402
_nh.install(HANDLERS)
arr_method = _nh.arr_method
