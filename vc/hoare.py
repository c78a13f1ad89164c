"""Loop-invariant verification of index-manipulating functions (weights, walker lists) with z3.

The function body is the AST of the imported function's current source.  Execution is forward symbolic over
z3 integers/reals/arrays; at every loop the contract's invariant is checked on entry, all state the loop can change is
havocked, the invariant is assumed, one iteration is executed and the invariant (and the variant) is checked again.
No loop is unrolled and no dimension is bounded.  An obligation z3 does not prove is 'undecided' (the caller falls back to
concrete runs); nothing here reports a violation by itself.
"""
import ast
import copy as _copy
import inspect
import textwrap
import time

from . import norm as N  # puts z3 on sys.path
import z3
from .alg import Unsupported

RAT = z3.RealSort()
INT = z3.IntSort()
_ctr = [0]


def fresh(p, sort=INT):
    _ctr[0] += 1
    return z3.Const(f"{p}!{_ctr[0]}", sort)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool) or z3.is_expr(x) and z3.is_int(x)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) or z3.is_expr(x) and z3.is_arith(x)


def R(x):
    """as a z3 real"""
    if isinstance(x, bool):
        raise Unsupported("bool used as number")
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(repr(x))
        return z3.Q(f.numerator, f.denominator)
    if z3.is_expr(x) and z3.is_int(x):
        return z3.ToReal(x)
    return x


def Z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def join(a, b):
    """common sort of two numbers"""
    if is_int(a) and is_int(b):
        return a, b
    return R(a), R(b)


class Seq:
    """immutable sequence: length and a function of the index"""

    def __init__(self, n, at, kind="real"):
        self.n, self.at, self.kind = n, at, kind


class Ref:
    """handle of a mutable record on the heap"""

    def __init__(self, k):
        self.k = k


class Rec:
    """mutable list / array / structured array: fields are z3 arrays; gsum is the ghost running sum of a growing list"""

    def __init__(self, n, fields, growing=False, gsum=None):
        self.n, self.fields, self.growing, self.gsum = n, fields, growing, gsum

    def clone(self):
        return Rec(self.n, dict(self.fields) if self.fields is not None else None, self.growing, self.gsum)


class Elem:
    """reference to one entry of a structured array"""

    def __init__(self, ref, i):
        self.ref, self.i = ref, i


class Obj:
    """object whose listed attributes are known; everything else about it is outside the slice"""

    def __init__(self, name, **kw):
        self.name, self.attrs = name, kw


class State:
    def __init__(self):
        self.vars, self.heap, self.pc = {}, {}, []
        self.idx = {}
        self.ret = None
        self.exit = None    # None | 'break' | 'return'

    def fork(self):
        s = State()
        s.vars, s.heap, s.pc = dict(self.vars), {k: r.clone() for k, r in self.heap.items()}, list(self.pc)
        s.idx, s.ret, s.exit = dict(self.idx), self.ret, self.exit
        return s

    # accessors for contracts
    def __getitem__(self, nm):
        if nm not in self.vars:
            raise Unsupported(f"the source has no variable {nm}")
        v = self.vars[nm]
        return self.rec(v) if isinstance(v, Ref) else v

    def rec(self, v):
        return RecView(self, v.k)

    @property
    def draws(self):
        return RecView(self, "draws")


class RecView:
    def __init__(self, st, k):
        self.st, self.k = st, k
        r = st.heap[k]
        self.n, self.gsum = r.n, r.gsum

    def at(self, i, f=None):
        r = self.st.heap[self.k]
        if f is None:
            if len(r.fields) != 1:
                raise Unsupported("field expected")
            f = next(iter(r.fields))
        if f not in r.fields:
            raise Unsupported(f"no field {f}")
        return z3.Select(r.fields[f], Z(i))


class Verifier:
    def __init__(self, func, ghost, timeout=15000, ieee_div=False):
        self.hints, self.points = None, [z3.IntVal(0)]
        self.ieee_div, self.divf = ieee_div, None
        f = inspect.unwrap(func)
        f = getattr(f, "py_func", f)
        self.name = f"{f.__module__}:{f.__qualname__}"
        src = textwrap.dedent(inspect.getsource(f))
        self.node = ast.parse(src).body[0]
        self.globs = f.__globals__
        self.ghost = ghost
        self.obl, self.timeout = [], timeout
        self.sums = {}
        self.axioms = []
        self.nloop = 0
        self.solver_time, self.queries = 0.0, 0
        self.loops = {}
        for k, n in enumerate(x for x in _preorder(self.node) if isinstance(x, (ast.While, ast.For))):
            self.loops[id(n)] = k

    # ------------------------------------------------ solver
    def div(self, x, y):
        """quotient as an uninterpreted function with the linear facts 0/y = 0 and y/y = 1"""
        if self.divf is None:
            f = self.divf = z3.Function("DIV", RAT, RAT, RAT)
            a, b = fresh("x", RAT), fresh("x", RAT)
            self.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(b != 0, a == 0), f(a, b) == 0), patterns=[f(a, b)]))
            self.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(b != 0, a == b), f(a, b) == 1), patterns=[f(a, b)]))
        return self.divf(x, y)

    def valid(self, st, goal, extra=()):
        t = time.time()
        self.queries += 1
        hyps, goals = [p for p in st.pc] + list(extra), []
        k0 = None
        hit = AL.get(goal.get_id()) if z3.is_quantifier(goal) else None
        if hit:      # introduce the bound index, instantiate every quantified fact at it and at the contract's hint terms
            lo, n, f, _ = hit
            k0 = fresh("k0")
            goals = [Z(lo) <= k0, k0 < Z(n), z3.Not(f(k0))]
        else:
            goals = [z3.Not(goal)]
        terms = [x for x in st.vars.values() if z3.is_expr(x) and z3.is_int(x)] + list(st.idx.values()) + self.points
        if k0 is not None:
            terms += [k0] + (self.hints(k0) if self.hints else [])
        inst = []
        for p in hyps + self.axioms:
            h = AL.get(p.get_id()) if z3.is_quantifier(p) else None
            if h:
                lo, n, f, _ = h
                for x in terms:
                    inst.append(z3.Implies(z3.And(Z(lo) <= x, x < Z(n)), f(x)))
        for quant in (False, True):
            s = z3.Solver()
            if self.solver_time + time.time() - t > 240:
                r = z3.unknown
                break
            s.set("timeout", self.timeout if quant else 8000)
            for a in (self.axioms if quant else []) + [p for p in hyps if quant or not z3.is_quantifier(p)] + inst + goals:
                s.add(a)
            r = s.check()
            if r == z3.unsat:
                break
        self.solver_time += time.time() - t
        return r

    def oblige(self, st, label, goal):
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        r = self.valid(st, goal)
        self.obl.append((f"{label}", "proved" if r == z3.unsat else "undecided", f"z3: {r}"))
        st.pc.append(goal)

    def feasible(self, st):
        s = z3.Solver()
        s.set("timeout", 3000)
        for p in st.pc:
            if not z3.is_quantifier(p):
                s.add(p)
        self.queries += 1
        return s.check() != z3.unsat

    def induct(self, st, label, P, lo, hi, at=None):
        """lemma: for all lo <= k <= hi: P(k), by induction on k"""
        k = fresh("k")
        a, b = fresh("k"), fresh("k")
        st2 = st.fork()
        self.oblige(st2, f"lemma {label}: base", P(Z(lo)))
        st3 = st.fork()
        st3.pc += [Z(lo) <= a, a < Z(hi), P(a)]
        keep = list(self.points)
        self.points += [a] + (at(a) if at else [])
        self.oblige(st3, f"lemma {label}: step", P(a + 1))
        self.points = keep
        st.pc.append(al(Z(hi) + 1, P, lo=Z(lo)))
        self.points.append(Z(hi))

    def prefix(self, key, n, at):
        """prefix-sum function of a sequence: PS(0)=0, PS(k+1)=PS(k)+at(k)"""
        if key is not None and key in self.sums:
            return self.sums[key]
        _ctr[0] += 1
        f = z3.Function(f"PS!{_ctr[0]}", INT, RAT)
        k = fresh("k")
        self.axioms.append(f(0) == 0)
        self.axioms.append(al(Z(n), lambda k: f(k + 1) == f(k) + R(at(k))))
        if key is not None:
            self.sums[key] = f
        return f

    # ------------------------------------------------ execution
    def run(self, args, pre):
        st = State()
        st.heap["draws"] = Rec(z3.IntVal(0), {"": fresh("draws", z3.ArraySort(INT, RAT))}, True, None)
        names = [a.arg for a in self.node.args.args]
        dflt = self.node.args.defaults
        for nm, d in zip(names[len(names) - len(dflt):], dflt):
            st.vars[nm] = ast.literal_eval(d)
        for nm, x in zip(names, args(self, st)):
            st.vars[nm] = x
        st.pc += pre
        outs = self.block(self.node.body, st)
        return outs

    def block(self, body, st):
        work = [st]
        for s in body:
            nxt = []
            for w in work:
                if w.exit:
                    nxt.append(w)
                else:
                    nxt.extend(self.stmt(s, w))
            work = nxt
        return work

    def stmt(self, s, st):
        t = type(s)
        if t is ast.Assign:
            v = self.expr(s.value, st)
            for tg in s.targets:
                self.assign(tg, v, st)
            return [st]
        if t is ast.AugAssign:
            cur = self.expr(_load(s.target), st)
            self.assign(s.target, self.bin(type(s.op), cur, self.expr(s.value, st), st), st)
            return [st]
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return [st]
            if isinstance(s.value, ast.Call):
                f = s.value.func
                if isinstance(f, ast.Name) and f.id == "print" or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logger":
                    return [st]
            self.expr(s.value, st)
            return [st]
        if t is ast.Assert:
            self.oblige(st, f"assert at line {s.lineno}", self.cond(s.test, st))
            return [st]
        if t is ast.If:
            c = self.cond(s.test, st)
            a, b = st, st.fork()
            outs = []
            for w, cc, body in ((a, c, s.body), (b, z3.Not(c), s.orelse)):
                w.pc.append(cc)
                if self.feasible(w):
                    outs.extend(self.block(body, w))
            return outs
        if t is ast.Return:
            st.ret = self.expr(s.value, st) if s.value is not None else None
            st.exit = "return"
            return [st]
        if t is ast.Break:
            st.exit = "break"
            return [st]
        if t is ast.While or t is ast.For:
            return self.loop(s, st)
        if t in (ast.Pass, ast.Import, ast.ImportFrom):
            return [st]
        raise Unsupported(f"statement {t.__name__}")

    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            st.vars[tg.id] = v
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            for a, b in zip(tg.elts, v):
                self.assign(a, b, st)
            return
        if isinstance(tg, ast.Attribute):
            b = self.expr(tg.value, st)
            if isinstance(b, Obj):
                b.attrs[tg.attr] = v
                return
        if isinstance(tg, ast.Subscript):
            b = self.expr(tg.value, st)
            if isinstance(b, Ref) and isinstance(tg.slice, ast.Constant) and isinstance(tg.slice.value, str):
                r = st.heap[b.k]
                if tg.slice.value not in r.fields:
                    raise Unsupported("field")
                r.fields[tg.slice.value] = self.fill(v, r.n, r.fields[tg.slice.value].sort().range(), st)
                return
            if isinstance(b, Elem):
                f = self.expr(tg.slice, st)
                r = st.heap[b.ref.k]
                a = r.fields[f]
                r.fields[f] = z3.Store(a, Z(b.i), R(v) if a.sort().range() == RAT else Z(v))
                return
            if isinstance(b, Ref):
                i = self.expr(tg.slice, st)
                r = st.heap[b.k]
                i = self.index(i, r.n, st)
                f = next(iter(r.fields))
                if len(r.fields) != 1:
                    raise Unsupported("store of a record")
                a = r.fields[f]
                r.fields[f] = z3.Store(a, Z(i), R(v) if a.sort().range() == RAT else Z(v))
                if r.gsum is not None:
                    r.gsum = None
                return
        raise Unsupported("assignment target")

    def fill(self, v, n, sort, st):
        """array of a field from a scalar or a sequence"""
        A = fresh("fld", z3.ArraySort(INT, sort))
        k = fresh("k")
        if isinstance(v, Seq):
            x = v.at(k)
            g = z3.And(k >= 0, k < Z(n))
        else:
            x, g = v, True
        x = R(x) if sort == RAT else Z(x)
        if isinstance(v, Seq):
            st.pc.append(z3.ForAll([k], z3.Implies(g, z3.Select(A, k) == x), patterns=[z3.Select(A, k)]))
            return A
        return z3.K(INT, x)

    def index(self, i, n, st):
        """bounds obligation; negative constants count from the end"""
        if isinstance(i, int) and i < 0:
            i = n + i
        if not is_int(i):
            raise Unsupported("index")
        self.oblige(st, "index in range", z3.And(Z(i) >= 0, Z(i) < Z(n)))
        return i

    def cond(self, e, st):
        v = self.expr(e, st)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return v
        if num(v):
            return (v != 0) if z3.is_expr(v) else z3.BoolVal(v != 0)
        raise Unsupported("condition")

    def expr(self, e, st):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            if e.id in st.vars:
                return st.vars[e.id]
            if e.id in self.globs:
                return self.globs[e.id]
            import builtins
            if hasattr(builtins, e.id):
                return getattr(builtins, e.id)
            raise Unsupported(f"name {e.id}")
        if t is ast.Tuple:
            return tuple(self.expr(x, st) for x in e.elts)
        if t is ast.List:
            if not e.elts:
                k = f"l{len(st.heap)}_{_ctr[0]}"
                _ctr[0] += 1
                st.heap[k] = Rec(z3.IntVal(0), None, True, None)
                return Ref(k)
            return [self.expr(x, st) for x in e.elts]
        if t is ast.BinOp:
            return self.bin(type(e.op), self.expr(e.left, st), self.expr(e.right, st), st)
        if t is ast.UnaryOp:
            v = self.expr(e.operand, st)
            if isinstance(e.op, ast.USub):
                return self.bin(ast.Sub, 0, v, st)
            if isinstance(e.op, ast.Not):
                return z3.Not(self.cond(e.operand, st))
            raise Unsupported("unary")
        if t is ast.BoolOp:
            # short circuit: later operands are evaluated under the earlier ones
            w, cs = st.fork(), []
            for x in e.values:
                c = self.cond(x, w)
                cs.append(c)
                w.pc.append(c if isinstance(e.op, ast.And) else z3.Not(c))
            return z3.And(cs) if isinstance(e.op, ast.And) else z3.Or(cs)
        if t is ast.Compare:
            l = self.expr(e.left, st)
            out = []
            for op, r in zip(e.ops, e.comparators):
                r = self.expr(r, st)
                out.append(self.cmp(type(op), l, r))
                l = r
            return z3.And(out) if len(out) > 1 else out[0]
        if t is ast.IfExp:
            c = self.cond(e.test, st)
            a, b = join(self.expr(e.body, st), self.expr(e.orelse, st))
            return z3.If(c, a, b)
        if t is ast.Attribute:
            v = self.expr(e.value, st)
            if isinstance(v, (Ref, Seq)):
                return (v, e.attr)
            if isinstance(v, Obj):
                if e.attr not in v.attrs:
                    raise Unsupported(f"{v.name}.{e.attr}")
                return v.attrs[e.attr]
            return getattr(v, e.attr)
        if t is ast.Subscript:
            return self.sub(e, st)
        if t is ast.Call:
            return self.callx(e, st)
        if t is ast.ListComp and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].target, ast.Name):
            g = e.generators[0]
            it = self.expr(g.iter, st)
            if not isinstance(it, Seq):
                raise Unsupported("comprehension")

            snap = st.fork()

            def at(k):
                w = snap.fork()
                w.vars[g.target.id] = it.at(Z(k))
                return self.expr(e.elt, w)
            at(PROBE)
            return Seq(it.n, at)
        raise Unsupported(f"expression {t.__name__}")

    def sub(self, e, st):
        b = self.expr(e.value, st)
        if isinstance(b, Seq) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.step is None:
            hi = Z(self.expr(e.slice.upper, st))      # a prefix
            r = Seq(z3.If(hi < Z(b.n), hi, Z(b.n)), b.at, b.kind)
            r.whole = b
            return r
        i = self.expr(e.slice, st)
        if isinstance(b, (tuple, list)) and isinstance(i, int):
            return b[i]
        if isinstance(b, Elem):
            r = st.heap[b.ref.k]
            return z3.Select(r.fields[i], Z(b.i))
        if isinstance(b, Seq):
            if isinstance(i, Seq):
                return Seq(i.n, lambda k: b.at(i.at(k)), b.kind)
            return b.at(self.index(i, b.n, st))
        if isinstance(b, Ref):
            r = st.heap[b.k]
            if isinstance(i, str):
                a = r.fields[i]
                return Seq(r.n, lambda k, a=a: z3.Select(a, Z(k)))
            if isinstance(i, Seq):     # gather: a new array
                if getattr(i, "perm", None) is None:
                    raise Unsupported("gather by a non-permutation")
                k = f"g{_ctr[0]}"
                _ctr[0] += 1
                flds = {}
                for f, a in r.fields.items():
                    A = fresh("gth", a.sort())
                    q = fresh("k")
                    st.pc.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < Z(i.n)), z3.Select(A, q) == z3.Select(a, i.at(q))), patterns=[z3.Select(A, q)]))
                    flds[f] = A
                    if a.sort().range() == RAT:   # a sum does not depend on the order of its terms
                        old, new = (self.psum(Seq(r.n, lambda q, a=x: z3.Select(a, Z(q)))) for x in (a, A))
                        st.pc.append(old(Z(r.n)) == new(Z(r.n)))
                st.heap[k] = Rec(i.n, flds)
                return Ref(k)
            i = self.index(i, r.n, st)
            if len(r.fields) > 1:
                return Elem(b, i)
            return z3.Select(next(iter(r.fields.values())), Z(i))
        raise Unsupported("subscript")

    def bin(self, op, a, b, st):
        if isinstance(a, Ref) and st.heap[a.k].fields and len(st.heap[a.k].fields) == 1:
            a = self.asseq(a, st)
        if isinstance(b, Ref) and st.heap[b.k].fields and len(st.heap[b.k].fields) == 1:
            b = self.asseq(b, st)
        if isinstance(a, Seq) or isinstance(b, Seq):
            n = a.n if isinstance(a, Seq) else b.n
            if isinstance(a, Seq) and isinstance(b, Seq):
                self.oblige(st, "equal lengths", Z(a.n) == Z(b.n))
            g = lambda x, k: x.at(k) if isinstance(x, Seq) else x
            if op in (ast.Div,) and not isinstance(b, Seq):
                self.oblige(st, "nonzero divisor", R(b) != 0)
            return Seq(n, lambda k: self.sc(op, g(a, k), g(b, k)), "real")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: R(a) / R(b),
                    ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b}[op]()
        if not (num(a) and num(b)):
            raise Unsupported(f"operands {type(a).__name__} {type(b).__name__}")
        if op is ast.Div:
            if self.ieee_div:
                return z3.If(R(b) != 0, self.div(R(a), R(b)), fresh("nan", RAT))
            self.oblige(st, "nonzero divisor", R(b) != 0)
        return self.sc(op, a, b)

    @staticmethod
    def sc(op, a, b):
        if op is ast.Div:
            return R(a) / R(b)
        a, b = join(a, b)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op in (ast.FloorDiv, ast.Mod) and is_int(a):
            if z3.is_int_value(Z(b)):
                return Z(a) / Z(b) if op is ast.FloorDiv else Z(a) % Z(b)
            return QUOT(Z(a), Z(b)) if op is ast.FloorDiv else REM(Z(a), Z(b))
        raise Unsupported(f"operator {op.__name__}")

    @staticmethod
    def cmp(op, a, b):
        if op in (ast.Is, ast.IsNot):
            return z3.BoolVal((a is b) == (op is ast.Is))
        if not (num(a) and num(b)):
            raise Unsupported("comparison")
        a, b = join(a, b)
        a, b = Z(a) if is_int(a) else a, Z(b) if is_int(b) else b
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[op]()

    def asseq(self, v, st):
        if isinstance(v, Seq):
            return v
        if isinstance(v, Ref):
            r = st.heap[v.k]
            if r.fields and len(r.fields) == 1:
                a = next(iter(r.fields.values()))
                s = Seq(r.n, lambda k, a=a: z3.Select(a, Z(k)))
                s.src, s.gsum = (v.k, a), r.gsum
                return s
        raise Unsupported("sequence expected")

    def callx(self, e, st):
        import numpy as np
        import copy as cp
        f = e.func
        # list.append
        if isinstance(f, ast.Attribute) and f.attr == "append":
            b = self.expr(f.value, st)
            if isinstance(b, Ref):
                x = self.expr(e.args[0], st)
                r = st.heap[b.k]
                if not r.growing or not num(x):
                    raise Unsupported("append")
                if r.fields is None:
                    sort = INT if is_int(x) else RAT
                    r.fields = {"": fresh("lst", z3.ArraySort(INT, sort))}
                    r.gsum = z3.RealVal(0)
                k = next(iter(r.fields))
                a = r.fields[k]
                if a.sort().range() == INT and not is_int(x):
                    raise Unsupported("append of another type")
                r.fields[k] = z3.Store(a, Z(r.n), R(x) if a.sort().range() == RAT else Z(x))
                r.n = z3.simplify(r.n + 1) if z3.is_int_value(r.n) else r.n + 1
                if r.gsum is not None:
                    r.gsum = r.gsum + R(x)
                return None
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not e.args:
            b = self.expr(f.value, st)
            if isinstance(b, Ref):
                k = f"c{_ctr[0]}"
                _ctr[0] += 1
                st.heap[k] = st.heap[b.k].clone()
                return Ref(k)
        fn = self.expr(f, st)
        kw = {k.arg: k.value for k in e.keywords}
        if fn is np.zeros and "dtype" in kw and isinstance(kw["dtype"], ast.List):
            n = self.expr(e.args[0], st)
            flds = {}
            for el in kw["dtype"].elts:
                nm = el.elts[0].value
                ty = el.elts[1].id
                sort = RAT if ty == "float" else INT
                flds[nm] = z3.K(INT, z3.RealVal(0) if sort == RAT else z3.IntVal(0))
            k = f"z{_ctr[0]}"
            _ctr[0] += 1
            st.heap[k] = Rec(n, flds)
            return Ref(k)
        a = [self.expr(x, st) for x in e.args]
        kw = {k: self.expr(v, st) for k, v in kw.items()}
        if kw:
            raise Unsupported("keyword arguments")
        if fn is len:
            v = a[0]
            return v.n if isinstance(v, Seq) else st.heap[v.k].n
        if fn is range:
            if len(a) == 1:
                return Seq(z3.If(Z(a[0]) > 0, Z(a[0]), 0), lambda k: k, "int")
            lo, hi = a
            return Seq(z3.If(Z(hi) - Z(lo) > 0, Z(hi) - Z(lo), 0), lambda k: Z(lo) + k, "int")
        if fn in (abs, np.abs, np.absolute):
            ab = lambda x: abs(x) if isinstance(x, (int, float)) else z3.If(x >= 0, x, -x)
            v = a[0]
            if isinstance(v, Ref):
                v = self.asseq(v, st)
            return Seq(v.n, lambda k: ab(v.at(k)), v.kind) if isinstance(v, Seq) else ab(v)
        if fn in (np.sum, sum):
            v = self.asseq(a[0], st)
            if getattr(v, "gsum", None) is not None:
                return v.gsum
            return self.psum(getattr(v, "whole", v))(Z(v.n))
        if fn is np.cumsum:
            v = self.asseq(a[0], st)
            P = self.psum(v)
            s = Seq(v.n, lambda k: P(Z(k) + 1))
            s.prefix = P
            return s
        if fn is np.arange and len(a) == 1:
            return Seq(a[0], lambda k: k, "int")
        if fn is np.full:
            return Seq(a[0], lambda k: a[1])
        if fn in (np.array, np.asarray, np.copy):
            return a[0] if isinstance(a[0], Seq) else self.asseq(a[0], st)
        if fn in (cp.copy, cp.deepcopy) and num(a[0]):
            return a[0]
        if fn in (np.random.rand, np.random.random) and not a or fn is np.random.uniform and len(a) in (0, 2):
            u = fresh("u", RAT)
            lo, hi = (0, 1) if not a else a
            st.pc += [R(lo) <= u, u < R(hi)]
            d = st.heap["draws"]
            d.fields[""] = z3.Store(d.fields[""], Z(d.n), u)
            d.n = d.n + 1
            return u
        if fn is np.argsort and len(a) == 1:
            v = self.asseq(a[0], st)
            _ctr[0] += 1
            p = z3.Function(f"perm!{_ctr[0]}", INT, INT)
            q = z3.Function(f"iperm!{_ctr[0]}", INT, INT)
            k, l = fresh("k"), fresh("k")
            n = Z(v.n)
            inr = lambda x: z3.And(x >= 0, x < n)
            st.pc.append(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(p(k)), q(p(k)) == k)), patterns=[p(k)]))
            st.pc.append(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(q(k)), p(q(k)) == k)), patterns=[q(k)]))
            s = Seq(v.n, lambda k: p(Z(k)), "int")
            s.perm = (p, q, v)
            return s
        if fn is np.searchsorted and len(a) == 2 and isinstance(a[0], Seq):
            # side='left' on a nondecreasing sequence: least index with seq[idx] >= x, or the length
            v, x = a
            k = fresh("k")
            nn = Z(v.n)
            self.oblige(st, "searchsorted argument is sorted", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k + 1 < nn), R(v.at(k)) <= R(v.at(k + 1)))))
            i = fresh("ss")
            m = fresh("k")
            st.pc += [i >= 0, i <= nn, z3.Implies(i < nn, R(v.at(i)) >= R(x)), z3.Implies(i > 0, R(v.at(i - 1)) < R(x))]
            return i
        raise Unsupported(f"call of {getattr(fn, '__name__', fn)}")

    def psum(self, v):
        key = (z3.simplify(R(v.at(PROBE))).sexpr(), Z(v.n).sexpr())
        return self.prefix(key, v.n, v.at)

    # ------------------------------------------------ loops
    def loop(self, s, st):
        k = self.loops[id(s)]
        g = self.ghost.get(k)
        if g is None:
            raise Unsupported(f"no invariant for loop {k}")
        isfor = isinstance(s, ast.For)
        if isfor:
            it = self.expr(s.iter, st)
            if isinstance(it, Ref):
                r = st.heap[it.k]
                n = r.n
                if len(r.fields) > 1:
                    elem = lambda w, i: Elem(it, i)
                else:
                    elem = lambda w, i: z3.Select(next(iter(w.heap[it.k].fields.values())), Z(i))
            elif isinstance(it, Seq):
                n = it.n
                elem = lambda w, i: it.at(i)
            else:
                raise Unsupported("loop over this iterable")
            n = Z(n)
            st.idx[k] = z3.IntVal(0)
        if g.get("lemmas"):
            g["lemmas"](self, st)
        names, refs, rnd = _modified(s, st)
        for rk in refs:
            r = st.heap[rk]
            if r.fields is None:
                sort = g.get("sorts", {}).get(_nameof(st, rk))
                if sort is None:
                    raise Unsupported("type of an empty list")
                r.fields = {"": fresh("lst", z3.ArraySort(INT, {"int": INT, "real": RAT}[sort]))}
                r.gsum = z3.RealVal(0)
        entry = st.fork()
        inv = lambda w: [(l, c) for l, c in g["inv"](w, entry)]
        for l, c in inv(st):
            w = st.fork()
            self.oblige(w, f"loop {k} invariant on entry: {l}", c)
        # havoc
        for nm in names:
            if nm in st.vars:
                v = st.vars[nm]
                if isinstance(v, bool) or not num(v):
                    if isinstance(v, (Ref, Elem)) or v is None:
                        st.vars.pop(nm)
                        continue
                    raise Unsupported(f"loop changes {nm}")
                st.vars[nm] = fresh(nm, INT if is_int(v) else RAT)
        for rk in sorted(refs | ({"draws"} if rnd else set())):
            r = st.heap[rk]
            r.fields = {f: fresh(f"hv_{f}", a.sort()) for f, a in r.fields.items()}
            if r.growing:
                r.n = fresh("len")
                st.pc.append(r.n >= 0)
                if r.gsum is not None:
                    r.gsum = fresh("gsum", RAT)
        if isfor:
            st.idx[k] = fresh("it")
            st.pc += [st.idx[k] >= 0, st.idx[k] <= n]
        for l, c in inv(st):
            st.pc.append(c if z3.is_expr(c) else z3.BoolVal(c))
        # one iteration
        outs = []
        body, after = st.fork(), st
        if isfor:
            body.pc.append(body.idx[k] < n)
            self.assign(s.target, elem(body, body.idx[k]), body)
            after.pc.append(after.idx[k] == n)
        else:
            n0 = len(self.obl)
            c = self.cond(s.test, body)
            body.pc.append(c)
            after.pc.append(z3.Not(self.cond_q(s.test, after)))
        var0 = g["variant"](body) if g.get("variant") else None
        for w in self.block(s.body, body):
            if w.exit == "return":
                outs.append(w)
                continue
            if w.exit == "break":
                w.exit = None
                outs.append(w)
                continue
            if isfor:
                w.idx[k] = w.idx[k] + 1
            if g.get("step"):
                g["step"](self, w)
            for l, c in inv(w):
                x = w.fork()
                self.oblige(x, f"loop {k} invariant kept: {l}", c)
            if var0 is not None:
                x = w.fork()
                self.oblige(x, f"loop {k} terminates", z3.And(Z(var0) >= 0, Z(g["variant"](w)) < Z(var0)))
            elif not isfor:
                raise Unsupported("while loop without variant")
        if s.orelse:
            raise Unsupported("loop else")
        outs.append(after)
        for w in outs:
            if g.get("after"):
                if w.exit is None:
                    g["after"](self, w)
        return outs

    def cond_q(self, e, st):
        """evaluate a condition without emitting obligations again"""
        n0 = len(self.obl)
        c = self.cond(e, st)
        del self.obl[n0:]
        return c


DBG = None
# integer division by a positive symbolic divisor: a = q b + r, 0 <= r < b
QUOT = z3.Function("QUOT", INT, INT, INT)
REM = z3.Function("REM", INT, INT, INT)


def slice_run(target, watch, init, post, pre=()):
    """execute only those statements of a (long) function that the watched names depend on: statements outside the supported
    subset are dropped if they do not assign a watched name, else the contract is undecided"""
    from .contract import resolve
    try:
        v = Verifier(resolve(target), {})
        st = State()
        st.heap["draws"] = Rec(z3.IntVal(0), {"": fresh("draws", z3.ArraySort(INT, RAT))}, True, None)
        st.pc += list(pre)
        init(v, st)
        dropped = 0
        for s in v.node.body:
            tg = set()
            for x in ast.walk(s):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.For)) else []):
                    tg.add(ast.unparse(t))
            try:
                if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)):
                    raise Unsupported("statement")
                v.stmt(s, st)
            except (Unsupported, AttributeError, TypeError, KeyError):
                if any(w == t or t.startswith(w + "[") for t in tg for w in watch):
                    raise
                dropped += 1
        for lab, goal in post(v, st):
            v.oblige(st.fork(), f"post: {lab}", goal)
    except (Unsupported, KeyError, TypeError, AttributeError, IndexError, ValueError, z3.Z3Exception) as ex:
        return dict(status="unsupported", reason=f"{type(ex).__name__}: {ex}", obl=[], fns={}, loops=0, paths=0, asm=set(), safety=0, models=[])
    N.STATS["z3_queries"] += v.queries
    N.STATS["z3_time"] += v.solver_time
    und = [o for o in v.obl if o[1] != "proved"]
    return dict(status="undecided" if und else "proved", reason="; ".join(f"{o[0]}: {o[2]}" for o in und[:4]), obl=[o + ("",) for o in v.obl],
                fns={v.name: 1}, loops=0, paths=1, safety=0, models=[], asm={f"slice of {v.name}: {dropped} statements not assigning {', '.join(watch)} dropped"})


AL = {}


def al(n, f, lo=0):
    """for all lo <= k < n: f(k)"""
    k = fresh("k")
    q = z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < n), f(k)))
    AL[q.get_id()] = (lo, n, f, q)
    return q


PROBE = z3.Int("probe_index")


def _load(n):
    n = _copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def _preorder(n):
    for c in ast.iter_child_nodes(n):
        yield c
        yield from _preorder(c)


def _nameof(st, rk):
    for nm, v in st.vars.items():
        if isinstance(v, Ref) and v.k == rk:
            return nm
    return None


def _modified(s, st):
    names, refs, rnd = set(), set(), False
    for x in ast.walk(s):
        tgts = []
        if isinstance(x, ast.Assign):
            tgts = x.targets
        elif isinstance(x, ast.AugAssign):
            tgts = [x.target]
        elif isinstance(x, ast.For):
            tgts = [x.target]
        for t in tgts:
            for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(y, ast.Name):
                    names.add(y.id)
                else:
                    b = y
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        v = st.vars.get(b.id)
                        if isinstance(v, Ref):
                            refs.add(v.k)
                        elif isinstance(v, Elem):
                            refs.add(v.ref.k)
                        else:
                            # an element taken inside the loop: every structured array may change
                            refs |= {k for k, r in st.heap.items() if r.fields and len(r.fields) > 1}
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute):
                if x.func.attr in ("append", "extend", "insert", "pop", "remove", "sort", "fill"):
                    if isinstance(x.func.value, ast.Name) and isinstance(st.vars.get(x.func.value.id), Ref):
                        refs.add(st.vars[x.func.value.id].k)
                    else:
                        raise Unsupported("mutation of an unnamed list")
                if x.func.attr in ("rand", "random", "uniform"):
                    rnd = True
    return names, refs, rnd


def verify(target, args, pre, post, ghost, timeout=15000, ieee_div=False, hints=None):
    """-> result dict like run_symbolic"""
    from .contract import resolve
    t0 = time.time()
    try:
        v = Verifier(resolve(target), ghost, timeout, ieee_div)
        v.hints = hints
        outs = v.run(args, pre)
        for k, w in enumerate(outs):
            if w.exit != "return":
                raise Unsupported("function end without return")
            for item in post(v, w):
                x = w.fork()
                v.oblige(x, f"post: {item[0]}", item[1])
        # vacuity: the preconditions must be satisfiable
        s = z3.Solver()
        s.set("timeout", 5000)
        for p in pre:
            s.add(p)
        v.obl.append(("vacuity: preconditions satisfiable", "proved" if s.check() == z3.sat else "undecided", ""))
    except DBG if DBG else (Unsupported, KeyError, TypeError, AttributeError, IndexError, ValueError, z3.Z3Exception, AssertionError) as ex:
        return dict(status="unsupported", reason=f"{type(ex).__name__}: {ex}", obl=[], fns={}, loops=0, paths=0, asm=set(), safety=0, models=[])
    N.STATS["z3_queries"] += v.queries
    N.STATS["z3_time"] += v.solver_time
    und = [o for o in v.obl if o[1] != "proved"]
    return dict(status="undecided" if und else "proved", reason="; ".join(f"{o[0]}: {o[2]}" for o in und[:4]), obl=[o + ("",) for o in v.obl],
                fns={v.name: 1}, loops=len(v.loops), paths=len(outs), safety=0, models=[],
                asm={"numpy contracts (hoare): sum/cumsum = prefix sums, argsort = permutation, searchsorted = least index on a sorted sequence, uniform draws in range"})
