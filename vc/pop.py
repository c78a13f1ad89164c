"""Loop invariants and postconditions of the population control routines (see vc/hoare.py)."""
from . import hoare as H
from .hoare import z3, Seq, INT, RAT, R, Z, al

PC = "openms.qmc.population_control"


def setup(sumpos=True):
    """old population: N >= 1 walkers identified by their index, nonnegative weights"""
    n, w = z3.Int("N"), z3.Array("w", INT, RAT)
    env = dict(n=n, w=w)
    ws = Seq(n, lambda k: z3.Select(w, Z(k)))

    def args(v, st):
        env["Pw"] = v.psum(ws)
        env["v"] = v
        if sumpos:
            st.pc.append(env["Pw"](n) > 0)
        return [Seq(n, lambda k: Z(k), "int"), ws]
    k = H.fresh("k")
    pre = [n >= 1, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(w, k) >= 0))]
    return env, args, pre


def resampling(kind):
    """comb_resampling / stochastic_reconfiguration: slot i receives the walker t with C[t-1] <= u + i/N <(=) C[t]"""
    env, args, pre = setup()
    n, w = env["n"], env["w"]
    sr = kind == "reconfiguration"
    pos_nm = "positions" if sr else "markers"

    def lemmas(v, st):
        C, p = st["cumulative_sum"], st[pos_nm]
        W = env["Pw"](n)
        P = C.prefix
        env["P"], env["p"] = P, p
        x = st.fork()
        v.induct(st, "normalised prefix sums", lambda k: P(k) * W == env["Pw"](k), 0, n)
        v.oblige(st, "prefix sums end at one", P(n) == 1)
        v.oblige(st, "prefix sums do not decrease", al(n, lambda k: P(k) <= P(k + 1)))
        v.oblige(st, "one step", R(1) / R(n) > 0)
        v.oblige(st, "positions increase", al(n, lambda k: R(p.at(k)) < R(p.at(k + 1))))
        v.oblige(st, "positions are in [0,1)", al(n, lambda k: z3.And(R(p.at(k)) >= 0, R(p.at(k)) < 1)))

    def slot(st, L, i):
        P, p = env["P"], env["p"]
        t = L.at(i)
        x = R(p.at(i))
        if sr:
            return z3.And(t >= 0, t < n, P(t) <= x, x < P(t + 1))
        return z3.And(t >= 0, t < n, z3.Or(t == 0, P(t) < x), x <= P(t + 1))

    def inv_sr(st, e):
        i, j, A, B = st["i"], st["j"], st["new_phiw"], st["new_weights"]
        P, p = env["P"], env["p"]
        W = env["Pw"](n)
        return [("counter", z3.And(0 <= i, i <= n, 0 <= j, z3.Implies(i < n, j < n))),
                ("one walker and one weight per position", z3.And(A.n == i, B.n == i)),
                ("searched part lies at or below the position", z3.Implies(i < n, P(j) <= R(p.at(i)))),
                ("slots", al(i, lambda k: slot(st, A, k))),
                ("uniform weights", al(i, lambda k: B.at(k) == W / R(n))),
                ("sum", B.gsum == R(i) * (W / R(n)))]

    def inv_comb(st, e):
        A, i = st["new_phiw"], st.idx[0]
        return [("one walker per marker", A.n == i), ("slots", al(i, lambda k: slot(st, A, k)))]

    ghost = {0: dict(lemmas=lemmas, inv=inv_sr if sr else inv_comb, sorts={"new_phiw": "int", "new_weights": "real"},
                     variant=(lambda st: (n - st["i"]) + (n - st["j"]) + 1) if sr else None)}

    def post(v, st):
        A, B = st.ret
        A = st.rec(A)
        W = env["Pw"](n)
        yield "as many walkers as before", A.n == n
        yield "as many weights as before", Z(B.n) == n
        yield "every slot holds the old walker whose cumulated weight interval contains its position", al(n, lambda k: slot(st, A, k))
        yield "copied walkers have weight", al(n, lambda k: z3.Or(z3.Select(w, A.at(k)) > 0, A.at(k) == 0) if not sr else z3.Select(w, A.at(k)) > 0)
        yield "uniform weights", al(n, lambda k: B.at(k) == W / R(n))
        if getattr(B, "gsum", None) is not None:
            yield "total weight", B.gsum == W
        else:
            Q = v.psum(B)
            v.induct(st, "sum of equal weights", lambda k: Q(k) == R(k) * (W / R(n)), 0, n)
            yield "total weight", Q(n) == W
        # number of copies of a walker: slots lo..hi-1 are those with a <= u + i/N < b, where N(b-a) is the expected number
        a, b, u = (H.fresh(x, RAT) for x in "abu")
        lo, hi = H.fresh("lo"), H.fresh("hi")
        first = lambda m, x: z3.And(R(m) >= (x - u) * R(n), R(m) - 1 < (x - u) * R(n))   # least integer with u + m/N >= x
        yield "floor or ceiling of the expected number of copies", z3.ForAll([a, b, u, lo, hi], z3.Implies(
            z3.And(a <= b, first(lo, a), first(hi, b)), z3.And(R(hi - lo) < (b - a) * R(n) + 1, R(hi - lo) > (b - a) * R(n) - 1)))
    return H.verify(f"{PC}:{'stochastic_reconfiguration' if sr else 'comb_resampling'}", args, pre, post, ghost)


def branching():
    """branching_dp0: pairs (lightest, heaviest) merge; the survivor is drawn with probability proportional to weight"""
    env, args, pre = setup(sumpos=False)
    n, w = env["n"], env["w"]

    def pair(st, S, e, d, m):
        """state of the merged pair m, n-1-m"""
        q = n - 1 - m
        a, b = e.at(m, "weight"), e.at(q, "weight")
        half = z3.And
        heavy = z3.And(S.at(m, "status") == 0, S.at(m, "weight") == 0, S.at(q, "status") == 2, 2 * S.at(q, "weight") == a + b, z3.Implies(a + b > 0, d.at(m) < env['v'].div(b, a + b)))
        light = z3.And(S.at(q, "status") == 0, S.at(q, "weight") == 0, S.at(m, "status") == 2, 2 * S.at(m, "weight") == a + b, z3.Implies(a + b > 0, d.at(m) >= env['v'].div(b, a + b)))
        return z3.Or(heavy, light)

    def times(c, x):
        """c x for a count c in {0, 1, 2}"""
        return z3.If(c == 0, z3.RealVal(0), z3.If(c == 1, x, 2 * x))

    def car(S, k):
        return times(S.at(k, "status"), S.at(k, "weight"))

    def lem0(v, st):
        S = st["sort_walker_info"]
        A = st["walker_info"]
        Q = v.psum(Seq(n, lambda k: A.at(k, "weight")))
        v.induct(st, "absolute weights", lambda k: Q(k) == env["Pw"](k), 0, n)

    def inv0(st, e):
        S, S0, d = st["sort_walker_info"], e["sort_walker_info"], st.draws
        s, t = st["start"], st["end"]
        env["S0"], env["start"] = S0, s
        lo, hi = st["min_weight"], st["max_weight"]
        return [("pair counter", z3.And(s >= 0, t == n - 1 - s, 2 * s <= n, Z(S.n) == n, d.n == s)),
                ("draws are in [0,1)", al(s, lambda k: z3.And(d.at(k) >= 0, d.at(k) < 1))),
                ("walkers keep their origin", al(n, lambda k: z3.And(S.at(k, "org_idx") == S0.at(k, "org_idx"), S.at(k, "org_idx") >= 0, S.at(k, "org_idx") < n))),
                ("sorted record refers to the old weights", al(n, lambda k: z3.And(S0.at(k, "weight") == z3.Select(w, S0.at(k, "org_idx")), S0.at(k, "weight") >= 0))),
                ("unmerged part", al(n - s, lambda k: z3.And(S.at(k, "weight") == S0.at(k, "weight"), S.at(k, "status") == 1), lo=s)),
                ("merged pairs", al(s, lambda m: pair(st, S, S0, d, m))),
                ("merging starts only outside the bounds", z3.Implies(s > 0, z3.Or(S0.at(0, "weight") < R(lo), S0.at(n - 1, "weight") > R(hi))))]

    def lem1(v, st):
        S, S0, s = st["sort_walker_info"], env["S0"], st["start"]
        env["S"] = S
        Pst = env["Pst"] = v.psum(Seq(n, lambda k: S.at(k, "status"), "int"))
        Pc = env["Pc"] = v.psum(Seq(n, lambda k: car(S, k)))
        Pe = v.psum(Seq(n, lambda k: S0.at(k, "weight")))
        v.oblige(st, "status and weight ranges", al(n, lambda k: z3.And(S.at(k, "status") >= 0, S.at(k, "status") <= 2, S.at(k, "weight") >= 0)))
        v.oblige(st, "pairs keep count and weight", al(s, lambda m: z3.And(
            S.at(m, "status") + S.at(n - 1 - m, "status") == 2,
            car(S, m) + car(S, n - 1 - m) == S0.at(m, "weight") + S0.at(n - 1 - m, "weight"))))
        v.oblige(st, "survivors had weight", al(n, lambda k: z3.Implies(car(S, k) > 0, S0.at(k, "weight") > 0)))
        v.induct(st, "count of the unmerged part", lambda k: Pst(k) - R(k) == Pst(s) - R(s), s, n - s)
        v.induct(st, "count of the pairs", at=lambda a: [s - a - 1, n - s + a], lo=0, hi=s, P=lambda b: Pst(n - s + b) - R(n - s + b) == Pst(s - b) - R(s - b))
        v.oblige(st, "count", Pst(n) == R(n))
        v.induct(st, "weight of the unmerged part", lambda k: Pc(k) - Pe(k) == Pc(s) - Pe(s), s, n - s)
        v.induct(st, "weight of the pairs", at=lambda a: [s - a - 1, n - s + a], lo=0, hi=s, P=lambda b: Pc(n - s + b) - Pe(n - s + b) == Pc(s - b) - Pe(s - b))
        v.oblige(st, "weight", Pc(n) == env["Pw"](n))

    def members(A, B):
        return al(A.n, lambda i: z3.And(A.at(i) >= 0, A.at(i) < n, B.at(i) >= 0, z3.Implies(B.at(i) > 0, z3.Select(w, A.at(i)) > 0)))

    def inv1(st, e, k=None, r=0):
        A, B, S = st["new_walkers"], st["new_weights"], env["S"]
        k = st.idx[1]
        m, q = H.fresh("m"), H.fresh("q")
        return [("members emitted so far", z3.And(R(A.n) == env["Pst"](k), B.n == A.n)),
                ("weight emitted so far", B.gsum == env["Pc"](k)),
                ("members", members(A, B))]

    def inv2(st, e):
        A, B, S = st["new_walkers"], st["new_weights"], env["S"]
        k, r = st.idx[1], st.idx[2]
        return [("members emitted so far", z3.And(R(A.n) == env["Pst"](k) + R(r), B.n == A.n)),
                ("weight emitted so far", B.gsum == env["Pc"](k) + times(r, S.at(k, "weight"))),
                ("members", members(A, B)),
                ("copies of this walker", z3.And(r <= S.at(k, "status"), al(A.n, lambda i: z3.And(A.at(i) == S.at(k, "org_idx"), B.at(i) == S.at(k, "weight")), lo=A.n - r)))]

    ghost = {0: dict(lemmas=lem0, inv=inv0, variant=lambda st: st["end"] - st["start"] + 1),
             1: dict(lemmas=lem1, inv=inv1, sorts={"new_walkers": "int", "new_weights": "real"}), 2: dict(inv=inv2)}

    def post(v, st):
        A, B = st.ret
        A = st.rec(A)
        yield "as many walkers as before", A.n == n
        yield "as many weights as before", Z(B.n) == n
        yield "total weight", B.gsum == env["Pw"](n)
        yield "members come from the old population, with nonnegative weight, none from a dead walker", al(n, lambda i: z3.And(
            A.at(i) >= 0, A.at(i) < n, B.at(i) >= 0, z3.Implies(B.at(i) > 0, z3.Select(w, A.at(i)) > 0)))
        S, S0, s, d = st["sort_walker_info"], env["S0"], st["start"], st.draws
        # one uniform draw per pair: the heavy walker survives (with the joint weight) iff d (a+b) < b, so its expected weight is b
        yield "expected weight of each walker is its old weight (law of each merged pair)", al(s, lambda m: pair(st, S, S0, d, m))
        yield "unpaired walkers keep their weight", al(n - s, lambda k: z3.And(S.at(k, "status") == 1, S.at(k, "weight") == S0.at(k, "weight")), lo=s)
        lo, hi = st["min_weight"], st["max_weight"]
        yield "in-range population unchanged", z3.Implies(al(n, lambda k: z3.And(z3.Select(w, k) >= R(lo), z3.Select(w, k) <= R(hi))), s == 0)
    return H.verify(f"{PC}:branching_dp0", args, pre, post, ghost, ieee_div=True, hints=lambda k: [n - 1 - k])


def distribution():
    """BaseWalkers.__init__: global walkers split over the ranks"""
    from .contract import resolve
    n, size, rank = z3.Int("nw"), z3.Int("size"), z3.Int("rank")
    q, r = H.QUOT(n, size), H.REM(n, size)
    pre = [size >= 1, n >= 0, rank >= 0, rank < size, n == q * size + r, r >= 0, r < size]

    def init(v, st):
        st.vars["self"] = H.Obj("self", _mpi=H.Obj("mpi", size=size, rank=rank))
        st.vars["kwargs"] = H.Obj("kwargs", get=None)
        st.vars["nwalkers"] = n
        st.vars["trial"] = H.Obj("trial")

    def post(v, st):
        o = st.vars["self"].attrs
        C, D, own = o["walker_counter"], o["displs"], o["nwalkers"]
        P = v.psum(C)
        yield "one count per rank", Z(C.n) == size
        v.induct(st, "prefix of counts", lambda k: P(k) == R(k) * R(q) + z3.If(k < r, R(k), R(r)), 0, size)
        yield "counts sum to the total", P(size) == R(n)
        yield "balanced", al(size, lambda k: z3.And(Z(C.at(k)) >= q, Z(C.at(k)) <= q + 1))
        yield "own share", Z(own) == Z(C.at(rank))
        yield "one offset per rank", Z(D.n) == size
        yield "first offset is zero", R(D.at(z3.IntVal(0))) == 0
        yield "shares are contiguous and disjoint", al(size - 1, lambda k: R(D.at(k + 1)) == R(D.at(k)) + R(C.at(k)))
        yield "last share ends at the total", R(D.at(size - 1)) + R(C.at(size - 1)) == R(n)
        yield "target total weight is the number of walkers", Z(o["total_weight0"]) == n
    # the parameter nwalkers is read from kwargs in the first statements; here it is the symbolic number itself
    return H.slice_run("openms.qmc.generic_walkers:BaseWalkers.__init__", ("self.walker_counter", "self.displs", "self.nwalkers", "self.total_weight0", "size"), init, post, pre)
