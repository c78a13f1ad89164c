"""P01: population control and walker bookkeeping preserve the ensemble."""
from vc.contract import contract, Violation
from vc import pop

PC = "openms.qmc.population_control"
W = "openms.qmc.generic_walkers"
METHODS = {"branching": f"{PC}:branching_dp0", "reconfiguration": f"{PC}:stochastic_reconfiguration", "comb": f"{PC}:comb_resampling"}


def draw_walkers(v, hi=7):
    N = v.dim("N", lo=1, hi=hi)
    kind = v.choose("wk", ("mixed", "equal", "spread", "zeros", "high", "low"))
    import numpy as np
    r = v.rng
    w = {"mixed": r.random(N) * 4, "equal": np.full(N, 1.3), "spread": 10.0 ** r.uniform(-3, 1.2, size=N),
         "zeros": r.random(N) * (r.random(N) < 0.6) + (np.arange(N) == 0) * 0.7, "high": 2.5 + r.random(N), "low": 0.01 + 0.05 * r.random(N)}[kind]
    return N, np.ascontiguousarray(w)


def tags(pop):
    """original index carried by each member"""
    import numpy as np
    return [int(np.real(np.ravel(x)[0]) + 0.5) for x in pop]


for name, target in METHODS.items():
    @contract("P01", f"{name} ensemble", fns=[target], modes=("num",), num=60,
              hoare=(pop.branching if name == "branching" else lambda name=name: pop.resampling(name)),
              note="loop invariants, all walker counts, nonnegative weights and draws; plus concrete runs with up to 7 walkers",
              assumes=["expectation over the uniform draw: a walker whose slots are those with u + i/N in an interval of length L has N L copies on average; P(u < x) = x"])
    def _ens(v, name=name, target=target):
        """count and total weight conserved, members are members of the old population, carried weight nonnegative"""
        import numpy as np
        N, w = draw_walkers(v)
        pop = [np.array([k, 10.0 * k]) for k in range(N)]
        w0 = w.copy()
        u = v.rng.random(64)
        new, nw = v.call_draws(target, u, list(pop), w)
        if len(new) != N or len(nw) != N:
            raise Violation("walker count", f"{len(new)} walkers / {len(nw)} weights, expected {N}")
        v.eq("total weight", float(np.sum(nw)), float(np.sum(w0)))
        v.ge("weights nonnegative", np.asarray(nw), np.zeros(N))
        v.eq("old weights untouched", w, w0)
        t = tags(new)
        v.true("members come from the old population", all(0 <= k < N and np.array_equal(x, np.array([k, 10.0 * k])) for k, x in zip(t, new)))
        v.true("no copy of a dead walker", all(w0[k] > 0 or q <= 1e-12 for k, q in zip(t, nw)))
        if name != "branching":
            v.eq("uniform weights", np.asarray(nw), np.full(N, w0.sum() / N))
            cnt = np.bincount(t, minlength=N)
            x = N * w0 / w0.sum()
            v.true("copies are floor or ceil of the expected number", all(np.floor(a - 1e-9) <= c <= np.ceil(a + 1e-9) for a, c in zip(x, cnt)))
        else:
            s, i = np.sort(w0), 0
            while i < N - 1 - i and (s[i] < 0.1 or s[N - 1 - i] > 2.0):    # pairs are merged until the innermost one within the thresholds
                s[i] = s[N - 1 - i] = 0.5 * (s[i] + s[N - 1 - i])
                i += 1
            v.eq("pairs outside the thresholds share their weight", np.sort(np.asarray(nw)), np.sort(s))
            keep = np.sort(w0)
            if keep[0] >= 0.1 and keep[-1] <= 2.0:
                v.eq("in-range population unchanged", np.sort(np.asarray(nw)), keep)
                v.true("in-range members unchanged", sorted(t) == list(range(N)))

        if v.choose("quad", (1,) + (0,) * 9):
            # expectation over the draw by quadrature of the random number: the weight carried by each old member equals its old weight
            M = 2000
            acc = np.zeros(N)
            for m in range(M):
                new, nw = v.call_draws(target, np.full(64, (m + 0.5) / M), list(pop), w.copy())
                for k, q in zip(tags(new), nw):
                    acc[k] += q / M
            err = np.max(np.abs(acc - w)) / max(w.sum(), 1e-300)
            v.true(f"expected weight equals old weight (max deviation {err:.2e})", err < 4.0 * N / M)


def mkwalkers(v, N, nc, boson, method=None):
    import numpy as np
    r = v.rng
    n, na, nb, F = 3, 2, 1, 4
    tag = np.arange(N).reshape(N, 1, 1)
    a = tag + 0j + np.zeros((N, n, na))
    b = tag + 100.0 + 0j + np.zeros((N, n, nb))
    f = tag[:, :, 0] + 200.0 + 0j + np.zeros((N, F))
    import openms.__mpi__ as mp
    return v.obj(f"{W}:Walkers_so", nwalkers=N, global_nwalkers=N, ncomponents=nc, phiwa=a, phiwb=b if nc > 1 else None,
                 boson_phiw=f if boson else None, ehybrid=300.0 + np.arange(N), weights=r.random(N) * 3 + 0.01, weights_org=None, verbose=0, stdout=None,
                 total_weight0=N, total_weight=v.choose("tw", (N, 50.0 * N)), _mpi=mp.MPIWrapper(), weight_min=0.1, weight_max=10.0)


@contract("P01", "weight_control", fns=[f"{W}:BaseWalkers.weight_control", f"{PC}:population_control_factory", f"{W}:BaseWalkers._pack_walkers",
                                         f"{W}:BaseWalkers._unpack_walkers"], modes=("num",), num=80,
          note="bounded: up to 7 walkers, all methods, spins and boson cases")
def _wc(v):
    """clips at a tenth of the total weight after the first step, acts every freq steps, rescales the total to its target and
    keeps alpha, beta and boson parts of a walker together"""
    import numpy as np
    N = v.dim("N", lo=1, hi=7)
    nc, bos = v.choose("nc", (1, 2)), v.boolean("bos")
    method = v.choose("method", ("branching", "reconfiguration", "comb"))
    w = mkwalkers(v, N, nc, bos)
    step, freq = v.choose("step", (0, 1, 3, 4, 9)), v.choose("freq", (1, 5))
    w0, tw = w.weights.copy(), w.total_weight
    v.method(w, "weight_control", step, freq=freq, method=method)
    c = np.clip(w0, -0.1 * tw, 0.1 * tw) if step > 0 else w0
    if (step + 1) % freq:
        v.eq("clipped weights", w.weights, c)
        v.eq("walkers untouched", np.real(w.phiwa[:, 0, 0]), np.arange(N) * 1.0)
        return
    v.eq("total weight recorded", w.total_weight, c.sum())
    v.eq("raw weights recorded", w.weights_org, c)
    v.eq("total weight restored to the target", np.sum(w.weights), float(N))
    v.eq("walker count", len(w.weights), N)
    v.eq("alpha shape", w.phiwa.shape[0], N)
    t = np.rint(np.real(w.phiwa[:, 0, 0]))
    v.eq("alpha consistent", w.phiwa, t.reshape(N, 1, 1) + np.zeros((N, 3, 2)))
    if nc > 1:
        v.eq("beta stays with its alpha", w.phiwb, 100.0 + t.reshape(N, 1, 1) + np.zeros((N, 3, 1)))
    if bos:
        v.eq("boson stays with its electrons", w.boson_phiw, 200.0 + t.reshape(N, 1) + np.zeros((N, 4)))
    v.eq("hybrid energy of the last step stays with its walker", w.ehybrid, 300.0 + t)
    if method == "branching":
        nw = c / c.sum() * N
        if nw.min() >= 0.1 and nw.max() <= 2.0:
            v.eq("weights follow their walkers", w.weights, nw[t.astype(int)])
    # copies do not alias each other
    a = w.phiwa
    if N > 1:
        a[0] += 1000.0
        v.true("copies are independent", np.max(np.abs(a[1:])) < 900.0)


def sym_walkers(v, N, n, nc, bos, tag, **kw):
    d = dict(phiwa=v.tensor(f"a{tag}", (N, n, v.dim("na")), cplx=True), phiwb=v.tensor(f"b{tag}", (N, n, v.dim("nb")), cplx=True) if nc > 1 else None,
             boson_phiw=v.tensor(f"f{tag}", (N, v.dim("F")), cplx=True) if bos else None, ehybrid=v.tensor(f"e{tag}", (N,)), nwalkers=N, ncomponents=nc, verbose=0, stdout=None)
    d.update(kw)
    return v.obj(f"{W}:Walkers_so", **d), d


@contract("P01", "walker packing", fns=[f"{W}:BaseWalkers._pack_walkers", f"{W}:BaseWalkers._unpack_walkers"])
def _pk(v):
    """the packed population of one ensemble installed in another carries every part of every walker over, in order, without sharing storage"""
    N, n = v.dim("N"), v.dim("n")
    nc, bos = v.choose("nc", (1, 2)), v.boolean("bos")
    w1, d1 = sym_walkers(v, N, n, nc, bos, 1)
    w2, d2 = sym_walkers(v, N, n, nc, bos, 2)
    v.method(w2, "_unpack_walkers", v.method(w1, "_pack_walkers"))
    v.eq("alpha", v.get(w2, "phiwa"), d1["phiwa"])
    if nc > 1:
        v.eq("beta", v.get(w2, "phiwb"), d1["phiwb"])
    if bos:
        v.eq("boson", v.get(w2, "boson_phiw"), d1["boson_phiw"])
    v.eq("hybrid energy of the last step", v.get(w2, "ehybrid"), d1["ehybrid"])


@contract("P01", "control step", fns=[f"{W}:BaseWalkers.weight_control", f"{PC}:population_control_factory"],
          note="resampling routine replaced by its contract (an arbitrary new population of the same size)")
def _cs(v):
    """clipping, period, normalisation to the target and dispatch"""
    N, n = v.dim("N"), v.dim("n")
    nc, bos = v.choose("nc", (1, 2)), v.boolean("bos")
    wt = v.tensor("wt", (N,), pos=True)
    tw, target = v.scalar("tw", pos=True), v.scalar("target", pos=True)
    w1, d1 = sym_walkers(v, N, n, nc, bos, 1, weights=v.copy(wt), total_weight=tw, total_weight0=target, weights_org=None,
                         _mpi=v.obj(None, size=1, comm=v.obj(None, allreduce=v.stub(lambda x, op=None: x))))
    new, dn = sym_walkers(v, N, n, nc, bos, 2)
    nw = v.tensor("nw", (N,), pos=True)
    seen = {}

    def resample(pop, weights):
        seen["w"], seen["n"] = v.copy(weights), len(pop)
        return v.method(new, "_pack_walkers"), nw
    if v.sym:
        v.override(f"{PC}:comb_resampling", resample)
    else:
        v.override(f"{PC}:control_func_dict", {"comb": resample})
    step, freq = v.choose("step", (0, 1, 4, 9)), v.choose("freq", (1, 5))
    v.method(w1, "weight_control", step, freq=freq, method="comb")
    c = v.min(wt, 0.1 * tw + 0.0 * wt) if step > 0 else wt
    if (step + 1) % freq:
        v.eq("clipped only", v.get(w1, "weights"), c)
        v.eq("walkers untouched", v.get(w1, "phiwa"), d1["phiwa"])
        v.true("no resampling", "w" not in seen)
        return
    v.true("resampling performed", "w" in seen)
    if "w" not in seen:
        return
    tot = v.sum(N, lambda k: c[k])
    v.eq("raw weights recorded", v.get(w1, "weights_org"), c)
    v.eq("total recorded", v.get(w1, "total_weight"), tot)
    v.eq("resampling sees the weights rescaled to the target", seen["w"], v.comp((N,), lambda k: c[k] * target / tot))
    v.eq("new weights", v.get(w1, "weights"), nw)
    v.eq("new walkers", v.get(w1, "phiwa"), dn["phiwa"])
    if nc > 1:
        v.eq("new beta", v.get(w1, "phiwb"), dn["phiwb"])
    if bos:
        v.eq("new boson", v.get(w1, "boson_phiw"), dn["boson_phiw"])
    v.eq("new hybrid energies", v.get(w1, "ehybrid"), dn["ehybrid"])


@contract("P01", "walker distribution", fns=[f"{W}:BaseWalkers.__init__"], modes=("num",), num=60,
          hoare=pop.distribution, note="all walker and rank counts (z3); initial wave functions on concrete runs")
def _dist(v):
    """every walker is owned by exactly one rank; ranks differ by at most one walker; fresh ensemble has unit weights and equals the trial"""
    import numpy as np
    import openms.__mpi__ as mp
    n, size = v.dim("nw", lo=1, hi=40), v.dim("size", lo=1, hi=9)
    if v.boolean("few"):
        n = int(v.rng.integers(size, 3 * size + 1))
    n = max(n, size)
    nc = v.choose("nc", (1, 2))
    psi = v.rng.normal(size=(3, 2 * nc)) + 0j
    bos = np.array([1.0, 0.2, 0.0]) if v.boolean("bos") else None
    tr = v.obj(None, verbose=0, stdout=None, nalpha=2, nbeta=2, ncomponents=nc, nao=3, psi=psi, boson_psi=bos)
    tot, seen = 0, []
    old = mp.MPIWrapper
    for rank in range(size):
        mp.MPIWrapper = lambda rank=rank: v.obj(None, size=size, rank=rank, comm=mp.FakeComm())
        try:
            w = v.call(f"{W}:Walkers_so", tr, nwalkers=n)
        finally:
            mp.MPIWrapper = old
        v.eq("counts sum to the total", int(sum(w.walker_counter)), n)
        v.true("balanced", max(w.walker_counter) - min(w.walker_counter) <= 1)
        v.eq("own share", w.nwalkers, w.walker_counter[rank])
        seen += list(range(w.displs[rank], w.displs[rank] + w.nwalkers))
        v.eq("unit weights", w.weights, np.ones(w.nwalkers))
        v.eq("alpha = trial", w.phiwa, np.repeat(psi[None, :, :2], w.nwalkers, 0))
        if nc > 1:
            v.eq("beta = trial", w.phiwb, np.repeat(psi[None, :, 2:], w.nwalkers, 0))
        if bos is not None:
            v.eq("boson = trial", w.boson_phiw, np.repeat(bos[None], w.nwalkers, 0) + 0j)
        v.eq("target total", w.total_weight0, n)
    v.true("each walker owned once", sorted(seen) == list(range(n)))
