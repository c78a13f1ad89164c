"""P07: run bookkeeping - orthonormalisation, accumulators, schedule, photon observables and statistics."""
from vc.contract import contract, Violation

Q = "openms.qmc.qmc"
W = "openms.qmc.generic_walkers"
M = "openms.qmc.tools"


@contract("P07", "property_stack", fns=[f"{Q}:QMCbase.property_stack"], note="accumulation periods 1..3 enumerated")
def _ps(v):
    """the energy shift is the weight-averaged hybrid energy of the last period; the buffer is reset after each period"""
    nw = v.dim("nw")
    freq = v.choose("freq", (1, 2, 3))
    names = ["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"]
    buf = v.call("numpy:zeros", (4,), dtype=complex)
    es0 = v.scalar("es0")
    q = v.obj(f"{Q}:QMCbase", stacked_variables=names, property_buffer=buf, property_calc_freq=freq, eshift=es0, verbose=0, stdout=None)
    num = den = 0.0
    start = v.choose("period", (0, 1)) * freq
    for k in range(freq):
        w, wo = v.tensor(f"w{k}", (nw,), pos=True), v.tensor(f"wo{k}", (nw,), pos=True)
        eh, el = v.tensor(f"eh{k}", (nw,)), v.tensor(f"el{k}", (nw,), cplx=True)
        wk = v.obj(None, weights=w, weights_org=wo, ehybrid=eh, eloc=el, _mpi=v.obj(None, size=1))
        v.eq(f"shift unchanged before step {k}", v.get(q, "eshift"), es0)
        v.method(q, "property_stack", wk, start + k)
        num, den = num + v.einsum("z,z->", eh, w), den + v.asum(w)
    v.eq("energy shift", v.get(q, "eshift"), num / den)
    v.eq("buffer reset", v.get(q, "property_buffer"), v.zeros((4,)))


@contract("P07", "property_stack initial call", fns=[f"{Q}:QMCbase.property_stack"])
def _ps0(v):
    buf = v.tensor("buf", (4,), cplx=True)
    q = v.obj(f"{Q}:QMCbase", stacked_variables=["weights"], property_buffer=buf, property_calc_freq=1, eshift=0.5, verbose=0, stdout=None)
    v.method(q, "property_stack", v.obj(None), -1)
    v.eq("shift", v.get(q, "eshift"), 0.5)


@contract("P07", "get_boson_dm", fns=[f"{W}:Walkers_so.get_boson_dm"])
def _bdm(v):
    """block-diagonal per-mode density matrices of every walker"""
    nw = v.dim("nw")
    nm = v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{m}") for m in range(nm)]
    phi = v.tensor("phib", (nw, sum(Fs)), cplx=True)
    tr = v.obj(None, mol=v.obj(None, nboson_states=list(Fs), nmodes=nm))
    D, d = v.method(v.obj(f"{W}:Walkers_so", nwalkers=nw, verbose=0, stdout=None), "get_boson_dm", tr, phi)
    o = 0
    for m in range(nm):
        p = 0
        for k in range(nm):
            blk = D[:, o:o + Fs[m], p:p + Fs[k]]
            ref = v.einsum("wi,wj->wij", phi[:, o:o + Fs[m]], v.conj(phi[:, p:p + Fs[k]]))
            v.eq(f"block {m},{k}", blk, ref if m == k else v.zeros((nw, Fs[m], Fs[k])))
            p = p + Fs[k]
        v.eq(f"mode {m}", d[m], v.einsum("wi,wj->wij", phi[:, o:o + Fs[m]], v.conj(phi[:, o:o + Fs[m]])))
        o = o + Fs[m]


@contract("P07", "get_boson_bdag_plus_b", fns=[f"{W}:Walkers_so.get_boson_bdag_plus_b"])
def _bq(v):
    """weight-averaged displacement <b^+ + b> of every mode"""
    nw = v.dim("nw")
    nm = v.choose("nm", (1, 2))
    Fs = [v.dim(f"F{m}") for m in range(nm)]
    phi = v.tensor("phib", (nw, sum(Fs)), cplx=True)
    w = v.tensor("w", (nw,), pos=True)
    tr = v.obj(None, mol=v.obj(None, nboson_states=list(Fs), nmodes=nm))
    r = v.method(v.obj(f"{W}:Walkers_so", nwalkers=nw, weights=w, verbose=0, stdout=None), "get_boson_bdag_plus_b", tr, phi)
    o = 0
    for m in range(nm):
        x = phi[:, o:o + Fs[m]]
        s = v.sum(Fs[m] - 1, lambda k: v.sqrt(k + 1) * v.sum(nw, lambda z: w[z] * (x[z, k] * v.conj(x[z, k + 1]) + x[z, k + 1] * v.conj(x[z, k]))))
        v.eq(f"mode {m}", r[m] * v.asum(w), s)
        o = o + Fs[m]


@contract("P07", "orthogonalization", fns=[f"{Q}:QMCbase.orthogonalization", f"{Q}:qr_ortho"], modes=("num",), num=30,
          note="bounded: the QR factorisation is external; up to 4 walkers, 5 orbitals")
def _orth(v):
    """orthonormal columns, same span, overlap divided by the modulus of the removed determinant, photon part normalised"""
    import numpy as np
    nw, na, nb = v.dim("nw"), v.dim("na", hi=3), v.dim("nb", hi=2)
    n = v.dim("n", hi=5, ge=(na, nb))
    nc, bos = v.choose("nc", (1, 2)), v.boolean("bos")
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    ov = v.tensor("ov", (nw,), cplx=True)
    ld = v.tensor("ld", (nw,), cplx=True)
    bp = v.tensor("bp", (nw, 4), cplx=True) + 0.0
    v.modifies("phia", "phib", "ov", "ld")
    a0, b0, ov0, ld0 = a.copy(), b.copy(), ov.copy(), ld.copy()
    cond = [np.linalg.cond(x) for x in a0] + [np.linalg.cond(x) for x in b0]
    if max(cond) > 1e5 or (bos and np.min(np.linalg.norm(bp, axis=1)) < 1e-8):
        from vc.contract import Reject
        raise Reject("rank deficient")
    sh = v.rng.normal(size=nw) * v.choose("shift", (0.0, 1.0))
    w = v.obj(None, nwalkers=nw, phiwa=a, phiwb=b, ncomponents=nc, detR_shift=sh, log_detR=ld, detR=np.ones(nw, complex), ovlp=ov,
              boson_phiw=bp if bos else None)
    q = v.obj(f"{Q}:QMCbase", walkers=w, verbose=0, stdout=None)
    v.method(q, "orthogonalization")
    det = np.sqrt(np.abs(np.linalg.det(np.einsum("zpi,zpj->zij", a0.conj(), a0))))
    for s, x0, x in (("alpha", a0, w.phiwa),) + ((("beta", b0, w.phiwb),) if nc == 2 else ()):
        v.eq(f"{s} orthonormal", np.einsum("zpi,zpj->zij", x.conj(), x), np.repeat(np.eye(x.shape[2])[None], nw, 0))
        v.eq(f"{s} same span", np.einsum("zpi,zqi,zqj->zpj", x, x.conj(), x0), x0)
    if nc == 2:
        det = det * np.sqrt(np.abs(np.linalg.det(np.einsum("zpi,zpj->zij", b0.conj(), b0))))
    else:
        v.eq("unused beta untouched", w.phiwb, b0)
    det = det * np.exp(-sh)
    v.eq("removed determinant", w.detR, det, tol=1e-6)
    v.eq("accumulated log determinant", w.log_detR, ld0 + np.log(det), tol=1e-6)
    v.eq("overlap rescaled", w.ovlp, ov0 / det, tol=1e-6)
    if bos:
        v.eq("photon part", np.abs(w.boson_phiw), np.abs(bp) / np.linalg.norm(bp, axis=1)[:, None])


@contract("P07", "orthogonalization by QR factors", fns=[f"{Q}:QMCbase.orthogonalization", f"{Q}:qr_ortho"],
          assumes=["numpy.linalg.qr returns the factors of its argument: QR = A, Q^H Q = 1, R triangular (checked on concrete matrices by the contract 'orthogonalization')"])
def _orthq(v):
    """every walker's orbitals become the Q factor of its own orbitals; the removed modulus is the product of |R_ii| over its spins; overlap, log
    determinant and photon part follow (all batch, orbital and electron numbers)"""
    nw, na, nb, x = v.dim("nw"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("nx", lo=1, hi=2)
    n = na + nb + x
    nc, bos = v.choose("nc", (1, 2)), v.choose("bos", (True, False))
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    ov, ld = v.tensor("ov", (nw,), cplx=True), v.tensor("ld", (nw,), cplx=True)
    dr = v.tensor("dr", (nw,), cplx=True)
    nf = v.dim("nf", hi=4)
    bp = v.tensor("bp", (nw, nf), cplx=True)
    sh = v.tensor("sh", (nw,))
    v.modifies("phia", "phib", "ov", "ld", "dr")
    a0, b0, ov0, ld0, bp0 = v.copy(a), v.copy(b), v.copy(ov), v.copy(ld), v.copy(bp)
    w = v.obj(None, nwalkers=nw, phiwa=a, phiwb=b, ncomponents=nc, detR_shift=sh, log_detR=ld, detR=dr, ovlp=ov, boson_phiw=bp if bos else None)
    v.method(v.obj(f"{Q}:QMCbase", walkers=w, verbose=0, stdout=None), "orthogonalization")
    z = v.index("z", nw)

    def factors(x0, k):
        q, r = v.call("numpy.linalg:qr", x0)
        return q[z], v.sum(k, lambda i: v.log(v.abs(r[z, i, i])))
    qa, la = factors(a0, na)
    v.eq("alpha orbitals", v.get(w, "phiwa")[z], qa)
    if nc == 2:
        qb, lb = factors(b0, nb)
        la = la + lb
        v.eq("beta orbitals", v.get(w, "phiwb")[z], qb)
    else:
        v.eq("unused beta untouched", v.get(w, "phiwb"), b0)
    det = v.exp(la - sh[z])
    v.eq("removed determinant", v.get(w, "detR")[z], det)
    v.eq("accumulated log determinant", v.get(w, "log_detR")[z], ld0[z] + v.log(det))
    v.eq("overlap rescaled", v.get(w, "ovlp")[z], ov0[z] / det)
    if bos:
        nrm = v.sqrt(v.sum(nf, lambda i: bp0[z, i] * v.conj(bp0[z, i])))
        k = v.index("k", nf)
        v.eq("photon part normalised", v.get(w, "boson_phiw")[z, k], v.abs(bp0[z, k] / nrm))


@contract("P07", "qr_ortho_batch", fns=[f"{Q}:qr_ortho_batch", f"{Q}:qr_ortho"], modes=("num",), num=10, note="bounded: the QR factorisation is external")
def _qrb(v):
    import numpy as np
    nw, na = v.dim("nw"), v.dim("na", hi=3)
    n = v.dim("n", hi=5, ge=(na,))
    a = v.tensor("phia", (nw, n, na), cplx=True)
    v.inv(np.einsum("zpi,zpj->zij", a.conj(), a))
    qb, lb = v.call(f"{Q}:qr_ortho_batch", a)
    for z in range(nw):
        q, l = v.call(f"{Q}:qr_ortho", a[z])
        v.eq("same factor", qb[z], q)
        v.eq("same log determinant", lb[z], l)
        v.eq("log |det R|", l, 0.5 * np.log(np.abs(np.linalg.det(a[z].conj().T @ a[z]))), tol=1e-6)


@contract("P07", "QR factors and determinant", fns=[f"{Q}:qr_ortho_batch", f"{Q}:qr_ortho"], assumes=["numpy.linalg.qr as above"])
def _qrs(v):
    """Q factor and log of the modulus of det R, for one walker and for a batch"""
    nw, na, x = v.dim("nw"), v.dim("na", hi=3), v.dim("nx", hi=2)
    a, b = v.tensor("phia", (nw, na + x, na), cplx=True), v.tensor("phi", (na + x, na), cplx=True)
    q, r = v.call("numpy.linalg:qr", a)
    q1, l1 = v.call(f"{Q}:qr_ortho_batch", a)
    v.eq("batch factor", q1, q)
    z = v.index("z", nw)
    v.eq("batch log determinant", l1[z], v.sum(na, lambda i: v.log(v.abs(r[z, i, i]))))
    q, r = v.call("numpy.linalg:qr", b)
    q1, l1 = v.call(f"{Q}:qr_ortho", b)
    v.eq("factor", q1, q)
    v.eq("log determinant", l1, v.sum(na, lambda i: v.log(v.abs(r[i, i]))))


class _Rec:
    """records the calls of a run"""

    def __init__(self):
        self.log = []
        self.verbose, self.stdout = 0, None


@contract("P07", "run schedule", fns=[f"{Q}:QMCbase.kernel"], modes=("num",), num=25, note="bounded: runs of up to 23 steps with recording stand-ins")
def _sched(v):
    """every step propagates once with the current shift and controls weights; re-orthonormalisation and measurements follow their
    frequencies; the energy reported at time t is the ratio of the accumulated energy and weight"""
    import numpy as np
    n = v.dim("nsteps", lo=1, hi=23)
    rf, pf, cf = v.choose("rf", (1, 3, 5)), v.choose("pf", (1, 4, 5)), v.choose("cf", (2, 5))
    method = v.choose("method", ("comb", "branching", None))
    log, dt = [], 0.01
    nw = 2
    h1, lt, geb, tr = object(), object(), object(), v.obj(None, name="trial")
    en = iter(v.rng.normal(size=(100, 4)) + 3.0)
    vals = []

    def loc(h, l, w, t, enuc=0.0):
        log.append(("energy", h is h1 and l is lt and t is tr, enuc))
        e = next(en)
        vals.append(e)
        return list(e)
    prop = v.obj(None, build=lambda *a: log.append(("build", len(a))), debug_mpi=False, local_energy=loc,
                 propagate_walkers=lambda t, w, l, eshift=0.0, verbose=0: log.append(("prop", t is tr and l is lt, eshift)))
    import openms.__mpi__ as mp
    wk = v.obj(None, weight_control=lambda s, freq=None, method=None: log.append(("control", s, freq, method)), nwalkers=nw, raw_norm=1.0,
               weights=np.ones(nw), weights_org=np.ones(nw), _mpi=mp.MPIWrapper())
    q = v.obj(f"{Q}:QMCbase", h1e=h1, ltensor=lt, geb=geb, trial=tr, propagator=prop, walkers=wk, nsteps=n, dt=dt, renorm_freq=rf,
              property_calc_freq=pf, pop_control_freq=cf, pop_control_method=method, print_freq=10, eshift=0.25, random_seed=3, verbose=0,
              stdout=None, nuc_energy=0.7, _mpi=mp.MPIWrapper(), dump_flags=lambda: None, post_kernel=lambda: None,
              orthogonalization=lambda: log.append(("orth",)), property_stack=lambda w, s: log.append(("stack", s)),
              **{f"wt_{k}": 0.0 for k in ("propagator", "observables", "weight_control", "ortho", "io", "tot")})
    t, e = v.method(q, "kernel")
    ev = [x[0] for x in log]
    v.eq("propagations", ev.count("prop"), n)
    v.true("propagated with the trial, the fields and the shift", all(x[1] and x[2] == 0.25 for x in log if x[0] == "prop"))
    v.true("weight control each step", [x[1:] for x in log if x[0] == "control"] == [(s, cf, method) for s in range(n)])
    v.true("accumulation each step", [x[1] for x in log if x[0] == "stack" and x[1] >= 0] == list(range(n)))
    ms = [s for s in range(n) if (s + 1) % pf == 0]
    v.true("measurement times", len(t) == len(ms) and np.allclose(t, [dt * s for s in ms]))
    v.eq("reported energies", np.array(e), np.array([x[0] / x[1] for x in vals]))
    v.true("measured with the Hamiltonian and nuclear energy", all(x[1] and x[2] == 0.7 for x in log if x[0] == "energy"))
    # order inside a step
    step, orth, seen = -1, [], []
    for x in log:
        if x[0] == "orth":
            orth.append(step + 1)
        if x[0] == "prop":
            step += 1
    v.true("walkers orthonormalised at the start and every renorm_freq steps", sorted(orth) == sorted([0] + [s for s in range(n) if (s + 1) % rf == 0]))
    k = {s: ("prop", "control", "stack") for s in range(n)}
    seq = [x[0] for x in log if x[0] in ("prop", "control") or (x[0] == "stack" and x[1] >= 0)]
    v.true("propagate, control, accumulate", seq == ["prop", "control", "stack"] * n)


@contract("P07", "get_mean_std", fns=[f"{M}:get_mean_std"], modes=("num",), num=40, note="bounded: series of up to 60 samples")
def _ms(v):
    import numpy as np
    n, N = v.dim("n", lo=1, hi=60), v.choose("N", (1, 3, 10))
    x = v.tensor("x", (n,), cplx=v.boolean("c"))
    m, s = v.call(f"{M}:get_mean_std", x, N)
    y = x.real[n - max(1, n // N):]
    v.eq("mean", m, sum(y) / len(y))
    v.eq("std", s, np.sqrt(sum((y - sum(y) / len(y)) ** 2) / len(y)), tol=1e-6)
    v.eq("list input", v.call(f"{M}:get_mean_std", list(x), N)[0], m)


@contract("P07", "mean and deviation of the last part", fns=[f"{M}:get_mean_std"])
def _ms2(v):
    """mean and standard deviation of the real parts of the last max(1, n // N) samples, for every length and fraction"""
    N = v.choose("N", (1, 2, 10))
    n = v.dim("n", lo=N, hi=60)
    x = v.tensor("x", (n,), cplx=True)
    m, s = v.call(f"{M}:get_mean_std", x, N)
    k = n // N
    mu = v.sum(k, lambda i: v.real(x[n - k + i])) / k
    v.eq("mean", m, mu)
    v.eq("variance", s * s, v.sum(k, lambda i: (v.real(x[n - k + i]) - mu) * (v.real(x[n - k + i]) - mu)) / k)


@contract("P07", "autocorr", fns=[f"{M}:autocorr_func", f"{M}:get_autocorr_time", f"{M}:auto_window"], modes=("num",), num=30, note="bounded: up to 70 samples")
def _ac(v):
    """the transform-based autocorrelation equals the direct sum; the integrated time uses the first window with k >= c tau_k"""
    import numpy as np
    n = v.dim("n", lo=2, hi=70)
    x = v.rng.normal(size=n).cumsum() if v.boolean("walk") else v.rng.normal(size=n)
    y = x - x.mean()
    ref = np.array([sum(y[i] * y[i + k] for i in range(n - k)) for k in range(n)])
    a = v.call(f"{M}:autocorr_func", x)
    v.eq("autocorrelation", a, ref / ref[0], tol=1e-6)
    u = v.call(f"{M}:autocorr_func", x, normalize=False)
    v.eq("unnormalised is proportional", u * ref[0], ref * u[0], tol=1e-6)
    c = v.choose("c", (5.0, 2.0))
    tau = 2 * np.cumsum(ref / ref[0]) - 1
    k = [i for i in range(n) if not i < c * tau[i]]
    ok = any(i < c * tau[i] for i in range(n))
    if k and min(abs(i - c * tau[i]) for i in range(n)) > 1e-9:
        v.eq("integrated time", v.call(f"{M}:get_autocorr_time", x, c), tau[k[0]] if ok else tau[-1], tol=1e-6)


@contract("P07", "remove_outliers", fns=[f"{M}:remove_outliers"], modes=("num",), num=30, note="bounded: up to 40 samples")
def _ro(v):
    """keeps, in order, exactly the samples within the threshold; rejects unknown methods"""
    import numpy as np
    n = v.dim("n", lo=3, hi=40)
    x = v.rng.normal(size=n)
    x[int(v.rng.integers(n))] += v.choose("out", (0.0, 30.0, -30.0))
    meth, thr = v.choose("meth", ("zscore", "iqr")), v.choose("thr", (1.0, 1.5, 3.0, 10.0))
    r = v.call(f"{M}:remove_outliers", x, method=meth, threshold=thr)
    if meth == "zscore":
        keep = [a for a in x if abs(a - x.mean()) < thr * x.std()]
    else:
        q1, q3 = np.percentile(x, 25), np.percentile(x, 75)
        keep = [a for a in x if q1 - thr * (q3 - q1) <= a <= q3 + thr * (q3 - q1)]
    v.eq("kept samples", r, np.array(keep))


@contract("P07", "analysis_autocorr", fns=[f"{M}:analysis_autocorr"], modes=("num",), num=20, note="bounded: up to 200 samples")
def _aa(v):
    """mean and error of the blocked series"""
    import numpy as np
    n = v.dim("n", lo=20, hi=200)
    x = v.rng.normal(size=n)
    if v.boolean("corr"):
        x = np.convolve(x, np.ones(4) / 4, "same")
    r = v.call(f"{M}:analysis_autocorr", x, name="e")
    tau = v.call(f"{M}:get_autocorr_time", x)
    b = int(np.ceil(tau))
    if b < 1:
        return
    nb = n // b
    bl = np.array([x[i * b:(i + 1) * b].mean() for i in range(nb)])
    v.eq("block size", r["ac_sampsize"][0], b)
    v.eq("blocks", r["e_nsamp"][0], nb)
    v.eq("mean", r["e"][0], bl.mean())
    v.eq("error", r["e_error"][0], bl.std() / np.sqrt(nb), tol=1e-6)


@contract("P07", "runs do not share options", fns=[f"{Q}:QMCbase.__init__"], modes=("num",), num=8, note="bounded: pairs of option sets")
def _opt(v):
    """a run gets exactly the options it was given on top of the documented defaults, whatever was run before it; the number of steps covers
    the requested time"""
    import copy
    from openms.qmc import generic_walkers as gw
    ref = copy.deepcopy(gw.default_walker_options)
    v.override(f"{Q}:QMCbase.build", lambda self: None)
    try:
        mol = v.obj(None, name="mol")
        dt = v.choose("dt", (0.005, 0.01, 0.1, 0.25))
        T = v.choose("T", (1.0, 5.0, 0.3, 2.2))
        o1 = {"weight_min": 0.01 * v.dim("a", lo=1, hi=50), "weight_max": 1.0 * v.dim("b", lo=2, hi=50), "nwalkers": v.dim("w", lo=1, hi=50)}
        n = v.choose("n", (None, 7))
        a = v.call(f"{Q}:QMCbase", mol, dt=dt, total_time=T, num_walkers=n, walker_options=dict(o1),
                   propagator_options={"num_fake_fields": 4, "taylor_order": 9})
        nw = n or o1["nwalkers"]
        v.true("first run: walker options", a.walker_options == {**ref, **o1, "nwalkers": nw})
        v.true("first run: propagator options", a.propagator_options["num_fake_fields"] == 4 and a.propagator_options["taylor_order"] == 9)
        v.true("number of steps", (a.nsteps - 1e-6) * dt <= T < (a.nsteps + 1 + 1e-6) * dt)
        b = v.call(f"{Q}:QMCbase", mol)
        v.true("second run: default walker options", b.walker_options == {**ref, "nwalkers": 100})
        v.true("second run: default propagator options", b.propagator_options["num_fake_fields"] == 0 and b.propagator_options["taylor_order"] == 6)
        v.true("first run keeps its options", a.walker_options == {**ref, **o1, "nwalkers": nw})
    finally:
        gw.default_walker_options.clear()
        gw.default_walker_options.update(ref)


@contract("P07", "seeding", fns=[f"{Q}:QMCbase.kernel"], modes=("num",), num=8, note="bounded: one to four ranks, recorded random numbers")
def _seed(v):
    """the random numbers of a run are determined by its seed and rank: same seed, same run; different seeds or ranks, different runs"""
    import numpy as np
    size = v.choose("ranks", (1, 2, 4))
    s0 = v.dim("seed", lo=0, hi=1000)

    def run(rank, seed):
        out = []
        prop = v.obj(None, build=lambda *a: None, debug_mpi=False, local_energy=lambda *a, **k: [1.0, 1.0, 1.0, 1.0],
                     propagate_walkers=lambda *a, **k: out.append(np.random.normal(size=3)))
        wk = v.obj(None, weight_control=lambda *a, **k: None, nwalkers=1, raw_norm=1.0, weights=np.ones(1))
        q = v.obj(f"{Q}:QMCbase", h1e=None, ltensor=None, geb=None, trial=None, propagator=prop, walkers=wk, nsteps=3, dt=0.1, renorm_freq=5,
                  property_calc_freq=5, pop_control_freq=5, pop_control_method=None, print_freq=10, eshift=0.0, random_seed=seed, verbose=0,
                  stdout=None, nuc_energy=0.0, _mpi=v.obj(None, size=size, rank=rank, comm=None), dump_flags=lambda: None, post_kernel=lambda: None,
                  orthogonalization=lambda: None, property_stack=lambda w, s: None,
                  **{f"wt_{k}": 0.0 for k in ("propagator", "observables", "weight_control", "ortho", "io", "tot")})
        v.method(q, "kernel")
        return np.concatenate(out)
    st = np.random.get_state()
    try:
        r = [run(k, s0) for k in range(size)]
        np.random.normal(size=v.dim("drawn", lo=1, hi=9))
        for k in range(size):
            v.true("same seed and rank, same random numbers", np.array_equal(run(k, s0), r[k]))
            v.true("other seed, other random numbers", not np.array_equal(run(k, s0 + 1), r[k]))
            v.true("other rank, other random numbers", all(not np.array_equal(r[j], r[k]) for j in range(k)))
    finally:
        np.random.set_state(st)
