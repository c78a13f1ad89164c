"""P03: local energy estimators equal the exact contraction of the Hamiltonian with the walker Green's function."""
from vc.contract import contract, Reject

M = "openms.qmc.estimators"


def setup(v, sp=""):
    nw, ng, n, no = v.dim("nw"), v.dim("ng"), v.dim("n", hi=4), v.dim("no" + sp, hi=3)
    L = v.tensor("L" + sp, (ng, n, no))
    G = v.tensor("Gh" + sp, (nw, n, no), cplx=True)
    return nw, ng, n, no, L, G


def spec_exx(v, L, G):
    return 0.5 * v.einsum("gpi,zpj,gqj,zqi->z", L, G, L, G)


for fn in ("exx_rltensor_Ghalf", "exx_rltensor_Ghalf_numba", "exx_rltensor_Ghalf_kernel"):
    @contract("P03", fn, fns=[f"{M}:{fn}"])
    def _exx(v, fn=fn):
        nw, ng, n, no, L, G = setup(v)
        r = v.call(f"{M}:{fn}", L, G)
        v.eq("exchange energy", r, spec_exx(v, L, G))


@contract("P03", "ecoul_rltensor_uhf", fns=[f"{M}:ecoul_rltensor_uhf"])
def _ecoul(v):
    nw, ng, n, no, L, G = setup(v)
    if v.boolean("spin"):
        nb = v.dim("nb", hi=3)
        Lb = v.tensor("Lb", (ng, n, nb))
        Gb = v.tensor("Ghb", (nw, n, nb), cplx=True)
        r = v.call(f"{M}:ecoul_rltensor_uhf", L, G, Lb, Gb)
        rho = v.einsum("gpi,zpi->zg", L, G) + v.einsum("gpi,zpi->zg", Lb, Gb)
    else:
        r = v.call(f"{M}:ecoul_rltensor_uhf", L, G)
        rho = v.einsum("gpi,zpi->zg", L, G)
    v.eq("coulomb energy", r, 0.5 * v.einsum("zg,zg->z", rho, rho))


@contract("P03", "local_eng_elec_chol_new", fns=[f"{M}:local_eng_elec_chol_new"])
def _chol_new(v):
    nw, ng, n = v.dim("nw"), v.dim("ng"), v.dim("n")
    L = v.tensor("L", (ng, n, n))
    h = v.tensor("h", (n, n))
    G = v.tensor("G", (nw, n, n), cplx=True)
    r = v.call(f"{M}:local_eng_elec_chol_new", h, L, G)
    eri = v.einsum("gpr,gqs->prqs", L, L)
    spec = 2.0 * v.einsum("pq,zpq->z", h, G) + 2.0 * v.einsum("prqs,zpr,zqs->z", eri, G, G) \
        - v.einsum("prqs,zps,zqr->z", eri, G, G)
    v.eq("closed-shell energy", r, spec)


T = "openms.qmc.trial"


@contract("P03", "e_rh1e_Ghalf", fns=[f"{M}:e_rh1e_Ghalf"])
def _e1(v):
    nw, n, no = v.dim("nw"), v.dim("n"), v.dim("no", hi=3)
    h = v.tensor("rh", (n, no), cplx=True)
    G = v.tensor("Gh", (nw, n, no), cplx=True)
    v.eq("one-body energy", v.call(f"{M}:e_rh1e_Ghalf", h, G), v.einsum("qi,zqi->z", h, G))


@contract("P03", "half_rotate_integrals", fns=[f"{T}:half_rotate_integrals"])
def _hri(v):
    nd, n, na, nb, ng = v.dim("nd", hi=2), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    pa, pb = v.tensor("Ta", (nd, n, na), cplx=True), v.tensor("Tb", (nd, n, nb), cplx=True)
    h = v.tensor("h", (nc, n, n))
    L = v.tensor("L", (ng, n, n))
    (ra, rb), (la, lb) = v.call(f"{T}:half_rotate_integrals", nc, pa, pb if nc == 2 else None, h, L)
    v.eq("rotated h alpha", ra, v.einsum("Jpi,pq->Jqi", v.conj(pa), h[0]))
    v.eq("rotated chol alpha", la, v.einsum("Jpi,npq->Jnqi", v.conj(pa), L))
    if nc == 2:
        v.eq("rotated h beta", rb, v.einsum("Jpi,pq->Jqi", v.conj(pb), h[1]))
        v.eq("rotated chol beta", lb, v.einsum("Jpi,npq->Jnqi", v.conj(pb), L))


def sd_energy(v, nc, fn, kernel=None):
    """half rotation followed by the estimator = full contraction of h and (pr|qs) with the walker Green's functions"""
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("ng", hi=3)
    d = dict(psia=v.tensor("Ta", (n, na), cplx=True), ncomponents=nc, nalpha=na, nbeta=nb, _numdets=1, verbose=0,
             half_rotated=False, stdout=None, mol=v.obj(None, verbose=0))
    wd = dict(Ghalfa=v.tensor("Gha", (nw, n, na), cplx=True))
    if nc == 2:
        d["psib"] = v.tensor("Tb", (n, nb), cplx=True)
        wd["Ghalfb"] = v.tensor("Ghb", (nw, n, nb), cplx=True)
    h = v.tensor("h", (nc, n, n))
    L = v.tensor("L", (ng, n, n), sym="last2")
    en = v.scalar("enuc")
    t = v.obj(f"{T}:TrialHF", **d)
    w = v.obj(None, **wd)
    v.method(t, "half_rotate_integrals", h, L)
    e1, e2 = v.call(f"{M}:{fn}", t, w, en)
    Ga = v.einsum("zqi,pi->zpq", wd["Ghalfa"], v.conj(d["psia"]))
    Gb = Ga if nc == 1 else v.einsum("zqi,pi->zpq", wd["Ghalfb"], v.conj(d["psib"]))
    h2 = h[0] if nc == 1 else h[1]
    v.eq("one-body energy", e1, v.einsum("pq,zpq->z", h[0], Ga) + v.einsum("pq,zpq->z", h2, Gb) + en)
    eri = v.einsum("gpr,gqs->prqs", L, L)
    Gt = Ga + Gb
    s2 = 0.5 * v.einsum("prqs,zpr,zqs->z", eri, Gt, Gt) - 0.5 * v.einsum("prqs,zps,zqr->z", eri, Ga, Ga) \
        - 0.5 * v.einsum("prqs,zps,zqr->z", eri, Gb, Gb)
    v.eq("two-body energy", e2, s2)


@contract("P03", "local_energy_SD_RHF", fns=[f"{M}:local_energy_SD_RHF", f"{T}:TrialHF.half_rotate_integrals"])
def _sdr(v):
    sd_energy(v, 1, "local_energy_SD_RHF")


@contract("P03", "local_energy_SD_UHF", fns=[f"{M}:local_energy_SD_UHF", f"{T}:TrialHF.half_rotate_integrals"])
def _sdu(v):
    sd_energy(v, 2, "local_energy_SD_UHF")


@contract("P03", "local_eng_elec_chol", fns=[f"{M}:local_eng_elec_chol"])
def _chol(v):
    nw, ng, n, no = v.dim("nw"), v.dim("ng"), v.dim("n"), v.dim("no", hi=3)
    h = v.tensor("h", (n, n))
    L = v.tensor("L", (ng, n, n), sym="last2")
    P = v.tensor("T", (n, no), cplx=True)
    th = v.tensor("Th", (nw, n, no), cplx=True)
    TL = v.einsum("pi,gpq,zqj->zgij", v.conj(P), L, th)
    vb = v.einsum("zgii->zg", TL)
    G = v.einsum("zqi,pi->zpq", th, v.conj(P))
    r = v.call(f"{M}:local_eng_elec_chol", TL, h, vb, G)
    eri = v.einsum("gpr,gqs->prqs", L, L)
    v.eq("closed-shell energy", r, 2.0 * v.einsum("pq,zpq->z", h, G) + 2.0 * v.einsum("prqs,zpr,zqs->z", eri, G, G)
         - v.einsum("prqs,zps,zqr->z", eri, G, G))


@contract("P03", "local_eng_boson", fns=[f"{M}:local_eng_boson_2nd"])
def _lb(v):
    nw = v.dim("nw")
    nm = v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{m}") for m in range(nm)]
    o = [sum(Fs[:m]) if m else 0 for m in range(nm + 1)]
    om = v.tensor("om", (nm,), pos=True)
    G = v.tensor("Gb", (nw, o[nm], o[nm]), cplx=True)
    r = v.call(f"{M}:local_eng_boson", om, list(Fs), G)
    v.eq("boson energy", r, v.comp((nw,), lambda z: sum(v.sum(Fs[m], lambda k, m=m: om[m] * k * G[z, o[m] + k, o[m] + k]) for m in range(nm))))


@contract("P03", "local_eng_eboson", fns=[f"{M}:local_eng_eboson"])
def _leb(v):
    nw, n = v.dim("nw"), v.dim("n")
    nm = v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{m}") for m in range(nm)]
    N = sum(Fs)
    om = v.tensor("om", (nm,), pos=True)
    g = v.tensor("geb", (nm, n, n))
    Ga = v.tensor("Ga", (nw, n, n), cplx=True)
    G2 = v.tensor("Gb", (nw, n, n), cplx=True) if v.boolean("two") else None
    B = v.tensor("Bos", (nw, N, N), cplx=True)
    r = v.call(f"{M}:local_eng_eboson", om, Fs, g, [Ga, G2], B)
    za = v.einsum("mpq,zpq->zm", g, Ga)
    if G2 is not None:
        za = za + v.einsum("mpq,zpq->zm", g, G2)

    def spec(z):
        tot = 0.0
        for m in range(nm):
            o = sum(Fs[:m]) if m else 0
            # sum_k sqrt(k+1) (B[k,k+1] + B[k+1,k])
            tot = tot + za[z, m] * v.sum(Fs[m] - 1, lambda k: v.sqrt(k + 1) * (B[z, o + k, o + k + 1] + B[z, o + k + 1, o + k]))
        return tot
    v.eq("electron-boson energy", r, v.comp((nw,), spec))


@contract("P03", "ecoul_rltensor_Ghalf_numba", fns=[f"{M}:ecoul_rltensor_Ghalf_numba"])
def _ecn(v):
    nw, ng, n, no = v.dim("nw"), v.dim("ng"), v.dim("n", hi=4), v.dim("no", hi=3)
    L = v.tensor("L", (ng, n, no), cplx=True)
    G = v.tensor("Gh", (nw, n, no), cplx=True)
    if v.boolean("spin"):
        nb = v.dim("nb", hi=3)
        Lb = v.tensor("Lb", (ng, n, nb), cplx=True)
        Gb = v.tensor("Ghb", (nw, n, nb), cplx=True)
        r = v.call(f"{M}:ecoul_rltensor_Ghalf_numba", L, G, Lb, Gb)
        rho = v.einsum("gpi,zpi->zg", L, G) + v.einsum("gpi,zpi->zg", Lb, Gb)
    else:
        r = v.call(f"{M}:ecoul_rltensor_Ghalf_numba", L, G)
        rho = v.einsum("gpi,zpi->zg", L, G)
    v.eq("coulomb energy", r, 0.5 * v.einsum("zg,zg->z", rho, rho))


P = "openms.qmc.propagators"


def le_setup(v, cls, nc):
    """walkers and trial whose Green's functions are recomputed by the callee ovlp_with_walkers_gf (P02)"""
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("ng", hi=3)
    wd = dict(Ghalfa=v.tensor("Gha", (nw, n, na), cplx=True), ncomponents=nc, nwalkers=nw,
              weights=v.tensor("w", (nw,), pos=True), _mpi=v.obj(None, size=1), eloc=None)
    d = dict(psia=v.tensor("Ta", (n, na), cplx=True), ncomponents=nc,
             rh1a=v.tensor("rha", (n, na), cplx=True), rltensora=v.tensor("rLa", (ng, n, na), cplx=True),
             ovlp_with_walkers_gf=v.stub(lambda w: None))
    if nc == 2:
        wd["Ghalfb"] = v.tensor("Ghb", (nw, n, nb), cplx=True)
        d["psib"] = v.tensor("Tb", (n, nb), cplx=True)
        d["rh1b"] = v.tensor("rhb", (n, nb), cplx=True)
        d["rltensorb"] = v.tensor("rLb", (ng, n, nb), cplx=True)
    return wd, d


def elec_terms(v, wd, d, nc):
    e1 = v.einsum("qi,zqi->z", d["rh1a"], wd["Ghalfa"])
    rho = v.einsum("gqi,zqi->zg", d["rltensora"], wd["Ghalfa"])
    x = v.einsum("gpi,zpj,gqj,zqi->z", d["rltensora"], wd["Ghalfa"], d["rltensora"], wd["Ghalfa"])
    if nc == 2:
        e1 = e1 + v.einsum("qi,zqi->z", d["rh1b"], wd["Ghalfb"])
        rho = rho + v.einsum("gqi,zqi->zg", d["rltensorb"], wd["Ghalfb"])
        x = x + v.einsum("gpi,zpj,gqj,zqi->z", d["rltensorb"], wd["Ghalfb"], d["rltensorb"], wd["Ghalfb"])
    else:
        e1, rho, x = 2.0 * e1, 2.0 * rho, 2.0 * x
    return e1, 0.5 * v.einsum("zg,zg->z", rho, rho) - 0.5 * x


def ranks(v, k):
    """k ranks holding the same walkers"""
    return v.obj(None, size=k, comm=v.obj(None, allreduce=v.stub(lambda x, op=None: k * x)))


@contract("P03", "Phaseless.local_energy", fns=[f"{P}:Phaseless.local_energy"])
def _ple(v):
    nc = v.choose("nc", (1, 2))
    wd, d = le_setup(v, "Phaseless", nc)
    en = v.scalar("enuc")
    prop = v.obj(f"{P}:Phaseless", dt=0.01, verbose=0, stdout=None)
    k = v.choose("ranks", (1, 3))
    wd["_mpi"] = ranks(v, k)
    w = v.obj(None, **wd)
    r = v.method(prop, "local_energy", None, None, w, v.obj(None, **d), enuc=en)
    r = [x / k for x in r]
    e1, e2 = elec_terms(v, wd, d, nc)
    v.eq("walker local energy", v.get(w, "eloc"), e1 + e2 + en)
    v.eq("weighted total energy", r[0], v.real(v.einsum("z,z->", wd["weights"], e1 + e2 + en)))
    v.eq("total weight", r[1], v.asum(wd["weights"]))
    v.eq("weighted one-body", r[2], v.real(v.einsum("z,z->", wd["weights"], e1)))
    v.eq("weighted two-body", r[3], v.real(v.einsum("z,z->", wd["weights"], e2)))


@contract("P03", "ElecBoson.local_energy", fns=[f"{P}:PhaselessElecBoson.local_energy", f"{P}:Phaseless.local_energy", f"{P}:PhaselessElecBoson.update_GF"],
          note="1..2 photon modes and Fock truncations enumerated")
def _eble(v):
    """energy of the coupled system: electrons + photons + coupling, each weighted and summed over the walkers of all ranks"""
    nc = v.choose("nc", (1, 2))
    Fs = v.choose("Fs", ((2,), (2, 3)))
    nm, F = len(Fs), sum(Fs)
    wd, d = le_setup(v, "Phaseless", nc)
    nw, n = wd["nwalkers"], d["psia"].shape[0]
    k = v.choose("ranks", (1, 3))
    B = v.tensor("B", (nw, F, F), cplx=True)
    om, g = v.tensor("om", (nm,), pos=True), v.tensor("g", (nm, n, n))
    off = v.boolean("turnoff")
    wd.update(_mpi=ranks(v, k), boson_Gf=B, boson_phiw=None, Ga=None, Gb=None, Gf=None, rho=None, Qalpha=None, get_boson_bdag_plus_b=v.stub(lambda t, w: None))
    en = v.scalar("enuc")
    prop = v.obj(f"{P}:PhaselessElecBoson", dt=0.01, verbose=0, stdout=None, geb=g, turnoff_bosons=off, decouple_bilinear=True, nbarefields=0,
                 system=v.obj(None, boson_freq=om, nboson_states=list(Fs), nmodes=nm))
    w = v.obj(None, **wd)
    lt = v.tensor("lt", (d["rltensora"].shape[0], n, n))
    r = v.method(prop, "local_energy", None, lt, w, v.obj(None, **d), enuc=en)
    r = [x / k for x in r]
    e1, e2 = elec_terms(v, wd, d, nc)
    eb = eg = 0.0
    D = v.einsum("zqi,pi->zpq", wd["Ghalfa"], v.conj(d["psia"]))
    D = D + (v.einsum("zqi,pi->zpq", wd["Ghalfb"], v.conj(d["psib"])) if nc == 2 else D)
    za = v.einsum("xpq,zpq->zx", g, D)
    import math
    for m in range(nm):
        o = sum(Fs[:m])
        eb = eb + om[m] * sum(j * B[:, o + j, o + j] for j in range(1, Fs[m]))
        eg = eg + za[:, m] * sum(v.sqrt(1.0 * (j + 1)) * (B[:, o + j, o + j + 1] + B[:, o + j + 1, o + j]) for j in range(Fs[m] - 1))
    el = e1 + e2 + en + (0.0 if off else eb + eg)
    W = lambda x: v.real(v.einsum("z,z->", wd["weights"], x))
    v.eq("walker local energy", v.get(w, "eloc"), el)
    v.eq("weighted total energy", r[0], W(el))
    v.eq("total weight", r[1], v.asum(wd["weights"]))
    v.eq("weighted one-body", r[2], W(e1))
    v.eq("weighted two-body", r[3], W(e2))
    v.eq("weighted photon energy", r[4], W(eb))
    v.eq("weighted coupling energy", r[5], W(eg))


@contract("P03", "exchange energy distributed over processes", fns=[f"{M}:exx_rltensor_Ghalf_chunked"])
def _exxc(v):
    """every process computes the exchange energy of its own walkers and hands them over with the layout it was given"""
    nw, ng, n, no, L, G = setup(v)
    rank, other = v.choose("rank", (0, 1)), v.dim("other")
    counts = [nw, other] if rank == 0 else [other, nw]
    displs = [0, counts[0]]
    tot = nw + other
    sent = []
    comm = v.obj(None, Get_rank=v.stub(lambda: rank), Gatherv=v.stub(lambda s, r, root=0: sent.append((s, r, root))))
    mpi = v.obj(None, COMPLEX16="c16")
    out = v.call(f"{M}:exx_rltensor_Ghalf_chunked", L, G, comm, mpi, tot, counts, displs)
    v.true("one gather", len(sent) == 1)
    s, r, root = sent[0]
    v.eq("own walkers", s, spec_exx(v, L, G))
    v.true("collected on rank 0", root == 0)
    if rank == 0:
        v.eq("length of the result", out.shape[0], tot)


@contract("P03", "exchange energy with a mixed-rank plan", fns=[f"{M}:exx_mixed_rank_sparsity", f"{M}:_banded_LT_dot_G", "openms.qmc.tools:build_Ltensor_plan", "openms.qmc.tools:get_blksize"],
          modes=("num",), num=25, note="bounded: up to 8 orbitals; symmetric vectors of low rank or banded (singular values)")
def _mix(v):
    import numpy as np
    n, nw = v.choose("n", (1, 2, 3, 5, 8)), v.choose("nw", (1, 2, 3))
    frac = v.choose("frac", (0.1, 0.4, 0.8))
    Ls = []
    for g in range(v.choose("ng", (1, 2, 4))):
        if v.boolean("low"):
            a = v.tensor("a", (n, v.choose("r", (1, 2)))) * 1.0
            Ls.append(a @ a.T)
        else:
            b = v.tensor("b", (n, n)) * 1.0
            b = b + b.T
            w = v.choose("bw", (0, 1, 2))
            b[np.abs(np.subtract.outer(np.arange(n), np.arange(n))) > w] = 0
            Ls.append(b + np.eye(n))
    L = np.array(Ls)
    if not all(np.abs(l).max() > 1e-100 for l in L):
        raise Reject()
    G = v.tensor("G", (nw, n, n), cplx=True)
    bw = v.call("openms.qmc.tools:get_blksize", L, 1e-14 * min(np.abs(l).max() for l in L) + 1e-300)
    plan, meta = v.call("openms.qmc.tools:build_Ltensor_plan", L, bw, max_rank_fraction=frac)
    r = v.call(f"{M}:exx_mixed_rank_sparsity", L, G, plan, meta)
    x = np.einsum("gpi,zpj->zgij", L, G)
    v.eq("exchange energy", r, 0.5 * np.einsum("zgij,zgji->z", x, x), mag=float(n * n * np.abs(x).max() ** 2 * len(L)) if x.size else 0.0, tol=1e-7)


@contract("P03", "factorised Cholesky vectors", fns=["openms.qmc.tools:stochastic_thc"], modes=("num",), num=20, note="bounded: up to 5 orbitals")
def _thc(v):
    """nested SVD reproduces every vector; stochastic vectors are the documented random combinations of the Cholesky vectors"""
    import numpy as np
    n, ng, ns = v.choose("n", (1, 2, 5)), v.choose("ng", (1, 2, 3)), v.choose("ns", (1, 4))
    L = v.tensor("L", (ng, n, n)) * 1.0
    X, U = v.call("openms.qmc.tools:stochastic_thc", L, n, method="svd")
    v.eq("svd", np.einsum("gpm,gqm->gpq", X, U), L)
    for meth in ("rademacher", "gaussian"):
        X, U = v.call("openms.qmc.tools:stochastic_thc", L, ns, method=meth, seed=3)
        v.eq("samples", X, np.einsum("gpq,gu->upq", L, U))
        if meth == "rademacher":
            v.eq("signs", U * U, np.full((ng, ns), 1.0 / ns))
    X, U = v.call("openms.qmc.tools:stochastic_thc", np.array([[[1.0]]]), 20000, method="gaussian", seed=5)
    v.eq("unbiased resolution of the identity", (U * U).sum(), 1.0, tol=0.06)
