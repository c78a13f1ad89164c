"""P04: one imaginary-time step applies exactly the Trotter-split Hubbard-Stratonovich propagator."""
from vc.contract import contract

M = "openms.qmc.propagators"
T = "openms.qmc.trial"


def taylor(v, op, phi, order, sub):
    """sum_{k<=order} op^k phi / k!"""
    t, s = phi, phi
    for k in range(order):
        t = v.einsum(sub, op, t) * (1.0 / (k + 1))
        s = s + t
    return s


@contract("P04", "boson_adag_plus_a", fns=[f"{M}:boson_adag_plus_a"])
def _adag(v):
    """block diagonal matrix of sum_a z_a (b_a^+ + b_a) in the concatenated Fock spaces"""
    nm = v.choose("nm", (1, 2, 3))
    z = v.tensor("z", (nm,), cplx=True)
    if v.boolean("int_spec"):
        F = v.dim("F")
        Fs = [F] * nm
        if v.sym or True:
            r = v.call(f"{M}:boson_adag_plus_a", nm, [F] * nm, z)
    else:
        Fs = [v.dim(f"F{m}") for m in range(nm)]
        r = v.call(f"{M}:boson_adag_plus_a", nm, list(Fs), z)
    off = 0
    for m in range(nm):
        off2 = 0
        for k in range(nm):
            blk = v.comp((Fs[m], Fs[k]), lambda p, q: z[m] * (v.sqrt(1.0 * q) * v.ieq(p + 1, q) + v.sqrt(1.0 * p) * v.ieq(q + 1, p))
                         if k == m else 0.0 * z[m])
            v.eq(f"block {m},{k}", r[off:off + Fs[m], off2:off2 + Fs[k]], blk)
            off2 = off2 + Fs[k]
        off = off + Fs[m]
    v.eq("size", r.shape[0], off)


for fn in ("propagate_onebody", "propagate_onebody_numba", "propagate_onebody_kernel"):
    @contract("P04", fn, fns=[f"{M}:{fn}"])
    def _onebody(v, fn=fn):
        nw, n, no = v.dim("nw"), v.dim("n"), v.dim("no", hi=3)
        op = v.tensor("B", (n, n), cplx=True)
        phi = v.tensor("phi", (nw, n, no), cplx=True)
        v.modifies("phi")
        spec = v.einsum("pq,zqi->zpi", op, v.copy(phi))
        r = v.call(f"{M}:{fn}", op, phi)
        v.eq("B phi", r, spec)


for fn in ("propagate_exp_op", "propagate_exp_op_numba", "propagate_HS_kernel"):
    @contract("P04", fn, fns=[f"{M}:{fn}"], note="Taylor orders 0..6 enumerated, all dimensions")
    def _exp(v, fn=fn):
        nw, n, no = v.dim("nw"), v.dim("n"), v.dim("no", hi=3)
        order = v.choose("order", (0, 1, 2, 3, 4, 6))
        op = v.tensor("A", (nw, n, n), cplx=True, scale=0.3)
        phi = v.tensor("phi", (nw, n, no), cplx=True)
        v.modifies("phi")
        spec = taylor(v, op, v.copy(phi), order, "zpq,zqi->zpi")
        r = v.call(f"{M}:{fn}", phi, op, order)
        v.eq("truncated exponential", r, spec)
        v.eq("updated in place", phi, spec)


@contract("P04", "compute_GF_base", fns=[f"{M}:compute_GF_base"])
def _gf(v):
    nw, n, no = v.dim("nw"), v.dim("n"), v.dim("no", hi=3)
    Gh = v.tensor("Gh", (nw, n, no), cplx=True)
    psi = v.tensor("psi", (n, no), cplx=True)
    v.eq("G", v.call(f"{M}:compute_GF_base", Gh, psi), v.einsum("pi,zqi->zpq", psi, Gh))


for fn in ("tensor_dot_numba", "build_HS", "build_HS_numba"):
    @contract("P04", fn, fns=[f"{M}:{fn}"])
    def _hs(v, fn=fn):
        nw, ng, n = v.dim("nw"), v.dim("ng"), v.dim("n")
        x = v.tensor("x", (nw, ng), cplx=True)
        L = v.tensor("L", (ng, n, n), cplx=True)
        f = v.scalar("f", cplx=True)
        v.eq("x.L", v.call(f"{M}:{fn}", x, L, f), f * v.einsum("zn,npq->zpq", x, L))


def prop(v, cls="Phaseless", **kw):
    d = dict(dt=v.scalar("dt", pos=True, lo=0.002, hi=0.05), verbose=0, stdout=None, energy_scheme="hybrid", taylor_order=2,
             bias_bound=1.0, num_fake_fields=0, time=0.0, nbarefields=0, nfbound=0, debug_mpi=False, vbias=None,
             ebound=5.0, TL_tensor=None, exp_h1e=None, nfields=None, nBfields=None, mf_shift=None)
    for t in ("onebody", "buildh1e", "twobody", "fbias", "fbias_rescale", "random", "hs", "chs", "phs", "ovlp", "weight", "bilinear", "boson"):
        d["wt_" + t] = 0.0
    d.update(kw)
    return v.obj(f"{M}:{cls}", **d), d


@contract("P04", "PropagatorBase.build", fns=[f"{M}:PropagatorBase.build"])
def _build(v):
    """mean-field shift, shifted one-body operator and its half-step exponential"""
    n, no, ng = v.dim("n"), v.dim("no", hi=3), v.dim("ng", lo=2)
    nc = v.choose("nc", (1, 2))
    psi = v.tensor("psi", (n, no), cplx=True, scale=0.5)
    h = v.tensor("h", (nc, n, n), scale=0.5)
    L = v.tensor("L", (ng, n, n), cplx=v.boolean("cplxL"), scale=0.5)
    bare = v.boolean("bare")
    p, d = prop(v, nbarefields=(ng - 1) if bare else 0)
    tr = v.obj(None, psi=psi, ncomponents=nc, verbose=0)
    v.method(p, "build", h, L, tr)
    dt = d["dt"]
    rho = v.einsum("pi,qi->pq", psi, v.conj(psi)) * (2.0 / nc)
    mean = v.einsum("npq,pq->n", L, rho)
    v.eq("mean-field shift", v.get(p, "mf_shift"), 1j * mean)
    Lb = L[:ng - 1] if bare else L
    t1 = v.einsum("spq->spq", h) - 0.5 * v.einsum("npr,nrq->pq", v.conj(Lb), Lb) + v.einsum("n,npq->pq", mean, L)
    v.eq("shifted one-body operator", v.get(p, "shifted_h1e"), t1)
    v.eq("half-step propagator", v.get(p, "exp_h1e"), v.expm(-0.5 * dt * t1))
    v.eq("number of fields", v.get(p, "nfields"), ng)
    v.eq("rotated fields", v.get(p, "TL_tensor"), v.einsum("pr,npq->nrq", v.conj(psi), L))


@contract("P04", "get_vbias", fns=[f"{T}:TrialHF.get_vbias", f"{T}:TrialHF.half_rotate_integrals"])
def _vb(v):
    """force bias = <L> with the full (spin-summed) Green's function"""
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    d = dict(psia=v.tensor("Ta", (n, na), cplx=True), ncomponents=nc, nalpha=na, nbeta=nb, _numdets=1, verbose=0,
             half_rotated=False, stdout=None, mol=v.obj(None, verbose=0))
    wd = dict(Ghalfa=v.tensor("Gha", (nw, n, na), cplx=True))
    if nc == 2:
        d["psib"] = v.tensor("Tb", (n, nb), cplx=True)
        wd["Ghalfb"] = v.tensor("Ghb", (nw, n, nb), cplx=True)
    h = v.tensor("h", (nc, n, n))
    L = v.tensor("L", (ng, n, n), sym="last2")
    t = v.obj(f"{T}:TrialHF", **d)
    w = v.obj(None, **wd)
    v.method(t, "half_rotate_integrals", h, L)
    r = v.method(t, "get_vbias", w, L)
    Ga = v.einsum("zqi,pi->zpq", wd["Ghalfa"], v.conj(d["psia"]))
    Gb = Ga if nc == 1 else v.einsum("zqi,pi->zpq", wd["Ghalfb"], v.conj(d["psib"]))
    v.eq("force bias", r, v.einsum("npq,zpq->zn", L, Ga + Gb))


@contract("P04", "multiCI.get_vbias", fns=[f"{T}:multiCI.get_vbias"])
def _vbm(v):
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=2), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    d = dict(ncomponents=nc, rltensora=v.tensor("ra", (ng, n, na), cplx=True), rltensorb=v.tensor("rb", (ng, n, nb), cplx=True))
    wd = dict(Ghalfa=v.tensor("Gha", (nw, n, na), cplx=True), Ghalfb=v.tensor("Ghb", (nw, n, nb), cplx=True))
    r = v.method(v.obj(f"{T}:multiCI", **d), "get_vbias", v.obj(None, **wd), None)
    s = (2.0 / nc) * v.einsum("nqi,zqi->zn", d["rltensora"], wd["Ghalfa"])
    if nc == 2:
        s = s + v.einsum("nqi,zqi->zn", d["rltensorb"], wd["Ghalfb"])
    v.eq("force bias", r, s)


@contract("P04", "get_boson_vbias", fns=[f"{T}:TrialHF.get_boson_vbias"])
def _bvb(v):
    nw, F, nx = v.dim("nw", hi=3), v.dim("F"), v.dim("nx", hi=3)
    C = v.tensor("C", (nx, F, F), cplx=True)
    G = v.tensor("Gb", (nw, F, F), cplx=True)
    r = v.method(v.obj(f"{T}:TrialHF"), "get_boson_vbias", v.obj(None, boson_Gf=G), C)
    v.eq("boson force bias", r, v.einsum("nMN,zMN->zn", C, G))


def capped(v, x, bound):
    """x if |x| <= bound else bound*x/|x|"""
    if v.sym:
        return v.comp(x.shape, lambda z, n: v.ite(v.abs(x[z, n]) > bound, bound * x[z, n] / v.abs(x[z, n]), x[z, n]))
    import numpy as np
    a = np.abs(x)
    return np.where(a > bound, bound * x / np.where(a > 0, a, 1.0), x)


@contract("P04", "rescale_fbias", fns=[f"{M}:Phaseless.rescale_fbias"])
def _resc(v):
    """the force bias keeps its phase and its modulus is capped at the bound"""
    nw, ng = v.dim("nw"), v.dim("ng")
    x = v.tensor("x", (nw, ng), cplx=True)
    b = v.choose("bound", (1.0, 0.5, 2.0))
    p, d = prop(v, bias_bound=b)
    r = v.method(p, "rescale_fbias", x)
    v.eq("capped force bias", r, capped(v, x, b))


@contract("P04", "Phaseless.propagate_walkers_onebody", fns=[f"{M}:Phaseless.propagate_walkers_onebody"])
def _p1(v):
    nw, n, na, nb = v.dim("nw", hi=3), v.dim("n"), v.dim("na", hi=3), v.dim("nb", hi=3)
    nc = v.choose("nc", (1, 2))
    B = v.tensor("B", (nc, n, n), cplx=True)
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    a0, b0 = v.copy(a), v.copy(b)
    v.modifies("phia", "phib")
    p, d = prop(v, exp_h1e=B)
    w = v.obj(None, phiwa=a, phiwb=b, ncomponents=nc, nwalkers=nw)
    v.method(p, "propagate_walkers_onebody", w)
    v.eq("alpha", v.get(w, "phiwa"), v.einsum("pq,zqi->zpi", B[0], a0))
    v.eq("beta", v.get(w, "phiwb"), v.einsum("pq,zqi->zpi", B[1], b0) if nc == 2 else b0)


def twobody_spec(v, d, xi, vb, mf, L, a0, b0, nc, order):
    dt = d["dt"]
    xbar = capped(v, -1.0 * v.sqrt(dt) * (1j * vb - mf), d["bias_bound"])
    xs = xi - xbar
    cfb = v.einsum("zn,zn->z", xi, xbar) - 0.5 * v.einsum("zn,zn->z", xbar, xbar)
    cmf = -1.0 * v.sqrt(dt) * v.einsum("zn,n->z", xs, mf)
    A = 1j * v.sqrt(dt) * v.einsum("zn,npq->zpq", xs, L)
    return cfb, cmf, taylor(v, A, a0, order, "zpq,zqi->zpi"), taylor(v, A, b0, order, "zpq,zqi->zpi") if nc == 2 else b0


@contract("P04", "Phaseless.propagate_HS", fns=[f"{M}:Phaseless.propagate_HS"])
def _phs(v):
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    order = v.choose("order", (1, 2))
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    L = v.tensor("L", (ng, n, n))
    xs = v.tensor("xs", (nw, ng), cplx=True)
    a0, b0 = v.copy(a), v.copy(b)
    v.modifies("phia", "phib")
    p, d = prop(v, taylor_order=order)
    w = v.obj(None, phiwa=a, phiwb=b, ncomponents=nc, nwalkers=nw)
    v.method(p, "propagate_HS", w, L, xs)
    A = 1j * v.sqrt(d["dt"]) * v.einsum("zn,npq->zpq", xs, L)
    v.eq("alpha", v.get(w, "phiwa"), taylor(v, A, a0, order, "zpq,zqi->zpi"))
    v.eq("beta", v.get(w, "phiwb"), taylor(v, A, b0, order, "zpq,zqi->zpi") if nc == 2 else b0)


@contract("P04", "Phaseless.propagate_walkers_twobody", fns=[f"{M}:Phaseless.propagate_walkers_twobody"])
def _p2(v):
    """shifted auxiliary fields, weight factors and walker update for every draw of the fields"""
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3), v.dim("ng", hi=3, lo=2)
    nc = v.choose("nc", (1, 2))
    fake = v.boolean("fake")
    nf = v.dim("nf", hi=2) if fake else 0
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    L = v.tensor("L", (ng, n, n))
    mf = v.tensor("mf", (ng,), cplx=True)
    vb = v.tensor("vb", (nw, ng), cplx=True, scale=4.0)
    a0, b0 = v.copy(a), v.copy(b)
    v.modifies("phia", "phib")
    xi = v.tensor("xi", (nw, ng + nf))
    v.random(normal=xi)
    order = 1
    p, d = prop(v, taylor_order=order, nfields=ng, mf_shift=mf, num_fake_fields=nf, nbarefields=ng - 1)
    w = v.obj(None, phiwa=a, phiwb=b, ncomponents=nc, nwalkers=nw)
    tr = v.obj(None, get_vbias=v.stub(lambda *q: v.copy(vb)))
    cfb, cmf = v.method(p, "propagate_walkers_twobody", tr, w, L)
    x = xi[:, :ng]
    sf, sm, sa, sb = twobody_spec(v, d, x, vb, mf, L, a0, b0, nc, order)
    v.eq("force-bias factor", cfb, sf)
    v.eq("mean-field factor", cmf, sm)
    v.eq("alpha", v.get(w, "phiwa"), sa)
    v.eq("beta", v.get(w, "phiwb"), sb)
    v.eq("fields kept for the bosons", v.get(p, "xi_bilinear"), xi[:, ng - 1:ng])


def step_objs(v, cls, nc, n, nw, na, nb, rec, **kw):
    """propagator whose sub-steps obey their contracts (one-body: B, two-body: C, factors cfb/cmf) and a recording trial"""
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    v.modifies("phia", "phib", "wt")
    B, C = v.tensor("B", (n, n), cplx=True), v.tensor("C", (nw, n, n), cplx=True)
    t = dict(cfb=v.tensor("cfb", (nw,), cplx=True), cmf=v.tensor("cmf", (nw,), cplx=True), o1=v.tensor("o1", (nw,), cplx=True),
             o2=v.tensor("o2", (nw,), cplx=True), wt=v.tensor("wt", (nw,), pos=True), B=B, C=C, a0=v.copy(a), b0=v.copy(b))
    w = v.obj(None, phiwa=a, phiwb=b, ncomponents=nc, nwalkers=nw, weights=t["wt"], **kw.pop("walker", {}))

    def upd(X, sub):
        v.set(w, "phiwa", v.einsum(sub, X, v.get(w, "phiwa")))
        if nc == 2:
            v.set(w, "phiwb", v.einsum(sub, X, v.get(w, "phiwb")))

    def one(ww):
        rec.append("1")
        upd(B, "pq,zqi->zpi")

    def two(tr, ww, L):
        rec.append("2")
        t["L"] = v.copy(L)
        upd(C, "zpq,zqi->zpi")
        return v.copy(t["cfb"]), v.copy(t["cmf"])

    def seen(k, val):
        def f(ww):
            rec.append(k)
            t[k + "a"], t[k + "b"] = v.copy(v.get(w, "phiwa")), v.copy(v.get(w, "phiwb"))
            return v.copy(val)
        return f

    def uw(ww, ovlp, newovlp, cfb, cmf, eshift=0.0):
        rec.append("w")
        t["uw"] = (v.copy(ovlp), v.copy(newovlp), v.copy(cfb), v.copy(cmf), eshift)
    p, d = prop(v, cls, propagate_walkers_onebody=v.stub(one), propagate_walkers_twobody=v.stub(two), update_weight=v.stub(uw), **kw)
    tr = dict(ovlp_with_walkers_gf=v.stub(seen("g", t["o1"])), ovlp_with_walkers=v.stub(seen("o", t["o2"])))
    return p, d, w, tr, t


@contract("P04", "Phaseless.propagate_walkers", fns=[f"{M}:Phaseless.propagate_walkers"])
def _pw(v):
    """one step: overlap of the old walker, B/2, two-body, B/2, overlap of the new walker, weight update with those data"""
    nw, n, na, nb, ng = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    rec = []
    p, d, w, tr, t = step_objs(v, "Phaseless", nc, n, nw, na, nb, rec)
    L = v.tensor("L", (ng, n, n))
    es = v.scalar("eshift")
    v.method(p, "propagate_walkers", v.obj(None, **tr), w, L, es)
    BCB = v.einsum("pq,zqr,rs->zps", t["B"], t["C"], t["B"])
    fa = v.einsum("zpq,zqi->zpi", BCB, t["a0"])
    fb = v.einsum("zpq,zqi->zpi", BCB, t["b0"]) if nc == 2 else t["b0"]
    v.eq("new walker alpha", v.get(w, "phiwa"), fa)
    v.eq("new walker beta", v.get(w, "phiwb"), fb)
    v.eq("old overlap of old alpha", t["ga"], t["a0"])
    v.eq("old overlap of old beta", t["gb"], t["b0"])
    v.eq("new overlap of new alpha", t["oa"], fa)
    v.eq("new overlap of new beta", t["ob"], fb)
    v.eq("all fields used", t["L"], L)
    v.eq("weight update data", list(t["uw"]), [t["o1"], t["o2"], t["cfb"], t["cmf"], es])


@contract("P04", "ElecBoson.propagate_walkers", fns=[f"{M}:PhaselessElecBoson.propagate_walkers"])
def _pweb(v):
    """electron-boson step: symmetric split of the free-boson part, overlaps are products, factors are sums"""
    nw, n, na, nb, ng, F = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3), v.dim("ng", hi=3), v.dim("F", hi=3)
    nc = v.choose("nc", (1, 2))
    off, dec = v.boolean("off"), v.boolean("dec")
    rec, rb = [], []
    ph = v.tensor("bphi", (nw, F), cplx=True)
    ph0 = v.copy(ph)
    v.modifies("bphi")
    X = v.tensor("X", (F, F), cplx=True)
    Y = v.tensor("Y", (nw, F, F), cplx=True)
    bo = [v.tensor("bo1", (nw,), cplx=True), v.tensor("bo2", (nw,), cplx=True)]
    c2, m2 = v.tensor("cfb2", (nw,), cplx=True), v.tensor("cmf2", (nw,), cplx=True)
    holder = {}

    def bos(tr, ww, dt):
        rec.append("b")
        rb.append(dt)
        v.set(holder["w"], "boson_phiw", v.einsum("mn,zn->zm", X, v.get(holder["w"], "boson_phiw")))

    def bil(tr, ww, dt):
        rec.append("B")
        rb.append(dt)
        v.set(holder["w"], "boson_phiw", v.einsum("zmn,zn->zm", Y, v.get(holder["w"], "boson_phiw")))
        return v.copy(c2), v.copy(m2)

    def bov(ww):
        rec.append("v")
        holder.setdefault("seen", []).append(v.copy(v.get(holder["w"], "boson_phiw")))
        return v.copy(bo[len(holder["seen"]) - 1])
    gf = v.stub(lambda tr, ww: rec.append("G"))
    p, d, w, tr, t = step_objs(v, "PhaselessElecBoson", nc, n, nw, na, nb, rec, walker=dict(boson_phiw=ph), turnoff_bosons=off,
                               decouple_bilinear=dec, propagate_bosons=v.stub(bos), propagate_bosons_bilinear=v.stub(bil), update_GF=gf)
    holder["w"] = w
    tr["boson_ovlp_with_walkers"] = v.stub(bov)
    L = v.tensor("L", (ng, n, n))
    es = v.scalar("eshift")
    v.method(p, "propagate_walkers", v.obj(None, **tr), w, L, es)
    BCB = v.einsum("pq,zqr,rs->zps", t["B"], t["C"], t["B"])
    fa = v.einsum("zpq,zqi->zpi", BCB, t["a0"])
    v.eq("new walker alpha", v.get(w, "phiwa"), fa)
    v.eq("new walker beta", v.get(w, "phiwb"), v.einsum("zpq,zqi->zpi", BCB, t["b0"]) if nc == 2 else t["b0"])
    v.eq("old overlap of old alpha", t["ga"], t["a0"])
    v.eq("new overlap of new alpha", t["oa"], fa)
    v.true("Green's function refreshed before it is used", dec or (rec.count("G") == 1 and rec.index("g") < rec.index("G") < rec.index("1")))
    if off:
        v.eq("boson walker untouched", v.get(w, "boson_phiw"), ph0)
        v.eq("weight update data", list(t["uw"]), [t["o1"], t["o2"], t["cfb"], t["cmf"], es])
    else:
        fb = v.einsum("mn,zno,op,zp->zm", X, Y, X, ph0)
        v.eq("new boson walker", v.get(w, "boson_phiw"), fb)
        v.eq("old boson overlap", holder["seen"][0], ph0)
        v.eq("new boson overlap", holder["seen"][1], fb)
        v.eq("time steps of the boson parts", v.arr(rb), v.arr([0.5 * d["dt"], d["dt"], 0.5 * d["dt"]]))
        v.eq("weight update data", list(t["uw"]), [t["o1"] * bo[0], t["o2"] * bo[1], t["cfb"] + c2, t["cmf"] + m2, es])


def eb_system(v, nm, F):
    return v.obj(None, nmodes=nm, nboson_states=[F] * nm, boson_freq=v.tensor("om", (nm,), pos=True))


@contract("P04", "ElecBoson.build", fns=[f"{M}:PhaselessElecBoson.build", f"{M}:PropagatorBase.build"])
def _ebb(v):
    """free boson Hamiltonian; with a decoupled bilinear term also the bosonic fields, their mean-field shift and shifted Hamiltonian"""
    n, no, F = v.dim("n", hi=3), v.dim("no", hi=2), v.dim("F")
    dec = v.boolean("dec")
    nm = 1 if dec else v.choose("nm", (1, 2))
    nx = v.dim("nx", hi=3) if dec else 1
    nb = v.dim("nbf", hi=3)
    psi = v.tensor("psi", (n, no), cplx=True, scale=0.5)
    bpsi = v.tensor("bpsi", (F,), cplx=True)
    h, L = v.tensor("h", (1, n, n), scale=0.5), v.tensor("L", (nb + nx, n, n), scale=0.5)
    g = v.tensor("geb", (nm, n, n))
    sy = eb_system(v, nm, F)
    Fs, o = [F] * nm, [m * F for m in range(nm + 1)]
    if not dec and v.boolean("unequal truncations"):
        Fs = [v.dim(f"F{m}") for m in range(nm)]
        o = [sum(Fs[:m]) if m else 0 for m in range(nm + 1)]
        v.set(sy, "nboson_states", list(Fs))
        bpsi = v.tensor("bpsi2", (o[nm],), cplx=True)
    cb = v.tensor("cb", (nx,), cplx=True)
    off = v.boolean("off")
    p, d = prop(v, "PhaselessElecBoson", system=sy, decouple_bilinear=dec, turnoff_bosons=off, nbarefields=nb,
                chol_bilinear=[None, cb], boson_quantization="second")
    tr = v.obj(None, psi=psi, ncomponents=1, verbose=0, boson_psi=bpsi)
    v.method(p, "build", h, L, tr, g)
    om = v.get(sy, "boson_freq")
    Hb = v.get(p, "Hb")
    for m in range(nm):
        for k in range(nm):
            v.eq(f"free boson block {m},{k}", Hb[o[m]:o[m + 1], o[k]:o[k + 1]],
                 v.comp((Fs[m], Fs[k]), lambda i, j: om[m] * i * v.ieq(i, j) if m == k else 0.0 * om[m]))
    v.eq("coupling kept", v.get(p, "geb"), g)
    rho = 2.0 * v.einsum("pi,qi->pq", psi, v.conj(psi))
    mean = v.einsum("npq,pq->n", L, rho)
    v.eq("electronic mean-field shift", v.get(p, "mf_shift"), 1j * mean)
    v.eq("shifted one-body operator", v.get(p, "shifted_h1e"),
         h - 0.5 * v.einsum("npr,nrq->pq", L[:nb], L[:nb]) + v.einsum("n,npq->pq", mean, L))
    if dec:
        Q = v.comp((F, F), lambda i, j: v.sqrt(1.0 * j) * v.ieq(i + 1, j) + v.sqrt(1.0 * i) * v.ieq(j + 1, i))
        CB = v.einsum("x,nm->xnm", cb, Q)
        v.eq("bosonic fields", v.get(p, "chol_B"), CB)
        if not off:
            rb = v.einsum("m,n->mn", bpsi, v.conj(bpsi))
            mb = v.einsum("xpq,pq->x", CB, rb)
            v.eq("bosonic mean-field shift", v.get(p, "boson_mfshift"), 1j * mb)
            v.eq("shifted boson Hamiltonian", v.get(p, "shifted_Hb"), Hb + v.einsum("x,xpq->pq", mb, CB))
        else:
            v.eq("unshifted boson Hamiltonian", v.get(p, "shifted_Hb"), Hb)


@contract("P04", "ElecBoson.propagate_walkers_onebody", fns=[f"{M}:PhaselessElecBoson.propagate_walkers_onebody"])
def _ebo(v):
    """without decoupling, the one-body operator carries g.<b+b^+>"""
    nw, n, na, nb = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3)
    nc, nm = v.choose("nc", (1, 2)), v.choose("nm", (1, 2))
    dec, off = v.boolean("dec"), v.boolean("off")
    h = v.tensor("sh", (nc, n, n), cplx=True, scale=0.5)
    B = v.tensor("B", (nc, n, n), cplx=True)
    g = v.tensor("geb", (nm, n, n), scale=0.5)
    Q = v.tensor("Q", (nm,), cplx=True)
    a, b = v.tensor("phia", (nw, n, na), cplx=True), v.tensor("phib", (nw, n, nb), cplx=True)
    a0, b0 = v.copy(a), v.copy(b)
    v.modifies("phia", "phib")
    p, d = prop(v, "PhaselessElecBoson", exp_h1e=B, shifted_h1e=h, geb=g, decouple_bilinear=dec, turnoff_bosons=off)
    w = v.obj(None, phiwa=a, phiwb=b, ncomponents=nc, nwalkers=nw, Qalpha=Q)
    v.method(p, "propagate_walkers_onebody", w)
    if off:
        X = B
    else:
        X = v.expm(-0.5 * d["dt"] * (h if dec else h + v.einsum("x,xpq->pq", Q, g)))
    v.eq("alpha", v.get(w, "phiwa"), v.einsum("pq,zqi->zpi", X[0], a0))
    v.eq("beta", v.get(w, "phiwb"), v.einsum("pq,zqi->zpi", X[1], b0) if nc == 2 else b0)
    v.eq("shifted operator kept", v.get(p, "shifted_h1e"), h)


@contract("P04", "ElecBoson.propagate_bosons", fns=[f"{M}:PhaselessElecBoson.propagate_bosons", f"{M}:PhaselessElecBoson.propagate_bosons_2nd"])
def _ebf(v):
    nw, F = v.dim("nw", hi=3), v.dim("F")
    dec = v.boolean("dec")
    H, Hs = v.tensor("Hb", (F, F), cplx=True, scale=0.5), v.tensor("Hs", (F, F), cplx=True, scale=0.5)
    ph = v.tensor("bphi", (nw, F), cplx=True)
    ph0 = v.copy(ph)
    v.modifies("bphi")
    dt = v.scalar("tau", pos=True, lo=0.001, hi=0.1)
    p, d = prop(v, "PhaselessElecBoson", Hb=H, shifted_Hb=Hs, decouple_bilinear=dec, boson_quantization="second")
    w = v.obj(None, boson_phiw=ph, nwalkers=nw)
    v.method(p, "propagate_bosons", None, w, dt)
    v.eq("free boson propagation", v.get(w, "boson_phiw"), v.einsum("mn,zn->zm", v.expm(-1.0 * dt * (Hs if dec else H)), ph0))


@contract("P04", "ElecBoson.propagate_bosons_bilinear", fns=[f"{M}:PhaselessElecBoson.propagate_bosons_bilinear"])
def _ebbl(v):
    """bilinear boson step: decoupled = field-driven exponential with bosonic force bias, coupled = exp(-tau z(b+b^+))"""
    nw, n, F = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("F", hi=3)
    dec = v.boolean("dec")
    nx = v.dim("nx", hi=3) if dec else 1
    nm = 1
    order = 2
    ph = v.tensor("bphi", (nw, F), cplx=True)
    ph0 = v.copy(ph)
    v.modifies("bphi")
    dt = v.scalar("tau", pos=True, lo=0.001, hi=0.1)
    C = v.tensor("CB", (nx, F, F), cplx=True)
    G = v.tensor("Gb", (nw, F, F), cplx=True)
    xi = v.tensor("xi", (nw, nx))
    mf = v.tensor("bmf", (nx,), cplx=True)
    g = v.tensor("geb", (nm, n, n), scale=0.5)
    rho = v.tensor("rho", (n, n), cplx=True, scale=0.5)
    Ga = v.tensor("Ga", (nw, n, n), cplx=True)
    sy = eb_system(v, nm, F)
    p, d = prop(v, "PhaselessElecBoson", system=sy, chol_B=C, xi_bilinear=xi, boson_mfshift=mf, geb=g, taylor_order=order,
                decouple_bilinear=dec, e_local_boson=0.0)
    w = v.obj(None, boson_phiw=ph, nwalkers=nw, boson_Gf=G, rho=rho, Ga=Ga, ncomponents=1)
    tr = v.obj(f"{T}:TrialHF")
    cfb, cmf = v.method(p, "propagate_bosons_bilinear", tr, w, dt)
    if dec:
        vb = v.einsum("nMN,zMN->zn", C, G)
        xbar = capped(v, -1.0 * v.sqrt(dt) * (1j * vb - mf), 1.0)
        xs = xi - xbar
        A = 1j * v.sqrt(dt) * v.einsum("zn,nNM->zNM", xs, C)
        v.eq("boson walker", v.get(w, "boson_phiw"), taylor(v, A, ph0, order, "zNM,zM->zN"))
        v.eq("force-bias factor", cfb, v.einsum("zn,zn->z", xi, xbar) - 0.5 * v.einsum("zn,zn->z", xbar, xbar))
        v.eq("mean-field factor", cmf, -1.0 * v.sqrt(dt) * v.einsum("zn,n->z", xs, mf))
    else:
        z = v.einsum("pq,xpq->x", rho, g)
        Q = v.comp((F, F), lambda i, j: z[0] * (v.sqrt(1.0 * j) * v.ieq(i + 1, j) + v.sqrt(1.0 * i) * v.ieq(j + 1, i)))
        v.eq("boson walker", v.get(w, "boson_phiw"), v.einsum("NM,zM->zN", v.expm(-1.0 * dt * Q), ph0))
        v.eq("no factors", [cfb, cmf], [v.zeros((nw,)), v.zeros((nw,))])


@contract("P04", "ElecBoson.update_GF", fns=[f"{M}:PhaselessElecBoson.update_GF"])
def _ugf(v):
    """spin-summed Green's function, weight-averaged density matrix and boson displacement"""
    nw, n, na, nb, F = v.dim("nw", hi=3), v.dim("n", hi=3), v.dim("na", hi=3), v.dim("nb", hi=3), v.dim("F", hi=3)
    nc = v.choose("nc", (1, 2))
    wt = v.tensor("wt", (nw,), pos=True)
    d = dict(Ghalfa=v.tensor("Gha", (nw, n, na), cplx=True), Ghalfb=v.tensor("Ghb", (nw, n, nb), cplx=True), weights=wt, ncomponents=nc,
             nwalkers=nw, boson_phiw=v.tensor("bphi", (nw, F), cplx=True), verbose=0)
    tr = v.obj(None, psia=v.tensor("Ta", (n, na), cplx=True), psib=v.tensor("Tb", (n, nb), cplx=True), mol=v.obj(None, nboson_states=[F], nmodes=1))
    w = v.obj("openms.qmc.generic_walkers:Walkers_so", **d)
    p, _ = prop(v, "PhaselessElecBoson", decouple_bilinear=False)
    v.method(p, "update_GF", tr, w)
    Ga = v.einsum("zqi,pi->zpq", d["Ghalfa"], v.conj(v.get(tr, "psia")))
    Gb = Ga if nc == 1 else v.einsum("zqi,pi->zpq", d["Ghalfb"], v.conj(v.get(tr, "psib")))
    v.eq("Ga", v.get(w, "Ga"), Ga)
    if nc == 2:
        v.eq("Gb", v.get(w, "Gb"), Gb)
    v.eq("Gf", v.get(w, "Gf"), Ga + Gb)
    W = v.asum(wt)
    v.eq("rho", v.get(w, "rho"), v.einsum("z,zpq->pq", wt, Ga + Gb) / W)
    bp = d["boson_phiw"]
    Q = v.sum(F, lambda k: v.einsum("z,z,z->", wt, v.conj(bp[:, k]), bp[:, k]) * 0.0)
    v.eq("displacement", v.get(w, "Qalpha")[0],
         v.sum(nw, lambda z: wt[z] * v.sum(F - 1, lambda k: v.sqrt(k + 1.0) * (bp[z, k] * v.conj(bp[z, k + 1]) + bp[z, k + 1] * v.conj(bp[z, k])))) / W)


@contract("P04", "PhaselessBoson.build", fns=[f"{M}:PhaselessBoson.build"])
def _pbb(v):
    n, no, ng = v.dim("n"), v.dim("no", hi=2), v.dim("ng", hi=3)
    psi = v.tensor("psi", (n, no), cplx=True, scale=0.5)
    h = v.tensor("h", (n, n), scale=0.5)
    L = v.tensor("L", (ng, n, n), cplx=True, scale=0.5)
    p, d = prop(v, "PhaselessBoson")
    v.method(p, "build", h, L, v.obj(None, psi=psi))
    mean = v.einsum("npq,pi,qi->n", L, psi, v.conj(psi))
    v.eq("mean-field shift", v.get(p, "bmf_shift"), 1j * mean)
    t1 = h - 0.5 * v.einsum("nil,njj->il", v.conj(L), L) + v.einsum("n,npq->pq", mean, L)
    v.eq("half-step propagator", v.get(p, "exp_h1b"), v.expm(-0.5 * d["dt"] * t1))
