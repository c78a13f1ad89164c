"""P02: trial/walker overlap and one-body Green's function."""
from vc.contract import contract

T = "openms.qmc.trial"
M = "openms.qmc.estimators"


@contract("P02", "GF", fns=[f"{M}:GF"])
def _gf(v):
    no = v.dim("no", hi=3)
    n = v.dim("n", hi=5, ge=(no,))
    t = v.tensor("T", (n, no), cplx=True)
    w = v.tensor("W", (n, no), cplx=True)
    G, Gh = v.call(f"{M}:GF", t, w)
    S = v.inv(v.einsum("pi,pj->ij", v.conj(t), w))        # (T^+ W)^-1
    th = v.einsum("pi,ij->pj", w, S)
    v.eq("Theta = W (T^+W)^-1", Gh, v.transpose(th, (1, 0)))
    v.eq("G = [W (T^+W)^-1 T^+]^T", G, v.einsum("qj,pj->pq", th, v.conj(t)))


@contract("P02", "GF_so", fns=[f"{M}:GF_so"])
def _gfso(v):
    na, nb = v.dim("na", hi=3), v.dim("nb", lo=1, hi=2)
    n = v.dim("n", hi=5, ge=(na, nb))
    ta, wa = v.tensor("Ta", (n, na), cplx=True), v.tensor("Wa", (n, na), cplx=True)
    if v.boolean("open"):
        tb, wb = v.tensor("Tb", (n, nb), cplx=True), v.tensor("Wb", (n, nb), cplx=True)
        G, Gh = v.call(f"{M}:GF_so", v.call("numpy:hstack", [ta, tb]), v.call("numpy:hstack", [wa, wb]), na, nb)
    else:
        tb = None
        G, Gh = v.call(f"{M}:GF_so", ta, wa, na, 0)
    tha = v.einsum("pi,ij->pj", wa, v.inv(v.einsum("pi,pj->ij", v.conj(ta), wa)))
    v.eq("alpha half GF", Gh[0], v.transpose(tha, (1, 0)))
    v.eq("alpha GF", G[0], v.einsum("qj,pj->pq", tha, v.conj(ta)))
    if tb is not None:
        thb = v.einsum("pi,ij->pj", wb, v.inv(v.einsum("pi,pj->ij", v.conj(tb), wb)))
        v.eq("beta half GF", Gh[1], v.transpose(thb, (1, 0)))
        v.eq("beta GF", G[1], v.einsum("qj,pj->pq", thb, v.conj(tb)))
    else:
        v.eq("no beta GF", G[1], v.zeros((n, n)))


for k in ("trial_walker_ovlp_base", "trial_walker_ovlp_base_numba", "trial_walker_ovlp_base_kernel"):
    @contract("P02", k, fns=[f"{T}:{k}"])
    def _ov(v, k=k):
        nw, no = v.dim("nw"), v.dim("no", hi=3)
        n = v.dim("n", hi=5, ge=(no,))
        w = v.tensor("W", (nw, n, no), cplx=True)
        t = v.tensor("T", (n, no), cplx=True)
        r = v.call(f"{T}:{k}", w, t)
        v.eq("overlap matrix = W^T T*", r, v.einsum("zpi,pj->zij", w, v.conj(t)))

for k in ("trial_walker_ovlp_gf_base", "trial_walker_ovlp_gf_base_numba", "trial_walker_ovlp_gf_base_kernel"):
    @contract("P02", k, fns=[f"{T}:{k}"])
    def _ovgf(v, k=k):
        nw, no = v.dim("nw"), v.dim("no", hi=3)
        n = v.dim("n", hi=5, ge=(no,))
        w = v.tensor("W", (nw, n, no), cplx=True)
        t = v.tensor("T", (n, no), cplx=True)
        r, gh = v.call(f"{T}:{k}", w, t)
        ov = v.einsum("zpi,pj->zij", w, v.conj(t))
        v.eq("overlap matrix = W^T T*", r, ov)
        v.eq("Theta = W (T^+W)^-1", gh, v.einsum("zpj,zij->zpi", w, v.inv(ov)))


def mk(v, boson=False, mf=False):
    """walker and trial objects with symbolic orbitals"""
    nw, na, nb = v.dim("nw"), v.dim("na", hi=3), v.dim("nb", hi=2)
    n = v.dim("n", hi=5, ge=(na, nb))
    nc = v.choose("ncomp", (1, 2))
    sh = v.tensor("logshift", (nw,))
    d = dict(psia=v.tensor("Ta", (n, na), cplx=True), ncomponents=nc, half_rotated=v.boolean("hr"), nalpha=na, nbeta=nb,
             boson_psi=None, _numdets=1, verbose=0)
    wd = dict(phiwa=v.tensor("Wa", (nw, n, na), cplx=True), logshift=sh, boson_phiw=None)
    if nc == 2:
        d["psib"] = v.tensor("Tb", (n, nb), cplx=True)
        wd["phiwb"] = v.tensor("Wb", (nw, n, nb), cplx=True)
    if boson and v.boolean("bos"):
        nf = v.dim("nf")
        d["boson_psi"] = v.tensor("Tbos", (nf,), cplx=True)
        wd["boson_phiw"] = v.tensor("Wbos", (nw, nf), cplx=True)
    return v.obj(f"{T}:TrialHF", **d), v.obj(None, **wd), d, wd


def spec_ovlp(v, d, wd):
    da = v.det(v.einsum("zpi,pj->zij", wd["phiwa"], v.conj(d["psia"])))
    db = da if d["ncomponents"] == 1 else v.det(v.einsum("zpi,pj->zij", wd["phiwb"], v.conj(d["psib"])))
    e = v.exp(-wd["logshift"])
    return da * db * (e * e if d["ncomponents"] == 1 else e)


@contract("P02", "calc_trial_walker_ovlp", fns=[f"{T}:calc_trial_walker_ovlp", f"{T}:TrialHF.ovlp_with_walkers"])
def _covlp(v):
    t, w, d, wd = mk(v)
    r = v.method(t, "ovlp_with_walkers", w)
    v.eq("overlap = det_a det_b exp(-shift)", r, spec_ovlp(v, d, wd))


@contract("P02", "calc_trial_walker_ovlp_gf", fns=[f"{T}:calc_trial_walker_ovlp_gf", f"{T}:TrialHF.ovlp_with_walkers_gf",
                                                    f"{T}:TrialHF.boson_ovlp_with_walkers"])
def _covgf(v):
    t, w, d, wd = mk(v, boson=True)
    r = v.method(t, "ovlp_with_walkers_gf", w)
    v.eq("overlap = det_a det_b exp(-shift)", r, spec_ovlp(v, d, wd))
    spins = [("a", "Ghalfa", "Ga")] + ([("b", "Ghalfb", "Gb")] if d["ncomponents"] == 2 else [])
    for s, gh, g in spins:
        W, P = wd["phiw" + s], d["psi" + s]
        th = v.einsum("zpj,zij->zpi", W, v.inv(v.einsum("zpi,pj->zij", W, v.conj(P))))
        v.eq(f"Theta_{s} = W (T^+W)^-1", v.get(w, gh), th)
        if not d["half_rotated"]:
            v.eq(f"G_{s} = [Theta T^+]^T", v.get(w, g), v.einsum("zqi,pi->zpq", th, v.conj(P)))
    if d["boson_psi"] is not None:
        ob = v.einsum("zF,F->z", wd["boson_phiw"], v.conj(d["boson_psi"]))
        v.eq("boson overlap", v.get(w, "boson_ovlp"), ob)
        v.eq("boson GF", v.einsum("zMN,z->zMN", v.get(w, "boson_Gf"), ob),
             v.einsum("zM,N->zMN", wd["boson_phiw"], v.conj(d["boson_psi"])))


@contract("P02", "calc_walker_gf", fns=[f"{T}:calc_walker_gf"])
def _cwgf(v):
    t, w, d, wd = mk(v)
    ov = [v.einsum("zpi,pj->zij", wd["phiwa"], v.conj(d["psia"]))]
    if d["ncomponents"] == 2:
        ov.append(v.einsum("zpi,pj->zij", wd["phiwb"], v.conj(d["psib"])))
    v.call(f"{T}:calc_walker_gf", w, t, ov)
    for k, s in enumerate("ab"[:d["ncomponents"]]):
        th = v.einsum("zpj,zij->zpi", wd["phiw" + s], v.inv(ov[k]))
        v.eq(f"Theta_{s}", v.get(w, "Ghalf" + s), th)
        if not d["half_rotated"]:
            v.eq(f"G_{s}", v.get(w, "G" + s), v.einsum("zqi,pi->zpq", th, v.conj(d["psi" + s])))
