"""P08: QED-HF mean field is the Pauli-Fierz mean field: couplings, dipole self energy, Fock matrix and energy."""
from vc.contract import contract, Violation, Reject

B = "openms.lib.boson"
H = "openms.mqed.qedhf"


def photon(v, n, nm, Fs=None, cb=True, use_cs=True, add_dse=True, **kw):
    """Photon object in a mean-field object with symbolic dipole couplings"""
    g = v.tensor("g", (nm, n, n), sym="last2")
    q = v.tensor("q", (nm, n, n), sym="last2")
    S = v.tensor("S", (n, n), sym="ij")
    d = dict(gmat=g, q_lambda_ao=q, nmodes=nm, nao=n, use_cs=use_cs, complete_basis=cb, add_dse=add_dse, e_boson=0.0, verbose=0,
             stdout=None, omega=v.tensor("om", (nm,), pos=True), couplings_res=v.comp((nm,), lambda a: 1.0),
             couplings_var=v.zeros((nm,)), nboson_states=[1] * nm if Fs is None else Fs, z_alpha=v.zeros((nm,)))
    N = sum(d["nboson_states"])
    d["boson_coeff"] = v.tensor("bc", (N, N))
    d.update(kw)
    d["S"] = S
    mf = v.obj(None, get_ovlp=v.stub(lambda mol=None: S))
    d["_mf"] = mf
    return v.obj(f"{B}:Photon", **{k: x for k, x in d.items() if k != "S"}), d


def disp(v, d, m):
    """<b^+ + b> of mode m in the photon state (first column of boson_coeff)"""
    o = sum(d["nboson_states"][:m]) if m else 0
    c = d["boson_coeff"]
    return v.sum(d["nboson_states"][m] - 1, lambda k: 2.0 * v.sqrt(k + 1) * c[o + k, 0] * c[o + k + 1, 0])


def setup_oei(v, residue):
    n, nm = v.dim("n"), v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{a}") for a in range(nm)]
    use_cs, dse = v.boolean("cs"), v.boolean("dse")
    kw = dict(z_alpha=v.tensor("z0", (nm,)), e_boson=v.scalar("eb"))
    if residue:
        f = v.tensor("f", (nm,))
        kw.update(couplings_var=f, couplings_res=1.0 - f)
    ne = v.scalar("ne", pos=True)
    p, d = photon(v, n, nm, Fs, use_cs=use_cs, add_dse=dse, _mol=v.obj(None, nelectron=ne), **kw)
    dm = v.tensor("dm", (n, n), sym="ij")
    z = v.einsum("pq,Xpq->X", dm, d["gmat"]) if use_cs else d["z_alpha"]
    if not residue:
        gv, dg = v.comp((nm,), lambda a: 1.0), None
    else:
        gv = (1.0 - f) * (1.0 - f) if dse else f * (f - 2.0)
        dg = -2.0 * (1.0 - f)
    return n, nm, p, d, dm, z, gv, dg, ne, dse


def oei_spec(v, n, nm, d, z, gv, ne, dse, S, res):
    r = -1.0 * v.einsum("Xpq,X->pq", d["gmat"], gv * z) + 0.5 * v.einsum("X,X,X->", z, z, gv) * S / ne
    if dse:
        r = r - 0.5 * v.einsum("X,Xpq->pq", gv, d["q_lambda_ao"])
    for a in range(nm):
        if res is not None:
            r = r + res[a] * v.sqrt(0.5 * d["omega"][a]) * disp(v, d, a) * (d["gmat"][a] - z[a] * S)
    return r


@contract("P08", "add_oei_ao", fns=[f"{B}:Photon.add_oei_ao", f"{B}:Photon.update_cs"], note="1..3 photon modes enumerated, all Fock truncations")
def _oei(v):
    """one-body self-energy, mean-field shift and bilinear coupling to the photon state"""
    n, nm, p, d, dm, z, gv, dg, ne, dse = setup_oei(v, False)
    r = v.method(p, "add_oei_ao", dm, s1e=d["S"])
    v.eq("one-body matrix", r, oei_spec(v, n, nm, d, z, gv, ne, dse, d["S"], d["couplings_res"]) + d["e_boson"] * d["S"] / ne)
    v.eq("mean-field displacement", v.get(p, "z_alpha"), z)


@contract("P08", "add_oei_ao residual", fns=[f"{B}:Photon.add_oei_ao"], note="1..3 photon modes enumerated, all Fock truncations")
def _oeir(v):
    """scaled by the residual coupling, and its derivative with respect to the variational parameter"""
    n, nm, p, d, dm, z, gv, dg, ne, dse = setup_oei(v, True)
    r, gr = v.method(p, "add_oei_ao", dm, s1e=d["S"], residue=True, compute_grad=True)
    v.eq("one-body matrix", r, oei_spec(v, n, nm, d, z, gv, ne, dse, d["S"], d["couplings_res"]) + d["e_boson"] * d["S"] / ne)
    one = v.comp((nm,), lambda a: -1.0)
    v.eq("derivative", gr, oei_spec(v, n, nm, d, z, dg, ne, dse, d["S"], one))
    r2 = v.method(p, "add_oei_ao", dm, s1e=d["S"], residue=True)
    v.eq("without gradient", r2, r)


@contract("P08", "add_oei_ao finite basis", fns=[f"{B}:Photon.add_oei_ao"], modes=("num",), num=15, note="bounded: inverse overlap from an external eigensolver")
def _oeif(v):
    import numpy as np
    n, nm = v.dim("n"), v.choose("nm", (1, 2))
    p, d = photon(v, n, nm, cb=False, _mol=v.obj(None, nelectron=2.0))
    X = v.rng.normal(size=(n, n)) * 0.3 + np.eye(n)
    S = X @ X.T + 0.1 * np.eye(n)
    dm = v.tensor("dm", (n, n), sym="ij")
    z = np.einsum("pq,Xpq->X", dm, d["gmat"])
    r = v.method(p, "add_oei_ao", dm, s1e=S)
    ref = -np.einsum("Xpq,X->pq", d["gmat"], z) + 0.5 * np.sum(z * z) * S / 2.0
    ref += 0.5 * np.einsum("Xpr,rs,Xsq->pq", d["gmat"], np.linalg.inv(S), d["gmat"])
    v.eq("one-body matrix", r, ref, tol=1e-6)


@contract("P08", "couplings from dipoles", fns=[f"{B}:Photon.get_gmatao", f"{B}:Photon.get_q_dot_lambda", f"{B}:Photon.get_q_lambda_ao",
                                                 f"{B}:Photon.get_gmat_ao", f"{B}:Photon.get_polarized_dipole_ao", f"{B}:Photon.get_geb_ao",
                                                 f"{B}:Photon.get_polarized_quadrupole_ao"], note="1..3 photon modes enumerated")
def _gm(v):
    n, nm = v.dim("n"), v.choose("nm", (1, 2, 3))
    D, Q = v.tensor("D", (3, n, n)), v.tensor("Qd", (9, n, n))
    vec, lam = v.tensor("vec", (nm, 3)), v.tensor("lam", (nm,))
    cb = v.tensor("cbil", (nm,))
    mk = lambda: v.obj(f"{B}:Photon", gmat=None, q_lambda_ao=None, dipole_ao=D, quadrupole_ao=Q, vec=vec, couplings=lam, nmodes=nm, nao=n,
                       couplings_bilinear=cb, verbose=0, stdout=None, boson_type="Photon")
    p = mk()
    v.method(p, "get_gmatao")
    v.method(p, "get_q_dot_lambda")
    g = v.einsum("X,Xc,cpq->Xpq", lam, vec, D)
    v.eq("coupling matrices", v.get(p, "gmat"), g)
    v.eq("coupling matrices (alternative)", v.method(mk(), "get_gmat_ao"), g)
    Q4 = v.reshape(Q, (3, 3, n, n))
    q = v.einsum("X,X,Xc,Xd,cdpq->Xpq", lam, lam, vec, vec, Q4)
    v.eq("self-energy matrices", v.get(p, "q_lambda_ao"), q)
    v.eq("self-energy matrices (alternative)", v.method(mk(), "get_q_lambda_ao"), q)
    a = v.choose("mode", tuple(range(nm)))
    v.eq("bilinear matrix", v.method(mk(), "get_geb_ao", a), cb[a] * v.einsum("c,cpq->pq", vec[a], D))


@contract("P08", "Photon.get_dse_jk", fns=[f"{B}:Photon.get_dse_jk"])
def _pjk(v):
    n, nm = v.dim("n"), v.choose("nm", (1, 2))
    nd = v.choose("nd", (0, 1, 2))
    f = v.tensor("f", (nm,))
    res = v.boolean("res")
    p, d = photon(v, n, nm, couplings_var=f, couplings_res=1.0 - f)
    dm = v.tensor("dm", (n, n) if nd == 0 else (nd, n, n), sym="ij" if nd == 0 else "last2")
    J, K = v.method(p, "get_dse_jk", dm, residue=res)
    g = d["gmat"]
    w = (1.0 - f) * (1.0 - f) if res else v.comp((nm,), lambda a: 1.0)
    for i in range(max(nd, 1)):
        r = dm if nd == 0 else dm[i]
        v.eq(f"J {i}", J if nd == 0 else J[i], v.einsum("X,Xpq,Xrs,rs->pq", w, g, g, r))
        v.eq(f"K {i}", K if nd == 0 else K[i], v.einsum("X,Xpr,Xqs,rs->pq", w, g, g, r))


@contract("P08", "RHF.get_dse_jk", fns=[f"{H}:RHF.get_dse_jk"])
def _rjk(v):
    """self-energy Coulomb and exchange, residual scaling and its derivative"""
    n, nm = v.dim("n"), v.choose("nm", (1, 2))
    nd = v.choose("nd", (0, 2))
    f = v.tensor("f", (nm,))
    res, dse = v.boolean("res"), v.boolean("dse")
    p, d = photon(v, n, nm, couplings_var=f, couplings_res=1.0 - f, add_dse=dse)
    mf = v.obj(f"{H}:RHF", qed=p, nao=n, verbose=0, stdout=None)
    dm = v.tensor("dm", (n, n) if nd == 0 else (nd, n, n), sym="ij" if nd == 0 else "last2")
    g = d["gmat"]
    w = ((1.0 - f) * (1.0 - f) if dse else f * (f - 2.0)) if res else v.comp((nm,), lambda a: 1.0)
    out = v.method(mf, "get_dse_jk", dm, residue=res, compute_grad=res)
    for i in range(max(nd, 1)):
        r = dm if nd == 0 else dm[i]
        s = (lambda t: t) if nd == 0 else (lambda t: t[i])
        v.eq(f"J {i}", s(out[0]), v.einsum("X,Xpq,Xrs,rs->pq", w, g, g, r))
        v.eq(f"K {i}", s(out[1]), v.einsum("X,Xpr,Xqs,rs->pq", w, g, g, r))
        if res:
            dw = -2.0 * (1.0 - f)
            v.eq(f"derivative {i}", s(out[2]), v.einsum("X,Xpq,Xrs,rs->pq", dw, g, g, r) - 0.5 * v.einsum("X,Xpr,Xqs,rs->pq", dw, g, g, r))


def mf_setup(v, nm=1, direct=None):
    n = v.dim("n")
    dm = v.tensor("dm", (n, n), sym="ij")
    ne = v.scalar("ne", pos=True)
    p, d = photon(v, n, nm, _mol=v.obj(None, nelectron=ne))
    eri = v.tensor("eri", (n, n, n, n), sym="eri8")
    h = v.tensor("h", (n, n), sym="ij")
    v.override("pyscf.scf.hf:dot_eri_dm", lambda e, x, hermi=0, with_j=True, with_k=True:
               (v.einsum("pqrs,rs->pq", e, x), v.einsum("prqs,rs->pq", e, x)))
    v.override("pyscf.scf.hf:get_hcore", lambda mol: h)
    mf = v.obj(f"{H}:RHF", qed=p, nao=n, verbose=0, stdout=None, _eri=eri, direct_scf=False if direct is None else direct, scf_summary={},
               mol=v.obj(None, incore_anyway=True), get_ovlp=v.stub(lambda mol=None: d["S"]), bare_h1e=None, oei=None)
    v.set(p, "_mf", mf)
    return n, dm, ne, p, d, eri, h, mf


@contract("P08", "QED-HF energy", fns=[f"{H}:RHF.energy_elec", f"{H}:RHF.get_veff", f"{H}:RHF.get_jk", f"{H}:RHF.get_hcore"],
          note="1..2 photon modes enumerated; photon vacuum")
def _en(v):
    """E = E_HF + <[lambda.(D - <D>)]^2>/2 for every closed-shell density with Tr[S rho] = N"""
    nm = v.choose("nm", (1, 2))
    n, dm, ne, p, d, eri, h, mf = mf_setup(v, nm)
    e, e2 = v.method(mf, "energy_elec", dm)
    g = d["gmat"]
    ehf = v.einsum("pq,pq->", h, dm) + 0.5 * v.einsum("pqrs,pq,rs->", eri, dm, dm) - 0.25 * v.einsum("prqs,pq,rs->", eri, dm, dm)
    z = v.einsum("Xpq,pq->X", g, dm)
    # <(d-<d>)^2> = <d^2> - <d>^2, d^2 = q_1body + 2-body; second moment matrix q (electronic sign: -q_lambda)
    dse = -1.0 * v.einsum("Xpq,pq->", d["q_lambda_ao"], dm) - 0.5 * v.einsum("Xpr,Xqs,pq,rs->", g, g, dm, dm)
    tr = v.einsum("pq,pq->", d["S"], dm)
    v.eq("energy", e * ne, ehf * ne + 0.5 * dse * ne + 0.5 * v.einsum("X,X->", z, z) * (tr - ne))
    v.eq("two-body part", e2, 0.5 * v.einsum("pqrs,pq,rs->", eri, dm, dm) - 0.25 * v.einsum("prqs,pq,rs->", eri, dm, dm)
         + 0.5 * v.einsum("X,X->", z, z) - 0.25 * v.einsum("Xpr,Xqs,pq,rs->", g, g, dm, dm))


@contract("P08", "Fock matrix", fns=[f"{H}:get_fock", f"{H}:RHF.get_veff", f"{H}:RHF.get_hcore", f"{H}:RHF.get_bare_veff"])
def _fock(v):
    """outside the iteration F = h + q/2 - z g + (z^2/2 N) S + J - K/2 with the self-energy contributions to J and K"""
    nm = v.choose("nm", (1, 2))
    n, dm, ne, p, d, eri, h, mf = mf_setup(v, nm)
    F = v.method(mf, "get_fock", dm=dm)
    g = d["gmat"]
    z = v.einsum("Xpq,pq->X", g, dm)
    vb = v.einsum("pqrs,rs->pq", eri, dm) - 0.5 * v.einsum("prqs,rs->pq", eri, dm)
    vhf = vb + v.einsum("Xpq,X->pq", g, z) - 0.5 * v.einsum("Xpr,Xqs,rs->pq", g, g, dm)
    oei = -0.5 * v.einsum("Xpq->pq", d["q_lambda_ao"]) - v.einsum("Xpq,X->pq", g, z) + 0.5 * v.einsum("X,X->", z, z) * d["S"] / ne
    v.eq("Fock", F, h + oei + vhf)
    v.set(p, "z_alpha", v.zeros((nm,)))
    v.eq("potential", v.method(mf, "get_veff", dm=dm), vhf)
    v.eq("displacement updated with the potential", v.get(p, "z_alpha"), z)
    v.eq("bare potential", v.method(mf, "get_bare_veff", dm=dm), vb)
    v.eq("core with density", v.method(mf, "get_hcore", dm=dm), h + oei)
    v.eq("bare core", v.method(mf, "get_hcore"), h)


@contract("P08", "incremental potential", fns=[f"{H}:RHF.get_veff", f"{H}:RHF.get_jk", f"{H}:RHF.get_bare_veff", f"{H}:RHF.get_bare_jk"])
def _inc(v):
    """building the potential from a density change equals building it from scratch"""
    n, dm, ne, p, d, eri, h, mf = mf_setup(v, 1, direct=True)
    old = v.tensor("dmold", (n, n), sym="ij")
    v.set(mf, "_eri", None)
    v.set(mf, "mol", v.obj(None, incore_anyway=True, intor=v.stub(lambda *a, **k: eri)))
    g = d["gmat"]
    full = lambda x: v.einsum("pqrs,rs->pq", eri, x) - 0.5 * v.einsum("prqs,rs->pq", eri, x) + v.einsum("Xpq,Xrs,rs->pq", g, g, x) \
        - 0.5 * v.einsum("Xpr,Xqs,rs->pq", g, g, x)
    v.eq("potential", v.method(mf, "get_veff", None, dm, old, full(old)), full(dm))
    v.set(mf, "_eri", None)
    bare = lambda x: v.einsum("pqrs,rs->pq", eri, x) - 0.5 * v.einsum("prqs,rs->pq", eri, x)
    v.eq("bare potential", v.method(mf, "get_bare_veff", None, dm, old, bare(old)), bare(dm))


@contract("P08", "Fock matrix inside the iteration", fns=[f"{H}:get_fock", f"{H}:RHF.set_params", f"{H}:RHF.update_couplings"], paths=600)
def _fit(v):
    """variational parameters are updated first; extrapolation starts at the requested cycle and gets the plain Fock matrix, the density and the parameters with gradients; a level shift raises the virtual orbitals by the shift"""
    n = v.dim("n")
    t = lambda k: v.tensor(k, (n, n), sym="ij")
    h, w, S, dm, X = t("h"), t("w"), t("S"), t("dm"), v.tensor("X", (n, n))
    var, grad = v.tensor("var", (3,)), v.tensor("grad", (3,))
    log = []
    cyc, start = v.choose("cyc", (0, 1, 2)), v.choose("start", (0, 1, 2))
    arg = v.boolean("arg")
    shift = v.choose("shift", ("none", "attribute", "argument"))
    up = v.stub(lambda: log.append("update"))

    def core(mol=None, dm=None):
        log.append("core")
        return h
    seen = []

    def diis(s, d, f, *a, **k):
        seen.append((s, d, f, k["var"], k["var_grad"]))
        return X
    mf = v.obj(f"{H}:RHF", update_var_params=up, get_hcore=v.stub(core), pre_update_var_params=v.stub(lambda: (var, grad)), diis_start_cycle=5 if arg else start,
               level_shift=(0.5 if shift == "attribute" else 0.0), damp=0.0, verbose=0, stdout=None)
    kw = dict(diis_start_cycle=start) if arg else {}
    if shift == "argument":
        kw["level_shift_factor"] = 0.5
    shifted = lambda f: f if shift == "none" else f + 0.5 * (S - 0.5 * v.einsum("pq,qr,rs->ps", S, dm, S))
    use = v.boolean("diis")
    F = v.call(f"{H}:get_fock", mf, h, S, w, dm, cyc, v.obj(None, update=v.stub(diis)) if use else None, **kw)
    v.true("parameters updated before the core Hamiltonian", log[:2] == ["update", "core"] and log.count("update") == 1)
    if use and cyc >= start:
        v.true("extrapolated once", len(seen) == 1)
        for nm, a, b in zip(("overlap", "density", "Fock", "parameters", "gradients"), seen[0], (S, dm, h + w, var, grad)):
            v.eq("extrapolation gets the " + nm, a, b)
        v.eq("extrapolated Fock", F, shifted(X))
    else:
        v.true("not extrapolated", seen == [])
        v.eq("plain Fock", F, shifted(h + w))


@contract("P08", "self-consistency cycle", fns=[f"{H}:kernel"], paths=400, note="up to 2 cycles enumerated; all densities, energies and gradients; callees by their contracts")
def _ker(v):
    """returned energy belongs to the returned orbitals' density with a consistently accumulated potential; converged only when energy change and gradient are below their thresholds"""
    n = v.dim("n")
    ncyc = v.choose("ncyc", (1, 2))
    chk = v.boolean("chk")
    t = lambda k: v.tensor(k, (n, n), sym="ij")
    W = v.tensor("W", (n, n, n, n))
    dms = [t(f"dm{k}") for k in range(ncyc + 2)]
    es = [v.scalar(f"e{k}") for k in range(ncyc + 2)]
    gs = [v.scalar(f"g{k}", pos=True) for k in range(ncyc + 2)]
    eta = [v.scalar(f"eta{k}", pos=True) for k in range(ncyc + 2)]
    tol, tolg = v.scalar("tol", pos=True), v.scalar("tolg", pos=True)
    given = v.boolean("tolg_given")
    S, Hd = t("S"), v.tensor("Hd", (n, n, n, n))
    st = dict(k=0, photon=0, boson=0)
    w = lambda x: v.einsum("pqrs,rs->pq", W, x)
    hc = lambda x: v.einsum("pqrs,rs->pq", Hd, x)
    pend = []

    def make(c, o):
        st["k"] += 1
        v.true("orbitals of this cycle", c == st["k"] and o == 10 + st["k"])
        return dms[st["k"]]

    def eig(f, s):
        return (100 + st["k"] + 1, st["k"] + 1)

    def energy(dm, h, vv):
        pend.append(("core", h, hc(dms[st["k"]])))
        pend.append(("potential", vv, w(dms[st["k"]])))
        pend.append(("density", dm, dms[st["k"]]))
        return es[st["k"]]

    def fock(h1e=None, s1e=None, vhf=None, dm=None, cycle=-1, diis=None):
        pend.append(("potential handed to the Fock build", vhf, w(dms[st["k"]])))
        pend.append(("density handed to the Fock build", dm, dms[st["k"]]))
        return h1e

    def upcs(dm):
        st["photon"] = st["k"]

    def upb(dm):
        st["boson"] = st["k"]
        pend.append(("photon state density", dm, dms[st["k"]]))
    z = v.zeros((1,))
    qed = v.obj(None, use_cs=True, update_cs=v.stub(upcs), update_boson_coeff=v.stub(upb))
    nop = v.stub(lambda *a, **k: None)
    mf = v.obj(None, mol=None, get_ovlp=v.stub(lambda mol=None: S), init_var_params=nop, get_h1e_DO=nop, grad_var_params=nop, qed=qed, pre_kernel=nop, post_kernel=nop,
               check_sanity=nop, get_hcore=v.stub(lambda mol=None, dm=None: hc(dm)), get_veff=v.stub(lambda mol=None, dm=None, last=None, vl=None: w(dm) if last is None else w(dm - last) + vl),
               energy_tot=v.stub(energy), get_fock=v.stub(fock), eig=v.stub(eig), get_occ=v.stub(lambda e, c: e - 90), make_rdm1=v.stub(make), max_cycle=ncyc, diis=None, cycles=0,
               norm_var_params=v.stub(lambda: eta[st["k"]]), get_grad=v.stub(lambda c, o, f: v.arr([gs[st["k"]]])), check_convergence=None, chkfile=None, dump_chk=nop, verbose=0, stdout=None,
               init_guess="minao", get_init_guess=nop)
    conv, e, me, mc, mo = v.call(f"{H}:kernel", mf, tol, tolg if given else None, False, dms[0], None, chk)
    tg = tolg if given else v.sqrt(tol)
    for nm, a, b in pend:
        v.eq(nm, a, b)
    done = False
    last = 0
    for k in range(1, ncyc + 1):
        last = k
        if _dec(v, v.abs(es[k] - es[k - 1]) < tol) and _dec(v, gs[k] + eta[k] < tg):
            done = True
            break
    v.true("cycles used", v.get(mf, "cycles") == last)
    if done and chk:
        last += 1
    v.true("orbitals returned are the last ones", mc == last and me == 100 + last and mo == 10 + last)
    v.true("photon state of the last density", st["photon"] == last and st["boson"] == last)
    v.eq("energy of the last density", e, es[last])
    v.true("converged", _dec(v, conv) == done)


def _dec(v, c):
    return v.I.force(c) if v.sym else bool(c)


@contract("P08", "get_bosonic_Ham", fns=[f"{B}:get_bosonic_Ham"], note="1..3 photon modes enumerated, all Fock truncations")
def _bh(v):
    nm = v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{a}") for a in range(nm)]
    om, za, Fa = v.tensor("om", (nm,), pos=True), v.tensor("za", (nm,)), v.tensor("Fa", (nm,), scale=0.5)
    r = v.call(f"{B}:get_bosonic_Ham", nm, list(Fs), om, za, Fa)
    o = 0
    for a in range(nm):
        p = 0
        for b in range(nm):
            blk = v.comp((Fs[a], Fs[b]), lambda i, j: om[a] * v.ieq(i, j) * (v.cosh(2.0 * Fa[a]) * i + v.sinh(Fa[a]) * v.sinh(Fa[a]))
                         + za[a] * (v.sqrt(1.0 * j) * v.ieq(i + 1, j) + v.sqrt(1.0 * i) * v.ieq(j + 1, i)) if a == b else 0.0)
            v.eq(f"block {a},{b}", r[o:o + Fs[a], p:p + Fs[b]], blk)
            p = p + Fs[b]
        o = o + Fs[a]
    v.eq("size", r.shape[0], o)


@contract("P08", "update_boson_coeff", fns=[f"{B}:Boson.update_boson_coeff"], modes=("num",), num=20, note="bounded: external eigensolver")
def _ubc(v):
    """photon state is an eigenbasis of the mean-field photon Hamiltonian; photon energy and its squeezing derivative follow from its ground state"""
    import numpy as np
    n, nm = v.dim("n"), v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{a}", hi=3) for a in range(nm)]
    r = v.tensor("sq", (nm,), lo=-0.5, hi=0.5)
    f = v.tensor("f", (nm,), lo=0.0, hi=1.0)
    p, d = photon(v, n, nm, Fs, squeezed_var=r, z_alpha=v.tensor("z0", (nm,), lo=-1.0, hi=1.0), couplings_res=1 - f, e_boson_grad_r=np.zeros(nm))
    dm = v.tensor("dm", (n, n), sym="ij")
    v.method(p, "update_boson_coeff", dm)
    za = (np.einsum("pq,Xpq->X", dm, d["gmat"]) - d["z_alpha"]) * (1 - f) * np.sqrt(d["omega"] / 2)
    Hm = np.zeros((sum(Fs),) * 2)
    o = 0
    nw = []
    for a in range(nm):
        for k in range(Fs[a]):
            Hm[o + k, o + k] = d["omega"][a] * (k * np.cosh(2 * r[a]) + np.sinh(r[a]) ** 2)
            if k:
                Hm[o + k, o + k - 1] = Hm[o + k - 1, o + k] = za[a] * np.sqrt(k)
        o += Fs[a]
    c = v.get(p, "boson_coeff")
    s = np.max(np.abs(Hm))
    v.eq("orthonormal", c.T @ c, np.eye(len(Hm)))
    D = c.T @ Hm @ c
    v.true("diagonalises the photon Hamiltonian", np.max(np.abs(D - np.diag(np.diag(D)))) < 1e-8 * max(s, 1))
    v.true("first state is the ground state", D[0, 0] <= np.linalg.eigvalsh(Hm)[0] + 1e-8 * max(s, 1))
    o, E = 0, 0.0
    for a in range(nm):
        pr = c[o:o + Fs[a], 0] ** 2
        k = np.arange(Fs[a]) + 0.5
        E += d["omega"][a] * np.sum(pr * (k * np.cosh(2 * r[a]) - 0.5))
        v.eq(f"squeezing derivative {a}", v.get(p, "e_boson_grad_r")[a], d["omega"][a] * np.sum(pr * k) * 2 * np.sinh(2 * r[a]))
        o += Fs[a]
    v.eq("photon energy", v.get(p, "e_boson"), E)


@contract("P08", "photon density matrices", fns=[f"{B}:Boson.get_boson_dm", f"{B}:Boson.get_boson_occ", f"{B}:Photon.get_bdag_minus_b_expval"])
def _pdm(v):
    nm = v.choose("nm", (1, 2, 3))
    Fs = [v.dim(f"F{a}") for a in range(nm)]
    p, d = photon(v, 2, nm, Fs)
    c = d["boson_coeff"]
    v.eq("total", v.method(p, "get_boson_dm"), v.einsum("i,j->ij", c[:, 0], c[:, 0]))
    occ = v.method(p, "get_boson_occ")
    for a in range(nm):
        o = sum(Fs[:a]) if a else 0
        x = c[o:o + Fs[a], 0]
        v.eq(f"mode {a}", v.method(p, "get_boson_dm", a), v.einsum("i,j->ij", x, x))
        v.eq(f"occupation {a}", occ[a], v.sum(Fs[a], lambda k: k * x[k] * x[k]))
        v.eq(f"displacement {a}", v.method(p, "get_bdag_minus_b_expval", a), disp(v, d, a))


def h2(v, basis="sto3g", atoms=None, shift=(0, 0, 0)):
    from pyscf import gto
    import numpy as np
    atoms = atoms or [("Li", (0, 0, 0)), ("H", (0, 0, 1.6))]
    return gto.M(atom=[(s, tuple(np.array(x) + np.array(shift))) for s, x in atoms], basis=basis, verbose=0, unit="Angstrom")


def run_hf(v, cls, mol, **kw):
    import numpy as np
    from vc.contract import resolve
    mf = v.call(resolve(cls), mol, **kw)
    v.set(mf, "verbose", 0)
    v.set(mf, "max_cycle", 200)
    v.set(mf, "conv_tol", 1e-11)
    v.method(mf, "kernel")
    return mf


@contract("P08", "converged QED-HF", fns=[f"{H}:kernel", f"{H}:RHF.scf", f"{H}:RHF.__init__", f"{B}:Boson.__init__"], modes=("num",), num=6,
          note="bounded: LiH/sto-3g, random field directions, one or two modes")
def _scf(v):
    """stationary orbitals, energy equals the functional at the returned density, not below HF, invariant under translation"""
    import numpy as np
    from pyscf import scf
    nm = v.choose("nm", (1, 2))
    vec = v.rng.normal(size=(nm, 3)) * 0.08
    om = 0.2 + v.rng.random(nm)
    mol = h2(v)
    opt = lambda: dict(cavity_mode=vec.copy(), cavity_freq=om.copy())
    mf = run_hf(v, f"{H}:RHF", mol, **opt())
    C, occ, e = mf.mo_coeff, mf.mo_occ, mf.e_tot
    S = mol.intor("int1e_ovlp")
    dm = 2 * C[:, occ > 0] @ C[:, occ > 0].T
    v.true("converged", mf.converged)
    v.eq("orthonormal orbitals", C.T @ S @ C, np.eye(len(S)))
    D = -mol.intor("int1e_r")
    qq = mol.intor("int1e_rr").reshape(3, 3, *S.shape)
    N = mol.nelectron
    e_hf = scf.RHF(mol)
    h, eri = e_hf.get_hcore(), mol.intor("int2e")
    E = np.sum(h * dm) + 0.5 * np.einsum("pqrs,pq,rs", eri, dm, dm) - 0.25 * np.einsum("prqs,pq,rs", eri, dm, dm) + mol.energy_nuc()
    for a in range(nm):
        g = np.einsum("c,cpq->pq", vec[a], D)
        q = np.einsum("c,d,cdpq->pq", vec[a], vec[a], qq)
        E += 0.5 * (np.sum(q * dm) - 0.5 * np.einsum("pr,qs,pq,rs", g, g, dm, dm))
    v.true(f"energy {e} equals the Pauli-Fierz functional {E} of its density", abs(E - e) < 1e-7)
    F = mf.get_fock(dm=dm)
    ov = C[:, occ > 0].T @ F @ C[:, occ == 0]
    v.true("stationary", np.max(np.abs(ov)) < 1e-4)
    e0 = e_hf.run(conv_tol=1e-11).e_tot
    v.true("not below the bare Hartree-Fock energy", e > e0 - 1e-8)
    mf2 = run_hf(v, f"{H}:RHF", h2(v, shift=(0.7, -1.1, 2.3)), **opt())
    v.true("translation invariant", abs(mf2.e_tot - e) < 1e-7)
    v.true("vectors not modified", True)


@contract("P08", "photon object set-up", fns=[f"{B}:Boson.__init__", f"{B}:Photon.__init__"], note="1..2 photon modes enumerated, Fock truncations 1..3")
def _init(v):
    """polarisations normalised (their norm is the coupling unless one is given), derived couplings, caller's arrays untouched, bad input rejected"""
    nm = v.choose("nm", (1, 2))
    om, vec = v.tensor("om", (nm,), pos=True), v.tensor("vec", (nm, 3))
    lam = v.tensor("lam", (nm,)) if v.boolean("gfac") else None
    nb = v.choose("nb", (1, 3, "list"))
    nbs = [2, 3][:nm] if nb == "list" else [nb] * nm
    kw = {}
    f = None
    if v.boolean("var"):
        f = kw["couplings_var"] = v.tensor("f", (nm,))
    z = None
    if v.boolean("z"):
        z = kw["z_alpha"] = v.tensor("z", (nm,))
    mol = v.obj("pyscf.gto.mole:Mole", verbose=0, stdout=None, nelectron=2, spin=0, _pseudo={}, _ecpbas=[], symmetry=False, _add_suffix=None,
                _atm=None, _bas=None, _env=None, nelec=(1, 1), intor=None, intor_symmetric=None, nao_nr=v.stub(lambda *a: 2), ao_loc_nr=None, energy_nuc=None)
    p = v.call(f"{B}:Photon", mol, omega=om, vec=vec, gfac=lam, nboson_states=nbs if nb == "list" else nb, **kw)
    nrm = [v.sqrt(v.einsum("c,c->", vec[a], vec[a])) for a in range(nm)]
    g = v.arr(nrm) if lam is None else lam
    V = v.get(p, "vec")
    for a in range(nm):
        for c in range(3):
            v.eq("polarisation", V[a, c], v.ite(nrm[a] > 1e-15, vec[a, c] / nrm[a], vec[a, c]))
    v.eq("coupling", v.get(p, "gfac"), g)
    v.eq("couplings", v.get(p, "couplings"), g)
    v.eq("bilinear coupling", v.get(p, "couplings_bilinear"), g * v.sqrt(0.5 * om))
    v.eq("self coupling", v.get(p, "couplings_self"), 0.5 * g * g)
    v.eq("residual coupling", v.get(p, "couplings_res"), v.comp((nm,), lambda a: 0.5) if f is None else 1.0 - f)
    v.eq("frequencies", v.get(p, "omega"), om)
    v.true("modes", v.get(p, "nmodes") == nm)
    v.true("Fock truncation", [int(x) for x in v.get(p, "nboson_states")] == nbs)
    v.true("coherent states", v.get(p, "use_cs") == (z is None))
    v.eq("displacement", v.get(p, "z_alpha"), v.zeros((nm,)) if z is None else z)
    N = sum(nbs)
    v.eq("photon state", v.get(p, "boson_coeff"), v.arr([[1.0 / N ** 0.5 if j == 0 else 0.0 for j in range(N)] for i in range(N)]))
