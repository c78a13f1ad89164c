"""P09: SC- and VT-QED-HF: dressed integrals, potentials, energies and the gradients of all variational parameters."""
from vc.contract import contract, Violation, Reject

S = "openms.mqed.scqedhf"
VT = "openms.mqed.vtqedhf"
B = "openms.lib.boson"


def mf_obj(v, cls=f"{S}:RHF", cd=False, nm=1, sq=True, **kw):
    n = v.dim("n")
    om = v.tensor("om", (nm,), pos=True, lo=0.3, hi=3.0)
    F = v.tensor("F", (nm,), lo=-0.7, hi=0.7) if sq else v.zeros((nm,))
    f = v.tensor("f", (nm,), pos=True) + 1e-5
    g = v.tensor("g", (nm, n, n), sym="last2")
    p = v.obj(f"{B}:Photon", nmodes=nm, omega=om, squeezed_var=F, couplings_var=f, couplings_res=1.0 - f, nboson_states=[1] * nm, gmat=g,
              e_boson_grad_r=v.tensor("ebg", (nm,)), optimize_varf=True, optimize_vsq=True, verbose=0, stdout=None, nao=n, use_cs=False)
    S1 = v.tensor("S", (n, n), sym="ij")
    eta = v.tensor("eta", (nm, n), lo=-2.0, hi=2.0)
    d = dict(qed=p, nao=n, eta=eta, ltensor=None, verbose=0, stdout=None, eta_grad=v.zeros((nm, n)), mol=v.obj(None, nao_nr=v.stub(lambda: n)),
             get_ovlp=v.stub(lambda mol=None: S1), bare_h1e=v.tensor("h", (n, n), sym="ij"), ao2dipole=v.tensor("U", (nm, n, n)),
             g_dipole=v.tensor("gd", (nm, n)), h1e_DO=v.tensor("hdo", (n, n), sym="ij"), dm_do=v.zeros((nm, n, n)), vhf_dse=None,
             vlf_grad=v.zeros((nm,)), vsq_grad=v.zeros((nm,)), precond=0.1)
    if cd:
        nc = v.dim("nc")
        d["ltensor"] = v.tensor("L", (nc, n, n), sym="last2")
        d["eri_DO"] = None
        eri = v.einsum("Xpq,Xrs->pqrs", d["ltensor"], d["ltensor"])
    else:
        d["eri_DO"] = eri = v.tensor("eri", (n, n, n, n), sym="eri8")
    d.update(kw)
    mf = v.obj(cls, **d)
    return mf, dict(d, n=n, om=om, F=F, f=f, g=g, S=S1, eri=eri, p=p)


def fc1(v, d, a=0):
    t = v.exp(d["F"][a]) / d["om"][a]
    e = d["eta"][a]
    n = d["n"]
    A = v.comp((n, n), lambda p, q: t * (e[p] - e[q]))
    return v.exp(-0.5 * A * A), A, t


def fc2(v, d, a=0):
    t = v.exp(d["F"][a]) / d["om"][a]
    e, n = d["eta"][a], d["n"]
    A = v.comp((n, n, n, n), lambda p, q, r, s: t * (e[p] - e[q] + e[r] - e[s]))
    return v.exp(-0.5 * A * A), A, t


@contract(("P09", "P10"), "Franck-Condon factors", fns=[f"{S}:RHF.FC_factor", f"{S}:RHF.gaussian_derivative_vectorized", f"{VT}:RHF.gaussian_derivative_f_vector",
                                               f"{VT}:RHF.gaussian_derivative_sq_vector"], note="1..2 modes enumerated, photon vacuum")
def _fc(v):
    """exp(-A^2/2), A = e^F (eta_p - eta_q [+ eta_r - eta_s] + shift)/omega, and its derivatives along eta_p, f and F"""
    nm = v.choose("nm", (1, 2))
    a = v.choose("a", tuple(range(nm)))
    mf, d = mf_obj(v, f"{VT}:RHF", nm=nm)
    one = v.boolean("onebody")
    sh = v.choose("shift", (0.0, None))
    if sh is None:
        sh = v.scalar("sh")
    x, A, t = fc1(v, d, a) if one else fc2(v, d, a)
    A = A + t * sh
    x = v.exp(-0.5 * A * A)
    v.eq("factor", v.method(mf, "FC_factor", d["eta"], a, onebody=one, shift=sh), x)
    v.eq("derivative along eta", v.method(mf, "gaussian_derivative_vectorized", d["eta"], a, onebody=one, shift=sh), -1.0 * t * A * x)
    v.eq("derivative along f", v.method(mf, "gaussian_derivative_f_vector", d["eta"], a, onebody=one, shift=sh), -1.0 * A * A * x / d["f"][a])
    A2 = A - 2.0 * t * sh  # this one measures q - p, so the shift enters with the other sign
    x2 = v.exp(-0.5 * A2 * A2)
    v.eq("derivative along F", v.method(mf, "gaussian_derivative_sq_vector", d["eta"], a, onebody=one, shift=sh), -1.0 * A2 * A2 * x2)


@contract("P09", "get_h1e_DO", fns=[f"{S}:RHF.get_h1e_DO", f"{S}:RHF.get_dm_do", f"{S}:unitary_transform"], note="1..2 modes enumerated")
def _hdo(v):
    """one-body matrix and density in the dipole basis; residual coupling on the diagonal"""
    nm = v.choose("nm", (1, 2))
    mf, d = mf_obj(v, nm=nm)
    n = d["n"]
    dm = v.tensor("dm", (n, n), sym="ij")
    v.modifies("gd")
    v.method(mf, "get_h1e_DO", dm=dm)
    U = d["ao2dipole"]
    G = v.comp((nm, n), lambda a, p: v.sqrt(d["om"][a] / 2.0) * d["f"][a] * v.sum(n, lambda i: v.sum(n, lambda j: U[a, i, p] * d["g"][a, i, j] * U[a, j, p]))
               - d["eta"][a, p])
    v.eq("residual dipoles", v.get(mf, "g_dipole"), G)
    a = nm - 1
    H = v.comp((n, n), lambda p, q: v.sum(n, lambda i: v.sum(n, lambda j: U[a, i, p] * d["bare_h1e"][i, j] * U[a, j, q]))
               + v.ieq(p, q) * G[a, p] * G[a, p] / d["om"][a])
    v.eq("one-body matrix in the dipole basis", v.get(mf, "h1e_DO"), H)
    v.eq("density in the dipole basis", v.get(mf, "dm_do"), v.einsum("axp,ix,ij,jy,ayq->apq", U, d["S"], dm, d["S"], U))


@contract("P09", "dressed core Hamiltonian", fns=[f"{S}:RHF.get_hcore"], note="1..2 modes enumerated")
def _hc(v):
    nm = v.choose("nm", (1, 2))
    mf, d = mf_obj(v, nm=nm)
    r = v.method(mf, "get_hcore")
    H = d["h1e_DO"]
    for a in range(nm):
        H = H * fc1(v, d, a)[0]
    Ui = v.inv(d["ao2dipole"][0])
    v.eq("back-transformed dressed matrix", r, v.einsum("pi,pq,qj->ij", Ui, H, Ui))
    v.eq("undressed", v.method(mf, "get_hcore", dress=False), d["bare_h1e"])


def dm_do(v, d):
    n = d["n"]
    dm = v.tensor("dm", (n, n), sym="ij")
    return dm, v.einsum("xp,ix,ij,jy,yq->pq", d["ao2dipole"][0], d["S"], dm, d["S"], d["ao2dipole"][0])


def pot(v, d, D, x2):
    g, om = d["g_dipole"][0], d["om"][0]
    n = d["n"]
    gD = v.sum(n, lambda p: g[p] * D[p, p])
    V = v.comp((n, n), lambda p, q: v.ieq(p, q) * 2.0 * g[p] * gD / om - g[p] * g[q] * D[p, q] / om)
    e = d["eri"]
    W = x2 * (e - 0.5 * v.transpose(e, (0, 3, 2, 1)))
    return V + v.einsum("pqrs,rs->pq", W, D)


for cd in (False, True):
    @contract("P09", "dressed potential" + (" (Cholesky)" if cd else ""), fns=[f"{S}:RHF.get_veff", f"{S}:RHF.FC_factor"], note="one mode, photon vacuum")
    def _veff(v, cd=cd):
        """residual self energy plus dressed Coulomb and exchange, back-transformed to atomic orbitals"""
        mf, d = mf_obj(v, cd=cd)
        dm, D = dm_do(v, d)
        r = v.method(mf, "get_veff", None, dm)
        Ui = v.inv(d["ao2dipole"][0])
        V = pot(v, d, D, fc2(v, d)[0])
        v.eq("potential", r, v.einsum("pi,pq,qj->ij", Ui, V, Ui))

    @contract("P09", "eta gradient" + (" (Cholesky)" if cd else ""), fns=[f"{S}:RHF.get_eta_gradient"], note="one mode, photon vacuum")
    def _eg(v, cd=cd):
        """derivative of the energy with respect to every eta_p at fixed density"""
        mf, d = mf_obj(v, cd=cd)
        n = d["n"]
        D = v.tensor("D", (1, n, n), sym="last2")
        v.method(mf, "get_eta_gradient", D, d["g_dipole"])
        D, g, om = D[0], d["g_dipole"][0], d["om"][0]
        x1, A1, t = fc1(v, d)
        x2, A2, t = fc2(v, d)
        e = d["eri"]
        W = 2.0 * e - v.transpose(e, (0, 3, 2, 1))
        ref = -2.0 * t * v.einsum("pq,pq,pq,pq->p", d["h1e_DO"], D, A1, x1) \
            - v.comp((n,), lambda p: 2.0 * D[p, p] * g[p] / om + v.sum(n, lambda q: (2.0 * D[p, p] * D[q, q] - D[p, q] * D[p, q]) * g[q] / om)) \
            - t * v.einsum("pqrs,pqrs,pqrs,pq,rs->p", W, A2, x2, D, D)
        v.eq("gradient", v.get(mf, "eta_grad")[0], ref)

    for meth in ("grad_var_params", "grad_var_params_together"):
        @contract("P09", f"{meth}" + (" (Cholesky)" if cd else ""), fns=[f"{VT}:RHF.{meth}", f"{VT}:RHF.get_vsq_gradient"], note="one mode, photon vacuum")
        def _vg(v, cd=cd, meth=meth):
            """derivatives of the energy along eta, the coupling fraction f and the squeezing F"""
            mf, d = mf_obj(v, f"{VT}:RHF", cd=cd)
            n = d["n"]
            D = v.tensor("D", (1, n, n), sym="last2")
            v.method(mf, meth, D, d["g_dipole"])
            D, g, om, f = D[0], d["g_dipole"][0], d["om"][0], d["f"][0]
            x1, A1, t = fc1(v, d)
            x2, A2, t = fc2(v, d)
            e = d["eri"]
            W = 2.0 * e - v.transpose(e, (0, 3, 2, 1))
            one = v.einsum("pq,pq,pq,pq,pq->", d["h1e_DO"], D, A1, A1, x1)
            two = 0.25 * v.einsum("pqrs,pqrs,pqrs,pqrs,pq,rs->", W, A2, A2, x2, D, D)
            v.eq("squeezing gradient", v.get(mf, "vsq_grad")[0], d["qed_ebg"] if "qed_ebg" in d else v.get(d["p"], "e_boson_grad_r")[0] - one - two)
            gD = v.sum(n, lambda p: g[p] * D[p, p])
            gg = 2.0 * v.sum(n, lambda p: D[p, p] * g[p] * g[p]) + 2.0 * gD * gD - v.einsum("pq,pq,p,q->", D, D, g, g)
            v.eq("coupling gradient", v.get(mf, "vlf_grad")[0], (gg / om - one - two) / f)
            ref = -2.0 * t * v.einsum("pq,pq,pq,pq->p", d["h1e_DO"], D, A1, x1) \
                - v.comp((n,), lambda p: 2.0 * D[p, p] * g[p] / om + v.sum(n, lambda q: (2.0 * D[p, p] * D[q, q] - D[p, q] * D[p, q]) * g[q] / om)) \
                - t * v.einsum("pqrs,pqrs,pqrs,pq,rs->p", W, A2, x2, D, D)
            v.eq("eta gradient", v.get(mf, "eta_grad")[0], ref)


@contract("P09", "basis transforms", fns=[f"{S}:unitary_transform", f"{S}:ao2rao", f"{S}:get_reduced_overlp", f"{S}:get_orbitals_from_rao", f"{S}:RHF.ao2mo",
                                          f"{S}:RHF.construct_eri_DO"])
def _bt(v):
    n, m = v.dim("n"), v.dim("m")
    A, U = v.tensor("A", (n, n)), v.tensor("U", (n, m))
    P = v.tensor("P", (n, m), cplx=True)
    v.eq("unitary_transform", v.call(f"{S}:unitary_transform", U, A), v.einsum("ip,ij,jq->pq", U, A, U))
    v.eq("ao2rao", v.call(f"{S}:ao2rao", A, P), v.einsum("ip,ij,jq->pq", v.conj(P), A, P))
    v.eq("reduced overlap", v.call(f"{S}:get_reduced_overlp", P), v.einsum("ik,jk->ij", P, v.conj(P)))
    v.eq("orbitals", v.call(f"{S}:get_orbitals_from_rao", U, v.transpose(U, (1, 0))), v.einsum("ik,jk->ij", v.transpose(U, (1, 0)), v.transpose(U, (1, 0))))
    mf = v.obj(f"{S}:RHF", mo_coeff=U, nao=n, verbose=0, stdout=None)
    v.eq("ao2mo", v.method(mf, "ao2mo", A), v.einsum("ip,ij,jq->pq", U, A, U))


@contract("P09", "construct_eri_DO", fns=[f"{S}:RHF.construct_eri_DO"], modes=("num",), num=10, note="bounded: symmetry unpacking is external")
def _ed(v):
    import numpy as np
    n = v.dim("n", lo=2, hi=4)
    e = v.tensor("eri", (n, n, n, n), sym="eri8")
    from pyscf import ao2mo
    stored = v.choose("sym", ("full", "s8", "s4"))
    U = v.tensor("U", (n, n))
    mf = v.obj(f"{S}:RHF", _eri=e.copy() if stored == "full" else ao2mo.restore(stored, e, n), nao=n, verbose=0, stdout=None)
    v.eq("transformed", v.method(mf, "construct_eri_DO", U), np.einsum("pu,qv,rw,st,pqrs->uvwt", U, U, U, U, e))


@contract("P09", "VT potentials", fns=[f"{VT}:RHF.get_hcore", f"{VT}:RHF.get_veff", "openms.mqed.qedhf:RHF.get_dse_jk", f"{B}:Photon.add_oei_ao"],
          note="one mode, photon vacuum")
def _vtp(v):
    """undressed fraction 1-f of the coupling enters through the residual self-energy"""
    mf, d = mf_obj(v, f"{VT}:RHF")
    n = d["n"]
    ne = v.scalar("ne", pos=True)
    p = d["p"]
    q = v.tensor("q", (1, n, n), sym="last2")
    z = v.tensor("z", (1,))
    for k, x in dict(q_lambda_ao=q, complete_basis=True, add_dse=True, use_cs=False, z_alpha=z, e_boson=v.scalar("eb"), _mol=v.obj(None, nelectron=ne),
                     _mf=mf, boson_coeff=v.call("numpy:ones", (1, 1))).items():
        v.set(p, k, x)
    dm, D = dm_do(v, d)
    h0 = v.method(v.obj(f"{S}:RHF", **{k: x for k, x in d.items() if k in KEYS}), "get_hcore")
    r = 1.0 - d["f"][0]
    g, S1 = d["g"][0], d["S"]
    oei = r * r * (0.5 * z[0] * z[0] * S1 / ne - z[0] * g - 0.5 * q[0]) + v.get(p, "e_boson") * S1 / ne
    v.eq("core", v.method(mf, "get_hcore", dm=dm), h0 + oei)
    v0 = v.method(v.obj(f"{S}:RHF", **{k: x for k, x in d.items() if k in KEYS}), "get_veff", None, dm)
    res = r * r * (v.einsum("pq,rs,rs->pq", g, g, dm) - 0.5 * v.einsum("pr,qs,rs->pq", g, g, dm))
    v.eq("potential", v.method(mf, "get_veff", None, dm), v0 + res)
    v.eq("derivative of the core", v.get(mf, "grad_oei"), -2.0 * r * (0.5 * z[0] * z[0] * S1 / ne - z[0] * g - 0.5 * q[0]))
    v.eq("derivative of the potential", v.get(mf, "grad_vhf_dse"), -2.0 * r * (v.einsum("pq,rs,rs->pq", g, g, dm) - 0.5 * v.einsum("pr,qs,rs->pq", g, g, dm)))


KEYS = ("qed", "nao", "eta", "ltensor", "verbose", "stdout", "mol", "get_ovlp", "bare_h1e", "ao2dipole", "g_dipole", "h1e_DO", "eri_DO")


@contract("P09", "gradient is the energy derivative", fns=[f"{VT}:RHF.grad_var_params", f"{VT}:RHF.get_hcore", f"{VT}:RHF.get_veff", f"{S}:RHF.get_h1e_DO"],
          modes=("num",), num=8, note="bounded: finite differences of the real energy; random integrals, up to 4 orbitals")
def _fd(v):
    """for any density: the reported gradients equal numerical derivatives of the reported electronic energy"""
    import numpy as np
    cd = v.boolean("cd")
    mf, d = mf_obj(v, f"{VT}:RHF", cd=cd)
    n = d["n"]
    r = v.rng
    p = mf.qed
    X = r.normal(size=(n, n)) * 0.2 + np.eye(n)
    S1 = X @ X.T
    w, u = np.linalg.eigh(S1)
    U = u @ np.diag(w ** -0.5) @ u.T @ np.linalg.qr(r.normal(size=(n, n)))[0]
    q = r.normal(size=(1, n, n))
    q = q + q.transpose(0, 2, 1)
    from openms.mqed import qedhf
    mf.get_ovlp = lambda mol=None: S1
    mf.ao2dipole = U[None]
    f0 = 0.3 + 0.4 * r.random()
    F0 = 0.3 * r.normal()
    for k, x in dict(q_lambda_ao=q, complete_basis=True, add_dse=True, use_cs=False, z_alpha=r.normal(size=1), e_boson=0.0,
                     _mol=v.obj(None, nelectron=2.0), _mf=mf, boson_coeff=np.ones((1, 1)), omega=np.array([0.5 + r.random()]),
                     e_boson_grad_r=np.zeros(1)).items():
        setattr(p, k, x)
    mf.mol = v.obj(None, nao_nr=lambda: n)
    mf.scf_summary = {}
    dm = r.normal(size=(n, n))
    dm = dm + dm.T
    eta0 = r.normal(size=(1, n)) * 0.5

    def energy(eta, f, F):
        mf.eta, p.couplings_var, p.squeezed_var = eta, np.array([f]), np.array([F])
        p.update_couplings()
        mf.g_dipole = None
        mf.get_h1e_DO(mf.mol, dm=dm)
        h = mf.get_hcore(mf.mol, dm, dress=True)
        V = mf.get_veff(mf.mol, dm)
        return mf.energy_elec(dm, h, V)[0]

    energy(eta0, f0, F0)
    v.method(mf, "grad_var_params", mf.dm_do, mf.g_dipole, dm=dm)
    ge, gf, gF = mf.eta_grad.copy(), mf.vlf_grad.copy(), np.array(mf.vsq_grad)
    e = 1e-4
    scale = 1 + np.max(np.abs(ge)) + abs(gf[0]) + abs(gF[0])
    for k in range(n):
        de = np.zeros((1, n))
        de[0, k] = e
        num = (energy(eta0 + de, f0, F0) - energy(eta0 - de, f0, F0)) / (2 * e)
        v.true(f"eta gradient {ge[0, k]} vs {num}", abs(ge[0, k] - num) < 1e-5 * scale)
    num = (energy(eta0, f0, F0 + e) - energy(eta0, f0, F0 - e)) / (2 * e)
    v.true(f"squeezing gradient {gF[0]} vs {num}", abs(gF[0] - num) < 1e-5 * scale)
    up = lambda s: energy(eta0 * (f0 + s) / f0, f0 + s, F0)
    num = (up(e) - up(-e)) / (2 * e)
    v.true(f"coupling gradient {gf[0]} vs {num}", abs(gf[0] - num) < 1e-5 * scale)


@contract("P09", "parameter packing", fns=[f"{VT}:RHF.pre_update_var_params", f"{VT}:RHF.set_params", f"{VT}:RHF.set_var_params", f"{VT}:RHF.update_var_params",
                                           f"{S}:RHF.set_params", f"{S}:RHF.pre_update_var_params", f"{B}:Boson.update_couplings"], modes=("num",), num=30,
          note="bounded: random sizes")
def _pack(v):
    """writing back what was read leaves every parameter unchanged; writing new values installs exactly those"""
    import numpy as np
    nm = v.choose("nm", (1, 2))
    vt = v.boolean("vt")
    mf, d = mf_obj(v, f"{VT}:RHF" if vt else f"{S}:RHF", nm=nm)
    p, n = mf.qed, d["n"]
    p.optimize_varf, p.optimize_vsq = v.boolean("of"), v.boolean("os")
    r = v.rng
    mf.eta, mf.eta_grad = r.normal(size=(nm, n)), r.normal(size=(nm, n))
    p.couplings_var, p.squeezed_var = r.random(nm), r.normal(size=nm)
    mf.vlf_grad, mf.vsq_grad = r.normal(size=nm), r.normal(size=nm)
    before = [mf.eta.copy(), p.couplings_var.copy(), p.squeezed_var.copy()]
    var, grad = v.method(mf, "pre_update_var_params")
    opts = [True, vt and p.optimize_varf, vt and p.optimize_vsq]
    flat = lambda xs: np.hstack([x.ravel() for x, o in zip(xs, opts) if o])
    v.eq("variables", np.ravel(var), flat(before))
    v.eq("gradients", np.ravel(grad), flat([mf.eta_grad, mf.vlf_grad, mf.vsq_grad]))
    new = [r.normal(size=x.shape) for x in before]
    F = r.normal(size=(n, n))
    out = v.method(mf, "set_params", np.hstack([F.ravel(), flat(new)]), fock_shape=(n, n))
    v.eq("Fock matrix returned", out, F)
    cur = [mf.eta, p.couplings_var, p.squeezed_var]
    for nme, c, b, x, o in zip(("eta", "f", "F"), cur, before, new, opts):
        v.eq(f"{nme} {'installed' if o else 'untouched'}", c, x if o else b)
    if opts[1]:
        v.eq("residual couplings follow", p.couplings_res, 1 - new[1])
    b4 = [x.copy() for x in (mf.eta, p.couplings_var, p.squeezed_var)]
    v.method(mf, "update_var_params")
    for nme, c, b, gg, o in zip(("eta", "f", "F"), (mf.eta, p.couplings_var, p.squeezed_var), b4, (mf.eta_grad, mf.vlf_grad, mf.vsq_grad), opts):
        v.eq(f"{nme} descent step", c, b - mf.precond * gg if o else b)


@contract("P09", "DIIS error vector", fns=["openms.mqed.diis:get_err_vec", "openms.mqed.diis:get_err_vec_orig", "openms.mqed.diis:get_err_vec_orth"])
def _diis(v):
    """(SDF)^T - SDF (in the orthonormal basis if given) followed by the parameter gradients"""
    n, k = v.dim("n"), v.dim("k")
    s, dm, f = v.tensor("s", (n, n), sym="ij"), v.tensor("dm", (n, n), sym="ij"), v.tensor("fk", (n, n), sym="ij")
    C = v.tensor("C", (n, k))
    gr = v.tensor("gr", (k,))
    M = v.einsum("ij,jk,kl->il", s, dm, f)
    Mo = v.einsum("ia,ij,jb->ab", C, M, C)
    D = "openms.mqed.diis"
    flat = lambda x, m: v.reshape(v.transpose(x, (1, 0)) - x, (m * m,))
    v.eq("commutator", v.call(f"{D}:get_err_vec", s, dm, f), flat(M, n))
    v.eq("orthonormal commutator", v.call(f"{D}:get_err_vec", s, dm, f, C), flat(Mo, k))
    r = v.call(f"{D}:get_err_vec", s, dm, f, None, gr)
    v.eq("commutator part", r[:n * n], flat(M, n))
    v.eq("gradient part", r[n * n:], gr)


def lih(v, shift=(0, 0, 0)):
    from pyscf import gto
    import numpy as np
    at = [("Li", (0, 0, 0)), ("H", (0, 0, 1.6))]
    return gto.M(atom=[(s, tuple(np.array(x) + np.array(shift))) for s, x in at], basis="sto3g", verbose=0)


@contract("P09", "converged SC/VT-QED-HF", fns=[f"{S}:kernel", f"{S}:RHF.scf", f"{S}:RHF.__init__", f"{VT}:RHF.__init__", f"{S}:RHF.initialize_eta",
                                                 f"{S}:RHF.get_cholesky"], modes=("num",), num=4, note="bounded: LiH/sto-3g, random field")
def _conv(v):
    """variational order E(VT) <= E(QED-HF), E(SC); origin invariance; stationary parameters"""
    import numpy as np
    from vc.contract import resolve
    vec = v.rng.normal(size=(1, 3)) * 0.1
    om = np.array([0.3 + v.rng.random()])
    E = {}
    for nme, cls in (("hf", "openms.mqed.qedhf:RHF"), ("sc", f"{S}:RHF"), ("vt", f"{VT}:RHF"), ("sc shifted", f"{S}:RHF"), ("vt cd", f"{VT}:RHF")):
        mf = v.call(resolve(cls), lih(v, (0.4, -0.9, 1.7) if "shifted" in nme else (0, 0, 0)), cavity_mode=vec.copy(), cavity_freq=om.copy())
        mf.verbose, mf.max_cycle, mf.conv_tol = 0, 300, 1e-10
        if "cd" in nme:
            mf.CD_anyway, mf.CD_thresh = True, 1e-10
        v.method(mf, "kernel")
        if not mf.converged:
            raise Reject("not converged")
        E[nme] = mf.e_tot
        if nme == "vt":
            v.true("parameters stationary", np.max(np.abs(mf.eta_grad)) < 1e-3 and abs(mf.vlf_grad[0]) < 1e-3)
    v.true(f"VT not above QED-HF {E}", E["vt"] <= E["hf"] + 1e-6)
    v.true(f"VT not above SC {E}", E["vt"] <= E["sc"] + 1e-6)
    v.true(f"SC origin invariant {E}", abs(E["sc"] - E["sc shifted"]) < 1e-6)
    v.true(f"Cholesky energy {E}", abs(E["vt"] - E["vt cd"]) < 1e-5)
