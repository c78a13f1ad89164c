"""P11: post-mean-field integrals of the electron-photon Hamiltonian: spin-orbital blocks, Fock matrix, couplings, FCI integrals."""
from vc.contract import contract, Violation, Reject

B = "openms.lib.boson"
O = "openms.lib.ov_blocks"


def blocks(v, label, M, a, b, ra, ca):
    """M is block diagonal with blocks a (ra x ca) and b"""
    v.eq(label + " aa", M[:ra, :ca], a)
    v.eq(label + " bb", M[ra:, ca:], b)
    v.eq(label + " ab", M[:ra, ca:], 0.0 * M[:ra, ca:])
    v.eq(label + " ba", M[ra:, :ca], 0.0 * M[ra:, :ca])


@contract("P11", "block_diag", fns=[f"{O}:block_diag"])
def _bd(v):
    a, b, c, d = v.dim("a"), v.dim("b"), v.dim("c"), v.dim("d")
    A, B_ = v.tensor("A", (a, b)), v.tensor("B", (c, d))
    M = v.call(f"{O}:block_diag", A, B_)
    blocks(v, "block", M, A, B_, a, b)
    v.eq("rows", M.shape[0], a + c)
    v.eq("columns", M.shape[1], b + d)


FULL = "vvvv vvvo vvov vovv ovvv vvoo vovo ovvo voov ovov oovv vooo ovoo oovo ooov oooo".split()
PART = "vvvv vvvo vovv vvoo vovo oovv vooo ooov oooo".split()


def _blk(v, full):
    o = [v.dim(f"o{k}", hi=3) for k in range(4)]
    w = [v.dim(f"w{k}", hi=3) for k in range(4)]
    T = v.tensor("T", tuple(x + y for x, y in zip(o, w)))
    args = []
    for x, y in zip(o, w):
        args += [x, y]
    r = v.call(f"{O}:" + ("make_two_e_blocks_full" if full else "make_two_e_blocks"), T, *args)
    for nm in FULL if full else PART:
        s = tuple(slice(0, o[k]) if c == "o" else slice(o[k], o[k] + w[k]) for k, c in enumerate(nm))
        v.eq(nm, v.get(r, nm), T[s])


@contract("P11", "two-electron blocks", fns=[f"{O}:make_two_e_blocks", f"{O}:two_e_blocks_full.__init__"])
def _b1(v):
    _blk(v, False)


@contract("P11", "two-electron blocks, all", fns=[f"{O}:make_two_e_blocks_full", f"{O}:two_e_blocks_full.__init__"])
def _b2(v):
    _blk(v, True)


def occ(v, n, k, val):
    return v.comp((n,), lambda i: val * v.ind(i < k))


@contract("P11", "molecular orbitals and densities", fns=[f"{B}:Photon.get_mos"])
def _mos(v):
    n = v.dim("n")
    uhf, fresh = v.boolean("uhf"), v.boolean("fresh")
    na, nb = v.dim("na", hi=4), v.dim("nb", hi=4)
    for x in (na, nb):
        _le(v, x, n)
    mol = v.obj(None, nao_nr=v.stub(lambda: n))
    if uhf:
        C = v.tensor("C", (2, n, n))
        mo = v.arr([occ(v, n, na, 1.0), occ(v, n, nb, 1.0)])
        ca, cb = C[0], C[1]
    else:
        C = v.tensor("C", (n, n))
        mo = occ(v, n, na, 2.0)
        ca = cb = C
        nb = na
    mf = v.obj(None, mo_coeff=None if fresh else C, mo_occ=mo)
    ran = []
    v.set(mf, "kernel", v.stub(lambda: (ran.append(1), v.set(mf, "mo_coeff", C))[0]))
    p = v.obj(f"{B}:Photon", _mf=mf, _mol=mol, nmo=None)
    v.method(p, "get_mos")
    v.true("mean field solved when needed", len(ran) == (1 if fresh else 0))
    v.eq("spin orbitals", v.get(p, "nmo"), 2 * n)
    v.eq("alpha electrons", v.get(p, "na"), na)
    v.eq("beta electrons", v.get(p, "nb"), nb)
    v.eq("alpha orbitals", v.get(p, "ca"), ca)
    v.eq("beta orbitals", v.get(p, "cb"), cb)
    pa, pb = v.einsum("pi,qi->pq", ca[:, :na], ca[:, :na]), v.einsum("pi,qi->pq", cb[:, :nb], cb[:, :nb])
    v.eq("alpha density", v.get(p, "pa"), pa)
    v.eq("beta density", v.get(p, "pb"), pb)
    blocks(v, "total density", v.get(p, "ptot"), pa, pb, n, n)


def _le(v, a, b):
    """assume a <= b"""
    if v.sym:
        from vc.sym import S, to_ix
        S.fact(to_ix(b) - to_ix(a))
    elif a > b:
        raise Reject()


def post(v, n, nm, shift, lazy=False, **kw):
    na, nb = v.dim("na", hi=3), v.dim("nb", hi=3)
    for x in (na, nb):
        _le(v, x, n)
    ca, cb = v.tensor("ca", (n, n)), v.tensor("cb", (n, n))
    pa, pb = v.einsum("pi,qi->pq", ca[:, :na], ca[:, :na]), v.einsum("pi,qi->pq", cb[:, :nb], cb[:, :nb])
    om, g = v.tensor("om", (nm,), pos=True), v.tensor("g", (nm, n, n), sym="last2")
    h = v.tensor("h", (n, n), sym="ij")
    mf = v.obj(None, get_hcore=v.stub(lambda mol=None, dm=None: h), energy_nuc=v.stub(lambda: v_enuc))
    v_enuc = v.scalar("enuc")
    d = dict(na=na, nb=nb, ca=ca, cb=cb, pa=pa, pb=pb, omega=om, gmat=g, nmodes=nm, shift=shift, nmo=2 * n, verbose=0, stdout=None,
             _mf=mf, _mol=v.obj(None), dipole_ao=1, quadrupole_ao=1)
    d.update(kw)
    p = v.obj(f"{B}:Photon", **d)
    if lazy and v.boolean("lazy"):
        # orbitals not set up yet: the method has to obtain them first
        k = ("ca", "cb", "pa", "pb", "na", "nb", "nmo") + (("ptot",) if "couplings" in kw else ())

        def mos():
            for x in k:
                v.set(p, x, d[x])
        for x in k:
            v.set(p, x, None)
        v.set(p, "get_mos", v.stub(mos))
    return p, d, h, v_enuc


def so(v, n, nm, d):
    """spin-orbital coupling with the bilinear prefactor, as one (nm,2n,2n) tensor"""
    g = d["gmat"]
    z = v.zeros((nm, 2 * n, 2 * n)) if v.sym else __import__("numpy").zeros((nm, 2 * n, 2 * n))
    w = v.einsum("X,Xpq->Xpq", v.sqrt(0.5 * d["omega"]), g)
    z[:, :n, :n] = w
    z[:, n:, n:] = w
    return z


def bd(v, a, b):
    ra, ca, rb, cb = a.shape[0], a.shape[1], b.shape[0], b.shape[1]
    z = v.zeros((ra + rb, ca + cb)) if v.sym else __import__("numpy").zeros((ra + rb, ca + cb))
    z[:ra, :ca] = a
    z[ra:, ca:] = b
    return z


@contract("P11", "spin-orbital coupling", fns=[f"{B}:Photon.get_gmat_so"], note="1..3 photon modes enumerated")
def _gso(v):
    """bilinear coupling sqrt(w/2) g for both spins; displacement and energy constant of the shifted representation"""
    n, nm = v.dim("n", hi=3), v.choose("nm", (1, 2, 3))
    shift = v.boolean("shift")
    p, d, h, en = post(v, n, nm, shift, True, couplings=v.tensor("lam", (nm,)), vec=v.tensor("vec", (nm, 3)), boson_type="Photon")
    P = bd(v, d["pa"], d["pb"])
    d["ptot"] = P
    if v.get(p, "pa") is not None:
        v.set(p, "ptot", P)
    v.set(p, "dipole_ao", v.tensor("D", (3, n, n)))
    v.true("chained", v.method(p, "get_gmat_so") is p)
    G = so(v, n, nm, d)
    v.eq("coupling", v.get(p, "gmatso"), G)
    if shift:
        xi = v.einsum("Xpq,pq,X->X", G, P, 1.0 / d["omega"])
        v.eq("displacement", v.get(p, "xi"), xi)
        v.eq("energy constant", v.get(p, "const"), -1.0 * v.einsum("X,X,X->", d["omega"], xi, xi))


def jk_stub(v, n, W, X):
    """contract of pyscf ghf.get_jk on the mean-field object's JK builder: linear in the density, Coulomb from both spins, exchange per spin block"""
    def get_jk(mol, dm=None, hermi=0, with_j=True, with_k=True, jkbuild=None, omega=None):
        J = v.einsum("pqrs,rs->pq", W, dm[:n, :n] + dm[n:, n:])
        K = v.zeros((2 * n, 2 * n)) if v.sym else __import__("numpy").zeros((2 * n, 2 * n))
        K[:n, :n] = v.einsum("prqs,rs->pq", X, dm[:n, :n])
        K[n:, n:] = v.einsum("prqs,rs->pq", X, dm[n:, n:])
        K[:n, n:] = v.einsum("prqs,rs->pq", X, dm[:n, n:])
        K[n:, :n] = v.einsum("prqs,rs->pq", X, dm[n:, :n])
        return bd(v, J, J), K
    return get_jk


def fock_setup(v):
    n, nm = v.dim("n", hi=3), 1
    shift = v.boolean("shift")
    p, d, h, en = post(v, n, nm, shift)
    W = v.tensor("W", (n, n, n, n))
    L = v.tensor("L", (n, n, n, n))
    oei = lambda dm, **k: v.einsum("pqrs,rs->pq", L, dm)
    v.set(p, "add_oei_ao", v.stub(oei))
    v.set(d["_mf"], "get_jk", v.stub(lambda *a, **k: None))
    v.override("pyscf.scf.ghf:get_jk", jk_stub(v, n, W, W))
    pa, pb = d["pa"], d["pb"]
    o = oei(pa + pb)
    J = v.einsum("pqrs,rs->pq", W, pa + pb)
    t = h + o if not shift else h
    Fa, Fb = t + J - v.einsum("prqs,rs->pq", W, pa), t + J - v.einsum("prqs,rs->pq", W, pb)
    return n, shift, p, d, h, en, t, Fa, Fb


@contract("P11", "spin-orbital Fock matrix", fns=[f"{B}:Photon.fock", f"{B}:Photon.tmat"], note="JK builder and one-electron self energy by contract (linear in the density)")
def _fock(v):
    """core + self-energy one-electron part + J - K, for each spin; the mean-field object's core Hamiltonian is left alone"""
    n, shift, p, d, h, en, t, Fa, Fb = fock_setup(v)
    blocks(v, "Fock", v.method(p, "fock"), Fa, Fb, n, n)
    blocks(v, "core", v.method(p, "tmat"), h, h, n, n)


@contract("P11", "mean-field energy from spin-orbital Fock", fns=[f"{B}:Photon.hf_energy"])
def _hfe(v):
    n, shift, p, d, h, en, t, Fa, Fb = fock_setup(v)
    c = v.scalar("const")
    v.set(p, "const", c)
    e = 0.5 * (v.einsum("pq,qp->", d["pa"], Fa + t) + v.einsum("pq,qp->", d["pb"], Fb + t)) + en
    v.eq("energy", v.method(p, "hf_energy"), e + c if shift else e)


def mo_blocks(v, d, n, M):
    """oo/ov/vo/vv blocks of C^T M C for a spin-orbital matrix M, C block diagonal in spin"""
    na, nb = d["na"], d["nb"]
    X = lambda C, k, q: C[:, :k] if q == 0 else C[:, k:]
    P = (slice(0, n), slice(n, 2 * n))
    out = {}
    for nm_, s, u in (("oo", 0, 0), ("ov", 0, 1), ("vo", 1, 0), ("vv", 1, 1)):
        L, R = (X(d["ca"], na, s), X(d["cb"], nb, s)), (X(d["ca"], na, u), X(d["cb"], nb, u))
        out[nm_] = [[v.einsum("pi,pq,qj->ij", L[x], M[P[x], P[y]], R[y]) for y in (0, 1)] for x in (0, 1)]
    return out


def check_blocks(v, label, r, d, n, M):
    na = d["na"]
    for nm_, b in mo_blocks(v, d, n, M).items():
        A = r(nm_)
        ra, ca = (na if c == "o" else n - na for c in nm_)
        v.eq(f"{label}{nm_} aa", A[:ra, :ca], b[0][0])
        v.eq(f"{label}{nm_} ab", A[:ra, ca:], b[0][1])
        v.eq(f"{label}{nm_} ba", A[ra:, :ca], b[1][0])
        v.eq(f"{label}{nm_} bb", A[ra:, ca:], b[1][1])


@contract("P11", "Fock blocks in molecular orbitals", fns=[f"{B}:Photon.g_fock"], note="1..3 photon modes enumerated; spin-orbital Fock matrix by contract")
def _gf(v):
    n, nm = v.dim("n", hi=3), v.choose("nm", (1, 2, 3))
    shift = v.boolean("shift")
    p, d, h, en = post(v, n, nm, shift, True)
    F, G, xi = v.tensor("F", (2 * n, 2 * n)), v.tensor("G", (nm, 2 * n, 2 * n)), v.tensor("xi", (nm,))
    for k, x in (("gmatso", G), ("xi", xi), ("fock", v.stub(lambda: F))):
        v.set(p, k, x)
    r = v.method(p, "g_fock")
    check_blocks(v, "", lambda k: v.get(r, k), d, n, F - 2.0 * v.einsum("X,Xpq->pq", xi, G) if shift else F)


@contract("P11", "coupling blocks in molecular orbitals", fns=[f"{B}:Photon.gint"], note="1..3 photon modes enumerated")
def _gint(v):
    n, nm = v.dim("n", hi=3), v.choose("nm", (1, 2, 3))
    p, d, h, en = post(v, n, nm, False, True)
    G = v.tensor("G", (nm, 2 * n, 2 * n))
    v.set(p, "gmatso", G)
    r = v.method(p, "gint")
    for k in (0, 1):
        for a in range(nm):
            check_blocks(v, f"mode {a} part {k} ", lambda x: v.get(r[k], x)[a], d, n, G[a])


@contract("P11", "mean-field coupling", fns=[f"{B}:Photon.mfG"], note="1..3 photon modes enumerated")
def _mfg(v):
    n, nm = v.dim("n", hi=3), v.choose("nm", (1, 2, 3))
    shift = v.boolean("shift")
    p, d, h, en = post(v, n, nm, shift, True)
    G = v.tensor("G", (nm, 2 * n, 2 * n))
    v.set(p, "gmatso", G)
    m = v.method(p, "mfG")
    ex = v.zeros((nm,)) if shift else v.einsum("Xpq,qp->X", G[:, :n, :n], d["pa"]) + v.einsum("Xpq,qp->X", G[:, n:, n:], d["pb"])
    v.eq("annihilation", m[0], ex)
    v.eq("creation", m[1], ex)


def int2e(v, n, nm):
    """antisymmetrised spin-orbital integrals of eri + sum g g in blocked spin order (all alpha, all beta)"""
    p, d, h, en = post(v, n, nm, False, True)
    e = v.tensor("eri", (n, n, n, n))
    calls = []
    v.set(d["_mol"], "intor", v.stub(lambda nm_, **k: (calls.append(nm_), v.copy(e) if v.sym else e.copy())[1]))

    R = v.tensor("R", (2 * n,) * 4) if v.sym else None

    def general(er, Cs, **k):
        """contract of the pyscf integral transformation: arguments recorded, result abstract"""
        v.eq("interaction handed to the transformation", er, full)
        v.eq("orbitals handed to the transformation", Cs[0], C2)
        v.true("all four indices", all(c is Cs[0] for c in Cs) and k.get("compact") is False)
        return v.copy(R)
    if v.sym:
        v.override("pyscf.ao2mo:general", general)
        C2 = v.zeros((n, 2 * n))
        C2[:, :n] = d["ca"]
        C2[:, n:] = d["cb"]
    full = e + v.einsum("Xpq,Xrs->pqrs", d["gmat"], d["gmat"])
    C = (d["ca"], d["cb"])

    def el(*sp):
        """chemist integral (i s1, k s1 | j s2, l s2) of spatial-orbital blocks"""
        if v.sym:
            return R[tuple(slice(0, n) if x == 0 else slice(n, 2 * n) for x in sp)]
        return v.einsum("pqrs,pi,qj,rk,sl->ijkl", full, *[C[s] for s in sp])

    def asym(s):
        """<pq||rs> for the spin labels s: (pr|qs) - (ps|qr)"""
        r = 0.0 * e
        if s[0] == s[2] and s[1] == s[3]:
            r = r + v.transpose(el(s[0], s[2], s[1], s[3]), (0, 2, 1, 3))
        if s[0] == s[3] and s[1] == s[2]:
            r = r - v.transpose(el(s[0], s[3], s[1], s[2]), (0, 2, 3, 1))
        return r
    return p, d, asym


@contract("P11", "antisymmetrised two-electron integrals", fns=[f"{B}:Photon.get_I"], note="1..3 photon modes enumerated; pyscf integral transformation by contract")
def _I(v):
    """<pq||rs> of the Coulomb plus dipole self-energy interaction in spin orbitals, zero unless spin is conserved"""
    n, nm = v.dim("n", hi=3), v.choose("nm", (1, 2, 3))
    p, d, asym = int2e(v, n, nm)
    U = v.method(p, "get_I", True)
    for k in range(16):
        s = [(k >> b) & 1 for b in range(4)]
        v.eq("block " + "".join("ab"[x] for x in s), U[tuple(slice(0, n) if x == 0 else slice(n, 2 * n) for x in s)], asym(s))


@contract("P11", "two-electron integral blocks", fns=[f"{B}:Photon.get_I", f"{O}:two_e_blocks.__init__"], modes=("num",), num=20, note="bounded: at most 4 orbitals")
def _Ib(v):
    import numpy as np
    n, nm = v.dim("n", hi=4), v.choose("nm", (1, 2))
    p, d, asym = int2e(v, n, nm)
    U = np.zeros((2 * n,) * 4)
    for k in range(16):
        s = [(k >> b) & 1 for b in range(4)]
        U[tuple(slice(0, n) if x == 0 else slice(n, 2 * n) for x in s)] = asym(s)
    ix = dict(o=list(range(d["na"])) + list(range(n, n + d["nb"])), v=list(range(d["na"], n)) + list(range(n + d["nb"], 2 * n)))
    r = v.method(p, "get_I")
    for nm_ in PART:
        v.eq(nm_, v.get(r, nm_), U[np.ix_(*[ix[c] for c in nm_])])


MOLS = ("H 0 0 0; H 0 0 0.9", "H 0.2 0.1 0; F 0 0.3 1.1", "Li 0 0.4 0; H 0.3 0 1.5")


def _mol(v):
    from pyscf import gto
    return gto.M(atom=v.choose("mol", MOLS), basis="sto3g", verbose=0)


@contract("P11", "dipole and quadrupole integrals", fns=[f"{B}:get_dipole_ao", f"{B}:get_quadrupole_ao", f"{B}:Photon.get_dipole_ao", f"{B}:Photon.get_quadrupole_ao"],
          modes=("num",), num=12, note="bounded: three molecules, external integral library")
def _dip(v):
    """electronic dipole -r and second moment -rr about the chosen origin (nuclear charge centre, shifted)"""
    import numpy as np
    mol = _mol(v)
    nuc, sh = v.boolean("nuc"), v.boolean("shift")
    s = v.tensor("s", (3,)) if sh else None
    Z = mol.atom_charges()
    R = (Z @ mol.atom_coords() / Z.sum() if nuc else np.zeros(3)) - (s if sh else 0.0)
    S, r, rr = mol.intor("int1e_ovlp"), mol.intor("int1e_r"), mol.intor("int1e_rr")
    D = -(r - np.einsum("x,pq->xpq", R, S))
    Q = np.empty_like(rr)
    for a in range(3):
        for b in range(3):
            Q[3 * a + b] = -(rr[3 * a + b] - R[a] * r[b] - R[b] * r[a] + R[a] * R[b] * S)
    if v.boolean("method"):
        p = v.obj(f"{B}:Photon", _mol=mol, add_nuc_dipole=nuc, origin_shift=s)
        v.eq("dipole", v.method(p, "get_dipole_ao"), D)
        v.eq("quadrupole", v.method(p, "get_quadrupole_ao"), Q)
    else:
        v.eq("dipole", v.call(f"{B}:get_dipole_ao", mol, add_nuc_dipole=nuc, origin_shift=s), D)
        v.eq("quadrupole", v.call(f"{B}:get_quadrupole_ao", mol, add_nuc_dipole=nuc, origin_shift=s), Q)
    v.eq("origin restored", mol.intor("int1e_r"), r)


@contract("P11", "integrals for FCI", fns=[f"{B}:get_integrals4fci", f"{B}:transform_ao2mo"], modes=("num",), num=12, note="bounded: three molecules, 1..2 modes, external integral library")
def _fci(v):
    """Pauli-Fierz integrals in the symmetrically orthogonalised basis, self energy in one- and two-electron parts"""
    import numpy as np
    from pyscf import scf
    mol = _mol(v)
    nm = v.choose("nm", (1, 2))
    om = v.tensor("om", (nm,), pos=True)
    vec = v.tensor("vec", (nm, 3), lo=-0.3, hi=0.3)
    ch = v.choose("chol", (None, 1e-12))
    vin = vec.copy()
    en, S1, h1, e2, hep, dm = v.call(f"{B}:get_integrals4fci", mol, om, vin, chol_thresh=ch)
    S = mol.intor("int1e_ovlp")
    w, u = np.linalg.eigh(S)
    X = u @ np.diag(w ** -0.5) @ u.T
    Xi = u @ np.diag(w ** 0.5) @ u.T
    D = v.call(f"{B}:get_dipole_ao", mol)
    lam = np.sqrt(np.einsum("Xc,Xc->X", vec, vec))
    g = np.einsum("Xc,cpq->Xpq", vec, D)
    n = len(S)
    g = np.einsum("Xpq,pi,qj->Xij", g, X, X)
    v.eq("nuclear energy", en, mol.energy_nuc())
    v.eq("orthogonal basis", S1, np.eye(n))
    h = scf.hf.get_hcore(mol)
    v.eq("one-electron", h1, X @ h @ X + 0.5 * np.einsum("Xpr,Xrq->pq", g, g))
    eri = np.einsum("pqrs,pi,qj,rk,sl->ijkl", mol.intor("int2e"), X, X, X, X)
    v.eq("two-electron", np.asarray(e2).reshape((n,) * 4), eri + np.einsum("Xpq,Xrs->pqrs", g, g), tol=1e-6)
    v.eq("bilinear", hep, np.einsum("X,Xpq->Xpq", np.sqrt(om / 2), g))
    v.eq("starting density", dm, Xi @ scf.hf.get_init_guess(mol) @ Xi)


@contract("P11", "solved mean field in spin orbitals", fns=[f"{B}:Photon.hf_energy", f"{B}:Photon.g_fock", f"{B}:Photon.kernel", f"{B}:Photon.get_I"],
          modes=("num",), num=6, note="bounded: three molecules, 1..2 modes")
def _solved(v):
    """the spin-orbital energy is the mean-field energy, Brillouin's condition holds, and the Fock matrix is the core plus the occupied average of the two-electron integrals"""
    import numpy as np
    from openms.mqed import qedhf
    from openms.lib.boson import Photon
    mol = _mol(v)
    nm = v.choose("nm", (1, 2))
    shift = v.boolean("shift")
    ph = Photon(mol, omega=v.tensor("om", (nm,), pos=True), vec=v.tensor("vec", (nm, 3), lo=-0.2, hi=0.2), shift=shift)
    mf = qedhf.RHF(mol, qed=ph)
    mf.max_cycle, mf.conv_tol, mf.verbose = 200, 1e-11, 0
    e = v.method(mf, "kernel")
    if not mf.converged:
        raise Reject()
    q = mf.qed
    q._mf = mf
    h0 = mf.get_hcore().copy()
    v.method(q, "kernel")
    F = v.method(q, "g_fock")
    v.eq("core Hamiltonian of the mean field untouched", mf.get_bare_hcore(mol), h0)
    v.eq("core Hamiltonian kept by the mean field", mf.bare_h1e, h0)
    I = v.method(q, "get_I", True)
    n = mol.nao_nr()
    o = list(range(q.na)) + list(range(n, n + q.nb))
    J = np.einsum("piqi->pq", I[:, o][:, :, :, o])
    C = mf.mo_coeff
    dm = mf.make_rdm1()
    h = C.T @ (h0 + (0 if shift else q.add_oei_ao(dm))) @ C
    if not shift:
        v.eq("occupied block", F.oo, np.kron(np.eye(2), h)[np.ix_(o, o)] + J[np.ix_(o, o)], tol=1e-6)
    if shift:
        v.true("shifted energy is the mean-field energy", abs(q.hf_energy() - e) < 1e-6)
    else:
        v.true("energy is the mean-field energy", abs(q.hf_energy() - e) < 1e-6)
        v.true("Brillouin condition", np.max(np.abs(F.ov)) < 1e-4 and np.max(np.abs(F.vo)) < 1e-4)
