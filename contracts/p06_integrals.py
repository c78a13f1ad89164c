"""P06: the factorised Hamiltonian reproduces the original one."""
from vc.contract import contract, Violation, Reject

M = "openms.qmc.tools"


def norm3(v, g, m):
    """Frobenius norm of slice m, as written by numpy.linalg.norm"""
    return v.sqrt(v.real(v.einsum("pq,pq->", g[m], v.conj(g[m])))) if not v.sym else v.call("numpy:linalg.norm", g[m])


@contract("P06", "bilinear_decomposition", fns=[f"{M}:bilinear_decomposition"], note="1..3 photon modes enumerated, all orbital dimensions")
def _bil(v):
    """sum_k (e_k + b_k X)^2/2 = (A g)(B X): the squares cancel and the cross terms add up; couplings below 1e-10 are dropped"""
    nm = v.choose("nm", (1, 2, 3))
    n = v.dim("n")
    sch = v.choose("scheme", (1, 2))
    A, B = v.tensor("A", (nm,), pos=True), v.tensor("B", (nm,), pos=True)
    g = v.tensor("g", (nm, n, n))
    e, b = v.call(f"{M}:bilinear_decomposition", A, B, g, sch)
    nk = {1: 3, 2: 2}[sch]
    Lg = v.einsum("mpq,m->mpq", g, A)
    v.eq("number of fields", e.shape[0], nk * nm)
    for m in range(nm):
        on = v.ind(v.call("numpy:linalg.norm", Lg[m]) > 1.0e-10)
        sl = slice(m * nk, (m + 1) * nk)
        em, bm = e[sl], b[sl]
        v.eq(f"cross term of mode {m}", v.einsum("kpq,k->pq", em, bm), on * B[m] * Lg[m])
        v.eq(f"electron squares cancel, mode {m}", v.einsum("kpq,krs->pqrs", em, em), v.zeros((n, n, n, n)))
        v.eq(f"photon squares cancel, mode {m}", v.einsum("k,k->", bm, bm), 0.0)


def psd_eri(v, n, rank):
    import numpy as np
    L = v.rng.normal(size=(rank, n, n))
    L = L + L.transpose(0, 2, 1)
    return np.einsum("gpq,grs->pqrs", L, L), L


@contract("P06", "chols_full", fns=[f"{M}:chols_full"], modes=("num",), num=20, note="bounded: up to 4 orbitals, singular value decomposition is external")
def _full(v):
    """sum_g L_g L_g = eri (+ sum_n g_n g_n), and what is dropped is below the threshold"""
    import numpy as np
    n = v.dim("n", hi=4)
    eri, L = psd_eri(v, n, v.dim("rank", hi=5))
    g = v.rng.normal(size=(v.dim("ng", hi=3), n, n)) if v.boolean("g") else None
    if g is not None:
        g = g + g.transpose(0, 2, 1)
    thr = v.choose("thr", (1e-12, 1e-6, 1.0))
    keep = eri.copy()
    r = v.call(f"{M}:chols_full", None, eri=eri, thresh=thr, g=g)
    ref = keep + (np.einsum("npq,nrs->pqrs", g, g) if g is not None else 0.0)
    err = np.einsum("gpq,grs->pqrs", r, r) - ref
    sv = np.linalg.svd(ref.reshape(n * n, n * n))[1]
    v.eq("number of vectors", r.shape, (int(np.sum(sv > thr)), n, n))
    d = np.linalg.norm(err.reshape(n * n, n * n), 2)
    v.true(f"reconstruction error {d:.2e} below the threshold", d <= thr * 1.0001 + 1e-9 * max(1.0, sv[0]))
    v.eq("caller's integrals untouched", eri, keep)


class FakeMol:
    """molecule stand-in: shells of size 2l+1, integrals from a given tensor"""
    verbose = 0

    def __init__(self, eri, ls, h, S, enuc):
        import numpy as np
        self.eri, self.ls, self.h, self.S, self.enuc = eri, ls, h, S, enuc
        self.off = np.concatenate(([0], np.cumsum([(2 * l + 1) * c for l, c in ls])))
        self.nbas = len(ls)

    def nao_nr(self):
        return int(self.off[-1])

    nao = property(nao_nr)

    def bas_angular(self, i):
        return self.ls[i][0]

    def bas_nctr(self, i):
        return self.ls[i][1]

    def ao_loc_nr(self):
        return self.off

    def intor(self, name, shls_slice=None, aosym="s1", **kw):
        if name.startswith("int1e_ovlp"):
            return self.S.copy()
        s = shls_slice or (0, self.nbas) * 4
        o = self.off
        return self.eri[o[s[0]]:o[s[1]], o[s[2]]:o[s[3]], o[s[4]]:o[s[5]], o[s[6]]:o[s[7]]].copy()

    def energy_nuc(self):
        return self.enuc


def fakemol(v):
    import numpy as np
    ls = [(int(v.rng.integers(0, 2)), int(v.rng.integers(1, 3))) for _ in range(v.dim("nbas", hi=3))]
    n = sum((2 * l + 1) * c for l, c in ls)
    while n > 7:
        l, c = ls.pop()
        n -= (2 * l + 1) * c
    eri, L = psd_eri(v, n, v.dim("rank", lo=1, hi=10))
    h = v.rng.normal(size=(n, n))
    S = v.rng.normal(size=(n, n)) * 0.2
    return FakeMol(eri, ls, h + h.T, S @ S.T + np.eye(n), float(v.rng.normal())), n


@contract("P06", "chols_blocked", fns=[f"{M}:chols_blocked", f"{M}:_compute_eri_chunk", f"{M}:_find_shell"], modes=("num",), num=30,
          note="bounded: up to 7 orbitals in up to 3 shells")
def _blk(v):
    """the on-the-fly decomposition reproduces eri + sum_n g_n g_n element by element to the threshold"""
    import numpy as np
    mol, n = fakemol(v)
    g = None
    if v.boolean("g"):
        g = v.rng.normal(size=(v.dim("ng", hi=3), n, n))
        g = g + g.transpose(0, 2, 1)
    thr = v.choose("thr", (1e-6, 1e-3, 1e-8))
    if v.boolean("short"):
        r = v.call(f"{M}:chols_blocked", mol, thresh=1e-12, max_chol_fac=1, g=g)
        v.true("at most the allowed number of vectors", r.shape[0] <= n)
        d = np.einsum("pqpq->pq", mol.eri) + (np.einsum("npq,npq->pq", g, g) if g is not None else 0.0) - np.einsum("gpq,gpq->pq", r, r)
        v.true("truncated decomposition never exceeds the diagonal", np.min(d) > -1e-7 * (1 + np.max(np.abs(mol.eri))))
        return
    r = v.call(f"{M}:chols_blocked", mol, thresh=thr, max_chol_fac=15, g=g)
    ref = mol.eri + (np.einsum("npq,nrs->pqrs", g, g) if g is not None else 0.0)
    err = np.max(np.abs(np.einsum("gpq,grs->pqrs", r, r) - ref))
    v.true(f"max element error {err:.2e} within the threshold", err <= 2 * thr + 1e-9 * np.max(np.abs(ref)))
    v.true("no more vectors than matrix elements", r.shape[0] <= n * n)


@contract("P06", "_compute_eri_chunk", fns=[f"{M}:_compute_eri_chunk", f"{M}:_find_shell"], modes=("num",), num=20, note="bounded")
def _chunk(v):
    """one column (..|jl) of the modified integral matrix, scaled"""
    import numpy as np
    mol, n = fakemol(v)
    g = v.rng.normal(size=(v.dim("ng", hi=3), n, n)) if v.boolean("g") else None
    j, l, d = v.index("j", n), v.index("l", n), v.scalar("d", pos=True)
    sj, sl = v.call(f"{M}:_find_shell", list(mol.off), j, l)
    v.true("shell of j", mol.off[sj] <= j < mol.off[sj + 1])
    v.true("shell of l", mol.off[sl] <= l < mol.off[sl + 1])
    r = v.call(f"{M}:_compute_eri_chunk", mol, n, sj, sl, list(mol.off), j, l, d, g)
    ref = mol.eri[:, :, j, l] + (np.einsum("n,npq->pq", g[:, j, l], g) if g is not None else 0.0)
    v.eq("column", r, ref.reshape(-1) / np.sqrt(d))


@contract("P06", "get_h1e_chols", fns=[f"{M}:get_h1e_chols"])
def _ghc(v):
    """one-body matrix, vectors and nuclear energy are those of the molecule in the given orthogonal basis"""
    n, m, ng = v.dim("n"), v.dim("m", hi=3), v.dim("ng", hi=3)
    X = v.tensor("X", (n, n))
    h = v.tensor("hcore", (n, n), sym="ij")
    L = v.tensor("L", (ng, n, n), sym="last2")
    L0 = v.copy(L)
    v.modifies("L")
    en = v.scalar("enuc")
    v.override("pyscf.scf.hf:get_hcore", lambda mol: h)
    blk = v.boolean("blocked")
    bad = lambda *a, **k: v.zeros((1, n, n))
    v.override(f"{M}:chols_blocked", (lambda mol, thresh=None, max_chol_fac=None, g=None: L) if blk else bad)
    v.override(f"{M}:chols_full", (lambda mol, thresh=None, g=None: L) if not blk else bad)
    mol = v.obj(None, verbose=0, energy_nuc=v.stub(lambda: en))
    r = v.call(f"{M}:get_h1e_chols", mol, Xmat=X, thresh=1e-6, g=None, block_decompose_eri=blk)
    v.eq("one-body", r[0], v.einsum("ki,kl,lj->ij", X, h, X))
    v.eq("two-body", r[1], v.einsum("ki,gkl,lj->gij", X, L0, X))
    v.eq("nuclear", r[2], en)


Q = "openms.qmc.qmc"


@contract("P06", "QMC get_integrals", fns=[f"{Q}:QMCbase.get_integrals"])
def _gi(v):
    """one-body matrix gets the dipole self energy, the fields contain the couplings, bilinear couplings carry sqrt(omega/2)"""
    n, ng = v.dim("n"), v.dim("ng", hi=3)
    nc = v.choose("nc", (1, 2))
    nm = v.choose("nm", (1, 2))
    bos = v.boolean("boson")
    dec = v.choose("decouple", (0, 1, 2)) if bos else 0
    X = v.tensor("X", (n, n))
    h = v.tensor("hO", (n, n), sym="ij")
    L = v.tensor("L", (ng, n, n), sym="last2")
    g = v.tensor("gmat", (nm, n, n), sym="last2")
    om = v.tensor("om", (nm,), pos=True)
    en = v.scalar("enuc")
    v.override("pyscf.scf.hf:get_hcore", lambda mol: h)
    v.override(f"{M}:get_h1e_chols", lambda mol, Xmat=None, thresh=None, g=None, block_decompose_eri=False: (h, L, en))
    v.override("scipy.linalg:eigh", lambda a: (a, a))
    sys = v.obj(None, gmat=g, boson_freq=om, nmodes=nm, verbose=0)
    q = v.obj(f"{Q}:QMCbase", mol=sys, system=sys, OAO=False, mf=v.obj(None, mo_coeff=X), fbinteraction=bos, merge_g2eri=False,
              chol_thresh=1e-6, block_decompose_eri=False, ncomponents=nc, verbose=0, stdout=None,
              trial=v.obj(None, Gf=v.tensor("Gf", (2, n, n))), geb=None, chol_bilinear=None,
              propagator_options=dict(decouple_bilinear=dec > 0, decouple_scheme=dec or 1, turnoff_bosons=False))
    h1, lt = v.method(q, "get_integrals")
    v.eq("nuclear energy", v.get(q, "nuc_energy"), en)
    one = v.comp((nc,), lambda s: 1.0)
    if not bos:
        v.eq("one-body", h1, v.einsum("s,pq->spq", one, h))
        v.eq("fields", lt, L)
        return
    gO = v.einsum("ki,mkl,lj->mij", X, g, X)
    v.eq("one-body with self energy", h1, v.einsum("s,pq->spq", one, h + 0.5 * v.einsum("mpq,mqs->ps", gO, gO)))
    v.eq("bare fields", lt[:ng], L)
    v.eq("self-energy fields", lt[ng:ng + nm], gO)
    v.eq("bare field count", v.get(q, "nbarefields"), ng + nm)
    v.eq("bilinear coupling", v.get(q, "geb"), v.einsum("mpq,m->mpq", gO, v.sqrt(0.5 * om)))
    v.eq("field count", v.get(q, "nfields"), lt.shape[0])
    if dec:
        cb = v.get(q, "chol_bilinear")
        nk = {1: 3, 2: 2}[dec]
        v.eq("fields end with the electronic bilinear part", lt[ng + nm:], cb[0])
        for m in range(nm):
            on = v.ind(v.call("numpy:linalg.norm", gO[m]) > 1.0e-10)
            v.eq(f"bilinear term of mode {m}", v.einsum("kpq,k->pq", cb[0][m * nk:(m + 1) * nk], cb[1][m * nk:(m + 1) * nk]),
                 on * v.sqrt(0.5 * om[m]) * gO[m])


@contract("P06", "integrals read from a dump", fns=[f"{M}:read_fcidump"], modes=("num",), num=12, note="bounded: up to 5 orbitals; dump written by pyscf with 4- or 8-fold symmetry")
def _dump(v):
    import numpy as np, os, tempfile
    from pyscf import ao2mo
    from pyscf.tools import fcidump
    n = v.dim("n", hi=5)
    eri = v.rng.normal(size=(n,) * 4)
    eri = sum(eri.transpose(p) for p in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 0, 1), (2, 3, 1, 0), (3, 2, 1, 0)))
    h = v.rng.normal(size=(n, n))
    h = h + h.T
    nuc = float(v.rng.normal())
    fold = v.choose("fold", (4, 8))
    fd, name = tempfile.mkstemp(prefix="verif_fcidump")
    os.close(fd)
    try:
        fcidump.from_integrals(name, h, ao2mo.restore(fold, eri, n), n, 2, nuc, 0)
        a, b, c = v.call(f"{M}:read_fcidump", name, n)
    finally:
        os.unlink(name)
    v.eq("one-electron integrals", a, h, tol=1e-8)
    v.eq("two-electron integrals", b, eri, tol=1e-8)
    v.eq("nuclear repulsion", c, nuc, tol=1e-8)
