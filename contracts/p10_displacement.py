"""P10: displacement-operator (Franck-Condon) factors of Fock-truncated photon states and their derivatives."""
import math
from fractions import Fraction
from vc.contract import contract, Violation, Reject
from contracts.p09_scvt import mf_obj, fc1, fc2

S = "openms.mqed.scqedhf"
VT = "openms.mqed.vtqedhf"
B = "openms.lib.boson"


def coeffs(m, n):
    """polynomial part of the documented matrix element: sqrt(n!/m!) (-A)^(m-n) L_n^(m-n)(A^2), m >= n, as {power: rational}, without the root"""
    m, n = max(m, n), min(m, n)
    d = m - n
    return {d + 2 * i: Fraction((-1) ** (d + i) * math.comb(m, n - i), math.factorial(i)) for i in range(n + 1)}


def root(m, n):
    m, n = max(m, n), min(m, n)
    return Fraction(math.factorial(n), math.factorial(m))


def diff(c):
    """coefficients of d/dA [p(A) exp(-A^2/2)] = (p' - A p) exp(-A^2/2)"""
    r = {}
    for k, x in c.items():
        if k:
            r[k - 1] = r.get(k - 1, 0) + k * x
        r[k + 1] = r.get(k + 1, 0) - x
    return r


def ev(v, c, A):
    r = 0.0
    for k in sorted(c):
        if c[k]:
            t = c[k].numerator / 1.0
            x = 1.0
            for _ in range(k):
                x = x * A
            r = r + x * t / float(c[k].denominator)
    return r


def sq(v, f):
    return v.sqrt(f.numerator / 1.0 + 0.0) / v.sqrt(f.denominator / 1.0 + 0.0) if f != 1 else 1.0


def photon(v, nb, **kw):
    return v.obj(f"{B}:Photon", nboson_states=list(nb), verbose=0, stdout=None, **kw)


def block(v, A, pdm, M, c=lambda m, n: coeffs(m, n), skip=()):
    """sum over Fock states of pdm[m,n] <m|D|n> (polynomial part)"""
    r = 0.0 * A
    for m in range(M):
        for n in range(M):
            if (m, n) not in skip:
                r = r + pdm[m, n] * sq(v, root(m, n)) * ev(v, c(m, n), A)
    return r


@contract("P10", "displacement matrix", fns=[f"{B}:Photon.displacement_matrix", f"{B}:Photon.displacement_exp_val", f"{B}:pack_symmetric", f"{B}:packed_index"],
          note="Fock truncation 1..4 enumerated; all displacements (1- and 2-electron) and photon density matrices")
def _dm(v):
    """stored blocks and expectation value equal the documented matrix elements, with or without the Gaussian"""
    M = v.choose("M", (1, 2, 3, 4))
    two = v.boolean("two")
    n = v.dim("n")
    A = v.tensor("A", (n, n, n, n) if two else (n, n))
    pdm = v.tensor("pdm", (M, M), sym="ij")
    g = v.boolean("gauss")
    ph = photon(v, [M])
    w = v.exp(-0.5 * A * A) if g else 1.0 + 0.0 * A
    r = v.method(ph, "displacement_matrix", 0, A, pdm, scale_by_exp=g)
    st = v.get(ph, "disp_mat_2e" if two else "disp_mat_1e")
    k = 0
    for i in range(M):
        for j in range(i + 1):
            f = 1.0 if i == j else 2.0
            v.eq("stored block", st[k], f * sq(v, root(i, j)) * ev(v, coeffs(i, j), A) * w + 0.0 * A)
            k += 1
    ref = block(v, A, pdm, M) * w
    v.eq("expectation value", r, ref)
    v.eq("expectation value (direct)", v.method(ph, "displacement_exp_val", 0, A, pdm, scale_by_exp=g), ref)


def deriv_contract(v, adjacent):
    M = v.choose("M", (1, 2, 3, 4))
    two = v.boolean("two")
    n = v.dim("n")
    A = v.tensor("A", (n, n, n, n) if two else (n, n))
    p0 = v.tensor("pdm", (M, M), sym="ij")
    z = v.zeros((M, M))
    # only / all but the coherences between neighbouring Fock states
    keep = lambda i, j: (1.0 if (abs(i - j) == 1) == adjacent else 0.0)
    pdm = v.arr([[p0[i, j] * keep(i, j) for j in range(M)] for i in range(M)])
    ph = photon(v, [M])
    w = v.exp(-0.5 * A * A)
    ref = block(v, A, pdm, M, c=lambda m, n: diff(coeffs(m, n))) * w
    return ph, A, pdm, M, w, ref


@contract("P10", "displacement derivative", fns=[f"{B}:Photon.displacement_deriv_kernel", f"{B}:Photon.displacement_deriv", f"{B}:Photon.displacement_deriv_vt",
                                                 f"{B}:Photon.displacement_deriv_vsq"],
          note="Fock truncation 1..4 enumerated; photon densities without coherence between neighbouring Fock states (that part is a known finding)")
def _dd(v):
    """derivative along the displacement; along f and F by the chain rule (dA = A dF = A df/f)"""
    ph, A, pdm, M, w, ref = deriv_contract(v, False)
    v.eq("kernel", v.method(ph, "displacement_deriv_kernel", 0, A, pdm), ref)
    v.eq("along eta", v.method(ph, "displacement_deriv", 0, A, pdm), ref)
    v.eq("along f", v.method(ph, "displacement_deriv_vt", 0, A, pdm), ref * A)
    v.eq("along F", v.method(ph, "displacement_deriv_vsq", 0, A, pdm), ref * A)


@contract("P10", "displacement derivative, neighbouring Fock states", fns=[f"{B}:Photon.displacement_deriv_kernel"], modes=("num",), num=30,
          note="bounded: the code's known wrong form (missing derivative of (-A)^1) is told apart from any other value")
def _dn(v):
    import numpy as np
    ph, A, pdm, M, w, ref = deriv_contract(v, True)
    got = v.method(ph, "displacement_deriv_kernel", 0, A, pdm)
    if np.allclose(got, ref, rtol=1e-9, atol=1e-10):
        return
    # known: for |m-n| = 1 the derivative of the power (-A)^1 is left out
    miss = 0.0 * A
    for m in range(1, M):
        miss = miss + 2.0 * pdm[m, m - 1] * math.sqrt(1.0 / m) * ev(v, {2 * i: Fraction((-1) ** i * math.comb(m, m - 1 - i), math.factorial(i)) for i in range(m)}, A)
    if np.allclose(got, ref + miss * w, rtol=1e-9, atol=1e-10):
        raise Violation("derivative of neighbouring matrix elements", "the derivative of (-A)^|m-n| is left out for |m-n| = 1")
    raise Violation("kernel", f"max err {np.max(np.abs(got - ref)):.3g}")


def mfock(v, M, nm=1, a=0):
    mf, d = mf_obj(v, f"{VT}:RHF", nm=nm)
    nb = [M if k == a else 1 + k for k in range(nm)]
    tot = sum(nb)
    C = v.tensor("C", (tot, tot))
    v.set(d["p"], "nboson_states", nb)
    v.set(d["p"], "boson_coeff", C)
    o = sum(nb[:a])
    c = [C[o + i, o] for i in range(M)]
    return mf, d, c


@contract("P10", "Franck-Condon factors of photon states", fns=[f"{S}:RHF.FC_factor", f"{B}:Photon.displacement_matrix"], unroll=["n"],
          note="Fock truncation 2..3 enumerated, one- and two-electron, 1..2 modes, any shift")
def _fcs(v):
    nm = v.choose("nm", (1, 2))
    a = nm - 1
    one = v.boolean("onebody")
    M = v.choose("M", (2, 3) if one else (2,))
    mf, d, c = mfock(v, M, nm, a)
    sh = v.choose("shift", (0.0, None))
    if sh is None:
        sh = v.scalar("sh")
    x, A, t = fc1(v, d, a)
    if not one:
        e, n = d["eta"][a], d["n"]
        A = v.comp((n, n, n, n), lambda p, q, r, s: t * (e[p] - e[q] + e[r] - e[s]))
    A = A + t * sh
    pdm = v.arr([[c[i] * c[j] for j in range(M)] for i in range(M)])
    v.eq("factor", v.method(mf, "FC_factor", d["eta"], a, onebody=one, shift=sh), block(v, A, pdm, M) * v.exp(-0.5 * A * A))


@contract("P10", "derivatives of the Franck-Condon factors along f and F", fns=[f"{VT}:RHF.gaussian_derivative_f_vector", f"{VT}:RHF.gaussian_derivative_sq_vector"],
          note="Fock truncation 2..3, photon states without neighbouring coherence")
def _fds(v):
    one = v.boolean("onebody")
    M = v.choose("M", (2, 3) if one else (2,))
    mf, d, c = mfock(v, M)
    sh = v.choose("shift", (0.0, None))
    if sh is None:
        sh = v.scalar("sh")
    s = v.choose("state", tuple(range(M)))
    C = v.arr([[(c[i] if i == s else 0.0 * c[i]) for k in range(M)] for i in range(M)])
    v.set(d["p"], "boson_coeff", C)
    x, A, t = fc1(v, d, 0) if one else fc2(v, d, 0)
    B = A - t * sh  # the derivative along F measures q - p, so the shift enters with the other sign
    A = A + t * sh
    pdm = v.arr([[(c[i] * c[j] if i == j == s else 0.0 * c[i]) for j in range(M)] for i in range(M)])
    ref = lambda A: block(v, A, pdm, M, c=lambda m, n: diff(coeffs(m, n))) * v.exp(-0.5 * A * A) * A
    v.eq("along f", v.method(mf, "gaussian_derivative_f_vector", d["eta"], 0, onebody=one, shift=sh), ref(A) / d["f"][0])
    v.eq("along F", v.method(mf, "gaussian_derivative_sq_vector", d["eta"], 0, onebody=one, shift=sh), ref(B))


@contract("P10", "derivative along eta for photon states", fns=[f"{S}:RHF.gaussian_derivative_vectorized"], modes=("num",), num=20,
          note="bounded: known finding (chain factor) told apart from any other value")
def _fde(v):
    import numpy as np
    M = v.choose("M", (2, 3))
    one = v.boolean("onebody")
    mf, d, c = mfock(v, M)
    s = v.choose("state", tuple(range(M)))
    C = np.zeros((M, M))
    C[s, 0] = c[s]
    v.set(d["p"], "boson_coeff", C)
    x, A, t = fc1(v, d, 0) if one else fc2(v, d, 0)
    pdm = np.zeros((M, M))
    pdm[s, s] = c[s] * c[s]
    k = block(v, A, pdm, M, c=lambda m, n: diff(coeffs(m, n))) * v.exp(-0.5 * A * A)
    got = v.method(mf, "gaussian_derivative_vectorized", d["eta"], 0, onebody=one)
    if np.allclose(got, t * k, rtol=1e-9, atol=1e-10):
        return
    if np.allclose(got, k, rtol=1e-9, atol=1e-10):
        raise Violation("chain factor", "derivative along eta lacks the factor dA/d(eta) = exp(F)/omega when more than one Fock state is kept")
    raise Violation("derivative", f"max err {np.max(np.abs(got - t * k)):.3g}")


@contract("P10", "photon density and occupation", fns=[f"{B}:Photon.get_boson_dm", f"{B}:Photon.get_boson_occ"], note="1..2 modes, Fock truncation up to 3 enumerated")
def _bd(v):
    """density matrix of the ground state column of each mode, and its mean photon number"""
    nb = v.choose("nb", ((1,), (2,), (3,), (2, 3), (3, 1)))
    tot = sum(nb)
    C = v.tensor("C", (tot, tot), cplx=True)
    ph = photon(v, nb, nmodes=len(nb), boson_coeff=C)
    o = 0
    for a, M in enumerate(nb):
        v.eq("mode density", v.method(ph, "get_boson_dm", a), v.arr([[v.conj(C[o + i, 0]) * C[o + j, 0] for j in range(M)] for i in range(M)]))
        o += M
    v.eq("full density", v.method(ph, "get_boson_dm"), v.einsum("i,j->ij", v.conj(C[:, 0]), C[:, 0]))
    R = v.tensor("R", (tot, tot))
    v.set(ph, "boson_coeff", R)
    o = 0
    occ = []
    for M in nb:
        x = 0.0 * R[0, 0]
        for i in range(M):
            x = x + float(i) * R[o + i, 0] * R[o + i, 0]
        occ.append(x)
        o += M
    v.eq("occupation", v.method(ph, "get_boson_occ"), v.arr(occ))


@contract("P10", "symmetric packing", fns=[f"{B}:packed_index", f"{B}:pack_symmetric", f"{B}:unpack_symmetric"], note="dimension 1..4 enumerated")
def _sp(v):
    """packing and unpacking are inverse; element (i,j) sits at its packed index; off-diagonals carry the requested factor"""
    M = v.choose("M", (1, 2, 3, 4))
    A = v.tensor("A", (M, M), sym="ij")
    P = v.call(f"{B}:pack_symmetric", A)
    for i in range(M):
        for j in range(M):
            v.eq("element", P[v.call(f"{B}:packed_index", i, j)], A[i, j])
    v.eq("round trip", v.call(f"{B}:unpack_symmetric", P, M), A)
    h = v.call(f"{B}:unpack_symmetric", P, M, fac=2.0)
    v.eq("halved off-diagonals", h, v.arr([[A[i, j] * (1.0 if i == j else 0.5) for j in range(M)] for i in range(M)]))



def _hf_rdm(v, mod):
    import math
    n, k = v.dim("n"), v.dim("k", hi=4)
    if v.sym:
        from vc.sym import S as CS, to_ix
        CS.fact(to_ix(n) - to_ix(k))
    elif k > n:
        raise Reject()
    nf = v.choose("nf", (1, 2, 3))
    U, C = v.tensor("U", (n, n)), v.tensor("C", (n, n))
    Ui = v.inv(U)
    Sm = v.einsum("kp,kq->pq", Ui, Ui)
    R = 2.0 * v.einsum("pi,qi->pq", C[:, :k], C[:, :k])
    w = v.tensor("w", (1,), pos=True)
    eta, z, sq = v.tensor("eta", (1, n)), v.tensor("z", (1,)), v.tensor("sq", (1,))
    if mod == "scqedhf":
        sq = 0.0 * sq
    q = v.obj("openms.lib.boson:Photon", omega=w, squeezed_var=sq, couplings_var=v.tensor("f", (1,)), z_alpha=z, nmodes=1, verbose=0, stdout=None)
    o = v.obj(f"openms.mqed.{mod}:RHF", verbose=0, stdout=None, mol=v.obj(None), nao=n, ao2dipole=v.comp((1, n, n), lambda a, p, r: U[p, r], dtype="f"), eta=eta, qed=q, get_ovlp=v.stub(lambda *a: v.copy(Sm)))
    occ = v.comp((n,), lambda i: 2.0 * v.ind(i < k), dtype="f")
    tot, re, rb = v.method(o, "make_rdm1_org", C, occ, nfock=nf)
    one = v.comp((n,), lambda p: 1.0, dtype="f")
    if mod == "qedhf":
        zp, D, V, Vi = z[0] * one, R, None, None
    else:
        zp, D = v.exp(sq[0]) / w[0] * eta[0], v.einsum("pa,ab,qb->pq", Ui, R, Ui)
    if not v.sym and (abs(zp) > 15).any():
        raise Reject()      # exp(-z^2/2) underflows
    am = [v.exp(-0.5 * zp * zp) * cs(v, zp, m) for m in range(nf)]
    T = [[v.comp((n, n), lambda p, r: D[p, r] * am[m][p] * am[l][r]) for l in range(nf)] for m in range(nf)]
    back = (lambda x: x) if mod == "qedhf" else (lambda x: v.einsum("pa,ab,qb->pq", U, x, U))
    for m in range(nf):
        for l in range(nf):
            v.eq("joint density", tot[m, :, l, :], back(T[m][l]))
    e = T[0][0]
    for m in range(1, nf):
        e = e + T[m][m]
    v.eq("electron density", re, back(e))
    if mod == "qedhf":
        nrm = 0.0
        for m in range(nf):
            nrm = nrm + am[m][0] * am[m][0]
        want = [[am[m][0] * am[l][0] for l in range(nf)] for m in range(nf)]
        for m in range(nf):
            for l in range(nf):
                v.eq("photon density", rb[m, l] * nrm * v.sum(n, lambda p: R[p, p]), want[m][l] * v.sum(n, lambda p: R[p, p]))
    else:
        for m in range(nf):
            for l in range(nf):
                v.eq("photon density", rb[m, l] * v.sum(n, lambda p: D[p, p]), v.sum(n, lambda p: T[m][l][p, p]))


def cs(v, a, m):
    """a^m / sqrt(m!)"""
    import math
    r = 1.0 / v.sqrt(1.0 * math.factorial(m))
    for _ in range(m):
        r = r * a
    return r


for _m in ("qedhf", "scqedhf", "vtqedhf"):
    contract("P10", f"{_m}: densities in the original representation", fns=[f"openms.mqed.{_m}:RHF.make_rdm1_org"], note="Fock truncation 1 to 3 enumerated")(
        lambda v, m=_m: _hf_rdm(v, m))
