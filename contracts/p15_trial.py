"""P15: trial states (electronic, bosonic, first-quantised oscillator) and the walkers started from them."""
from vc.contract import contract, Violation, Reject

T = "openms.qmc.trial"
TB = "openms.qmc.trial_boson"
W = "openms.qmc.generic_walkers"


@contract("P15", "oscillator trial in coordinates", fns=[f"{TB}:TrialQ.{f}" for f in ("__init__", "gradient", "qvalue", "laplacian", "local_energy", "update_Q_shift")])
def _q(v):
    """psi = exp(-m w/2 sum (Q - q)^2): its value, logarithmic gradient, laplacian over psi and local energy of the oscillators"""
    n = v.dim("n")
    Q, q = v.tensor("Q", (n,)), v.tensor("q", (n,))
    m, w = v.scalar("m", pos=True), v.scalar("w", pos=True)
    if v.boolean("shifted"):
        o = v.call(f"{TB}:TrialQ", mass=m, freq=w)
        v.method(o, "update_Q_shift", q)
    else:
        o, q = v.call(f"{TB}:TrialQ", mass=m, freq=w), 0.0 * q
    x = Q - q
    v.eq("gradient", v.method(o, "gradient", Q), -1.0 * m * w * x)
    v.eq("laplacian", v.method(o, "laplacian", Q), m * w * m * w * x * x - m * w)
    E = v.sum(n, lambda i: -0.5 / m * (m * w * m * w * x[i] * x[i] - m * w) + 0.5 * m * w * w * Q[i] * Q[i] - 0.5 * w)
    v.eq("local energy", v.method(o, "local_energy", Q), E, mag=0.0 if v.sym else float(m * w * w * ((Q * Q).sum() + (x * x).sum()) + w * n))
    if not v.sym:
        import numpy as np
        v.eq("value", v.method(o, "qvalue", Q), np.exp(-0.5 * m * w * np.sum(x * x)))


@contract("P15", "oscillator ground state has zero energy", fns=[f"{TB}:TrialQ.local_energy", f"{TB}:TrialP.local_energy"])
def _z(v):
    """zero-variance principle: the unshifted trial is the exact ground state, its local energy vanishes at every configuration"""
    n = v.dim("n")
    Q = v.tensor("Q", (n,))
    m, w = v.scalar("m", pos=True), v.scalar("w", pos=True)
    for c in ("TrialQ", "TrialP"):
        v.eq(c, v.method(v.call(f"{TB}:{c}", mass=m, freq=w), "local_energy", Q), 0.0, mag=0.0 if v.sym else float(m * w * w * (Q * Q).sum() + w * n))


@contract("P15", "oscillator trial in momenta", fns=[f"{TB}:TrialP.{f}" for f in ("__init__", "gradient", "pvalue", "laplacian", "local_energy")])
def _p(v):
    n = v.dim("n")
    P, p = v.tensor("P", (n,)), v.tensor("p", (n,))
    m, w = v.scalar("m", pos=True), v.scalar("w", pos=True)
    o = v.call(f"{TB}:TrialP", mass=m, freq=w, pshift=p)
    x = P - p
    v.eq("gradient", v.method(o, "gradient", P), -1.0 * x / (m * w))
    v.eq("laplacian", v.method(o, "laplacian", P), x * x / (m * w * m * w) - 1.0 / (m * w))
    v.eq("local energy", v.method(o, "local_energy", P),
         v.sum(n, lambda i: 0.5 / m * P[i] * P[i] - 0.5 * m * w * w * (x[i] * x[i] / (m * w * m * w) - 1.0 / (m * w)) - 0.5 * w))
    if not v.sym:
        import numpy as np
        v.eq("value", v.method(o, "pvalue", P), np.exp(-0.5 / (m * w) * np.sum(x * x)))


def cs(v, a, n):
    import math
    r = 1.0
    for k in range(n):
        r = r * a
    return r / v.sqrt(1.0 * math.factorial(n))


@contract("P15", "coherent boson trial", fns=[f"{T}:initialize_boson_trial_with_z", f"{T}:TrialWFBase.initialize_boson_trial_with_z"], note="1..3 modes and Fock truncations enumerated")
def _cb(v):
    """the coefficients of each mode are those of its coherent state, the whole vector is normalised"""
    st = v.choose("states", ((1,), (3,), (2, 3), (4, 2), (2, 1, 3)))
    z = v.tensor("z", (len(st),), cplx=v.boolean("cplx"))
    o = v.obj(f"{T}:TrialHF", verbose=0, stdout=None)
    v.method(o, "initialize_boson_trial_with_z", z, list(st))
    psi = v.get(o, "boson_psi")
    c = [v.exp(-0.5 * v.abs(z[a]) * v.abs(z[a])) * cs(v, z[a], n) for a in range(len(st)) for n in range(st[a])]
    nrm = v.sqrt(sum((v.abs(x) * v.abs(x) for x in c[1:]), v.abs(c[0]) * v.abs(c[0])))
    for i, x in enumerate(c):
        v.eq(f"coefficient {i}", psi[i], x / nrm)
    v.eq("size", psi.shape[0], len(c))


@contract("P15", "Fock-space trial", fns=[f"{TB}:TrivialFock.{f}" for f in ("__init__", "build")] + [f"{TB}:coherent_state_coeff", f"{TB}:calc_trial_walker_ovlp"],
          note="modes and Fock truncation enumerated")
def _tf(v):
    """product of single-mode coherent coefficients (or exp(-total occupation)), in row-major order of the occupations; overlaps with walkers"""
    import itertools, math
    nm, nf = v.choose("nm", (1, 2, 3)), v.choose("nf", (1, 2, 3))
    a = v.tensor("alpha", (nm,))
    o = v.call(f"{TB}:TrivialFock", nm, nf)
    co = v.boolean("coherent")
    v.method(o, "build", alpha=a if co else None)
    psi = v.get(o, "boson_psi")
    for i, ns in enumerate(itertools.product(range(nf), repeat=nm)):
        x = 1.0
        for k, n in enumerate(ns):
            x = x * (v.exp(-0.5 * a[k] * a[k]) * cs(v, a[k], n) if co else math.exp(-sum(ns)) ** (k == 0))
        v.eq(f"coefficient {ns}", psi[i], x)
    v.eq("size", psi.shape[0], nf ** nm)


@contract("P15", "boson overlap", fns=[f"{TB}:calc_trial_walker_ovlp"])
def _bo(v):
    nw, F = v.dim("nw"), v.dim("F")
    w, t = v.tensor("w", (nw, F), cplx=True), v.tensor("t", (F,), cplx=True)
    v.eq("overlap", v.call(f"{TB}:calc_trial_walker_ovlp", w, t), v.einsum("zn,n->z", w, v.conj(t)))


@contract("P15", "determinant trial", fns=[f"{T}:TrialHF.build"])
def _dt(v):
    """occupied orbitals of the mean field in the orthogonal basis (symmetric orthogonalisation X replaced by an arbitrary invertible matrix), or the
    occupied columns of the identity in the molecular-orbital basis; spin blocks side by side"""
    nb = v.dim("nb")
    na = nb + v.choose("open", (0, 1))
    n = v.dim("n", ge=(na,), hi=4)
    nc = v.choose("nc", (1, 2))
    if not v.sym and na > n:
        raise Reject()
    C, S, X = v.tensor("C", (n, n)), v.tensor("S", (n, n)), v.tensor("X", (n, n))
    v.override(f"{T}:lo.orth.lowdin", lambda s: (v.eq("orthogonalised overlap", s, S), v.copy(X))[1])
    mf = v.obj(None, mo_coeff=C, get_ovlp=v.stub(lambda *a: v.copy(S)))
    o = v.obj(f"{T}:TrialHF", OAO=True, mf=mf, mol=v.obj(None, nelec=(na, nb)), nalpha=na, nbeta=nb, ncomponents=nc, verbose=0, stdout=None)
    G = v.tensor("G", (2, n, n))
    v.override(f"{T}:estimators.GF_so", lambda t, w, a, b: (G, [None, None]))
    v.method(o, "build")
    O = v.einsum("pq,qi->pi", v.inv(X), C)
    v.eq("up", v.get(o, "psia"), O[:, :na])
    v.eq("down", v.get(o, "psib"), O[:, :nb])
    p = v.get(o, "psi")
    v.eq("columns up", p[:, :na], O[:, :na])
    if nc > 1:
        v.eq("columns down", p[:, na:], O[:, :nb])
        v.eq("electrons", p.shape[1], na + nb)


@contract("P15", "determinant trial in molecular orbitals", fns=[f"{T}:TrialHF.build"])
def _dm(v):
    nb = v.dim("nb", hi=2)
    na = nb + v.choose("open", (0, 1))
    n = na + v.dim("nv", hi=2)
    occ = v.comp((n,), lambda i: 1.0 * v.ind(i < na) + 1.0 * v.ind(i < nb), dtype="f")
    eye = v.eye(n)
    nc = v.choose("nc", (1, 2))
    seen = []
    v.override(f"{T}:estimators.GF_so", lambda t, w, a, b: (seen.append((t, w, a, b)), (None, [None, None]))[1])
    o = v.obj(f"{T}:TrialHF", OAO=False, mf=v.obj(None, mo_coeff=eye, mo_occ=occ), mol=v.obj(None, nelec=(na, nb)), nalpha=na, nbeta=nb, ncomponents=nc, verbose=0, stdout=None)
    v.method(o, "build")
    up, dn = eye[:, :na], eye[:, :nb]
    v.eq("up", v.get(o, "psia"), up)
    v.eq("down", v.get(o, "psib"), dn)
    psi = v.get(o, "psi")
    v.eq("columns up", psi[:, :na], up)
    if nc > 1:
        v.eq("columns down", psi[:, na:], dn)
    if len(seen) == 1:
        t, w, a, b = seen[0]
        v.eq("Green's function of the trial with itself", t, w)
        v.eq("Green's function columns", t, psi)
        v.eq("Green's function electrons", a, na)
        v.eq("Green's function electrons down", b, nb if nc > 1 else 0)


@contract("P15", "initial walkers", fns=[f"{W}:Walkers_so.__init__", f"{W}:BaseWalkers.__init__", f"{W}:initialize_walkers"])
def _iw(v):
    """every walker starts as the trial state with weight and overlap factor one, alpha and beta columns split at the number of alpha electrons"""
    n, na, nb = v.dim("n"), v.dim("na"), v.dim("nb")
    N, F = v.dim("N", lo=1, hi=4), v.dim("F")
    nc, bos = v.choose("nc", (1, 2)), v.boolean("bos")
    v.override("openms.__mpi__:MPIWrapper", lambda *a, **k: v.obj(None, size=1, rank=0, comm=None))
    psi = v.tensor("psi", (n, na + nb if nc > 1 else na), cplx=True)
    b = v.tensor("b", (F,)) if bos else None
    t = v.obj(f"{T}:TrialHF", psi=psi, boson_psi=b, nalpha=na, nbeta=nb, nao=n, ncomponents=nc, verbose=0, stdout=None)
    w = v.call(f"{W}:Walkers_so", t, nwalkers=N)
    v.eq("up", v.get(w, "phiwa"), v.comp((N, n, na), lambda z, p, i: psi[p, i]))
    if nc > 1:
        v.eq("down", v.get(w, "phiwb"), v.comp((N, n, nb), lambda z, p, i: psi[p, na + i]))
    if bos:
        v.eq("boson", v.get(w, "boson_phiw"), v.comp((N, F), lambda z, k: b[k]))
    one = v.comp((N,), lambda z: 1.0, dtype="f")
    for nm in ("weights", "ovlp", "detR", "weights_org"):
        v.eq(nm, v.get(w, nm), one)
    for nm in ("ehybrid", "eloc", "log_detR", "detR_shift", "logshift"):
        v.eq(nm, v.get(w, nm), 0.0 * one)
    v.eq("total weight", v.get(w, "total_weight"), N)
    v.eq("target weight", v.get(w, "total_weight0"), N)


@contract("P15", "electron-boson trial", fns=[f"{T}:make_trial"], modes=("num",), num=12, note="bounded: 1..3 modes and Fock truncations")
def _mk(v):
    """the trial of an electron-boson system carries a normalised photon vector of all Fock states with weights exp(-n)"""
    st = v.choose("states", ((1,), (3,), (2, 3), (4, 2), (2, 1, 3)))
    v.override(f"{T}:TrialHF.__init__", lambda self, mol, **kw: v.set(self, "verbose", 0) or v.set(self, "stdout", None) or v.set(self, "psi", 0.0))
    v.override(f"{T}:TrialHF.build", lambda self, *a, **k: None)
    mol = v.obj("openms.lib.boson:Boson", nboson_states=list(st), nmodes=len(st), verbose=0, stdout=None)
    t = v.call(f"{T}:make_trial", mol)
    psi = v.get(t, "boson_psi")
    v.eq("size", psi.shape[0], sum(st))
    c = [v.exp(-1.0 * n) for s in st for n in range(s)]
    nrm = v.sqrt(sum(x * x for x in c))
    for i, x in enumerate(c):
        v.eq(f"coefficient {i}", psi[i], x / nrm)
