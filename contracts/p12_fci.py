"""P12: QED-FCI: contractions are the second-quantised electron-photon Hamiltonian on the truncated Fock space; kernel returns its lowest states; densities."""
import itertools
from vc.contract import contract, Violation, Reject

F = "openms.mqed.qedfci"
SIZES = ((1, (1, 1)), (2, (1, 1)), (2, (2, 1)), (2, (1, 0)), (3, (1, 1)), (3, (2, 1)), (3, (1, 2)), (3, (2, 2)))
SYMS = ((1, (1, 1)), (2, (1, 1)), (2, (1, 0)), (3, (1, 1)), (3, (2, 0)), (3, (0, 2)))


def strings(norb, k):
    """occupation strings in increasing binary order (lowest orbital = lowest bit)"""
    return sorted(sum(1 << i for i in c) for c in itertools.combinations(range(norb), k))


def exc(norb, k):
    """{(p,q): [(new, old, sign)]}: a^+_p a_q on the strings with k electrons, by the definition of the ladder operators"""
    st = strings(norb, k)
    pos = {s: i for i, s in enumerate(st)}
    out = {}
    for p in range(norb):
        for q in range(norb):
            l = out[p, q] = []
            for i, s in enumerate(st):
                if s >> q & 1:
                    sg = (-1) ** bin(s & ((1 << q) - 1)).count("1")
                    t = s & ~(1 << q)
                    if not t >> p & 1:
                        sg *= (-1) ** bin(t & ((1 << p) - 1)).count("1")
                        l.append((pos[t | 1 << p], i, sg))
    return len(st), out


class Elec:
    """E_pq = sum over spins of a^+_p a_q as sparse maps on determinant pairs: {(A,B): {(A',B'): coefficient}}"""
    def __init__(self, norb, nelec):
        self.norb = norb
        self.na, ea = exc(norb, nelec[0])
        self.nb, eb = exc(norb, nelec[1])
        self.E = [{}, {}]
        for pq in ea:
            m = self.E[0][pq] = {}
            for n, o, s in ea[pq]:
                for b in range(self.nb):
                    m.setdefault((n, b), {})[o, b] = s
            m = self.E[1][pq] = {}
            for n, o, s in eb[pq]:
                for a in range(self.na):
                    m.setdefault((a, n), {})[a, o] = s

    def dets(self):
        return list(itertools.product(range(self.na), range(self.nb)))

    def one(self, p, q, d, spins=(0, 1)):
        r = {}
        for s in spins:
            for k, c in self.E[s][p, q].get(d, {}).items():
                r[k] = r.get(k, 0) + c
        return r

    def prod(self, pq, rs, d, s1=(0, 1), s2=(0, 1)):
        """row d of E_pq E_rs"""
        r = {}
        for m, c in self.one(*pq, d, s1).items():
            for k, e in self.one(*rs, m, s2).items():
                r[k] = r.get(k, 0) + c * e
        return {k: x for k, x in r.items() if x}


def lin(rows, ci, coef):
    """sum_j coef_j * sum_k rows_j[k] ci[k]"""
    r = None
    for cf, row in zip(coef, rows):
        for k, c in row.items():
            t = (1.0 * c) * cf * ci[k]
            r = t if r is None else r + t
    return r


def setup(v, nms=(0, 1, 2), syms=SYMS):
    norb, nelec = v.choose("size", syms if v.sym else SIZES)
    nm = v.choose("nm", nms)
    Fs = [v.dim(f"F{a}", hi=3) for a in range(nm)]
    el = Elec(norb, nelec)
    ci = v.tensor("ci", (el.na, el.nb) + tuple(f + 1 for f in Fs))
    return norb, nelec, nm, Fs, el, ci


def check(v, label, out, ci, el, row):
    for d in el.dets():
        r = row(d)
        v.eq(f"{label} {d}", out[d], 0.0 * ci[d] if r is None else r)


PQ = lambda n: list(itertools.product(range(n), repeat=2))


def eri8(v, n):
    """two-electron integrals with the permutation symmetry of real orbitals"""
    if not v.sym:
        e = v.tensor("eri", (n, n, n, n))
        e = e + e.transpose(1, 0, 2, 3)
        e = e + e.transpose(0, 1, 3, 2)
        return e + e.transpose(2, 3, 0, 1)
    e = v.tensor("eri", (n, n, n, n))
    e = e + v.transpose(e, (1, 0, 2, 3))
    e = e + v.transpose(e, (0, 1, 3, 2))
    return e + v.transpose(e, (2, 3, 0, 1))


@contract("P12", "one-electron contraction", fns=[f"{F}:contract_1e", f"{F}:fboson_ci_shape"], num=25, note="orbital and electron numbers enumerated; all integrals, CI vectors and Fock truncations; 0..2 modes")
def _c1(v):
    norb, nelec, nm, Fs, el, ci = setup(v)
    h = v.tensor("h", (norb, norb))
    r = v.call(f"{F}:contract_1e", h, ci, norb, nelec, nm, list(Fs) if nm else None)
    check(v, "H1|ci>", r, ci, el, lambda d: lin([el.one(p, q, d) for p, q in PQ(norb)], ci, [h[p, q] for p, q in PQ(norb)]))


TWO = dict(num=25, fns=[f"{F}:contract_2e", f"{F}:contract_2e_spin0", f"{F}:fboson_ci_shape"], note="orbital and electron numbers enumerated; all integrals, CI vectors and Fock truncations; 0..1 modes")
SMALL = ((1, (1, 1)), (2, (1, 1)), (2, (1, 0)))


def _two(fn):
    def c(v):
        """sum (pq|rs) E_pq E_rs"""
        norb, nelec, nm, Fs, el, ci = setup(v, (0, 1), SMALL)
        P = list(itertools.product(PQ(norb), PQ(norb)))
        e = v.tensor("eri", (norb,) * 4)
        r = v.call(f"{F}:{fn}", e, ci, norb, nelec, nm, list(Fs) if nm else None)
        check(v, "H2|ci>", r, ci, el, lambda d: lin([el.prod(a, b, d) for a, b in P], ci, [e[a + b] for a, b in P]))
    return c


contract("P12", "two-electron contraction", **TWO)(_two("contract_2e"))
contract("P12", "two-electron contraction, spin-summed routine", **TWO)(_two("contract_2e_spin0"))


@contract("P12", "two-electron contraction, spin-resolved integrals", **TWO)
def _c2s(v):
    norb, nelec, nm, Fs, el, ci = setup(v, (0, 1), SMALL)
    P = list(itertools.product(PQ(norb), PQ(norb)))
    e = [v.tensor(k, (norb,) * 4) for k in ("aa", "ab", "bb")]
    if v.sym:
        v.override("pyscf.ao2mo:restore", lambda s, x, n: x)
    r = v.call(f"{F}:contract_2e", [e[0], e[1], e[2]], ci, norb, nelec, nm, list(Fs) if nm else None)

    def row(d):
        rows, cf = [], []
        for (p, q), (s, t) in P:
            for x, y, w in ((0, 0, e[0][p, q, s, t]), (0, 1, e[1][p, q, s, t]), (1, 0, e[1][s, t, p, q]), (1, 1, e[2][p, q, s, t])):
                rows.append(el.prod((p, q), (s, t), d, (x,), (y,)))
                cf.append(w)
        return lin(rows, ci, cf)
    check(v, "H2|ci>", r, ci, el, row)


@contract("P12", "Hubbard contraction", fns=[f"{F}:contract_2e_hubbard", f"{F}:_unpack_u"], num=15, note="bounded: at most 3 orbitals")
def _ch(v):
    norb, nelec, nm, Fs, el, ci = setup(v)
    u = v.scalar("u")
    r = v.call(f"{F}:contract_2e_hubbard", u, ci, norb, nelec, nm, list(Fs) if nm else None)
    sa, sb = strings(norb, nelec[0]), strings(norb, nelec[1])
    for A, B in el.dets():
        v.eq(f"U {A},{B}", r[A, B], u * bin(sa[A] & sb[B]).count("1") * ci[A, B])


@contract("P12", "one-electron part absorbed", fns=[f"{F}:absorb_h1e"], note="1..3 orbitals enumerated")
def _abs(v):
    """absorbed two-electron operator equals the full electronic Hamiltonian on the electron number sector: sum of shifts over an electron count"""
    import numpy as np
    n = v.choose("n", (1, 2, 3))
    ne = v.choose("ne", (1, 2, (1, 1), (2, 1)))
    N = sum(ne) if isinstance(ne, tuple) else ne
    h, e = v.tensor("h", (n, n)), v.tensor("eri", (n,) * 4)
    fac = v.scalar("fac")
    r = v.call(f"{F}:absorb_h1e", h, e, n, ne, fac)
    f = (h - 0.5 * v.einsum("jiik->jk", e)) / (N * 1.0)
    for p, q, s, t in itertools.product(range(n), repeat=4):
        x = e[p, q, s, t]
        if p == q:
            x = x + f[s, t]
        if s == t:
            x = x + f[p, q]
        v.eq(f"element {p}{q}{s}{t}", r[p, q, s, t], x * fac, tol=1e-6)


def lad(v, nm, Fs, el, m, x, up):
    """elementwise on slices: list of slices along the mode axis would need a concrete truncation; use shifted blocks instead"""
    ax = 2 + m
    full = [slice(None)] * (2 + nm)
    lo, hi = list(full), list(full)
    lo[ax], hi[ax] = slice(0, Fs[m]), slice(1, Fs[m] + 1)
    z = 0.0 * x
    w = v.comp((Fs[m],), lambda k: v.sqrt(k + 1.0))
    sub = "abcdef"[:2 + nm]
    if up:
        z[tuple(hi)] = v.einsum(f"{sub},{sub[ax]}->{sub}", x[tuple(lo)], w)
    else:
        z[tuple(lo)] = v.einsum(f"{sub},{sub[ax]}->{sub}", x[tuple(hi)], w)
    return z


@contract("P12", "photon ladder operators", fns=[f"{F}:cre_boson", f"{F}:des_boson"], note="all Fock truncations, 1..3 modes enumerated")
def _lad(v):
    norb, nelec, nm, Fs, el, ci = setup(v, (1, 2, 3))
    m = v.choose("mode", tuple(range(nm)))
    v.eq("creation", v.call(f"{F}:cre_boson", ci, norb, nelec, nm, list(Fs), m), lad(v, nm, Fs, el, m, ci, True))
    v.eq("annihilation", v.call(f"{F}:des_boson", ci, norb, nelec, nm, list(Fs), m), lad(v, nm, Fs, el, m, ci, False))


@contract("P12", "photon energy", fns=[f"{F}:contract_bb"], note="all Fock truncations, 1..2 modes enumerated")
def _bb(v):
    """sum_x w_x b+_x b_x, plus the linear term of the displaced representation"""
    norb, nelec, nm, Fs, el, ci = setup(v, (1, 2))
    w = v.tensor("w", (nm,))
    cs = v.boolean("cs")
    z = v.tensor("z", (nm,)) if cs else None
    r = v.call(f"{F}:contract_bb", w, ci, norb, nelec, nm, list(Fs), z)
    ex = 0.0 * ci
    for m in range(nm):
        ex = ex + w[m] * lad(v, nm, Fs, el, m, lad(v, nm, Fs, el, m, ci, False), True)
        if cs:
            ex = ex + w[m] * z[m] * (lad(v, nm, Fs, el, m, ci, True) + lad(v, nm, Fs, el, m, ci, False))
    v.eq("photon energy", r, ex)


@contract("P12", "coupled photon modes", fns=[f"{F}:contract_bb"], num=20, note="bounded: at most 3 orbitals, 3 Fock states")
def _bb2(v):
    norb, nelec, nm, Fs, el, ci = setup(v, (1, 2, 3))
    W = v.tensor("W", (nm, nm), sym="ij")
    z = v.tensor("z", (nm,)) if v.boolean("cs") else None
    r = v.call(f"{F}:contract_bb", W, ci, norb, nelec, nm, list(Fs), z)
    L = lambda m, x, up: lad(v, nm, Fs, el, m, x, up)
    ex = 0.0 * ci
    for a in range(nm):
        for b in range(nm):
            ex = ex + W[a, b] * L(a, L(b, ci, False), True)
            if z is not None:
                ex = ex + W[a, b] * z[b] * (L(a, ci, True) + L(a, ci, False))
    v.eq("photon Hamiltonian", r, ex)


@contract("P12", "electron-photon coupling", fns=[f"{F}:contract_eb"], num=25, note="orbital and electron numbers enumerated; all couplings, CI vectors and Fock truncations; 1..2 modes")
def _eb(v):
    norb, nelec, nm, Fs, el, ci = setup(v, (1, 2))
    g = v.tensor("g", (nm, norb, norb), sym="last2")
    r = v.call(f"{F}:contract_eb", g, ci, norb, nelec, nm, list(Fs))
    X = [lad(v, nm, Fs, el, m, ci, True) + lad(v, nm, Fs, el, m, ci, False) for m in range(nm)]

    def row(d):
        t = None
        for m in range(nm):
            s = lin([el.one(p, q, d) for p, q in PQ(norb)], X[m], [g[m, p, q] for p, q in PQ(norb)])
            t = s if t is None or s is None else t + s
        return t
    check(v, "Heb|ci>", r, ci, el, row)


@contract("P12", "sum of the parts", fns=[f"{F}:contract_all"], note="parts by their contracts")
def _all(v):
    nm = v.choose("nm", (1, 2))
    n = v.choose("n", (2, 3))
    N = v.dim("N")
    ci = v.tensor("ci", (N,))
    A = {k: v.tensor(k, (N, N)) for k in ("e2", "eb", "bb", "bz")}
    H1, H2, Heb, Hbb = v.tensor("H1", (n, n)), v.tensor("H2", (n,) * 4), v.tensor("Heb", (nm, n, n)), v.tensor("Hbb", (nm, nm))
    same = lambda a, b: v.true("operands", a is b)

    def part(k, H):
        def f(h, c, *a, **kw):
            same(h, H)
            v.eq("vector", c, ci)
            v.true("sizes", list(a[:4]) == [n, (1, 1), nm, [1] * nm])
            return v.einsum("ij,j->i", A[k], c)
        return f
    v.override(f"{F}:contract_2e", part("e2", H2))
    v.override(f"{F}:contract_2e_spin0", part("e2", H2))
    v.override(f"{F}:contract_eb", part("eb", Heb))
    v.override(f"{F}:contract_bb", part("bb", Hbb))
    r = v.call(f"{F}:contract_all", H1, H2, Heb, Hbb, ci, n, (1, 1), nm, [1] * nm)
    v.eq("sum", r, v.einsum("ij,j->i", A["e2"] + A["eb"] + A["bb"], ci))


def dense(v, norb, nelec, nm, Fs, h, eri, g, W):
    """dense second-quantised Hamiltonian from Jordan-Wigner matrices of the ladder operators (independent of the sparse maps above)"""
    import numpy as np
    from functools import reduce
    a, Z, I2 = np.array([[0., 1.], [0., 0.]]), np.diag([1., -1.]), np.eye(2)
    L = 2 * norb
    op = [reduce(np.kron, [Z] * k + [a] + [I2] * (L - k - 1)) for k in range(L)]
    ca = [[op[s * norb + p] for p in range(norb)] for s in (0, 1)]
    Epq = {(p, q): sum(ca[s][p].T @ ca[s][q] for s in (0, 1)) for p in range(norb) for q in range(norb)}
    H = sum(h[p, q] * Epq[p, q] for p, q in PQ(norb))
    for p, q in PQ(norb):
        for r, s in PQ(norb):
            H = H + 0.5 * eri[p, q, r, s] * (Epq[p, q] @ Epq[r, s] - (Epq[p, s] if q == r else 0.0))
    N = [sum(ca[s][p].T @ ca[s][p] for p in range(norb)) for s in (0, 1)]
    keep = np.flatnonzero((np.diag(N[0]) == nelec[0]) & (np.diag(N[1]) == nelec[1]))
    P = lambda M: M[np.ix_(keep, keep)]
    He = P(H)
    Ds = [f + 1 for f in Fs]
    bos = []
    for m in range(nm):
        b = np.diag(np.sqrt(np.arange(1, Ds[m])), 1)
        bos.append(reduce(np.kron, [np.eye(d) if k != m else b for k, d in enumerate(Ds)]))
    one = np.eye(int(np.prod(Ds)))
    T = np.kron(He, one)
    for m in range(nm):
        G = P(sum(g[m, p, q] * Epq[p, q] for p, q in PQ(norb)))
        T = T + np.kron(G, bos[m] + bos[m].T)
        for k in range(nm):
            T = T + W[m, k] * np.kron(np.eye(len(He)), bos[m].T @ bos[k])
    return He, T


def model(v, nms=(1, 2), hi=3):
    import numpy as np
    norb, nelec = v.choose("size", SIZES)
    nm = v.choose("nm", nms)
    Fs = [v.dim(f"F{a}", hi=hi) for a in range(nm)]
    h = v.tensor("h", (norb, norb), sym="ij")
    eri = 0.2 * eri8(v, norb)
    g = 0.3 * v.tensor("g", (nm, norb, norb), sym="last2")
    W = np.diag(0.6 + v.rng.random(nm))
    if v.boolean("coupled"):
        W = W + 0.1 * (np.ones((nm, nm)) - np.eye(nm))
    return norb, nelec, nm, Fs, h, eri, g, W


@contract("P12", "Hamiltonian spectrum", fns=[f"{F}:contract_all", f"{F}:absorb_h1e", f"{F}:contract_2e", f"{F}:contract_eb", f"{F}:contract_bb", f"{F}:slices_for", f"{F}:slices_for_cre"],
          modes=("num",), num=15, note="bounded: at most 3 orbitals, 2 modes, 3 Fock states")
def _spec(v):
    """the contraction is symmetric and has the whole spectrum of the second-quantised Hamiltonian"""
    import numpy as np
    norb, nelec, nm, Fs, h, eri, g, W = model(v, hi=2)
    el = Elec(norb, nelec)
    He, T = dense(v, norb, nelec, nm, Fs, h, eri, g, W)
    H2 = v.call(f"{F}:absorb_h1e", h, eri, norb, nelec, 0.5)
    n = len(T)
    M = np.array([v.call(f"{F}:contract_all", h, H2, g, W, x, norb, nelec, nm, list(Fs)) for x in np.eye(n)])
    v.eq("symmetric", M, M.T)
    v.eq("spectrum", np.linalg.eigvalsh(M), np.linalg.eigvalsh(T), tol=1e-6)


@contract("P12", "kernel", fns=[f"{F}:kernel", f"{F}:make_hdiag"], modes=("num",), num=12, note="bounded: at most 3 orbitals, 2 modes, 3 Fock states; external Davidson solver")
def _ker(v):
    """lowest energies and states of the electron and electron-photon problems, core energy added once"""
    import numpy as np
    norb, nelec, nm, Fs, h, eri, g, W = model(v)
    He, T = dense(v, norb, nelec, nm, Fs, h, eri, g, W)
    ec = v.scalar("ecore")
    W1 = np.diag(W).copy() if np.count_nonzero(W - np.diag(np.diag(W))) == 0 and v.boolean("w1") else W
    a = [x.copy() for x in (h, eri, g, W1)]
    for nr in ((1, 2) if len(T) > 4 else (1,)):
        e0, e, c = v.call(f"{F}:kernel", h, eri, norb, nelec, nm, list(Fs), g, W1, verbose=0, ecore=ec, tol=1e-12, nroots=nr, max_space=40, max_cycle=200)
        e0, e = np.atleast_1d(e0), np.atleast_1d(e)
        ex = np.linalg.eigvalsh(T)
        v.true("electronic energy", abs(e0[0] - np.linalg.eigvalsh(He)[0] - ec) < 1e-6)
        v.true("ground state energy", abs(e[0] - ex[0] - ec) < 1e-6)
        if nr == 2 and len(e) == 2 and ex[1] - ex[0] > 1e-3:
            v.true("excited state energy", abs(e[1] - ex[1] - ec) < 1e-5 or min(abs(e[1] - ec - ex)) < 1e-5)
        x = (c[0] if nr == 2 else c).ravel()
        v.true("normalised", abs(x @ x - 1) < 1e-6)
        H2 = v.call(f"{F}:absorb_h1e", h, eri, norb, nelec, 0.5)
        y = v.call(f"{F}:contract_all", h, H2, g, W, x, norb, nelec, nm, list(Fs)).ravel()
        v.true("eigenvector", np.max(np.abs(y - (e[0] - ec) * x)) < 1e-4)
    for p, q in zip(a, (h, eri, g, W1)):
        v.eq("integrals unchanged", q, p)


@contract("P12", "displaced representation", fns=[f"{F}:kernel", f"{F}:contract_all", f"{F}:contract_bb"], modes=("num",), num=5, note="bounded: at most 2 orbitals; large Fock space")
def _cs(v):
    """ground state energy does not depend on the coherent-state shift once the Fock space is large"""
    import numpy as np
    norb, nelec = v.choose("size", SIZES)
    if norb > 2:
        raise Reject()
    sy = lambda *s: v.rng.normal(size=s)
    h = sy(norb, norb)
    h = h + h.T
    eri = sy(*(norb,) * 4)
    eri = eri + eri.transpose(1, 0, 2, 3)
    eri = eri + eri.transpose(0, 1, 3, 2)
    eri = 0.05 * (eri + eri.transpose(2, 3, 0, 1))
    g = 0.1 * sy(1, norb, norb)
    g = g + g.transpose(0, 2, 1)
    W = np.array([[0.8 + v.rng.random()]])
    nm, Fs = 1, [16]
    e = [v.call(f"{F}:kernel", h, eri, norb, nelec, nm, list(Fs), g, W, verbose=0, ecore=0.3, tol=1e-12, max_space=40, max_cycle=300, coherent_state=cs)[1] for cs in (False, True)]
    v.true("same energy", abs(e[0] - e[1]) < 1e-5)


@contract("P12", "preconditioner diagonal", fns=[f"{F}:make_hdiag"], modes=("num",), num=30, note="bounded: at most 3 orbitals, 3 modes")
def _hd(v):
    import numpy as np
    norb, nelec, nm, Fs, h, eri, g, W = model(v, (1, 2, 3))
    el = Elec(norb, nelec)
    W1 = np.diag(W).copy() if v.boolean("w1") else W
    d = v.call(f"{F}:make_hdiag", h, eri, W1, norb, nelec, nm, list(Fs)).reshape((el.na, el.nb) + tuple(f + 1 for f in Fs))
    sa, sb = strings(norb, nelec[0]), strings(norb, nelec[1])
    for A, B in el.dets():
        oc = [[p for p in range(norb) if s >> p & 1] for s in (sa[A], sb[B])]
        e = 0.0
        for o in oc:
            for p in o:
                e += h[p, p]
                for o2 in oc:
                    for q in o2:
                        e += 0.5 * eri[p, p, q, q]
                        if o2 is o:
                            e -= 0.5 * eri[p, q, q, p]
        for k in np.ndindex(*[f + 1 for f in Fs]):
            v.eq(f"element {A},{B},{k}", d[(A, B) + k], e + sum(max(k[m] * W[m, m], 0.5) for m in range(nm)))


@contract("P12", "one-particle density", fns=[f"{F}:make_rdm1e"], num=25, note="orbital and electron numbers enumerated; all CI vectors and boson spaces")
def _r1(v):
    norb, nelec = v.choose("size", SYMS if v.sym else SIZES)
    el = Elec(norb, nelec)
    B = v.dim("B")
    ci = v.tensor("ci", (el.na, el.nb, B))
    r = v.call(f"{F}:make_rdm1e", ci, norb, nelec)
    for p, q in PQ(norb):
        x = None
        for d in el.dets():
            for k, c in el.one(p, q, d).items():
                t = (1.0 * c) * v.einsum("x,x->", ci[d], ci[k])
                x = t if x is None else x + t
        v.eq(f"<a+_{p} a_{q}>", r[p, q], 0.0 if x is None else x)


@contract("P12", "two-particle density", fns=[f"{F}:make_rdm12e"], num=25, note="orbital and electron numbers enumerated (one and two orbitals for all CI vectors and boson spaces); assumed contract: pyscf reorder_rdm")
def _r2(v):
    norb, nelec = v.choose("size", SMALL + ((2, (2, 1)),) if v.sym else SIZES)
    el = Elec(norb, nelec)
    B = v.dim("B")
    ci = v.tensor("ci", (el.na, el.nb, B))

    def reorder(d1, d2, inplace=False):
        for k in range(norb):
            d2[:, k, k, :] -= d1.T
        return d1, 0.5 * (d2 + v.transpose(d2, (2, 3, 0, 1)))
    if v.sym:
        v.override("pyscf.fci.rdm:reorder_rdm", reorder)
    d1, d2 = v.call(f"{F}:make_rdm12e", ci, norb, nelec)
    ov = {}
    for d in el.dets():
        for k in el.dets():
            ov[d, k] = v.einsum("x,x->", ci[d], ci[k])

    def ex(rows):
        x = 0.0
        for f, d, row in rows:
            for k, c in row.items():
                x = x + (f * c) * ov[d, k]
        return x
    for p, q in PQ(norb):
        v.eq(f"<a+_{p} a_{q}>", d1[p, q], ex([(1.0, d, el.one(p, q, d)) for d in el.dets()]))
        for r, s in PQ(norb):
            rows = [(1.0, d, el.prod((p, q), (r, s), d)) for d in el.dets()]
            if q == r:
                rows += [(-1.0, d, el.one(p, s, d)) for d in el.dets()]
            v.eq(f"<a+_{p} a+_{r} a_{s} a_{q}>", d2[p, q, r, s], ex(rows))


@contract("P12", "photon density", fns=[f"{F}:make_rdm1p"], num=15, note="all Fock truncations, 1..2 modes enumerated")
def _rp(v):
    norb, nelec, nm, Fs, el, ci = setup(v, (1, 2) if v.sym else (1, 2, 3), ((1, (1, 1)), (2, (1, 1))))
    r = v.call(f"{F}:make_rdm1p", ci, norb, nelec, nm, list(Fs))
    L = [lad(v, nm, Fs, el, m, ci, False) for m in range(nm)]
    sub = "abcdef"[:2 + nm]
    for x in range(nm):
        for y in range(nm):
            v.eq(f"<b+_{x} b_{y}>", r[x, y], v.einsum(f"{sub},{sub}->", L[x], L[y]))
