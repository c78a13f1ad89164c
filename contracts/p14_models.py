"""P14: lattice models (Hubbard, Hubbard-Holstein, molecular aggregates): Hamiltonian, Fock matrix, energy and integral blocks."""
from vc.contract import contract, Violation, Reject

HB = "openms.models.hubbard"
HH = "openms.models.hh_model"
AG = "openms.models.aggregates"
SYM2 = [((1, 0), False)]
MODELS = {"hubbard": f"{HB}:Hubbard1D", "holstein": f"{HH}:HHModel"}


def hop(v, L, bc, double=False):
    """nearest-neighbour hopping of the chain (ring when bc == 'p'), amplitude -1"""
    def f(i, j):
        t = v.ieq(i, j + 1) + v.ieq(j, i + 1)
        if bc == "p":
            w = v.ieq(i, 0) * v.ieq(j, L - 1) + v.ieq(j, 0) * v.ieq(i, L - 1)
            t = t + w if double else t + w - t * w
        return -1.0 * t
    return v.comp((L, L), f, dtype="f")


def model(v, which, lo=2, hi=4, mos=True):
    L = v.dim("L", lo=lo, hi=hi)
    U = v.scalar("U")
    bc = v.choose("bc", (None, "p"))
    d = dict(L=L, U=U, bc=bc)
    if mos:
        na, nb = v.dim("na", lo=1, hi=3), v.dim("nb", lo=1, hi=3)
        if not v.sym and (na > L or nb > L):
            raise Reject()
        d["ca"], d["cb"] = v.tensor("ca", (L, L)), v.tensor("cb", (L, L))
    return L, U, bc, d


@contract("P14", "hopping and interaction", fns=[f"{c}.{f}" for c in MODELS.values() for f in ("_nn", "tmatS", "tmat", "umatS", "umat")])
def _h(v):
    which = v.choose("model", ("hubbard", "holstein"))
    L, U, bc, d = model(v, which, mos=False)
    o = v.obj(MODELS[which], **d)
    T = hop(v, L, bc, double=which == "holstein")
    v.eq("hopping", v.method(o, "tmatS"), T)
    t = v.method(o, "tmat")
    v.eq("spin-orbital hopping up", t[:L, :L], T)
    v.eq("spin-orbital hopping down", t[L:, L:], T)
    v.eq("spin-orbital hopping mixed", t[:L, L:], v.zeros((L, L)))
    v.eq("spin-orbital hopping mixed 2", t[L:, :L], v.zeros((L, L)))
    v.eq("interaction", v.method(o, "umatS"), v.comp((L,) * 4, lambda p, q, r, s: U * v.ieq(p, q) * v.ieq(p, r) * v.ieq(p, s), dtype="f"))
    u = v.method(o, "umat")
    site = v.comp((L,) * 4, lambda p, q, r, s: U * v.ieq(p, q) * v.ieq(p, r) * v.ieq(p, s), dtype="f")
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                for e in (0, 1):
                    sl = tuple(slice(x * L, x * L + L) for x in (a, b, c, e))
                    v.eq(f"spin-orbital interaction {a}{b}{c}{e}", u[sl], site if (a, b) == (c, e) else 0.0 * site)


def ufock(v, T, U, pa, pb, L):
    """mean-field Fock matrices of the Hubbard interaction: opposite-spin density on the same site"""
    Fa = T + v.comp((L, L), lambda i, j: v.ieq(i, j) * U * pb[i, i], dtype="f")
    Fb = T + v.comp((L, L), lambda i, j: v.ieq(i, j) * U * pa[i, i], dtype="f")
    return Fa, Fb


def blk(v, label, M, a, b):
    ra, ca = a.shape
    v.eq(label + " up", M[:ra, :ca], a)
    v.eq(label + " down", M[ra:, ca:], b)
    v.eq(label + " mixed", M[:ra, ca:], 0.0 * M[:ra, ca:])
    v.eq(label + " mixed 2", M[ra:, :ca], 0.0 * M[ra:, :ca])


@contract("P14", "Fock matrix and energy", fns=[f"{c}.{f}" for c in MODELS.values() for f in ("fock", "hf_energy")])
def _f(v):
    which = v.choose("model", ("hubbard", "holstein"))
    L, U, bc, d = model(v, which, mos=False)
    pa, pb = v.tensor("pa", (L, L), sym=SYM2), v.tensor("pb", (L, L), sym=SYM2)
    d.update(pa=pa, pb=pb)
    const = 0.0
    if which == "holstein":
        const = d["const"] = v.scalar("const")
    o = v.obj(MODELS[which], **d)
    T = hop(v, L, bc, double=which == "holstein")
    Fa, Fb = ufock(v, T, U, pa, pb, L)
    blk(v, "Fock", v.method(o, "fock"), Fa, Fb)
    v.eq("energy", v.method(o, "hf_energy"),
         v.einsum("ij,ji->", T, pa + pb) + U * v.sum(L, lambda i: pa[i, i] * pb[i, i]) + const)


def mo_model(v, which, bc=None):
    """model with orbitals, the densities of the occupied ones and the mean-field Fock matrix"""
    na = v.dim("na", lo=1, hi=3)
    nb = na if which == "holstein" else v.dim("nb", lo=1, hi=2)
    L = v.dim("L", lo=2, hi=3, ge=(na,) if which == "holstein" else (na, nb))
    U = v.scalar("U")
    ca, cb = v.tensor("ca", (L, L)), v.tensor("cb", (L, L))
    pa = v.einsum("ai,bi->ab", ca[:, :na], ca[:, :na])
    pb = v.einsum("ai,bi->ab", cb[:, :nb], cb[:, :nb])
    d = dict(L=L, U=U, bc=bc, ca=ca, cb=cb, N=na + nb, pa=pa, pb=pb)
    if which == "hubbard":
        d.update(na=na, nb=nb)
    else:
        M = v.dim("M", hi=2)
        d.update(M=M, gmat=v.tensor("g", (M, 2 * L, 2 * L)), xi=v.tensor("xi", (M,)))
    o = v.obj(MODELS[which], **d)
    T = hop(v, L, bc, double=which == "holstein")
    return o, d, na, nb, L, U, T


def ov(na, nb, L):
    return {"o": (slice(0, na), slice(0, nb)), "v": (slice(na, L), slice(nb, L))}


@contract("P14", "core Hamiltonian in orbitals", fns=[f"{c}.{f}" for c in MODELS.values() for f in ("u_hcore_tot", "g_hcore_tot")])
def _hc(v):
    which = v.choose("model", ("hubbard", "holstein"))
    o, d, na, nb, L, U, T = mo_model(v, which, v.choose("bc", (None, "p")))
    ha, hb = v.method(o, "u_hcore_tot")
    sa, sb = v.einsum("ip,ij,jq->pq", d["ca"], T, d["ca"]), v.einsum("ip,ij,jq->pq", d["cb"], T, d["cb"])
    v.eq("up", ha, sa)
    v.eq("down", hb, sb)
    blk(v, "spin orbital", v.method(o, "g_hcore_tot"), sa, sb)


def spin_parts(ax, ay, bx, by, L):
    """(rows, columns, left orbitals, right orbitals, spin blocks) of a block-diagonal two-sided transformation"""
    ra, ca = ax.shape[1], ay.shape[1]
    up, dn = slice(0, L), slice(L, 2 * L)
    r1, c1 = slice(ra, ra + bx.shape[1]), slice(ca, ca + by.shape[1])
    return {"up": (slice(0, ra), slice(0, ca), ax, ay, up, up), "down": (r1, c1, bx, by, dn, dn),
            "mixed": (slice(0, ra), c1, ax, by, up, dn), "mixed 2": (r1, slice(0, ca), bx, ay, dn, up)}


@contract("P14", "Fock blocks", fns=[f"{c}.g_fock" for c in MODELS.values()] + [f"{HH}:HHModel.energies"])
def _gf(v):
    """against the contract of fock(): an arbitrary spin-orbital matrix"""
    which = v.choose("model", ("hubbard", "holstein"))
    o, d, na, nb, L, U, T = mo_model(v, which)
    F0 = v.tensor("F", (2 * L, 2 * L))
    v.set(o, "fock", v.stub(lambda: v.copy(F0)))
    F = v.method(o, "g_fock")
    ca, cb = d["ca"], d["cb"]
    cut = ov(na, nb, L)

    def piece(l, r, g1, g2):
        s = v.einsum("pi,pq,qj->ij", l, F0[g1, g2], r)
        if which == "holstein":
            s = s - 2.0 * v.einsum("I,pi,Ipq,qj->ij", d["xi"], l, d["gmat"][:, g1, g2], r)
        return s
    for x in "ov":
        for y in "ov":
            B = v.get(F, x + y)
            for nm, (r, c, l, rr, g1, g2) in spin_parts(ca[:, cut[x][0]], ca[:, cut[y][0]], cb[:, cut[x][1]], cb[:, cut[y][1]], L).items():
                v.eq(f"{x}{y} {nm}", B[r, c], piece(l, rr, g1, g2))
    if which == "holstein":
        eo, ev = v.method(o, "energies")
        for nm, e, x in (("occupied", eo, "o"), ("virtual", ev, "v")):
            for sp, C, g in (("up", ca[:, cut[x][0]], slice(0, L)), ("down", cb[:, cut[x][1]], slice(L, 2 * L))):
                n, m = C.shape[1], 0 if sp == "up" else C.shape[1]
                full = piece(C, C, g, g)
                v.eq(f"{nm} energies {sp}", e[m:m + n], v.comp((n,), lambda i: full[i, i]))


@contract("P14", "couplings in orbitals", fns=[f"{HH}:HHModel.{f}" for f in ("gint", "gint_tot", "mfG", "omega")])
def _gi(v):
    o, d, na, nb, L, U, T = mo_model(v, "holstein")
    w, sh = v.scalar("w"), v.choose("shift", (True, False))
    v.set(o, "w", w)
    v.set(o, "shift", sh)
    g, ca, cb = d["gmat"], d["ca"], d["cb"]
    g1, g2 = v.method(o, "gint")
    tot = v.method(o, "gint_tot")
    cut = ov(na, nb, L)
    cut["t"] = (slice(0, L), slice(0, L))
    for x, y in ("oo", "ov", "vo", "vv", "tt"):
        for B in ((v.get(g1, x + y), v.get(g2, x + y)) if x != "t" else (tot,)):
            for nm, (r, c, l, rr, s1, s2) in spin_parts(ca[:, cut[x][0]], ca[:, cut[y][0]], cb[:, cut[x][1]], cb[:, cut[y][1]], L).items():
                v.eq(f"{x}{y} {nm}", B[:, r, c], v.einsum("Ipq,pi,qj->Iij", g[:, s1, s2], l, rr))
    m1, m2 = v.method(o, "mfG")
    s = v.einsum("Ipq,qp->I", g[:, :L, :L], d["pa"]) + v.einsum("Ipq,qp->I", g[:, L:, L:], d["pb"])
    s = 0.0 * s if sh else s
    v.eq("mean field", m1, s)
    v.eq("mean field 2", m2, s)
    v.eq("frequencies", v.method(o, "omega"), v.comp((d["M"],), lambda i: w))


def size4(v, T, C):
    """magnitude of the cancelling terms (concrete runs only)"""
    return 0.0 if v.sym else float(abs(T).max() * abs(C).max() ** 4 * len(C) ** 4)


BLK4 = "vvvv vvvo vovv vvoo oovv vovo vooo ooov oooo".split()


def int_blocks(v, which, nm):
    """against the contracts of umat() and block_diag(): an arbitrary tensor in an arbitrary orbital basis"""
    o, d, na, nb, L, U, T = mo_model(v, which)
    U0, C = v.tensor("U4", (2 * L,) * 4), v.tensor("C", (2 * L, 2 * L))
    v.set(o, "umat", v.stub(lambda: v.copy(U0)))
    v.override(f"{HB if which == 'hubbard' else HH}:block_diag", diag_stub(v, d, L, C))
    R = v.method(o, "g_aint")
    A = U0 - v.transpose(U0, (0, 1, 3, 2))
    ends = {"o": (slice(0, na), slice(L, L + nb)), "v": (slice(na, L), slice(L + nb, 2 * L))}
    B = v.get(R, nm)
    for sp in range(16):
        b = [(sp >> k) & 1 for k in (3, 2, 1, 0)]
        X = [C[:, ends[x][y]] for x, y in zip(nm, b)]
        n0 = [na if x == "o" else L - na for x in nm]
        sl = tuple(slice(m if y else 0, (m if y else 0) + c.shape[1]) for y, c, m in zip(b, X, n0))
        v.eq(f"{nm} {sp}", B[sl], v.einsum("pqrs,pw,qx,ry,sz->wxyz", A, *X), mag=size4(v, U0, C))


for _nm in BLK4:
    for _w, _c in (("hubbard", f"{HB}:Hubbard1D"), ("holstein", f"{HH}:HHModel")):
        contract("P14", f"two-electron block {_nm} ({_w})", fns=[f"{_c}.g_aint"])(lambda v, w=_w, n=_nm: int_blocks(v, w, n))


def diag_stub(v, d, L, C):
    def bd(x, y):
        # the full orbital matrices give the basis; the occupied / virtual parts are not used by the integral routines
        if v.sym and x is not d["ca"] or not v.sym and x.shape[1] != L:
            return v.zeros((2 * L, x.shape[1] + y.shape[1]))
        v.eq("orbitals up", x, d["ca"])
        v.eq("orbitals down", y, d["cb"])
        return v.copy(C)
    return bd


@contract("P14", "two-electron tensors", fns=[f"{HB}:Hubbard1D.{f}" for f in ("g_aint_tot", "g_int_tot")])
def _gt(v):
    o, d, na, nb, L, U, T = mo_model(v, "hubbard")
    U0, C = v.tensor("U4", (2 * L,) * 4), v.tensor("C", (2 * L, 2 * L))
    v.set(o, "umat", v.stub(lambda: v.copy(U0)))
    v.override(f"{HB}:block_diag", diag_stub(v, d, L, C))
    x = v.einsum("pqrs,pw,qx,ry,sz->wxyz", U0, C, C, C, C)
    v.eq("plain", v.method(o, "g_int_tot"), x, mag=size4(v, U0, C))
    v.eq("antisymmetrised", v.method(o, "g_aint_tot"), x - v.transpose(x, (0, 1, 3, 2)), mag=size4(v, U0, C))


def u_ints(v, which):
    o, d, na, nb, L, U, T = mo_model(v, which)
    ca, cb = d["ca"], d["cb"]
    ab = v.einsum("pw,px,py,pz->wxyz", ca, cb, ca, cb)
    aa = v.einsum("pw,px,py,pz->wxyz", ca, ca, ca, ca)
    bb = v.einsum("pw,px,py,pz->wxyz", cb, cb, cb, cb)
    return o, d, na, nb, L, U, T, aa, bb, ab


@contract("P14", "spin-blocked two-electron integrals", fns=[f"{HB}:Hubbard1D.{f}" for f in ("u_int_tot", "u_aint_tot")])
def _ui(v):
    o, d, na, nb, L, U, T, aa, bb, ab = u_ints(v, "hubbard")
    A, B, AB = v.method(o, "u_int_tot")
    v.eq("up up", A, U * aa)
    v.eq("down down", B, U * bb)
    v.eq("up down", AB, U * ab)
    A, B, AB = v.method(o, "u_aint_tot")
    v.eq("antisymmetrised up up", A, 0.0 * aa)
    v.eq("antisymmetrised down down", B, 0.0 * bb)
    v.eq("antisymmetrised up down", AB, U * ab)


FULL4 = "vvvv vvvo vvov vovv ovvv vvoo voov vovo ovvo ovov oovv vooo ovoo oovo ooov oooo".split()


@contract("P14", "spin-blocked integral blocks", fns=[f"{HB}:Hubbard1D.u_aint"])
def _ua(v):
    """against the contract of u_aint_tot(): arbitrary tensors"""
    o, d, na, nb, L, U, T = mo_model(v, "hubbard")
    V = [v.tensor(n, (L,) * 4) for n in ("Vaa", "Vbb", "Vab")]
    v.set(o, "u_aint_tot", v.stub(lambda: tuple(v.copy(x) for x in V)))
    R = v.method(o, "u_aint")
    cut = ov(na, nb, L)
    for k, (T4, r, sp) in enumerate(zip(V, R, ((0,) * 4, (1,) * 4, (0, 1, 0, 1)))):
        for nm in BLK4 if k < 2 else FULL4:
            v.eq(f"{k} {nm}", v.get(r, nm), T4[tuple(cut[x][s] for x, s in zip(nm, sp))])


@contract("P14", "spin-blocked Fock blocks", fns=[f"{HB}:Hubbard1D.u_fock"])
def _uf(v):
    """against the contracts of tmatS() and u_aint_tot(): arbitrary hopping and integrals"""
    o, d, na, nb, L, U, T = mo_model(v, "hubbard")
    T = v.tensor("T", (L, L))
    V = [v.tensor(n, (L,) * 4) for n in ("Vaa", "Vbb", "Vab")]
    v.set(o, "u_aint_tot", v.stub(lambda: tuple(v.copy(x) for x in V)))
    v.set(o, "tmatS", v.stub(lambda: v.copy(T)))
    R = v.method(o, "u_fock")
    ca, cb = d["ca"], d["cb"]
    Fa = v.einsum("ij,ip,jq->pq", T, ca, ca) + v.einsum("pqrq->pr", V[0][:, :na, :, :na]) + v.einsum("pqrq->pr", V[2][:, :nb, :, :nb])
    Fb = v.einsum("ij,ip,jq->pq", T, cb, cb) + v.einsum("pqrq->pr", V[1][:, :nb, :, :nb]) + v.einsum("pqps->qs", V[2][:na, :, :na, :])
    cut = ov(na, nb, L)
    for F, r, s in ((Fa, R[0], 0), (Fb, R[1], 1)):
        for x in "ov":
            for y in "ov":
                v.eq(f"{s} {x}{y}", v.get(r, x + y), F[cut[x][s], cut[y][s]])


@contract("P14", "construction", fns=[f"{c}.__init__" for c in MODELS.values()])
def _in(v):
    which = v.choose("model", ("hubbard", "holstein"))
    na = v.dim("na", lo=1, hi=2)
    L = v.dim("L", lo=2, hi=4, ge=(na,))
    U, bc = v.scalar("U"), v.choose("bc", (None, "p"))
    ca, cb = v.tensor("ca", (L, L)), v.tensor("cb", (L, L))
    if which == "hubbard":
        nb = na - v.choose("odd", (0, 1))
        o = v.call(MODELS[which], L, na + nb, U, bc=bc, ca=ca, cb=cb)
    else:
        nb = na
        w = v.scalar("w", pos=True)
        diag, bonds, shift = v.choose("diag", (True, False)), v.choose("bonds", (True, False)), v.choose("shift", (True, False))
        g, gij = v.scalar("g") if diag else None, v.scalar("gij") if bonds else None
        o = v.call(MODELS[which], L, L, na + nb, U, w, g=g, gij=gij, bc=bc, ca=ca, cb=cb, shift=shift)
    pa, pb = (v.einsum("ai,bi->ab", c[:, :n], c[:, :n]) for c, n in ((ca, na), (cb, nb)))
    v.eq("density up", v.get(o, "pa"), pa)
    v.eq("density down", v.get(o, "pb"), pb)
    if which == "holstein":
        blk(v, "density", v.get(o, "ptot"), pa, pb)
        gm = v.get(o, "gmat")

        def cpl(I, i, j):
            t = 0.0
            if diag:
                t = t + g * v.ieq(I, i) * v.ieq(i, j)
            if bonds:
                n = v.ieq(i, j + 1) + v.ieq(j, i + 1)
                if bc == "p":
                    r = v.ieq(i, 0) * v.ieq(j, L - 1) + v.ieq(j, 0) * v.ieq(i, L - 1)
                    n = n + r - n * r
                t = t + gij * n
            return t
        G = v.comp((L, L, L), cpl, dtype="f") if diag or bonds else v.zeros((L, L, L))
        v.eq("coupling up", gm[:, :L, :L], G)
        v.eq("coupling down", gm[:, L:, L:], G)
        v.eq("coupling mixed", gm[:, :L, L:], 0.0 * G)
        v.eq("coupling mixed 2", gm[:, L:, :L], 0.0 * G)
        xi = v.einsum("Iab,ab->I", G, pa + pb) / w
        v.eq("displacements", v.get(o, "xi"), xi if shift else 0.0 * xi)
        xi = v.get(o, "xi")
        if not v.sym or not bonds:    # with bond couplings the square exceeds the term limit; left to the concrete runs
            v.eq("constant", v.get(o, "const"), -1.0 * w * v.einsum("I,I->", xi, xi) if shift else 0.0)


def lor(v, e, e0, d, gam):
    return d * d * gam / ((e - e0) * (e - e0) + gam * gam)


@contract("P14", "linear spectrum", fns=[f"{AG}:linear_spec", f"{AG}:DMA.linearabs", f"{AG}:DMA.dipole", f"{AG}:DMA.energies"])
def _ls(v):
    """sum of Lorentzians weighted by the squared transition dipoles of the requested states"""
    N, ne, m = None, v.dim("ne", hi=3), v.dim("m", lo=1, hi=2)
    N = v.dim("N", lo=2, hi=4, ge=(m,))
    C, e, el = v.tensor("C", (N, N)), v.tensor("e", (N,)), v.tensor("el", (ne,))
    gam = v.scalar("gamma", pos=True)
    o = v.obj(f"{AG}:DMA", Nsite=N, Nexc=m, evals=e, evecs=C, excdipole1=None)
    sp = v.method(o, "linearabs", el, gamma=gam)
    d = v.einsum("ju->u", C)
    v.eq("dipoles", v.get(o, "excdipole1"), d)
    v.eq("spectrum", sp, v.comp((ne,), lambda k: v.sum(m, lambda j: lor(v, el[k], e[j], d[j], gam)), dtype="f"))
    v.eq("energies", v.method(o, "energies"), e[:m])
    sel = v.method(o, "linearabs", el, selected=[1, 0], gamma=gam)
    v.eq("selected states", sel, v.comp((ne,), lambda k: lor(v, el[k], e[0], d[0], gam) + lor(v, el[k], e[1], d[1], gam), dtype="f"))


@contract("P14", "two-dimensional spectrum", fns=[f"{AG}:tdes"])
def _td(v):
    """ground-state bleach and stimulated emission (twice) minus excited-state absorption, times the excitation line, summed over states"""
    ns, ne, nu = v.dim("ns", lo=1, hi=3), v.dim("ne", hi=3), v.dim("nu", hi=2)
    e, el, d1 = v.tensor("e", (ns,)), v.tensor("el", (ne,)), v.tensor("d1", (ns,))
    e2, d2 = v.tensor("e2", (ns, nu)), v.tensor("d2", (ns, nu))
    gam = v.scalar("gamma", pos=True)
    S = v.call(f"{AG}:tdes", el, v.comp((ns,), lambda j: j, dtype="i") if v.sym else list(range(ns)), e, d1, nu, e2, d2, gam)
    line = lambda x, j: 2.0 * lor(v, x, e[j], d1[j], gam) - v.sum(nu, lambda u: lor(v, x, e2[j, u], d2[j, u], gam))
    v.eq("spectrum", S, v.comp((ne, ne), lambda n, m: v.sum(ns, lambda j: line(el[n], j) * lor(v, el[m], e[j], d1[j], gam)), dtype="f"))


@contract("P14", "exciton states", fns=[f"{AG}:DMA.__init__", f"{AG}:DMA.kernel", f"{AG}:DMA.sortdipole"], modes=("num",), num=25,
          note="bounded: up to 6 sites, the eigensolver is external")
def _es(v):
    """eigenstates of the chain with the drawn site energies, in increasing energy; states sorted by transition dipole"""
    N = v.dim("N", lo=1, hi=6)
    eps, t = v.scalar("eps"), v.scalar("t")
    sig = v.choose("sigma", (0.0, 0.3))
    ne = v.choose("Nexc", (1, 5))
    o = v.call(f"{AG}:DMA", N, Nexc=ne, epsilon=eps, hopping=t, sigma=sig)
    v.method(o, "kernel")
    E, A, w, C = (v.get(o, n) for n in ("En", "A", "evals", "evecs"))
    if not sig:
        v.eq("site energies", E, v.comp((N,), lambda i: eps))
    H = v.comp((N, N), lambda i, j: E[i] * v.ieq(i, j) + t * (v.ieq(i, j + 1) + v.ieq(j, i + 1)))
    v.eq("Hamiltonian", A, H)
    v.eq("eigenstates", H @ C, C * w)
    v.eq("orthonormal", v.einsum("iu,iv->uv", C, C), v.comp((N, N), lambda i, j: v.ieq(i, j)))
    for k in range(N - 1):
        v.true(f"energies increase {k}", w[k].real <= w[k + 1].real + 1e-12)
    v.eq("lowest states", v.method(o, "energies"), w[:min(ne, N)])
    v.method(o, "sortdipole")
    d = abs(v.einsum("iu->u", C))
    s = d[v.get(o, "dipsortidx")]
    for k in range(N - 1):
        v.true(f"dipoles decrease {k}", s[k] >= s[k + 1])
