"""P13: QED-CCSD: the residuals are the projected similarity-transformed electron-photon Schroedinger equations."""
import itertools
from vc.contract import contract, Violation, Reject
from contracts.wick import residual, AMP

O = "openms.mqed.myqedcc_equations_opt"
R = "openms.mqed.qedcc_equations"
B = "openms.lib.ov_blocks"


def pm(n, *gens):
    """closed group of signed permutations generated by gens"""
    g = {tuple(range(n)): 1}
    todo = list(g)
    while todo:
        p = todo.pop()
        for q, s in gens:
            r = tuple(p[k] for k in q)
            if r not in g:
                g[r] = g[p] * s
                todo.append(r)
    return [(list(p), s) for p, s in g.items()]


BRA, KET, BK = ((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1), ((2, 3, 0, 1), 1)


def hamiltonian(v, no, nv, nm):
    """real orbitals: F, g symmetric; I antisymmetrised and Hermitian; every block is a signed transpose of one of six"""
    F = {"oo": v.tensor("Foo", [no, no], asym=pm(2, ((1, 0), 1))), "ov": v.tensor("Fov", [no, nv]), "vv": v.tensor("Fvv", [nv, nv], asym=pm(2, ((1, 0), 1)))}
    F["vo"] = v.transpose(F["ov"], (1, 0))
    g = {"oo": v.tensor("goo", [nm, no, no], asym=pm(3, ((0, 2, 1), 1))), "ov": v.tensor("gov", [nm, no, nv]), "vv": v.tensor("gvv", [nm, nv, nv], asym=pm(3, ((0, 2, 1), 1)))}
    g["vo"] = v.transpose(g["ov"], (0, 2, 1))
    d = {"o": no, "v": nv}
    I = {}
    for b, gens in (("oooo", (BRA, KET, BK)), ("ooov", (BRA,)), ("oovv", (BRA, KET)), ("ovov", (BK,)), ("ovvv", (KET,)), ("vvvv", (BRA, KET, BK))):
        I[b] = v.tensor("I" + b, [d[c] for c in b], asym=pm(4, *gens))
    for b in map("".join, itertools.product("ov", repeat=4)):
        if b not in I:
            for p, s in pm(4, BRA, KET, BK):
                # I_b[x] = s I_c[x permuted by p] where c = b permuted by p
                c = "".join(b[k] for k in p)
                if c in ("oooo", "ooov", "oovv", "ovov", "ovvv", "vvvv"):
                    inv = [p.index(k) for k in range(4)]
                    I[b] = s * v.transpose(I[c], inv)
                    break
    w = v.tensor("w", [nm], pos=True)
    return F, I, g, w


def amplitudes(v, no, nv, nm, n1, n2, u2):
    dbl = lambda k: pm(4 + k, (tuple(range(k)) + (k + 1, k, k + 2, k + 3), -1), (tuple(range(k)) + (k, k + 1, k + 3, k + 2), -1), *([((1, 0) + tuple(range(2, 4 + k)), 1)] if k == 2 else []))
    A = {"T1": v.tensor("T1", [nv, no], scale=.5), "T2": v.tensor("T2", [nv, nv, no, no], asym=dbl(0), scale=.5), "S1": v.tensor("S1", [nm], scale=.5)}
    if n1 > 1:
        A["S2"] = v.tensor("S2", [nm, nm], asym=pm(2, ((1, 0), 1)), scale=.5)
    A["U11"] = v.tensor("U11", [nm, nv, no], scale=.5)
    if n2 > 1:
        A["U12"] = v.tensor("U12", [nm, nm, nv, no], asym=pm(4, ((1, 0, 2, 3), 1)), scale=.5)
    if u2:
        A["U21"] = v.tensor("U21", [nm, nv, nv, no, no], asym=dbl(1), scale=.5)
        if n2 > 1:
            A["U22"] = v.tensor("U22", [nm, nm, nv, nv, no, no], asym=dbl(2), scale=.5)
    L = lambda *n: [A[x] for x in n if x in A]
    return A, (A["T1"], A["T2"], L("S1", "S2"), L("U11", "U12"), L("U21", "U22") if u2 else [None] * n2)


def spec(v, name, A, H, shape):
    F, I, g, w = H
    r = v.zeros(shape)
    mag = 0.0
    for c, s, ops in residual(*AMP[name], frozenset(A)):
        T = [A[o] if o in A else w if o == "w" else {"F": F, "I": I, "g": g}[o[0]][o[2:]] for o in ops]
        t = float(c) * v.einsum(s, *T)
        r = r + t
        if not v.sym:
            mag = max(mag, float(abs(t).max()))
    return r, mag


def setup(v, nm=None, cfg=((1, 1), (2, 1), (1, 2), (2, 2)), u2s=(True, False), one_mode_u22=False):
    no, nv = v.dim("no", 1, 3), v.dim("nv", 1, 3)
    n1, n2 = v.choose("n", cfg)
    u2 = v.choose("u2", u2s)
    if nm is None:
        nm = 1 if one_mode_u22 and n2 > 1 and u2 or v.choose("modes", (1, 2)) == 1 else v.dim("nm", 2, 3)
    H = hamiltonian(v, no, nv, nm)
    A, amps = amplitudes(v, no, nv, nm, n1, n2, u2)
    F, I, g, w = H
    ns = lambda b: v.obj(None, **b)
    args = (ns(F), ns(I), w, ns(g), ns(g), v.zeros([nm]), v.zeros([nm]), n1, n2, amps)
    return (no, nv, nm), A, H, args, (n1, n2, u2)


def shape(name, no, nv, nm):
    k, m = AMP[name]
    return [nm] * k + [nv] * m + [no] * m


NAMES = ("T1", "T2", "S1", "S2", "U11", "U12", "U21", "U22")


def component(r, name):
    if name in ("T1", "T2"):
        return r[int(name[1]) - 1]
    return r[{"S": 2, "U1": 3, "U2": 4}[name[:-1]]][int(name[-1]) - 1]


def residual_contract(tag, entry, name, prec, u2s, **kw):
    cfg = [c for c in ((1, 1), (2, 1), (1, 2), (2, 2)) if (name != "S2" or c[0] > 1) and (name not in ("U12", "U22") or c[1] > 1)]

    @contract("P13", f"{tag}.{name}", fns=[entry] + prec, **kw)
    def c(v):
        D, A, H, args, _ = setup(v, nm=1 if name == "U22" else None, cfg=cfg, u2s=u2s, one_mode_u22=tag == "cc.ref")
        r = component(v.call(entry, *args), name)
        x, mag = spec(v, name, A, H, shape(name, *D))
        v.eq(f"{name} residual", r, x, mag=mag)
    c.__doc__ = f"{name} residual == projected similarity-transformed Hamiltonian, all dimensions"
    return c


for tag, entry, fns in (("cc.opt", f"{O}:new_qedccsd_sn_u2n", [f"{O}:{f}" for f in ("Imds.build", "qedccsd_T1T2_opt", "qedccsd_Sn", "qedccsd_U1n_opt", "qedccsd_U2n_opt")]),
                        ("cc.ref", f"{R}:qedccsd_sn_u2n", [f"{R}:{f}" for f in ("qedccsd_T1", "qedccsd_T2", "qedccsd_Sn", "qedccsd_U1n", "qedccsd_U2n")])):
    for name in NAMES:
        residual_contract(tag, entry, name, fns, (True,) if name in ("U21", "U22") else (True, False))


@contract("P13", "cc.blocks.full", fns=[f"{B}:make_two_e_blocks_full", f"{B}:two_e_blocks_full"])
def blocks_full(v):
    """the 16 blocks are the occupied/virtual slices of the integral tensor they are named after"""
    d = [(v.dim(f"no{k}", 1, 3), v.dim(f"nv{k}", 1, 3)) for k in range(4)]
    I = v.tensor("I", [o + u for o, u in d])
    b = v.call(f"{B}:make_two_e_blocks_full", I, *[x for p in d for x in p])
    for n in map("".join, itertools.product("ov", repeat=4)):
        v.eq(n, v.get(b, n), v.comp([d[k][c == "v"] for k, c in enumerate(n)], lambda *ix, n=n: I[tuple(i + (d[k][0] if c == "v" else 0) for k, (c, i) in enumerate(zip(n, ix)))], dtype="f"))


@contract("P13", "cc.blocks.part", fns=[f"{B}:make_two_e_blocks"])
def blocks_part(v):
    """the 9 blocks are the occupied/virtual slices of the integral tensor they are named after (dimensions per axis may differ)"""
    d = [(v.dim(f"no{k}", 1, 3), v.dim(f"nv{k}", 1, 3)) for k in range(4)]
    I = v.tensor("I", [o + u for o, u in d])
    b = v.call(f"{B}:make_two_e_blocks", I, *[x for p in d for x in p])
    for n in ("vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"):
        v.eq(n, v.get(b, n), v.comp([d[k][c == "v"] for k, c in enumerate(n)], lambda *ix, n=n: I[tuple(i + (d[k][0] if c == "v" else 0) for k, (c, i) in enumerate(zip(n, ix)))], dtype="f"))


@contract("P13", "cc.blockdiag", fns=[f"{B}:block_diag"])
def blockdiag(v):
    """block_diag(A, B) = A (+) B"""
    m, n, p, q = [v.dim(k, 1, 3) for k in "mnpq"]
    A, C = v.tensor("A", [m, n]), v.tensor("C", [p, q])
    r = v.call(f"{B}:block_diag", A, C)
    v.eq("top left", r[:m, :n], A)
    v.eq("bottom right", r[m:, n:], C)
    v.eq("top right", r[:m, n:], v.zeros([m, q]))
    v.eq("bottom left", r[m:, :n], v.zeros([p, n]))


def fock(d, A, n1, n2):
    """projections of exp(-T) H exp(T)|HF> in the truncated Fock space, by matrices of ladder operators: independent of the Wick expansion.
    exp(T) terminates and every projected component has at most 2 photons, reached from at most 5"""
    import math
    import numpy as np
    no, nv, nm = d["no"], d["nv"], d["nm"]
    n = no + nv
    dets = list(itertools.combinations(range(n), no))
    ix = {x: k for k, x in enumerate(dets)}
    D, nf = len(dets), 5
    hf = ix[tuple(range(no))]

    def ca(p, q):
        m = np.zeros((D, D))
        for k, x in enumerate(dets):
            if q in x:
                y = [z for z in x if z != q]
                if p not in y:
                    t = sorted(y + [p])
                    m[ix[tuple(t)], k] = (-1) ** (x.index(q) + t.index(p))
        return m
    Ex = [[ca(p, q) for q in range(n)] for p in range(n)]
    H1 = lambda a: sum(a[p, q] * (Ex[p][q] - (np.eye(D) if p == q and p < no else 0)) for p in range(n) for q in range(n))
    I = d["I"]
    H2 = sum(0.25 * I[p, q, r, s] * (Ex[p][r] @ Ex[q][s] - (Ex[p][s] if q == r else 0)) for p, q, r, s in itertools.product(range(n), repeat=4))
    H2 = H2 - H1(np.einsum("piqi->pq", I[:, :no, :, :no])) - 0.5 * np.einsum("ijij->", I[:no, :no, :no, :no]) * np.eye(D)
    b = np.diag(np.sqrt(np.arange(1, nf)), 1)
    bs = []
    for x in range(nm):
        o = np.eye(1)
        for y in range(nm):
            o = np.kron(o, b if x == y else np.eye(nf))
        bs.append(o)
    iB, kr = np.eye(nf ** nm), np.kron
    Hm = kr(H1(d["F"]) + H2, iB) + sum(d["w"][x] * kr(np.eye(D), bs[x].T @ bs[x]) + kr(H1(d["g"][x]), bs[x] + bs[x].T) for x in range(nm))
    T = np.zeros_like(Hm)
    for nme, t in A.items():
        k, m = AMP[nme]
        for idx in itertools.product(range(nm), repeat=k):
            P = iB
            for x in idx:
                P = P @ bs[x].T
            a = t[idx]
            op = np.eye(D) * a if m == 0 else sum(a[p, i] * Ex[no + p][i] for p in range(nv) for i in range(no)) if m == 1 else \
                0.25 * sum(a[p, q, i, j] * Ex[no + p][i] @ Ex[no + q][j] for p in range(nv) for q in range(nv) for i in range(no) for j in range(no))
            T += kr(op, P) / math.factorial(k)

    def expT(x, s):
        out = t = x
        for k in range(1, 80):
            t = s * (T @ t) / k
            if not np.any(t):
                break
            out = out + t
        return out
    ref = np.zeros(len(Hm))
    ref[hf * nf ** nm] = 1
    W = expT(Hm @ expT(ref, 1), -1).reshape((D,) + (nf,) * nm)

    def proj(k, m):
        out = np.zeros((nm,) * k + (nv,) * m + (no,) * m)
        for q in np.ndindex(*out.shape):
            ph, a, i = q[:k], q[k:k + m], q[k + m:]
            x = np.eye(D)[hf]
            for p, h in reversed(list(zip(a, i))):
                x = Ex[no + p][h] @ x
            occ = [ph.count(y) for y in range(nm)]
            out[q] = x @ W[(slice(None),) + tuple(occ)] * math.sqrt(np.prod([math.factorial(o) for o in occ]))
        return out
    return proj


for tag, entry in (("cc.opt", f"{O}:new_qedccsd_sn_u2n"), ("cc.ref", f"{R}:qedccsd_sn_u2n")):
    @contract("P13", f"{tag}.fock", fns=[entry, f"{B}:make_two_e_blocks_full"], modes=("num",), num=24)
    def infock(v, tag=tag, entry=entry):
        """all residuals against ladder-operator matrices in Fock space (2..3 spin orbitals of each kind, 1..2 modes): independent check of the Wick specification too"""
        no, nv = v.dim("no", 1, 2), v.dim("nv", 1, 2)
        n = no + nv
        n1, n2 = v.choose("n", ((1, 1), (2, 1), (1, 2), (2, 2)))
        u2 = v.choose("u2", (True, False))
        nm = 1 if tag == "cc.ref" and n2 > 1 and u2 or n > 3 else v.choose("nm", (1, 2))
        F = v.tensor("F", [n, n], asym=pm(2, ((1, 0), 1)))
        I = v.tensor("I", [n] * 4, asym=pm(4, BRA, KET, BK))
        g = v.tensor("g", [nm, n, n], asym=pm(3, ((0, 2, 1), 1)))
        w = v.tensor("w", [nm], pos=True)
        A, amps = amplitudes(v, no, nv, nm, n1, n2, u2)
        blk = lambda a: v.obj(None, oo=a[..., :no, :no].copy(), ov=a[..., :no, no:].copy(), vo=a[..., no:, :no].copy(), vv=a[..., no:, no:].copy())
        ib = v.call(f"{B}:make_two_e_blocks_full", I, *([no, nv] * 4))
        r = v.call(entry, blk(F), ib, w, blk(g), blk(g), v.zeros([nm]), v.zeros([nm]), n1, n2, amps)
        proj = fock(dict(no=no, nv=nv, nm=nm, F=F, I=I, g=g, w=w), A, n1, n2)
        big = max(float(abs(x).max()) for x in (F, I, g, w)) * max(1.0, *[float(abs(x).max()) for x in A.values()]) ** 4
        for name in A:
            if name == "U22" and nm > 1:
                continue
            v.eq(name, component(r, name), proj(*AMP[name]), tol=1e-7, mag=big)
