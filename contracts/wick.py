"""Wick expansion of the projected, similarity-transformed electron-boson Hamiltonian (specification of the coupled-cluster residuals).

    R_mu = < 0 | b_I.. {bra operators} ( H exp(T) )_connected | 0 >

H = F_pq {p+ q} + 1/4 I_pqrs {p+ q+ s r} + w_x b+_x b_x + g_x,pq {p+ q} (b_x + b+_x)
T = T1 + T2 + S_n + U1_n + U2_n;  amplitude A^(n) with n photons and m electron pairs enters as
    1/n! 1/(m!)^2 A_{x.., a.., i..} b+_x.. a+.. ..i

Every full contraction is enumerated (annihilator left of a creator of the same kind), signed by the parity of its crossings; matchings that differ
only by relabelling equivalent legs or identical amplitudes are counted once with their exact weight. Output: list of
(coefficient, einsum string, operand names) over the tensors F.oo .. I.oooo .. g.oo .. w and the amplitudes; free indices come
in the order photons, virtuals, occupieds of the residual."""
import functools
import itertools
from fractions import Fraction
from math import factorial

AMP = {"T1": (0, 1), "T2": (0, 2), "S1": (1, 0), "S2": (2, 0), "U11": (1, 1), "U12": (2, 1), "U21": (1, 2), "U22": (2, 2)}


def hams():
    """(kind, block, electron operators in order as (type, slot), bosons annihilated, bosons created)
    type 'P' particle creator, 'p' particle annihilator, 'H' hole creator (occupied annihilator), 'h' hole annihilator"""
    cr = {"v": "P", "o": "h"}
    an = {"v": "p", "o": "H"}
    out = [("w", "", [], 1, 1, Fraction(1))]
    for b in itertools.product("ov", repeat=2):
        ops = [(cr[b[0]], 0), (an[b[1]], 1)]
        out.append(("F", "".join(b), ops, 0, 0, Fraction(1)))
        out.append(("g", "".join(b), ops, 1, 0, Fraction(1)))
        out.append(("g", "".join(b), ops, 0, 1, Fraction(1)))
    for b in itertools.product("ov", repeat=4):
        if b[0] + b[1] == "vo" or b[2] + b[3] == "vo":
            continue                                  # one of the two equal orders, weight below
        wt = Fraction(1, 4) * (2 if b[0] != b[1] else 1) * (2 if b[2] != b[3] else 1)
        ops = [(cr[b[0]], 0), (cr[b[1]], 1), (an[b[3]], 3), (an[b[2]], 2)]
        out.append(("I", "".join(b), ops, 0, 0, wt))
    return out


def parity(pairs):
    n = 0
    for k, (a, b) in enumerate(pairs):
        for c, d in pairs[k + 1:]:
            if a < c < b < d or c < a < d < b:
                n += 1
    return -1 if n % 2 else 1


@functools.lru_cache(None)
def residual(nb, ne, amps):
    """terms of the residual with nb photons and ne electron pairs; amps: names of the amplitudes present"""
    out = []
    for ham in hams():
        kind, blk, hops, han, hcr, hw = ham
        nleg = sum(t in "ph" for t, _ in hops)
        for k in range(0, nleg + han + 1):
            for prod in itertools.combinations_with_replacement(sorted(amps), k):
                ph = sum(AMP[a][0] for a in prod)
                el = sum(AMP[a][1] for a in prod)
                if ph + hcr - han != nb:
                    continue
                exc = sum(t == "P" for t, _ in hops) - sum(t == "p" for t, _ in hops) + el
                exh = sum(t == "H" for t, _ in hops) - sum(t == "h" for t, _ in hops) + el
                if exc != ne or exh != ne:
                    continue
                out += product(nb, ne, ham, prod)
    acc = {}
    for c, e, o in out:
        acc[(e, o)] = acc.get((e, o), 0) + c
    return [(c, e, o) for (e, o), c in acc.items() if c]


def product(nb, ne, ham, prod):
    kind, blk, hops, han, hcr, hw = ham
    # vertices: -1 bra, 0 H, 1.. amplitudes; a leg is (vertex, type, slot)
    legs = []
    for j in reversed(range(ne)):
        legs += [(-1, "h", ("i", j)), (-1, "p", ("a", j))]
    for t, s in hops:
        legs.append((0, t, s))
    for n, a in enumerate(prod):
        m = AMP[a][1]
        legs += [(n + 1, "P", ("a", s)) for s in range(m)] + [(n + 1, "H", ("i", s)) for s in reversed(range(m))]
    bl = [(-1, "b", s) for s in range(nb)] + [(0, "b", 0)] * han
    bc = [(0, "B", 0)] * hcr
    for n, a in enumerate(prod):
        bc += [(n + 1, "B", s) for s in range(AMP[a][0])]
    wt = hw
    for a in set(prod):
        wt /= factorial(prod.count(a))
    for a in prod:
        wt *= Fraction(1, factorial(AMP[a][0]) * factorial(AMP[a][1]) ** 2)
    res = {}

    def match(ann, cre, boson):
        out = []

        def rec(k, used, cur):
            if k == len(ann):
                out.append(tuple(cur))
                return
            x = ann[k]
            for j, y in enumerate(cre):
                if j in used:
                    continue
                vx, vy = (x[0], y[0]) if boson else (legs[x][0], legs[y][0])
                if vx >= vy:
                    continue                       # annihilator left of creator, none inside the normal-ordered H
                rec(k + 1, used | {j}, cur + [(x, y)])
        rec(0, frozenset(), [])
        return out
    if len(bl) != len(bc):
        return []
    kinds = {t: [k for k, l in enumerate(legs) if l[1] == t] for t in "PpHh"}
    pm = match(kinds["p"], kinds["P"], False)
    hm = match(kinds["h"], kinds["H"], False)
    bm = match(bl, bc, True)
    for a, b, c in itertools.product(pm, hm, bm):
        conn = set()
        for x, y in a + b:
            vx, vy = legs[x][0], legs[y][0]
            if vx == 0:
                conn.add(vy)
        for x, y in c:
            if x[0] == 0:
                conn.add(y[0])
        if any(n + 1 not in conn for n in range(len(prod))):
            continue
        sg = parity([tuple(sorted(p)) for p in a + b])
        key = canonical(legs, prod, kind, blk, a, b, c, nb, ne)
        for key, s in (key,):
            res[key] = res.get(key, 0) + sg * s * wt
    return [(c, k[0], k[1]) for k, c in res.items() if c]


def canonical(legs, prod, kind, blk, pm, hm, bm, nb, ne):
    """einsum text of one contraction, minimal over the relabellings that leave its value unchanged up to the returned sign"""
    lab = {}
    for x, y in pm + hm:
        lab[x] = lab[y] = (x, y)
    blab = {}
    for n, (x, y) in enumerate(bm):
        blab.setdefault(x, []).append(n)
        blab.setdefault(y, []).append(n)
    free = {}
    for j in range(ne):
        for k, l in enumerate(legs):
            if l[0] == -1 and l[2] == ("a", j):
                free[lab[k]] = "abcd"[j]
            if l[0] == -1 and l[2] == ("i", j):
                free[lab[k]] = "ijkl"[j]
    bfree = {}
    for s in range(nb):
        bfree[blab[(-1, "b", s)][0]] = "IJ"[s]
    # tensors: (name, [leg labels], [boson labels])
    tens = []
    if kind == "w":
        tens.append(("w", [], [blab[(0, "b", 0)][0]], [blab[(0, "B", 0)][0]]))
    else:
        slots = {l[2]: lab[k] for k, l in enumerate(legs) if l[0] == 0}
        b = []
        if kind == "g":
            b = [blab[q][0] for q in ((0, "b", 0), (0, "B", 0)) if q in blab]
        tens.append((kind + "." + blk, [slots[s] for s in sorted(slots)], b))
    for n, a in enumerate(prod):
        s = {l[2]: lab[k] for k, l in enumerate(legs) if l[0] == n + 1}
        m, q = AMP[a][1], AMP[a][0]
        tens.append((a, [s[("a", z)] for z in range(m)] + [s[("i", z)] for z in range(m)], [blab[(n + 1, "B", z)][0] for z in range(q)]))
    best = None
    groups = []
    for n, a in enumerate(prod):
        groups.append(a)
    # orders of identical amplitudes
    idx = list(range(len(prod)))
    orders = [o for o in itertools.permutations(idx) if [prod[k] for k in o] == list(prod)]
    for o in orders:
        ts = [tens[0]] + [tens[1 + k] for k in o]
        opts = []
        for t in ts:
            nm, el, bo = t[0], t[1], t[2]
            v = []
            if nm.startswith("I"):
                blk_ = nm[2:]
                for p in ((0, 1), (1, 0)) if blk_[0] == blk_[1] else ((0, 1),):
                    for r in ((2, 3), (3, 2)) if blk_[2] == blk_[3] else ((2, 3),):
                        v.append(([el[z] for z in p + r], bo, (1 if p == (0, 1) else -1) * (1 if r == (2, 3) else -1)))
            elif nm in AMP:
                m = AMP[nm][1]
                for p in itertools.permutations(range(m)):
                    for r in itertools.permutations(range(m)):
                        for q in itertools.permutations(bo):
                            s = 1
                            if m == 2:
                                s = (1 if p == (0, 1) else -1) * (1 if r == (0, 1) else -1)
                            v.append(([el[z] for z in p] + [el[m + z] for z in r], list(q), s))
            else:
                v.append((el, bo, 1))
            opts.append(v)
        for ch in itertools.product(*opts):
            names = dict(free)
            bn = dict(bfree)
            dv, do, db = iter("cdefgh"[max(0, ne - 2):] if ne else "abcdef"), iter("klmnop" if ne else "ijklmn"), iter("KLMN")
            av = [x for x in "abcdefgh" if x not in names.values()]
            ao = [x for x in "ijklmnop" if x not in names.values()]
            ab = [x for x in "IJKLMN" if x not in bn.values()]
            txt = []
            sgn = 1
            for t, (el, bo, s) in zip(ts, ch):
                sgn *= s
                w = ""
                for x in bo:
                    if x not in bn:
                        bn[x] = ab.pop(0)
                    w += bn[x]
                for x in el:
                    if x not in names:
                        part = legs[x[0]][1] in "pP"
                        names[x] = (av if part else ao).pop(0)
                    w += names[x]
                txt.append(w)
            e = ",".join(txt)
            if kind == "w":                                 # w_x b+_x b_x: both photon lines carry the same mode
                x, y = ts[0][2][0], ts[0][3][0]
                src = bn.get(y)
                e = (e, bn.get(x), src)
            if best is None or str(e) < str(best[0]):
                best = (e, sgn, [t[0] for t in ts])
            elif str(e) == str(best[0]) and sgn != best[1]:
                return ("0", ("0",)), 0
    e, sgn, nms = best
    if kind == "w":
        e, x, y = e
        e = e.replace(x, y)
    res = "IJ"[:nb] + "abcd"[:ne] + "ijkl"[:ne]
    return (e + "->" + res, tuple(nms)), sgn
