#!/opt/venv/bin/python
"""soundness test of the term normaliser: random sums of products of tensors, indicators, // and % are evaluated before and after
normalisation at random points allowed by the context (also run, with a small count, by the setup command)"""
import os, random, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import numpy as np
from vc import norm as N, contract as C
from vc.alg import IX, E, T, iatom, ind_eq, ind_lt, decl, Unsupported, fresh
from fractions import Fraction


def rand_ix(r, vs, depth=2):
    x = IX.const(r.randint(-1, 3))
    for v in r.sample(vs, r.randint(1, min(2, len(vs)))):
        x = x + IX.sym(v) * r.choice((1, 1, 1, 2, -1, 3))
    if depth and r.random() < 0.6:
        d = r.choice((IX.const(2), IX.const(3), IX.sym("M"), IX.sym("M") + 1, IX.sym("M") * 2))
        x = IX.sym(r.choice(vs)) * r.choice((1, 2)) + r.choice((0, 1, 3)) if r.random() < 0.5 else rand_ix(r, vs, depth - 1)
        x = IX.of(iatom(r.choice(("//", "%")), [x, d])) + r.choice((0, 0, 1, -1))
    return x


def rand_e(r, free):
    out = E([])
    for _ in range(r.randint(1, 3)):
        bs, vs = [], list(free)
        e = E.const(r.choice((1, 2, -1)))
        for _ in range(r.randint(0, 2)):
            b = fresh("k")
            bs.append((b, r.choice((IX.const(2), IX.sym("M"), IX.sym("M") * 2, IX.sym("M") + 1, IX.sym("M") * IX.sym("L"), IX.sym("L") * 2 + IX.sym("L") * IX.sym("M") * 2))))
            vs.append(b)
        for _ in range(r.randint(1, 2)):
            e = e * E.atom(("T", r.choice("ab"), False, tuple(rand_ix(r, vs) for _ in range(2))))
        for _ in range(r.randint(0, 3)):
            x = rand_ix(r, vs)
            e = e * (ind_eq(x) if r.random() < 0.6 else ind_lt(x, 0))
        out = out + E([T(t.c, tuple(bs) + t.b, t.f) for t in e.ts])
    return out


ASY = {"t2": (4, [(1, 0, 2, 3), (0, 1, 3, 2)], -1), "i4": (4, [(1, 0, 2, 3), (0, 1, 3, 2)], -1, (2, 3, 0, 1)), "s2": (2, [(1, 0)], 1), "a2": (2, [(1, 0)], -1), "m2": (2, [], 1)}


def group(n, gens):
    g, todo = {tuple(range(n)): 1}, [tuple(range(n))]
    while todo:
        p = todo.pop()
        for q, s in gens:
            r = tuple(p[k] for k in q)
            if r not in g:
                g[r] = g[p] * s
                todo.append(r)
    return g


GRP = {k: group(v[0], [(q, v[2]) for q in v[1]] + ([(v[3], 1)] if len(v) > 3 else [])) for k, v in ASY.items()}


def rand_contr(r, free):
    """sums of contractions of sign-symmetric tensors; later terms are relabelled / index-permuted copies of earlier ones"""
    terms = []
    for _ in range(r.randint(1, 3)):
        names = [r.choice(list(ASY)) for _ in range(r.randint(1, 4))]
        slots = sum(ASY[x][0] for x in names)
        nb = min(4, slots // 2)
        vs = [fresh("k") for _ in range(nb)]
        pool = (vs * 2 + list(free))[:]
        fs, pos = [], [r.choice(pool) for _ in range(slots)]
        for x in names:
            fs.append((x, tuple(pos[:ASY[x][0]])))
            pos = pos[ASY[x][0]:]
        terms.append((r.choice((1, 2, -1)), vs, fs))
    for _ in range(r.randint(1, 3)):
        c, vs, fs = r.choice(terms)
        nv = [fresh("k") for _ in vs]
        mp = dict(zip(vs, r.sample(nv, len(nv))))
        s = r.choice((1, -1))
        f2 = []
        for x, ii in r.sample(fs, len(fs)):
            p, sg = r.choice(list(GRP[x].items()))
            s *= sg if r.random() < 0.8 else 1
            ii = [mp.get(i, i) for i in ii]
            f2.append((x, tuple(ii[k] for k in p)))
        terms.append((c * s, nv, f2))
    out = E([])
    for c, vs, fs in terms:
        e = E.const(c)
        for x, ii in fs:
            e = e * E.atom(("T", x, False, tuple(IX.sym(i) for i in ii)))
        out = out + E([T(t.c, tuple((v, IX.sym("M")) for v in vs) + t.b, t.f) for t in e.ts])
    return out


def main(n, seed=0, verbose=False):
    for k, g in GRP.items():
        decl(k, real=True, asym=[(list(p), s) for p, s in g.items()])
    decl("a", real=True)
    decl("b", real=True)
    bad = done = 0
    for i in range(n):
        r = random.Random(seed * 1000003 + i)
        free = ["x", "y", "M", "L"]
        kind = i % 3 == 2
        e = rand_contr(r, ["x", "z"]) if kind else rand_e(r, free)
        ctx = N.Ctx([IX.sym("M") - 1, IX.sym("x"), IX.sym("z"), IX.sym("M") - 1 - IX.sym("x"), IX.sym("M") - 1 - IX.sym("z")]) if kind else N.Ctx([IX.sym("M") - 1, IX.sym("L") - 1, IX.sym("x"), IX.sym("y"), IX.sym("M") - 1 - IX.sym("x"), IX.sym("L") * 2 - 1 - IX.sym("y")])
        try:
            d = N.norm(e, ctx)
        except (Unsupported, AssertionError, RecursionError) as ex:
            continue
        done += 1
        for M in (1, 2, 3):
            L = r.choice((1, 2))
            m = dict(M=M, L=L, x=r.randrange(M), y=r.randrange(2 * L), z=r.randrange(M))
            cache, rng = {}, np.random.default_rng(1)
            try:
                p, q = C.eval_e(e, m, cache, rng), C.eval_e(d, m, cache, rng)
            except (ZeroDivisionError, Unsupported):
                continue
            if abs(p - q) > 1e-9 * (1 + abs(p)):
                bad += 1
                print("normaliser unsound:", i, m, p, q, "\n  ", e, "\n  ", d)
                break
    print(f"normaliser: {done} random expressions, {bad} wrong")
    return bad


if __name__ == "__main__":
    sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 300, int(sys.argv[2]) if len(sys.argv) > 2 else 0) else 0)
