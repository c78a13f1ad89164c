#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | --replay FILE | --list"""
import argparse
import glob
import importlib
import json
import os
import sys
import time

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(6000)


def load(prop):
    so = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        from vc import contract as C
        for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
            nm = os.path.basename(f)[:-3]
            if nm.startswith("_"):
                continue
            if prop is None or nm.lower().startswith(prop.lower() + "_"):
                importlib.import_module("contracts." + nm)
    finally:
        sys.stdout.close()
        sys.stdout = so
    return C


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def one(args):
    """verify one contract (runs in a worker process)"""
    prop, cid, tier, seed = args
    from vc import contract as C, norm as N
    c = [x for x in C.CONTRACTS if x["id"] == cid and prop in x["prop"]][0]
    t0 = time.time()
    N.STATS.update(z3_queries=0, z3_time=0.0, terms=0, norm_calls=0)
    thorough = tier == "thorough"
    res = dict(id=cid, functions=c["fns"], note=c["note"])
    r = None
    stage = "none"
    if "sym" in c["modes"]:
        r = C.run_symbolic(c, budget=240 if thorough else 120)
        stage = "symbolic"
        if r["status"] == "unsupported" and c["unroll"]:
            # concretise the named dimensions: bounded in those, all other dimensions/values unbounded
            res["symbolic_reason"] = r["reason"]
            agg = None
            hi = 4 if thorough else 3
            import itertools
            for combo in itertools.product(range(1, hi), repeat=len(c["unroll"])):
                q = C.run_symbolic(c, budget=40, concrete=dict(zip(c["unroll"], combo)))
                if agg is None:
                    agg = q
                else:
                    agg["obl"] += q["obl"]
                    agg["paths"] += q["paths"]
                    agg["loops"] += q["loops"]
                    agg["asm"] |= q["asm"]
                    agg["fns"].update(q["fns"])
                    if q["status"] != "proved":
                        agg["status"], agg["reason"] = q["status"], q["reason"]
                if agg["status"] not in ("proved",):
                    break
            r = agg
            stage = f"symbolic with {','.join(c['unroll'])} in 1..{hi - 1}"
    if c.get("hoare"):
        try:
            r = c["hoare"]()
        except Exception as ex:
            r = dict(status="unsupported", reason=f"{type(ex).__name__}: {ex}", obl=[], fns={}, loops=0, paths=0, asm=set(), safety=0, models=[])
        stage = "symbolic"
    n = c["num"] * (10 if thorough else 1)
    base = 1000 * seed
    ok = checks = 0
    viol, reasons = None, []
    kn, hits = {k["label"] for k in known_findings() if k["property"] == prop and k["contract"] == cid}, {}
    if "num" in c["modes"]:
        seeds = [base + k for k in range(n)]
        ok, checks, viol, reasons = C.run_numeric(c, seeds, limit=300 if thorough else 45, known=kn, hits=hits)
        if viol is None and r is not None and r["status"] in ("refuted", "undecided", "unsupported"):
            # guided search: integer models of the paths, more random inputs
            for m in (r.get("models") or [])[:8]:
                a, b, viol, q = C.run_numeric(c, [base + 5000 + k for k in range(10)], dims=m, limit=15, known=kn, hits=hits)
                ok += a
                checks += b
                if viol:
                    break
            if viol is None:
                a, b, viol, q = C.run_numeric(c, [base + 7000 + k for k in range(n * 4)], limit=60 if not thorough else 300, known=kn, hits=hits)
                ok += a
                checks += b
    res.update(stage=stage, seconds=round(time.time() - t0, 2), concrete_runs=ok, concrete_checks=checks,
               inconclusive=reasons[:5], z3_queries=N.STATS["z3_queries"], z3_seconds=round(N.STATS["z3_time"], 2),
               terms=N.STATS["terms"])
    if r is not None:
        res.update(status=r["status"], reason=r["reason"][:1500], obligations=len(r["obl"]) + r["safety"],
                   discharged=sum(1 for o in r["obl"] if o[1] == "proved") + r["safety"],
                   post=len(r["obl"]), safety=r["safety"], paths=r["paths"], loops=r["loops"],
                   fns=sorted(r["fns"]), asm=sorted(r["asm"]) + c["assumes"],
                   failed=[o for o in r["obl"] if o[1] == "refuted"][:10],
                   undecided=[(o[0], str(o[2])[:400]) for o in r["obl"] if o[1] == "undecided"][:10],
                   labels=[o[0] for o in r["obl"]][:40])
    else:
        res.update(status="bounded", reason="contract checked on concrete inputs only", obligations=0, discharged=0, post=0,
                   safety=0, paths=0, loops=0, fns=[], asm=c["assumes"], failed=[], undecided=[], labels=[])
    res["violation"] = viol
    res["known_hits"] = sorted(hits)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    C = load(prop)
    cs = [c for c in C.CONTRACTS if prop in c["prop"] and (not a.only or a.only in c["id"])]
    if not cs:
        print(f"no contracts for {prop}", file=sys.stderr)
        return 2
    jobs = [(prop, c["id"], a.tier, seed) for c in cs]
    results = run_pool(jobs, a.jobs)
    return report(prop, a.tier, seed, results, time.time() - t0, a)


def run_pool(jobs, n):
    """fork one worker per contract; a crashed/overdue worker is 'undecided', never a violation"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    out = {}
    q = list(jobs)
    running = []
    while q or running:
        while q and len(running) < n:
            j = q.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(j, tx))
            p.start()
            tx.close()
            running.append((j, p, rx, time.time()))
        time.sleep(0.02)
        nr = []
        for j, p, rx, t in running:
            done = False
            lim = 700 if j[2] != "thorough" else 3000
            if rx.poll():
                try:
                    out[j[1]] = rx.recv()
                    done = True
                except EOFError:
                    done = True
            elif not p.is_alive():
                done = True
            elif time.time() - t > lim:
                p.kill()
                done = True
            if done:
                p.join(5)
                if j[1] not in out:
                    out[j[1]] = dict(id=j[1], status="error", reason="worker died or timed out", functions=[], note="", stage="",
                                     seconds=round(time.time() - t, 1), concrete_runs=0, concrete_checks=0, obligations=0,
                                     discharged=0, post=0, safety=0, paths=0, loops=0, fns=[], asm=[], failed=[], undecided=[],
                                     labels=[], violation=None, inconclusive=[], z3_queries=0, z3_seconds=0, terms=0)
            else:
                nr.append((j, p, rx, t))
        running = nr
    return [out[j[1]] for j in jobs]


def _worker(j, tx):
    try:
        so = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        r = one(j)
    except BaseException as ex:  # noqa
        import traceback
        r = dict(id=j[1], status="error", reason=f"{type(ex).__name__}: {ex} {traceback.format_exc()[-1500:]}", functions=[], note="", stage="",
                 seconds=0, concrete_runs=0, concrete_checks=0, obligations=0, discharged=0, post=0, safety=0, paths=0, loops=0,
                 fns=[], asm=[], failed=[], undecided=[], labels=[], violation=None, inconclusive=[], z3_queries=0, z3_seconds=0, terms=0)
    tx.send(r)
    tx.close()


def report(prop, tier, seed, results, wall, a):
    known = [k for k in known_findings() if k["property"] == prop]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    nviol = 0
    for r in results:
        v = r.get("violation")
        for k in known:
            if k["contract"] == r["id"] and k["label"] in r.get("known_hits", ()):
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        if v:
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, slug(f"{prop}_{r['id']}") + ".json")
            json.dump(dict(property=prop, contract=r["id"], functions=r["functions"], **v, symbolic_status=r["status"],
                           failed_obligations=[list(map(str, o)) for o in r["failed"]],
                           how=f"{HERE}/check.py --replay {p}"), open(p, "w"), indent=1)
            print(f"contract {r['id']}: obligation '{v['label']}' fails on the real code: {v['detail']} (seed {v['seed']}, dims {v['dims']})")
            print(f"VIOLATION property={prop} replay={p}")
            nviol += 1
        elif r["status"] == "refuted":
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, slug(f"{prop}_{r['id']}") + ".json")
            json.dump(dict(property=prop, contract=r["id"], functions=r["functions"],
                           failed_obligations=[list(map(str, o)) for o in r["failed"]], verifier_output=r["reason"]), open(p, "w"), indent=1)
            print(f"contract {r['id']}: verifier refutes obligation {r['failed'][0][0]}: {str(r['failed'][0][2])[:300]}")
            print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
            nviol += 1
    proved = [r for r in results if r["status"] == "proved" and r["stage"] == "symbolic"]
    partial = [r for r in results if r["status"] == "proved" and r["stage"] != "symbolic"]
    bounded = [r for r in results if r["status"] != "proved"]
    ob = sum(r["obligations"] for r in results)
    dc = sum(r["discharged"] for r in results)
    asm = sorted({x for r in results for x in r["asm"]})
    lvl = "proof" if not bounded and not partial else "proof" if len(proved) >= max(1, len(results) // 2) else "other"
    fnset = sorted({f for r in results for f in r["fns"]} | {f for r in results for f in r["functions"]})
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, wall_s=round(wall, 2), violations=nviol,
              assumptions=asm + ["arithmetic is exact real/complex/integer arithmetic, not IEEE floating point",
                                 "array dimensions used as loop bounds are >= the stated lower bound (1 unless noted)"],
              coverage=dict(
                  explanation="contracts discharged by symbolic execution of the current source plus exact tensor normal forms / z3",
                  obligations=ob, discharged=dc,
                  checker_cmd=f"{HERE}/check.py {prop} --tier {tier}",
                  trusted_base=["vc/alg.py+norm.py (tensor normal form)", "vc/interp.py (semantics of the Python subset)",
                                "vc/nphandlers.py (assumed contracts of numpy/scipy/pyscf.lib calls)", "z3 " + _z3v()],
                  back_end="tensor normal form (vc.norm) + z3 for integer side conditions",
                  solver_queries=sum(r["z3_queries"] for r in results),
                  solver_seconds=round(sum(r["z3_seconds"] for r in results), 2),
                  functions_under_contract=fnset,
                  contracts_proved=[r["id"] for r in proved],
                  contracts_proved_with_bounded_dimension=[dict(id=r["id"], bound=r["stage"], why=r.get("symbolic_reason", "")) for r in partial],
                  contracts_bounded_only=[dict(id=r["id"], status=r["status"], reason=r["reason"][:400], concrete_runs=r["concrete_runs"],
                                               undecided=r["undecided"][:3]) for r in bounded],
                  concrete_runs=sum(r["concrete_runs"] for r in results),
                  concrete_checks=sum(r["concrete_checks"] for r in results),
                  details=[{k: r.get(k) for k in ("id", "status", "stage", "seconds", "post", "safety", "discharged", "paths", "loops",
                                                   "concrete_runs", "inconclusive", "labels")} for r in results]))
    only = getattr(a, "only", None)
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if a.v:
        for r in results:
            print(f"  {r['status']:11s} {r['id']:38s} obl {r['discharged']}/{r['obligations']} paths {r['paths']} loops {r['loops']} "
                  f"num {r['concrete_runs']} {r['seconds']}s [{r['stage']}] {r['reason'][:700] if r['status'] != 'proved' else ''} {r['inconclusive'][:2]} {r.get('violation') or ''}")
    print(f"{prop}: {len(results)} contracts, {len(proved)} proved for all dimensions, {len(partial)} proved with a bounded dimension, "
          f"{len(bounded)} bounded; obligations {dc}/{ob}; {nviol} violation(s); {wall:.1f}s")
    if nviol:
        return 1
    if ob == 0 and not any(r["concrete_runs"] for r in results):
        print("no obligation was generated and nothing was executed", file=sys.stderr)
        return 3
    return 0


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def slug(s):
    import re
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)


def replay(path):
    d = json.load(open(path))
    C = load(d["property"])
    c = [x for x in C.CONTRACTS if x["id"] == d["contract"]][0]
    if "seed" not in d:
        print("no failing input recorded; failed obligations:")
        for o in d["failed_obligations"]:
            print("  ", o)
        return 1
    ok, n, v, why = C.run_numeric(c, [d["seed"]], dims=d.get("forced"))
    print("reproduced:" if v else "not reproduced", v or why)
    return 1 if v else 0


if __name__ == "__main__":
    sys.exit(main())
