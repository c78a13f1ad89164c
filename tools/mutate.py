#!/opt/venv/bin/python
"""Mutation test of the contracts: tools/mutate.py PROP [--max N] [--fn SUBSTR] [--seed S] [--full]
Writes small source mutants of the functions under contract into scratch copies of /repo/openms and lists those no contract notices."""
import argparse
import ast
import copy
import importlib
import inspect
import os
import random
import shutil
import subprocess
import sys
import textwrap
import time
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
sys.dont_write_bytecode = True

DRIVER = r'''
import sys, os, json
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, "%s")
import warnings; warnings.simplefilter("ignore")
sys.setrecursionlimit(6000)
so = os.dup(1); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
def out(x):
    os.write(so, (x + "\n").encode()); os._exit(0)
os.environ["VERIF_REPO"] = sys.argv[1]
try:
    import check
    prop, ids, full = sys.argv[2], json.loads(sys.argv[3]), sys.argv[4] == "1"
    C = check.load(prop)
    cs = [c for c in C.CONTRACTS if prop in c["prop"] and c["id"] in ids]
    inc = []
    for c in cs:
        if "num" in c["modes"]:
            kn = {k["label"] for k in check.known_findings() if k["property"] == prop and k["contract"] == c["id"]}
            ok, n, v, why = C.run_numeric(c, [1000 + k for k in range(c["num"])], limit=30, known=kn, hits={})
            if v: out("KILLED num %%s | %%s" %% (c["id"], v["label"]))
            if not ok: inc.append(c["id"] + ":" + str(why[:1]))
    if full:
        for c in cs:
            r = check.one((prop, c["id"], "quick", 1))
            if r.get("violation"): out("KILLED one %%s | %%s" %% (c["id"], r["violation"]["label"]))
            if r["status"] == "refuted": out("KILLED refuted %%s" %% c["id"])
            if r["status"] != "proved" and r["stage"] == "symbolic": inc.append(c["id"] + ":" + r["status"] + ":" + r["reason"][:150])
    out("SURVIVED " + "; ".join(inc)[:400])
except BaseException as e:
    out("ERROR %%s %%s" %% (type(e).__name__, e))
''' % HERE


def muts(fn_node, rnd):
    """yield (description, mutator(copy of tree) ) by node path"""
    out = []
    doc = fn_node.body[0] if fn_node.body and isinstance(fn_node.body[0], ast.Expr) and isinstance(getattr(fn_node.body[0], "value", None), ast.Constant) else None
    names = sorted({n.id for n in ast.walk(fn_node) if isinstance(n, ast.Name)})
    nodes = []

    def skip_call(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = ast.unparse(n.value.func)
            return t.startswith(("logger.", "print", "logging", "self.log", "backend.log", "log."))
        return isinstance(n, ast.Raise) or n is doc

    def rec(n):
        if skip_call(n):
            return
        nodes.append(n)
        for ch in ast.iter_child_nodes(n):
            rec(ch)
    for b in fn_node.body:
        rec(b)
    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}.get(type(n.op))
            if m:
                out.append((i, "binop", m))
            if isinstance(n.op, (ast.Mult, ast.Add)):
                out.append((i, "dropright", None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, "dropunary", None))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if m:
                out.append((i, "cmp", m))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((i, "const", n.value + 1))
            if n.value not in (0, 1):
                out.append((i, "const", 1 if isinstance(n.value, int) else 1.0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "->" in n.value and len(n.value) < 60:
            l, r = n.value.replace(" ", "").split("->")
            ops = l.split(",")
            for k, o in enumerate(ops):
                if len(o) >= 2:
                    p = rnd.randrange(len(o) - 1)
                    o2 = o[:p] + o[p + 1] + o[p] + o[p + 2:]
                    out.append((i, "const", ",".join(ops[:k] + [o2] + ops[k + 1:]) + "->" + r))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            out.append((i, "inner", None))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "copy") and not n.args:
            out.append((i, "callinner", None))
        elif isinstance(n, ast.AugAssign):
            out.append((i, "aug2assign", None))
            out.append((i, "delete", None))
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            out.append((i, "delete", None))
        elif isinstance(n, ast.If):
            out.append((i, "negif", None))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            alts = [m for m in names if m != n.id and len(m) > 1 and len(n.id) > 1 and len(m) == len(n.id) and sum(a != b for a, b in zip(m, n.id)) == 1]
            if n.id in ("na", "nb"):
                alts = [{"na": "nb", "nb": "na"}[n.id]]
            if alts:
                out.append((i, "name", rnd.choice(alts)))
        elif isinstance(n, ast.Attribute) and n.attr.startswith(("n", "G", "T", "p")) and n.attr.endswith(("alpha", "beta", "_a", "_b", "a", "b")):
            sw = None
            for x, y in (("alpha", "beta"), ("beta", "alpha"), ("_a", "_b"), ("_b", "_a")):
                if n.attr.endswith(x):
                    sw = n.attr[:-len(x)] + y
                    break
            if sw:
                out.append((i, "attr", sw))
    return out, nodes, skip_call


def apply(fn_node, m, skip):
    t = copy.deepcopy(fn_node)
    nodes = []
    doc = t.body[0] if t.body and isinstance(t.body[0], ast.Expr) and isinstance(getattr(t.body[0], "value", None), ast.Constant) else None
    par = {}

    def rec(n, p, f, k):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and skip(n):
            return
        if isinstance(n, ast.Raise) or n is doc:
            return
        par[id(n)] = (p, f, k)
        nodes.append(n)
        for fld, val in ast.iter_fields(n):
            if isinstance(val, list):
                for q, ch in enumerate(val):
                    if isinstance(ch, ast.AST):
                        rec(ch, n, fld, q)
            elif isinstance(val, ast.AST):
                rec(val, n, fld, None)
    for q, b in enumerate(t.body):
        rec(b, t, "body", q)
    i, kind, arg = m
    n = nodes[i]
    p, f, k = par[id(n)]

    def put(new):
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[k] = new
    before = ast.unparse(n).split("\n")[0]
    if kind == "binop":
        n.op = arg()
    elif kind == "dropright":
        put(n.left)
    elif kind == "dropunary":
        put(n.operand)
    elif kind == "cmp":
        n.ops = [arg()]
    elif kind == "const":
        n.value = arg
    elif kind == "inner":
        put(n.value)
    elif kind == "callinner":
        put(n.func.value)
    elif kind == "aug2assign":
        tt = copy.deepcopy(n.target)
        put(ast.copy_location(ast.Assign(targets=[tt], value=n.value), n))
    elif kind == "delete":
        put(ast.copy_location(ast.Pass(), n))
    elif kind == "negif":
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
    elif kind == "name":
        n.id = arg
    elif kind == "attr":
        n.attr = arg
    nw = getattr(p, f) if k is None else getattr(p, f)[k]
    ast.fix_missing_locations(t)
    return t, f"line {n.lineno}: {kind}: {before[:70]}  ->  {ast.unparse(nw).split(chr(10))[0][:70]}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--max", type=int, default=150)
    ap.add_argument("--fn", default="")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--full", action="store_true")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    import check
    C = check.load(a.prop)
    cs = [c for c in C.CONTRACTS if a.prop in c["prop"]]
    fns = {}
    for c in cs:
        for f in c["fns"]:
            try:
                o = C.resolve(f)
            except Exception:
                continue
            o = inspect.unwrap(getattr(o, "py_func", o))
            if isinstance(o, (types.FunctionType, types.MethodType)):
                o = getattr(o, "__func__", o)
                key = (inspect.getsourcefile(o), o.__qualname__, o.__code__.co_firstlineno)
                fns.setdefault(key, set()).add(c["id"])
    work = []
    for (file, qn, ln), ids in sorted(fns.items()):
        if a.fn not in qn or "/openms/" not in file:
            continue
        src = open(file).read()
        tree = ast.parse(src)
        nd = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.lineno <= ln + 6 and n.name == qn.split(".")[-1]
              and (n.decorator_list[0].lineno if n.decorator_list else n.lineno) == ln]
        if not nd:
            continue
        nd = nd[0]
        ms, nodes, skip = muts(nd, rnd)
        for m in ms:
            work.append((file, qn, nd, m, skip, ids))
    rnd.shuffle(work)
    work = work[:a.max]
    print(f"{len(fns)} functions, {len(work)} mutants", flush=True)
    root = f"/tmp/mut_{a.prop}_{os.getpid()}"
    os.makedirs(root)
    drv = os.path.join(root, "drv.py")
    open(drv, "w").write(DRIVER)
    slots = []
    for j in range(a.jobs):
        d = os.path.join(root, f"s{j}")
        shutil.copytree("/repo/openms", os.path.join(d, "openms"), symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "*.chk"))
        slots.append(d)
    import json
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    running, stat, free = {}, {}, list(slots)
    q = list(work)

    def finish(p):
        d, file, rel, desc, qn, t0 = running.pop(p)
        o = (p.stdout.read() or "").strip() or "CRASH"
        shutil.copyfile(file, os.path.join(d, rel))
        free.append(d)
        k = o.split()[0]
        stat[k] = stat.get(k, 0) + 1
        if k != "KILLED":
            print(f"{o[:300]}\n    {qn} {desc} ({time.time()-t0:.0f}s)", flush=True)
    try:
        while q or running:
            while q and free:
                file, qn, nd, m, skip, ids = q.pop()
                try:
                    t, desc = apply(nd, m, skip)
                except Exception as ex:
                    continue
                L = open(file).read().split("\n")
                s = nd.decorator_list[0].lineno if nd.decorator_list else nd.lineno
                new = textwrap.indent(ast.unparse(t), " " * nd.col_offset).split("\n")
                d = free.pop()
                rel = os.path.relpath(file, "/repo")
                open(os.path.join(d, rel), "w").write("\n".join(L[:s - 1] + new + L[nd.end_lineno:]))
                p = subprocess.Popen(["/opt/venv/bin/python", drv, d, a.prop, json.dumps(sorted(ids)), "1" if a.full else "0"], stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, text=True, env=env, cwd=d)
                running[p] = (d, file, rel, desc, qn, time.time())
            for p in list(running):
                if p.poll() is not None:
                    finish(p)
                elif time.time() - running[p][5] > (400 if a.full else 120):
                    p.kill()
                    p.wait()
                    finish(p)
            time.sleep(0.05)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(stat)


main()
