#!/usr/bin/env python3
"""Mutation campaign (development tool; no check uses it).
    dev/mutate.py map                  contract -> functions coverage map (to /tmp/mut/map.json)
    dev/mutate.py run [FILE[:func] ..] all mutants that pass the tests; survivors to /tmp/mut/survivors.txt
"""
import ast, copy, difflib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
SRC = "/repo/src/pyrusgeom"
OUT = os.environ.get("MUT_OUT", "/tmp/mut")
SKIPF = {"__repr__", "__str__", "to_str", "to_str_values", "test", "main"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult, ast.FloorDiv], ast.Mod: [ast.Mult],
       ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}
SWAP = {"x": "y", "y": "x", "_x": "_y", "_y": "_x", "sin": "cos", "cos": "sin", "origin": "terminal", "terminal": "origin",
        "_origin": "_terminal", "_terminal": "_origin", "min": "max", "max": "min", "left": "right", "right": "left",
        "top": "bottom", "bottom": "top", "_a": "_b", "_b": "_a", "a": "b", "b": "a", "length": "width", "width": "length",
        "_length": "_width", "_width": "_length", "floor": "ceil", "ceil": "floor", "dist": "dist2", "dist2": "dist",
        "r": "r2", "r2": "r", "_min_r": "_max_r", "EPSILON": "ERROR_DIST", "vx": "vy", "vy": "vx",
        "_left_start": "_right_end", "sub": "add", "add": "sub", "and_": "or_", "_11": "_12", "_12": "_21", "_21": "_12", "_22": "_11"}


def sites(fn):
    """(describe, apply) where apply edits the (copied) function node in place by index"""
    nodes = list(ast.walk(fn))
    out = []
    for i, n in enumerate(nodes):
        def add(desc, f, i=i, n=n):
            out.append((getattr(n, "lineno", 0), desc, i, f))
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    add(f"cmp {type(op).__name__}->{new.__name__}", lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                add(f"bin {type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new()))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                def sw(m):
                    m.left, m.right = m.right, m.left
                add("swap operands", sw)
        elif isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []):
                add(f"aug {type(n.op).__name__}->{new.__name__}", lambda m, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add("drop minus", lambda m: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("drop not", lambda m: (setattr(m, "operand", ast.Call(ast.Name("bool", ast.Load()), [m.operand], [])),
                                       setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                add(f"drop operand {k}", lambda m, k=k: (m.values.pop(k), m.values.append(m.values[0]) if len(m.values) < 2 else 0))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                add("negate bool", lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, (int, float)):
                for w in ({v + 1, v - 1, -v} if v else {1}):
                    if w != v:
                        add(f"const {v}->{w}", lambda m, w=w: setattr(m, "value", w))
                if v and isinstance(v, float) and abs(v) < 0.1:
                    add(f"const {v}->0", lambda m: setattr(m, "value", 0.0))
                    add(f"const {v}*1e3", lambda m, v=v: setattr(m, "value", v * 1e3))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(f"attr {n.attr}->{SWAP[n.attr]}", lambda m: setattr(m, "attr", SWAP[m.attr]))
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add(f"name {n.id}->{SWAP[n.id]}", lambda m: setattr(m, "id", SWAP[m.id]))
        elif isinstance(n, ast.If):
            def neg(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            add("negate if", neg)
            add("if False", lambda m: setattr(m, "test", ast.Constant(False)))
            add("if True", lambda m: setattr(m, "test", ast.Constant(True)))
        elif isinstance(n, ast.IfExp):
            add("ifexp False", lambda m: setattr(m, "test", ast.Constant(False)))
            add("ifexp True", lambda m: setattr(m, "test", ast.Constant(True)))
        elif isinstance(n, ast.Call):
            pos = n.args
            for k in range(len(pos) - 1):
                def swa(m, k=k):
                    m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                add(f"swap args {k}", swa)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "abs", "normalize"):
                add("drop ." + n.func.attr, lambda m: (setattr(m, "func", ast.Lambda(ast.arguments([], [ast.arg("_")], None, [], [], None, []), ast.Name("_", ast.Load()))),
                                                       ) if False else m.__dict__.update(_repl=True))
            if isinstance(n.func, ast.Name) and n.func.id in ("abs", "float", "int", "round", "Vector2D", "AngleDeg", "list", "Line2D") and len(n.args) == 1:
                add("drop call " + n.func.id, lambda m: m.__dict__.update(_repl1=True))
        elif isinstance(n, (ast.Break, ast.Continue)):
            add("drop " + type(n).__name__, lambda m: m.__dict__.update(_pass=True))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add("drop stmt", lambda m: m.__dict__.update(_pass=True))
        if isinstance(n, ast.Return) and n.value is not None:
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id[:1].isupper():
                pass
    return out


class Fix(ast.NodeTransformer):
    def generic_visit(self, n):
        super().generic_visit(n)
        if n.__dict__.get("_pass"):
            return ast.Pass()
        if n.__dict__.get("_repl"):
            return n.func.value
        if n.__dict__.get("_repl1"):
            return n.args[0]
        return n


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + "." + m.name, m


def mutants(only):
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".py"):
            continue
        if only and not any(o.split(":")[0] == f for o in only):
            continue
        src = open(os.path.join(SRC, f)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for name, fn in functions(tree):
            short = name.split(".")[-1]
            if short in SKIPF:
                continue
            if only and not any(o == f or o == f + ":" + short for o in only):
                continue
            for line, desc, idx, ap in sites(fn):
                t2 = copy.deepcopy(tree)
                fn2 = dict(functions(t2))[name] if True else None
                # duplicate names (property setters): locate by lineno
                for q, m in functions(t2):
                    if m.lineno == fn.lineno:
                        fn2 = m
                node = list(ast.walk(fn2))[idx]
                ap(node)
                Fix().visit(t2)
                ast.fix_missing_locations(t2)
                try:
                    s = ast.unparse(t2)
                except Exception:
                    continue
                if s == base:
                    continue
                yield {"file": f, "func": name, "short": short, "line": line, "desc": desc, "src": s, "base": base}


def prep(m, root):
    d = os.path.join(root, "src")
    if not os.path.exists(d):
        shutil.copytree("/repo/src", d, ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", os.path.join(root, "tests"), ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(d, "pyrusgeom", m["file"]), "w") as f:
        f.write(m["src"])


def unprep(m, root):
    shutil.copy(os.path.join(SRC, m["file"]), os.path.join(root, "src", "pyrusgeom", m["file"]))


def tests_pass(root):
    env = dict(os.environ, PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=root, env=env,
                           capture_output=True, text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def one(argv):
    """child: run contracts on VP_REPO, stop at the first refuted"""
    import check
    import multiprocessing as mp
    jobs = json.load(open(argv[0]))
    lim = dict(seconds=20, wit_seconds=4, total_wit=10)
    und = []
    known = {(d["contract"], d["obligation"]) for p in range(1, 60) for d in check.known_findings("C%02d" % p)}
    t0 = time.time()
    for mod, name in jobs:
        if time.time() - t0 > 60:
            und.append("time")
            break
        r = check.run_all([(mod, name)], lim, 60, 1)[mod, name]
        ref = [o for o in r["obligations"] if o["verdict"] == "refuted" and not any(k[0] == name for k in known)]
        if ref:
            print(json.dumps({"killed": f"{mod}.{name}", "msg": ref[0]["msg"]}))
            return
        if r["status"] != "ok" or any(o["verdict"] != "proved" for o in r["obligations"]):
            und.append(f"{mod}.{name}:{r['status']}:{r.get('why') or r['undecided_why'][:1]}")
    print(json.dumps({"survived": True, "und": und}))


def main(argv):
    os.makedirs(OUT, exist_ok=True)
    if argv[0] == "one":
        return one(argv[1:])
    if argv[0] == "map":
        import check
        from sa import run
        jobs = []
        for f in sorted(os.listdir(HERE + "/contracts")):
            if f[0] == "c" and f[1:3].isdigit():
                mod = f[:-3]
                th = check.thorough_only(mod)
                jobs += [(mod, n) for n in run.list_contracts(f"{HERE}/contracts/{f}") if n not in th]
        out = check.run_all(jobs, dict(seconds=60, wit_seconds=6, total_wit=25), 3000)
        m = [{"c": list(k), "wall": r.get("wall", 99), "functions": r.get("functions", {})} for k, r in out.items()]
        json.dump(m, open(OUT + "/map.json", "w"))
        print(len(m), "contracts")
        return
    mp_ = json.load(open("/tmp/mut/map.json"))
    def jobs_for(m):
        rel = "src/pyrusgeom/" + m["file"]
        js = []
        for e in mp_:
            fs = e["functions"].get(rel, [])
            if any(x == m["short"] or x.split(".")[-1] == m["short"] for x in fs):
                js.append((e["wall"] * (3 + sum(map(len, e["functions"].values()))), e["c"]))
        js.sort()
        return [c for _, c in js][:int(os.environ.get("CAP", "60"))]
    ms = list(mutants(argv[1:]))
    if os.environ.get("ONLY"):      # the survivors of an earlier run
        import re
        keep = set(re.findall(r"^== (\S+:\d+ \S+ \[.*?\]) jobs", open(os.environ["ONLY"]).read(), re.M))
        ms = [m for m in ms if f"{m['file']}:{m['line']} {m['func']} [{m['desc']}]" in keep]
    print(len(ms), "mutants", flush=True)
    width = int(os.environ.get("WIDTH", "8"))
    import queue
    roots = queue.Queue()
    base = tempfile.mkdtemp(prefix="mutroot-", dir="/tmp")
    for i in range(width):
        r = f"{base}/{i}"
        os.makedirs(r)
        roots.put(r)
    stats = {"test": 0, "killed": 0, "survived": 0, "uncovered": 0}
    sv = open(OUT + "/survivors.txt", "w")

    def go(m):
        root = roots.get()
        try:
            prep(m, root)
            if not tests_pass(root):
                stats["test"] += 1
                return
            js = jobs_for(m)
            res = {}
            if js:
                jf = root + "/jobs.json"
                json.dump(js, open(jf, "w"))
                try:
                    r = subprocess.run([sys.executable, os.path.abspath(__file__), "one", jf], capture_output=True, text=True,
                                       env=dict(os.environ, VP_REPO=root), timeout=900)
                    res = json.loads(r.stdout.strip().splitlines()[-1])
                except Exception as e:
                    res = {"survived": True, "und": [f"error {e}"]}
            if "killed" in res:
                stats["killed"] += 1
                return
            stats["survived" if js else "uncovered"] += 1
            d = [l for l in difflib.unified_diff(m["base"].splitlines(), m["src"].splitlines(), n=0, lineterm="")][3:]
            sv.write(f"== {m['file']}:{m['line']} {m['func']} [{m['desc']}] jobs={len(js)} und={res.get('und')}\n" + "\n".join(d) + "\n")
            sv.flush()
        finally:
            unprep(m, root)
            roots.put(root)

    t0 = time.time()
    with ThreadPoolExecutor(width) as ex:
        for i, _ in enumerate(ex.map(go, ms)):
            if i % 100 == 0:
                print(i, stats, round(time.time() - t0), flush=True)
    shutil.rmtree(base)
    print(stats, round(time.time() - t0))


if __name__ == "__main__":
    main(sys.argv[1:])
