#!/usr/bin/env python3
"""Write and validate planted bugs (development tool; no check uses it).
    dev/seed.py [ID ...]     each bug: patch applies, tests pass, demo passes without and fails with it; which checks see it
"""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "dev"))
from bugs import BUGS
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\n# run in the repository root\nPYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n'


def write(b):
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, old, new in b["edits"]:
        p = "src/pyrusgeom/" + f
        s = files.get(p) or open("/repo/" + p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        files[p] = s.replace(old, new)
    for p, s in files.items():
        o = open("/repo/" + p, newline="").read()
        for l in difflib.unified_diff(o.splitlines(True) if "\r" not in o else re.findall(r"[^\n]*\n|[^\n]+$", o),
                                      re.findall(r"[^\n]*\n|[^\n]+$", s), "a/" + p, "b/" + p):
            diff += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    with open(d + "/patch.diff", "w", newline="") as f:
        f.write(diff)
    with open(d + "/demo.sh", "w") as f:
        f.write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as f:
        f.write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    return d


def validate(b):
    d = write(b)
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = []
    try:
        r = t + "/repo"
        shutil.copytree("/repo", r)
        def run(cmd, **k):
            e = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", VP_REPO=r, **k)
            return subprocess.run(cmd, cwd=r, env=e, capture_output=True, text=True)
        ok = run(["bash", d + "/demo.sh"]).returncode == 0
        a = run(["git", "apply", d + "/patch.diff"])
        if a.returncode:
            return b["id"], "PATCH " + a.stderr
        m = run(["bash", d + "/demo.sh"])
        tst = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"])
        out.append(f"demo clean={'ok' if ok else 'BAD'} mutant={'fails' if m.returncode else 'BAD-PASSES'} "
                   f"tests={tst.stdout.strip().splitlines()[-1] if tst.stdout else '?'}")
        pids = b.get("also", []) + [b["property"]]
        for pid in pids:
            if not os.path.exists(f"{HERE}/contracts/{pid.lower()}.py"):
                out.append(pid + ":no-check")
                continue
            c = subprocess.run([sys.executable, HERE + "/check.py", pid], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VP_REPO=r, VP_EVIDENCE=t + "/ev"))
            out.append(f"{pid}:exit{c.returncode}" + (" " + [l for l in c.stdout.splitlines() if 'does not hold' in l][0][:150]
                                                      if c.returncode == 1 else " MISSED" if c.returncode == 0 else c.stdout[-300:]))
    finally:
        shutil.rmtree(t)
    return b["id"], " | ".join(out)


if __name__ == "__main__":
    want = set(sys.argv[1:])
    bs = [b for b in BUGS if not want or b["id"] in want or b["property"] in want]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(validate, bs):
            print(i, m, flush=True)
