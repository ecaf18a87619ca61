#!/usr/bin/env python3
"""Decide one property of PyrusGeom by static analysis of /repo/src/pyrusgeom.

    check.py C05 [--tier quick|thorough]     decide the property
    check.py --replay evidence/replay-C05.json    analyse the reported contracts again
    check.py --setup                          byte-compile, positive control

The source is parsed and abstractly interpreted (see DESIGN.md); nothing of the
library is imported or executed.
"""
import json
import multiprocessing as mp
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VP_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import run  # noqa: E402

KNOWN = os.path.join(HERE, "known-findings.txt")
TIERS = {"quick": dict(budget=300000, seconds=60, wit_seconds=6, total_wit=25),
         "thorough": dict(budget=2000000, seconds=400, wit_seconds=40, total_wit=200)}
WALL = {"quick": 780, "thorough": 3000}


def thorough_only(mod):
    import ast
    t = ast.parse(open(os.path.join(HERE, "contracts", mod + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "THOROUGH":
            return set(ast.literal_eval(n.value))
    return set()


def worker(conn, mod, name, lim):
    try:
        conn.send(run.analyse_big("contracts." + mod, name, **lim))
    except BaseException as e:
        conn.send({"contract": name, "status": "error", "why": str(e)[-1500:], "obligations": [],
                   "undecided_why": []})
    conn.close()


def run_all(jobs, lim, wall, width=8):
    """one process per contract, at most `width` at a time."""
    t_end = time.time() + wall
    todo, live, out = list(jobs), [], {}
    ctx = mp.get_context("fork")
    hard = lim["seconds"] + lim["total_wit"] + 60
    while todo or live:
        while todo and len(live) < width and time.time() < t_end:
            mod, name = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, mod, name, lim), daemon=True)
            p.start()
            b.close()
            live.append((p, a, mod, name, time.time()))
        if todo and time.time() >= t_end:
            for mod, name in todo:
                out[mod, name] = {"contract": name, "status": "incomplete", "why": "time budget of the check",
                                  "obligations": [], "undecided_why": []}
            todo = []
        got = mp.connection.wait([x[1] for x in live], timeout=1.0) if live else []
        keep = []
        for p, a, mod, name, t0 in live:
            if a in got:
                try:
                    out[mod, name] = a.recv()
                except EOFError:
                    out[mod, name] = {"contract": name, "status": "incomplete", "why": "analysis process ended",
                                      "obligations": [], "undecided_why": []}
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() - t0 > hard or time.time() > t_end + 60:
                p.kill()
                out[mod, name] = {"contract": name, "status": "incomplete", "why": "analysis time limit",
                                  "obligations": [], "undecided_why": []}
            else:
                keep.append((p, a, mod, name, t0))
        live = keep
    return out


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding:"):
                d = json.loads(line[len("finding:"):])
                if d["property"] == pid:
                    out.append(d)
    return out


def control():
    """the analysis must refute a false statement and prove a true one."""
    r = run.analyse_big("contracts.control", "square_positive")
    if [o["verdict"] for o in r["obligations"]] != ["refuted", "proved", "refuted", "proved", "refuted"]:
        print("positive control failed:", json.dumps(r["obligations"])[:2000])
        return False
    return True


def decide(pid, tier):
    t0 = time.time()
    prop = {}
    pf = os.path.join(HERE, "properties.jsonl")
    for line in open(pf):
        if line.strip():
            d = json.loads(line)
            prop[d["id"]] = d
    mod = pid.lower()
    path = os.path.join(HERE, "contracts", mod + ".py")
    names = run.list_contracts(path)
    if tier == "quick":
        skip = thorough_only(mod)
        names = [n for n in names if n not in skip]
    if not control():
        return 2
    lim = TIERS[tier]
    res = run_all([(mod, n) for n in names], lim, WALL[tier])
    known = known_findings(pid)
    counts = dict(proved=0, partial=0, refuted=0, undecided=0)
    viol, kf, undec, anchors, funcs, errors = [], [], [], [], {}, []
    callsites = joins = gates = values = 0
    samples = []
    for n in names:
        r = res[mod, n]
        if r["status"] == "anchor":
            anchors.append(f"{n}: {r.get('why')}")
        if r["status"] == "error":
            errors.append(f"{n}: {r.get('why')}")
        if r["status"] in ("incomplete", "partial"):
            undec.append({"contract": n, "why": r.get("why") or r.get("undecided_why")})
        for f, fs in r.get("functions", {}).items():
            funcs.setdefault(f, set()).update(fs)
        callsites += r.get("callsites", 0)
        joins += r.get("joins", 0)
        gates += r.get("gates", 0)
        values += r.get("gens", 0)
        for o in r["obligations"]:
            v = o["verdict"]
            if v == "proved":
                counts["proved"] += 1
            elif v == "proved-partial":
                counts["partial"] += 1
            elif v == "undecided":
                counts["undecided"] += 1
                undec.append({"contract": n, "obligation": o["msg"], "gate": o.get("gate", [])[:1]})
            else:
                counts["refuted"] += 1
                o = dict(o, contract=n, module=mod, entered=r.get("functions", {}))
                k = [d for d in known if d["contract"] == n and d["obligation"] == o["msg"]]
                (kf if k else viol).append(o)
        if len(samples) < 5 and r["obligations"]:
            samples.append({"contract": n, "obligations": [f"{o['msg']}: {o['verdict']}" for o in r["obligations"]][:6],
                            "branch joins": r.get("joins"), "gates": r.get("gates")})
    total = sum(counts.values())
    nf = sum(len(v) for v in funcs.values())
    status = 0
    seen = set()
    for o in kf:
        key = (o["contract"], o["msg"])
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={pid} {o['contract']}: {o['msg']}")
    replay = os.path.join("evidence", f"replay-{pid}.json")
    os.makedirs(EVID, exist_ok=True)
    if viol:
        status = 1
        with open(os.path.join(EVID, f"replay-{pid}.json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "violations": viol}, f, indent=1)
        for o in viol[:20]:
            print(f"{pid}: contract {o['contract']} (contracts/{mod}.py) obligation \"{o['msg']}\" does not hold")
            print(f"    at {o['loc'][0]}:{o['loc'][2]} in {o['loc'][1]}; "
                  f"cell {o.get('witness')}; through {sum(len(v) for v in o['entered'].values())} functions of "
                  f"{', '.join(sorted(os.path.basename(x) for x in o['entered']))}")
            if o.get("calls"):
                print(f"    after the calls (latest first): {', '.join(o['calls'])}")
            for note in o.get("notes", []):
                print(f"    note: {note}")
        print(f"VIOLATION property={pid} replay={replay}")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the library source (gated value numbering over exact real "
                           "algebra, joins at every branch, no execution, no solver): each contract is analysed "
                           "once for all its inputs; an obligation is discharged when the gate of its negation "
                           "is identically false or every cell of it is empty, and refuted only when a cell "
                           "of that gate is shown inhabited.",
            "contracts": len(names), "obligations": total, "discharged": counts["proved"],
            "discharged_on_the_supported_part": counts["partial"], "refuted": counts["refuted"],
            "undecided": counts["undecided"], "undecided_detail": undec[:40],
            "library_functions_analysed": nf,
            "functions": {k: sorted(v) for k, v in sorted(funcs.items())},
            "call_sites_in_library": callsites, "branch_joins": joins, "gates": gates, "value_numbers": values,
            "rule": prop[pid]["statement"] if pid in prop else "",
            "samples": samples,
        },
        "assumptions": ["arithmetic over the reals: floating-point rounding is outside the analysis",
                        "the analyser (sa/) and its models of Python built-ins and math are trusted",
                        "inputs range over the declared parameter kinds of the contracts"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(names)} contracts, {total} obligations: {counts['proved']} discharged, "
          f"{counts['partial']} on the supported part, {counts['undecided']} undecided, "
          f"{counts['refuted']} refuted ({len(kf)} known); {nf} library functions, "
          f"{callsites} call sites, {joins} joins, {ev['wall_s']} s")
    for e in errors[:5]:
        print("ANALYSER ERROR", e)
    for e in anchors[:5]:
        print("ANCHOR MISSING", e)
    if status == 0 and (anchors or total == 0):
        return 2
    return status


def replay(path):
    d = json.load(open(path))
    jobs = sorted({(o["module"], o["contract"]) for o in d["violations"]})
    res = run_all(jobs, TIERS[d["tier"]], WALL[d["tier"]])
    bad = 0
    for k in jobs:
        for o in res[k]["obligations"]:
            if o["verdict"] == "refuted":
                bad += 1
                print(k[0], k[1], json.dumps(o, indent=1))
    if bad:
        print(f"VIOLATION property={d['property']} replay={path}")
    return 1 if bad else 0


def main(argv):
    if argv[:1] == ["--setup"]:
        return 0 if control() else 2
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return decide(argv[0], tier if tier in TIERS else "quick")


if __name__ == "__main__":
    import multiprocessing.connection
    sys.exit(main(sys.argv[1:]))
