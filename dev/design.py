#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (after the marker line) from the tables (run by hand after an edit)."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by dev/design.py from here on -->\n"
HOW = {
 "C01": "interval of the value number of `degree()` after every producer of an angle; `abs`/`radian` are compared with it as value numbers",
 "C02": "difference to the arithmetic result divided by 360 is an integral value number (`fmod`, `floor` congruences); frame of the other operand",
 "C03": "the predicate's gate equals the gate of the signed turn computed by the contract; bisect: two congruences",
 "C04": "equality of value numbers with the contract's own `cos`, `sin`, `atan2` generators; no arithmetic error on any real argument",
 "C05": "equality of value numbers, component by component; object identity on the heap graph",
 "C06": "algebraic identities with `sqrt` and the addition theorems as rewrite rules; signs from the generators' ranges",
 "C07": "state of receiver and arguments before and after each query is the same value numbers and the same references",
 "C08": "after the result (or the argument) is changed through every mutator, the other object's value numbers are the old ones",
 "C09": "the result after arbitrary other calls is the value number of the result computed with module, class and default-argument "
        "state as after import (`fresh`); no recorded input/output or nondeterminism effect on any trace",
 "C10": "gates of `==`, `!=` and the tolerant forms against the gates of the component differences; `hash` is a function of its "
        "value numbers",
 "C11": "the validity flag is tracked as a gated boolean through every operation",
 "C12": "defining equation of the line vanishes identically at the points; direction by cross product",
 "C13": "the result satisfies both line equations identically; perpendicularity and equidistance as polynomial identities",
 "C14": "line equation and sign of the inner product with the direction; validity gate against the position of the crossing",
 "C15": "value numbers of the ends; nearest point: identities on each of the three gates, emptiness of the cells where an end would be nearer",
 "C16": "containment and intersection gates against orientation signs; emptiness of the cells of their difference",
 "C17": "the cross product as a polynomial; containment gate equals the gate of the three signs",
 "C18": "distances, altitudes and means as polynomial identities modulo the tolerance gates",
 "C19": "value numbers of all observers after each construction",
 "C20": "value numbers of all observers after each mutator, gated by the order of the edges",
 "C21": "containment gates; for intersection and union the gate for an arbitrary point equals the conjunction; number of crossings from signs of the corners",
 "C22": "value numbers of the observers; containment gate equals sign of r² - |p - c|²",
 "C23": "each returned point satisfies both equations identically; length of the returned list (gated list) against sign of the discriminant",
 "C24": "containment gate equals radius and angle gates; area and arcs as value numbers on both sides of the wrap",
 "C25": "polynomial identities for 3 to 5 free vertices and for larger fixed polygons moved by a free vector; distance cells for each region around fixed polygons",
 "C26": "containment gate equals the conjunction of edge signs for free points and fixed or partly free convex polygons; clipped lists are compared as gated lists",
 "C27": "all six entries as polynomial identities; composition for a free point",
 "C28": "identities with `pow` as a generator (unrolled for small step counts), monotone ranges for extremes",
 "C29": "`floor`/`trunc` ranges: the difference lies in an interval; generator bodies are analysed as coroutines for bounded counts",
 "C30": "every division, root, inverse function, log and index is an obligation: the gate of the failing argument is empty; neutral answers for degenerate operands",
 "C31": "equality of value numbers and of the effects on the receiver",
 "C32": "orientation signs of the points against every returned edge; cells emptied by Farkas certificates over products of the "
        "orientation polynomials; sets of 12 and 24 points in general position moved by a free vector",
 "C33": "the same call with a parameter of kind Int and with its float: same value numbers and no exception (the type of a number is part of its value)",
 "C34": "edge and figure equations vanish at the returned points; counts against corner signs",
 "C35": "after query - mutation - query, every observer has the value number it has on an object built from the new components",
 "C36": "the text is a sequence of literals and value numbers; it equals the sequence built from the components (white space of to_str aside)",
}


def main():
    props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
    man = json.load(open(HERE + "/MANIFEST.json"))
    na = {d["property"]: d["reason"] for d in man["not_applicable"]}
    bugs = {}
    for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        bugs.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
    out = ["## Properties\n", "\"Contracts\" counts the client functions analysed; \"over\" is what their parameters range over; "
           "the planted changes (`seeded/`) are those written for the property, all of them reported by its check.\n"]
    for p in props:
        i = p["id"]
        if i in na:
            continue
        t = ast.parse(open(f"{HERE}/contracts/{i.lower()}.py").read())
        n = sum(isinstance(x, ast.FunctionDef) and not x.name.startswith("_") for x in t.body)
        out.append(f"* **{i} {p['title']}** ({n} contracts). *Decided by* {HOW[i]}. *Over* {p['quantifier']['text']}. "
                   f"*Why not tests:* {p['why_tests_cant']}. *Planted changes caught:* {', '.join(bugs.get(i, [])) or 'none planted'}.")
    out.append("\n## Not applicable\n")
    for i, r in na.items():
        out.append(f"* **{i} {next(p['title'] for p in props if p['id'] == i)}**: {r}.")
    s = open(HERE + "/DESIGN.md").read()
    s = s.split(MARK)[0].replace("@@TABLE@@\n", "")
    open(HERE + "/DESIGN.md", "w").write(s + MARK + "\n" + "\n".join(out) + "\n")


main()
