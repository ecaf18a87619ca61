"""Development aid, NOT a check and not used by any check: executes the contract
functions on random inputs against the real library, to catch contracts that are
plainly wrong (a contract that fails here must not be armed), and replays witnesses
reported by the analysis.

    python3 dev/concrete.py c05 [contract ...]
"""
import importlib
import math
import os
import random
import sys
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))


class Skip(Exception):
    pass


class Fail(Exception):
    pass


TOL = 1e-5


def _close1(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def make_vp():
    vp = types.ModuleType("vp")

    def assume(c):
        if not c:
            raise Skip

    def check(c, msg="check"):
        vp.nchecks += 1
        if not c:
            vp.fails.append(msg)

    def close(a, b):
        if isinstance(a, tuple):
            return len(a) == len(b) and all(_close1(x, y) for x, y in zip(a, b))
        return _close1(a, b)

    vp.assume, vp.check, vp.close = assume, check, close
    vp.integral = lambda x: abs(x - round(x)) <= 1e-6 * max(1, abs(x))
    vp.snapshot = lambda: None
    vp.same_globals = lambda s: True
    vp.no_effects = lambda: True
    vp.sign_of = lambda x: (x > 0) - (x < 0)
    vp.opaque = lambda n: 0.123
    vp.cosd = lambda d: math.cos(math.radians(d))
    vp.sind = lambda d: math.sin(math.radians(d))
    vp.le = lambda a, b: a <= b + TOL * max(1.0, abs(a), abs(b))
    vp.lt_strict = lambda a, b: a < b
    for k in "Real Pos NonNeg Neg Deg DegOpen Unit Frac Frac01 Big Int Bool Vec IntVec Ang".split():
        setattr(vp, k, k)
    vp.fails = []
    vp.nchecks = 0
    return vp


def rnd(k, rng):
    if k == "Real":
        return rng.choice([0.0, 1.0, -1.0, float(rng.randint(-6, 6)), rng.uniform(-10, 10), rng.uniform(-1000, 1000),
                           90.0, 180.0, -180.0, 360.0])
    if k in ("Pos", "NonNeg"):
        return rng.choice([1.0, 0.5, float(rng.randint(1, 6)), rng.uniform(0.01, 20)] + ([0.0] if k == "NonNeg" else []))
    if k == "Neg":
        return -rnd("Pos", rng)
    if k == "Deg":
        return rng.choice([0.0, 90.0, -90.0, 180.0, -180.0, 45.0, rng.uniform(-180, 180)])
    if k == "DegOpen":
        return rng.choice([0.0, 90.0, -90.0, 45.0, rng.uniform(-179.9, 179.9)])
    if k == "Unit":
        return rng.choice([-1.0, 1.0, 0.0, rng.uniform(-1, 1)])
    if k in ("Frac", "Frac01"):
        return rng.choice([0.5, rng.uniform(0.01, 0.99)] + ([0.0, 1.0] if k == "Frac01" else []))
    if k == "Big":
        return rng.choice([1.0, rng.uniform(1, 100)])
    if k == "Int":
        return rng.randint(-9, 9)
    if k == "Bool":
        return rng.random() < .5
    from pyrusgeom.vector_2d import Vector2D
    from pyrusgeom.angle_deg import AngleDeg
    if k == "Vec":
        if rng.random() < .4:
            return Vector2D(float(rng.randint(-4, 4)), float(rng.randint(-4, 4)))
        return Vector2D(rng.uniform(-9, 9), rng.uniform(-9, 9))
    if k == "IntVec":
        return Vector2D(rng.randint(-4, 4), rng.randint(-4, 4))
    if k == "Ang":
        return AngleDeg(rnd("Deg", rng))
    raise Exception(k)


def main():
    mod, *names = sys.argv[1:]
    N = int(os.environ.get("N", "400"))
    vp = make_vp()
    sys.modules["vp"] = vp
    m = importlib.import_module("contracts." + mod)
    import ast
    tree = ast.parse(open(m.__file__).read())
    bad = 0
    for n in tree.body:
        if not isinstance(n, ast.FunctionDef) or n.name.startswith("_") or (names and n.name not in names):
            continue
        f = getattr(m, n.name)
        kinds = [a.annotation.id for a in n.args.args]
        rng = random.Random(5)
        ran = 0
        rep = {}
        vp.nchecks = 0
        for t in range(N):
            args = [rnd(k, rng) for k in kinds]
            show = [repr(a) for a in args]
            vp.fails.clear()
            try:
                f(*args)
                ran += 1
            except Skip:
                continue
            except Exception as e:
                vp.fails.append("EXC " + repr(e))
            for x in vp.fails:
                rep.setdefault(x, (0, show))
                rep[x] = (rep[x][0] + 1, rep[x][1])
        print(f"{n.name}: {ran}/{N} runs, {vp.nchecks} checks" + ("" if not rep else "  FAILS"))
        for k, v in rep.items():
            print("     ", k, v)
            bad = 1
        if ran < 5:
            print("      (rarely reaches its checks)")
    sys.exit(bad)


if __name__ == "__main__":
    main()
