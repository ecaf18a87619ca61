"""positive control of the analyser: statements with a known verdict"""
from vp import *


def square_positive(x: Real, y: Real):
    check(x * x > 0.0, "false at 0")
    check(x * x + y * y >= 0.0, "true")
    if x > y:
        z = x - y
    else:
        z = y - x + 1.0
    check(close(z, abs(x - y)), "false on one branch")
    check(z >= 0.0, "true on both branches")
    acc = [x]
    same = acc
    same.append(y)
    check(len(acc) == 1, "false: aliased list")
