"""rounding, quantisation, clamping, ranges"""
from vp import *
from pyrusgeom import soccer_math as sm
import math


def clamp(l: Real, x: Real, k: NonNeg):
    h = l + k
    for r in (sm.min_max(l, x, h), sm.bound(l, x, h)):
        check(l <= r and r <= h, "the clamped value lies in the interval")
        if l <= x and x <= h:
            check(r == x, "a value inside is kept")
        if x < l:
            check(r == l, "a value below becomes the lower bound")
        if x > h:
            check(r == h, "a value above becomes the upper bound")


def clamp_twice(l: Real, x: Real, k: NonNeg):
    r = sm.min_max(l, x, l + k)
    check(sm.min_max(l, r, l + k) == r, "clamping twice changes nothing")
    check(sm.bound(l, x, l + k) == r, "bound and min_max agree")


def clamp_monotone(l: Real, x: Real, d: NonNeg, k: NonNeg):
    check(sm.min_max(l, x, l + k) <= sm.min_max(l, x + d, l + k), "clamping keeps the order")


def round_near(x: Real):
    r = sm.r_int(x)
    check(r - x <= 0.5 and x - r <= 0.5, "the rounded value is at most 0.5 away")
    check(integral(r), "the rounded value is an integer")


def round_int(n: Int):
    check(sm.r_int(n) == n, "an int rounds to itself")
    check(sm.r_int(n * 1.0) == n, "an integral float rounds to itself")


def round_nearest(n: Int, t: Real):
    assume(t > -0.5 and t < 0.5)
    check(sm.r_int(n + t) == n, "values nearer than 0.5 round to the integer")


def round_odd(n: Int, t: Frac):
    assume(t != 0.5)
    check(sm.r_int(-(n + t)) == -sm.r_int(n + t), "rounding is odd away from ties")


def round_type():
    check(isinstance(sm.r_int(2.25), int), "r_int returns an int")


def quantum(x: Real, q: Pos):
    r = sm.quantize(x, q)
    check(integral(r / q), "the quantised value is a multiple of the step")
    check(r - x <= q / 2.0 and x - r <= q / 2.0, "the quantised value is at most half a step away")


def quantum_keeps(n: Int, q: Pos):
    check(close(sm.quantize(n * q, q), n * q), "a multiple of the step is kept")


def unquantum(x: Real, q: Pos):
    r = sm.quantize(x, q)
    lo = sm.unquantize_min(r, q)
    hi = sm.unquantize_max(r, q)
    check(lo <= x and x <= hi, "the unquantised bounds enclose every value with that quantised value")
    check(close(hi - lo, q), "the bounds are one step apart")
    check(close((hi + lo) / 2.0, r), "the quantised value is in the middle")


def unquantum_multiple(n: Int, q: Pos):
    check(close(sm.unquantize_min(n * q, q), (n - 0.5) * q), "lower bound of a multiple")
    check(close(sm.unquantize_max(n * q, q), (n + 0.5) * q), "upper bound of a multiple")


def quantum_dist(d: NonNeg, q: Pos):
    r = sm.quantize_dist(d, q)
    check(integral(r * 10.0), "a quantised distance is a multiple of 0.1")
    check(r >= 0.0, "a quantised distance is not negative")


def quantum_dist_steps(d: NonNeg, q: Pos):
    """the documented composition"""
    r = sm.quantize_dist(d, q)
    e = sm.quantize(math.exp(sm.quantize(math.log(d + 1.0e-10), q)), 0.1)
    check(close(r, e), "quantise the logarithm, then the distance by 0.1")


def unquantum_error(d: Pos, q: Pos):
    assume(d > 0.2)
    a = math.exp(sm.unquantize_min(math.log(sm.unquantize_min(d, 0.1)), q))
    b = math.exp(sm.unquantize_max(math.log(sm.unquantize_max(d, 0.1)), q))
    r = sm.unquantize_error(d, q)
    check(close(r, abs(b - a)), "the error is the width of the unquantised interval")
    check(r >= 0.0, "the error is not negative")


def range_up(a: Real, s: Pos, t: Frac01):
    """the values of a rising range of up to 4 steps"""
    n = 0
    stop = a + s * (3.0 + t)
    for x in sm.f_range(a, stop, s):
        check(close(x, a + n * s), "the range advances by the step")
        check(x < stop, "the range stays below the stop")
        n = n + 1
        if n > 6:
            break
    if t > 0.0:
        check(n == 4, "the range has all values below the stop")
    else:
        check(n == 3, "the stop itself is excluded")


def range_down(a: Real, s: Pos, t: Frac01):
    n = 0
    stop = a - s * (3.0 + t)
    for x in sm.f_range(a, stop, -s):
        check(close(x, a - n * s), "the range descends by the step")
        check(x > stop, "the range stays above the stop")
        n = n + 1
        if n > 6:
            break
    if t > 0.0:
        check(n == 4, "the range has all values above the stop")
    else:
        check(n == 3, "the stop itself is excluded (descending)")


def range_empty(a: Real, k: NonNeg, s: Pos):
    check(len(list(sm.f_range(a, a - k, s))) == 0, "no values when the stop is not above the start")
    check(len(list(sm.f_range(a, a + k, -s))) == 0, "no values when the stop is not below the start (descending)")


def range_default_step(a: Real, t: Frac):
    got = list(sm.f_range(a, a + 2.0 + t))
    check(len(got) == 3, "the step defaults to 1: count")
    check(close((got[0], got[1], got[2]), (a, a + 1.0, a + 2.0)), "the step defaults to 1")


def range_default_start(t: Frac):
    got = list(sm.f_range(2.0 + t))
    check(len(got) == 3, "the start defaults to 0: count")
    check(close((got[0], got[1], got[2]), (0.0, 1.0, 2.0)), "the start defaults to 0")


def range_none(k: NonNeg):
    check(len(list(sm.f_range(-k))) == 0, "no values up to a stop of at most 0")


def _firsts(g, n):
    out = []
    for x in g:
        out.append(x)
        if len(out) >= n:
            break
    return out


def _is(got, want, what):
    check(len(got) == len(want), what + ": count")
    if len(got) == len(want):
        for a, b in zip(got, want):
            check(close(a, b), what)


def range_defaults():
    _is(_firsts(sm.f_range(3.0), 6), [0.0, 1.0, 2.0], "a range up to a stop")
    _is(_firsts(sm.f_range(2.5), 6), [0.0, 1.0, 2.0], "a range up to a stop between whole numbers")
    _is(_firsts(sm.f_range(1.5, 4.0), 6), [1.5, 2.5, 3.5], "a range from start to stop")
    _is(_firsts(sm.f_range(1.0, 2.0, None), 6), [1.0], "a range from start to stop, step None")
    _is(_firsts(sm.f_range(2.0, None, 0.5), 9), [0.0, 0.5, 1.0, 1.5], "a range up to a stop by a step")
    _is(_firsts(sm.f_range(2.0, step=0.5), 9), [0.0, 0.5, 1.0, 1.5], "a range up to a stop by a named step")
    _is(_firsts(sm.f_range(start=1.0, stop=2.0, step=0.25), 9), [1.0, 1.25, 1.5, 1.75], "a range with named arguments")
    _is(_firsts(sm.f_range(-1.0, 1.0, 0.75), 9), [-1.0, -0.25, 0.5], "a range across zero")
    _is(_firsts(sm.f_range(0.0), 6), [], "an empty range")
    _is(_firsts(sm.f_range(-2.0), 6), [], "an empty range up to a negative stop")
    _is(_firsts(sm.f_range(3), 6), [0, 1, 2], "a range of integers")


def range_steps():
    for s in (2.0, 1.0, 0.5, 0.1, 0.01, 0.001, 0.0001):
        for a in (0.0, 0.123456789, -7.0, 33.3):
            _is(_firsts(sm.f_range(a, a + 3.5 * s, s), 9), [a, a + s, a + 2.0 * s, a + 3.0 * s], "a rising range")
            _is(_firsts(sm.f_range(a, a - 3.5 * s, -s), 9), [a, a - s, a - 2.0 * s, a - 3.0 * s], "a falling range")
            _is(_firsts(sm.f_range(a, a - s, s), 9), [], "a rising range with the stop below the start")
            _is(_firsts(sm.f_range(a, a + s, -s), 9), [], "a falling range with the stop above the start")


def range_ends():
    """a value just below the stop is part of the range"""
    for e in (0.001, 0.00001, 0.000001):
        _is(_firsts(sm.f_range(1.0, 3.0 + e, 1.0), 9), [1.0, 2.0, 3.0], "a range ending just above its last value")
        _is(_firsts(sm.f_range(1.0, 3.0 - e, 1.0), 9), [1.0, 2.0], "a range ending just below a value")
        _is(_firsts(sm.f_range(3.0, 1.0 - e, -1.0), 9), [3.0, 2.0, 1.0], "a falling range ending just below its last value")
        _is(_firsts(sm.f_range(3.0, 1.0 + e, -1.0), 9), [3.0, 2.0], "a falling range ending just above a value")


def range_endless(a: Real):
    """a range that is not consumed to its end gives its first values"""
    _is(_firsts(sm.f_range(0.0, 100000.0, 0.5), 5), [0.0, 0.5, 1.0, 1.5, 2.0], "the first values of a long range")
    _is(_firsts(sm.f_range(a, a - 100000.0, -0.5), 3), [a, a - 0.5, a - 1.0], "the first values of a long falling range")


def unquantum_any(x: Real, q: Pos):
    """the bounds of any value are those of its quantised value"""
    r = sm.quantize(x, q)
    check(close(sm.unquantize_min(x, q), r - q / 2.0), "lower bound")
    check(close(sm.unquantize_max(x, q), r + q / 2.0), "upper bound")


def quantum_dist_values():
    """distances as the server reports them"""
    for d, q, e in ((0.3, 0.1, 0.3), (0.3, 0.01, 0.3), (0.3, 0.5, 0.4), (1.0, 0.1, 1.0), (1.0, 0.5, 1.0), (7.7, 0.1, 7.4),
                    (7.7, 0.01, 7.7), (15.0, 0.1, 14.9), (15.0, 0.01, 15.0), (15.0, 0.5, 12.2), (15.0, 1.0, 20.1), (22.4, 0.1, 22.2),
                    (22.4, 0.01, 22.4), (48.9, 0.1, 49.4), (48.9, 0.5, 54.6), (80.0, 0.1, 81.5), (80.0, 0.01, 79.8), (120.0, 0.1, 121.5),
                    (120.0, 0.01, 120.3)):
        check(close(sm.quantize_dist(d, q), e), "the quantised distance")


def quantum_dist_zero():
    check(close(sm.quantize_dist(0.0, 0.1), 0.0), "a distance of zero is quantised to zero")
    check(close(sm.quantize_dist(0.04, 0.1), 0.0), "a small distance is quantised to zero")


def unquantum_error_values():
    for d, q, k, j in ((0.3, 0.1, -10, -14), (1.0, 0.1, 0, -1), (7.7, 0.1, 20, 20), (15.0, 0.1, 27, 27), (22.4, 0.1, 31, 31),
                       (48.9, 0.1, 39, 39), (80.0, 0.1, 44, 44), (15.0, 0.01, 271, 270), (80.0, 0.01, 438, 438)):
        w = math.exp((k + 0.5) * q) - math.exp((j - 0.5) * q)
        check(close(sm.unquantize_error(d, q), w), "the width of the unquantised interval")
