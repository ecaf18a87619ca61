"""inertia and geometric series, kick, dash, turn and wind formulas"""
from vp import *
from pyrusgeom.vector_2d import Vector2D
from pyrusgeom.angle_deg import AngleDeg
from pyrusgeom import soccer_math as sm
from contracts.lib import same_xy


def _sum(v, d, n):
    """v + v d + ... (n terms)"""
    total = 0.0
    for _ in range(n):
        total = total + v
        v = v * d
    return total


def distance_small(v: Real, d: Real):
    assume(d != 1.0)
    for n in range(0, 7):
        check(close(sm.inertia_n_step_distance(v, n, d), _sum(v, d, n)), "distance after n steps is the sum of n decaying steps")


def travel_small(v: Vec, d: Real):
    assume(d != 1.0)
    for n in range(0, 7):
        t = sm.inertia_n_step_travel(v, n, d)
        same_xy(t, _sum(v.x(), d, n), _sum(v.y(), d, n), "travel after n steps is the sum of n decaying steps")


def distance_step(v: Real, d: Frac, n: Int):
    """one more step from any step count"""
    assume(n >= 0)
    check(close(sm.inertia_n_step_distance(v, n + 1, d), v + d * sm.inertia_n_step_distance(v, n, d)),
          "one more step: first step plus the decayed rest")


def travel_step(v: Vec, d: Frac, n: Int):
    assume(n >= 0)
    a = sm.inertia_n_step_travel(v, n + 1, d)
    b = sm.inertia_n_step_travel(v, n, d)
    same_xy(a, v.x() + d * b.x(), v.y() + d * b.y(), "one more step of travel")
    same_xy(a, b.x() + v.x() * pow(d, n), b.y() + v.y() * pow(d, n), "the next step of travel")


def travel_zero(v: Vec, d: Frac):
    same_xy(sm.inertia_n_step_travel(v, 0, d), 0.0, 0.0, "no travel in no steps")
    same_xy(sm.inertia_n_step_travel(v, 1, d), v.x(), v.y(), "one step travels the velocity")


def point(p: Vec, v: Vec, d: Frac, n: Int):
    assume(n >= 0)
    t = sm.inertia_n_step_travel(v, n, d)
    same_xy(sm.inertia_n_step_point(p, v, n, d), p.x() + t.x(), p.y() + t.y(), "the point is the position plus the travel")
    e = sm.inertia_final_travel(v, d)
    same_xy(sm.inertia_final_point(p, v, d), p.x() + e.x(), p.y() + e.y(), "the final point is the position plus the final travel")


def travel_distance(v: Vec, d: Frac, n: Int):
    """the travel has the direction of the velocity and the length of the distance"""
    assume(n >= 0)
    t = sm.inertia_n_step_travel(v, n, d)
    k = sm.inertia_n_step_distance(1.0, n, d)
    same_xy(t, v.x() * k, v.y() * k, "travel is the velocity times the distance of unit speed")
    e = sm.inertia_final_travel(v, d)
    f = sm.inertia_final_distance(1.0, d)
    same_xy(e, v.x() * f, v.y() * f, "final travel is the velocity times the final distance of unit speed")


def distance_linear(v: Real, k: Real, d: Frac, n: Int):
    assume(n >= 0)
    check(close(sm.inertia_n_step_distance(v * k, n, d), k * sm.inertia_n_step_distance(v, n, d)), "distance is proportional to speed")
    check(close(sm.inertia_final_distance(v * k, d), k * sm.inertia_final_distance(v, d)), "final distance is proportional to speed")


def final(v: Real, d: Frac, n: Int):
    """the final distance is what n steps leave plus what the decayed speed still travels"""
    assume(n >= 0)
    f = sm.inertia_final_distance(v, d)
    check(close(f, sm.inertia_n_step_distance(v, n, d) + sm.inertia_final_distance(v * pow(d, n), d)),
          "the final distance splits at every step")
    check(close(f, v + sm.inertia_final_distance(v * d, d)), "the final distance is a fixed point of one step")


def final_bound(v: Pos, d: Frac, n: Int):
    assume(n >= 0)
    check(sm.inertia_n_step_distance(v, n, d) <= sm.inertia_final_distance(v, d), "n steps never exceed the final distance")


def final_travel(v: Vec, d: Frac):
    t = sm.inertia_final_travel(v, d)
    same_xy(t * (1.0 - d), v.x(), v.y(), "final travel times 1 - decay is the velocity")


def inertia_keeps(p: Vec, v: Vec, d: Frac):
    x, y, a, b = p.x(), p.y(), v.x(), v.y()
    sm.inertia_n_step_travel(v, 3, d)
    sm.inertia_n_step_point(p, v, 3, d)
    sm.inertia_final_travel(v, d)
    r = sm.inertia_final_point(p, v, d)
    r.assign(7.0, 8.0)
    same_xy(p, x, y, "the position is left alone")
    same_xy(v, a, b, "the velocity is left alone")


def first_term(a: Real, r: Frac, n: Int):
    assume(n >= 1)
    s = a * (1.0 - pow(r, n)) / (1.0 - r)
    check(close(sm.calc_first_term_geom_series(s, r, n), a), "the first term of the sum of a series")


def first_term_small(a: Real, r: Pos):
    assume(r != 1.0)
    for n in range(1, 6):
        check(close(sm.calc_first_term_geom_series(_sum(a, r, n), r, n), a), "the first term of n summed terms")


def first_term_distance(s: Real, r: Frac, n: Int):
    assume(n >= 1)
    check(close(sm.inertia_n_step_distance(sm.calc_first_term_geom_series(s, r, n), n, r), s), "the first speed reaches the distance")


def length(a: Pos, r: Frac, n: Pos):
    assume(a > 0.001)
    assume(r > 0.001)
    q = pow(r, n)
    assume(q > 0.000001)
    s = a * (1.0 - q) / (1.0 - r)
    assume(s > 0.000001)
    check(close(sm.calc_length_geom_series(a, s, r), n), "the length of the sum of a series")


def length_growing(a: Pos, r: Big, n: Pos):
    assume(a > 0.001)
    assume(r > 1.0)
    q = pow(r, n)
    assume(q > 1.0)
    s = a * (q - 1.0) / (r - 1.0)
    assume(s > 0.000001)
    check(close(sm.calc_length_geom_series(a, s, r), n), "the length of the sum of a growing series")


def length_unreachable(a: Pos, r: Frac, k: NonNeg):
    """sums the series never reaches"""
    assume(a > 0.001)
    assume(r > 0.001)
    s = (a + k) / (1.0 - r)
    check(close(sm.calc_length_geom_series(a, s, r), -1.0), "an unreachable sum gives -1")


def length_invalid(a: Real, s: Real, r: Real):
    assume(a <= 0.0 or s < 0.0 or r <= 0.0)
    check(close(sm.calc_length_geom_series(a, s, r), -1.0), "an invalid series gives -1")


def length_zero(a: Pos, r: Pos):
    assume(a > 0.001)
    assume(r > 0.001)
    check(close(sm.calc_length_geom_series(a, 0.0, r), 0.0), "the empty sum has length 0")


def kick(dist: Real, dd: Real, p: Real, b: Real, s: Real, m: Pos):
    check(close(sm.kick_rate(dist, dd, p, b, s, m), p * (1.0 - abs(dd) / 720.0 - (dist - b - s) / (4.0 * m))), "kick rate formula")
    check(close(sm.kick_rate(b + s, 0.0, p, b, s, m), p), "full kick rate touching the ball ahead")
    check(close(sm.kick_rate(b + s + m, 180.0, p, b, s, m), p / 2.0), "half kick rate at the margin behind")
    check(close(sm.kick_rate(dist, -dd, p, b, s, m), sm.kick_rate(dist, dd, p, b, s, m)), "kick rate does not depend on the side")


def kick_decreases(d: Real, k: NonNeg, a: NonNeg, j: NonNeg, p: NonNeg, b: Real, s: Real, m: Pos):
    check(sm.kick_rate(d + k, a + j, p, b, s, m) <= sm.kick_rate(d, a, p, b, s, m), "kick rate never grows with distance or angle")


def dash(a: Deg, back: Frac01, side: Frac01):
    r = sm.dir_rate(a, back, side)
    w = abs(a)
    if w <= 90.0:
        check(close(r, 1.0 + (side - 1.0) * w / 90.0), "forward dash rate is linear between 1 and the side rate")
    else:
        check(close(r, side + (back - side) * (w - 90.0) / 90.0), "backward dash rate is linear between the side and back rates")
    check(close(r, sm.dir_rate(-a, back, side)), "dash rate does not depend on the side")


def dash_extremes(back: Real, side: Real):
    check(close(sm.dir_rate(0.0, back, side), 1.0), "full dash rate ahead")
    check(close(sm.dir_rate(90.0, back, side), side), "the side rate at 90")
    check(close(sm.dir_rate(-90.0, back, side), side), "the side rate at -90")
    check(close(sm.dir_rate(180.0, back, side), back), "the back rate at 180")
    check(close(sm.dir_rate(-180.0, back, side), back), "the back rate at -180")


def turn(t: Real, s: NonNeg, i: NonNeg):
    r = sm.effective_turn(t, s, i)
    check(close(r * (1.0 + i * s), t), "effective turn times 1 + inertia * speed is the moment")
    check(close(sm.effective_turn(t, 0.0, i), t), "a standing player turns by the moment")


def turn_bound(t: NonNeg, s: NonNeg, i: NonNeg):
    r = sm.effective_turn(t, s, i)
    check(r >= 0.0 and r <= t, "the effective turn is between 0 and the moment")


def speed(p: Real, k: Real, e: Real, d: Frac):
    f = sm.final_speed(p, k, e, d)
    check(close(f, f * d + abs(p) * k * e), "the final speed is kept by a dash")
    check(close(f, sm.final_speed(-p, k, e, d)), "dash power counts by its amount")


def over_speed(p: Real, k: Real, e: Real, d: Frac, m: Real):
    check(sm.can_over_speed_max(p, k, e, d, m) == (sm.final_speed(p, k, e, d) > m), "over the maximum when the final speed is")


def wind(s: Real, w: Pos, f: NonNeg, a: Deg, u: Pos, r: Real, e: Vec):
    v = sm.wind_effect(s, w, f, a, u, r, e)
    x = s * f * cosd(a) / (w * u)
    y = s * f * sind(a) / (w * u)
    same_xy(v, x, y, "wind effect formula")
    same_xy(e, x * r, y * r, "wind error is the effect times the random factor")


def wind_no_error(s: Real, w: Pos, f: NonNeg, a: Deg, u: Pos, r: Real):
    v = sm.wind_effect(s, w, f, a, u, r, None)
    same_xy(v, s * f * cosd(a) / (w * u), s * f * sind(a) / (w * u), "wind effect without an error vector")


def wind_own_result(s: Real, w: Pos, f: Pos, a: DegOpen, u: Pos):
    """the effect is a vector of its own, whatever the random factor"""
    for r in (0.0, 0.5, 1.0):
        e = Vector2D(7.0, 8.0)
        v = sm.wind_effect(s, w, f, a, u, r, e)
        x, y = v.x(), v.y()
        check(close(e.x(), x * r) and close(e.y(), y * r), "the error is the effect times the factor")
        v.assign(1.0, 2.0)
        check(close(e.x(), x * r) and close(e.y(), y * r), "changing the effect leaves the error alone")
        check(v is not e, "effect and error are two vectors")
