"""C21 transfer planning: one ellipse (energy and angular momentum) as oracle"""
import math

from hypothesis import strategies as st
from openspace.planning.maneuvers import Hohmann, VisViva

from pbt import gen, ref
from pbt.core import Sub, close, num, truth

RULE = "pairs of radii 1..1e9 km, equal, nearly equal and far apart, raising and lowering; radii anywhere within ellipses up to e 0.9999; non-trivial: different radii"
ASSUMPTIONS = ["mu = 398600.4418 km^3/s^2"]
MU = ref.MU


def check_hohmann(c):
    r1, r2 = c["r1"], c["r2"]
    h = Hohmann(r1, r2)
    vi, vf = num(h.initial_velocity, "initial"), num(h.final_velocity, "final")
    t1, t2 = num(h.transfer_velocity_1, "transfer 1"), num(h.transfer_velocity_2, "transfer 2")
    d1, d2 = num(h.delta_v_1, "first burn"), num(h.delta_v_2, "second burn")
    ctx = f" of the transfer {r1!r} -> {r2!r}"
    close(vi, math.sqrt(MU / r1), 1e-14 * vi, "initial speed" + ctx)
    close(vf, math.sqrt(MU / r2), 1e-14 * vf, "final speed" + ctx)
    # the ellipse tangent to both: angular momentum sqrt(2 mu r1 r2 / (r1 + r2))
    hm = math.sqrt(2 * MU * r1 / (r1 + r2) * r2)
    lo = 1e-13 * (1 + max(r1, r2) / min(r1, r2) * 0.05)
    close(t1 * r1, hm, lo * hm, "angular momentum at the first radius" + ctx)
    close(t2 * r2, hm, lo * hm, "angular momentum at the second radius" + ctx)
    xi = -MU / (r1 + r2)
    close(t1 * t1 / 2 - MU / r1, xi, 1e-14 * MU / r1, "energy at the first radius" + ctx)
    close(t2 * t2 / 2 - MU / r2, xi, 1e-14 * MU / r2, "energy at the second radius" + ctx)
    # the squared transfer speed is a difference of terms of size mu/r: its rounding, in the speed
    s1, s2 = MU / r1 / t1, MU / r2 / t2
    close(d1, t1 - vi, 4e-15 * (t1 + vi + s1), "first burn" + ctx)
    close(d2, vf - t2, 4e-15 * (t2 + vf + s2), "second burn" + ctx)
    if r1 == r2:
        close(d1, 0.0, 4e-15 * vi, "first burn" + ctx)
        close(d2, 0.0, 4e-15 * vi, "second burn" + ctx)
    elif abs(r1 - r2) > 1e-12 * max(r1, r2):
        truth((d1 > 0) == (r2 > r1) and (d2 > 0) == (r2 > r1) and d1 and d2, f"sign of the burns {d1!r}, {d2!r}" + ctx)
    b = Hohmann(r2, r1)
    close(num(b.delta_v_1), -d2, 1e-14 * (t2 + vf + s2), "first burn of the reverse transfer" + ctx)
    close(num(b.delta_v_2), -d1, 1e-14 * (t1 + vi + s1), "second burn of the reverse transfer" + ctx)


def check_visviva(c):
    a, e, ea = c["a"], c["e"], c["ea"]
    r = a * (1 - e * math.cos(ea))
    v = num(VisViva.eccentric_velocity(r, a), "speed")
    truth(v >= 0, "negative speed")
    close(v * v, MU * (2 / r - 1 / a), 2e-15 * MU * 2 / r, f"squared speed at radius {r!r} of an orbit with semi-major axis {a!r}")
    # the same from the components of the velocity
    k = math.sqrt(MU / a) / (1 - e * math.cos(ea))
    w = math.hypot(k * math.sin(ea), k * math.sqrt((1 - e) * (1 + e)) * math.cos(ea))
    if w * w > 1e-11 * MU / r:
        close(v, w, 1e-14 * MU / r / w * 4 + 1e-14 * w / (1 - e), f"speed at radius {r!r} of an orbit with semi-major axis {a!r}")
    close(VisViva.circular_velocity(a), math.sqrt(MU / a), 1e-14 * math.sqrt(MU / a), f"circular speed at {a!r}")


rs = st.one_of(gen.logreal(100, 1e7, [6778.0, 42164.0, ref.RE]), gen.logreal(1, 1e9))
pair = st.one_of(st.tuples(rs, rs), st.tuples(rs, rs), rs.map(lambda r: (r, r)),
                 st.tuples(rs, gen.signed(gen.logreal(1e-10, 0.1))).map(lambda t: (t[0], t[0] * (1 + t[1]))))
SUBS = [
    Sub("hohmann", pair.map(lambda t: {"r1": t[0], "r2": t[1]}), check_hohmann, quick=20000, nontrivial=lambda c: c["r1"] != c["r2"],
        label=lambda c: ["raising" if c["r2"] > c["r1"] else "lowering" if c["r2"] < c["r1"] else "equal"]),
    Sub("vis-viva", st.fixed_dictionaries({"a": rs, "e": st.one_of(gen.real(0, 0.99), gen.logreal(1e-4, 1).map(lambda x: 1 - x), st.just(0.0)),
                                           "ea": gen.angle(0, 2 * math.pi)}), check_visviva, quick=10000),
]
