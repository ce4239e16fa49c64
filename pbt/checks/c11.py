"""C11 elements and states: independent element conversion, round trips"""
import math

import mpmath
from hypothesis import strategies as st
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.states import IJK
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, vclose, xyz

RULE = ("bound orbits with perigee above 6500 km, apogee to 1e6 km and more, eccentricity 0..0.999 (many near-circular), any orientation "
        "with exactly and nearly equatorial, polar and retrograde planes, any anomaly; non-trivial: every case")
ASSUMPTIONS = []
PI = math.pi
TP = 2 * PI


def exact(r, v):
    """1/a and e^2 of a state, in extended precision"""
    with mpmath.workdps(40):
        x = [mpmath.mpf(k) for k in r]
        y = [mpmath.mpf(k) for k in v]
        mu = mpmath.mpf(ref.MU)
        r2 = sum(k * k for k in x)
        v2 = sum(k * k for k in y)
        rv = sum(p * q for p, q in zip(x, y))
        ia = 2 / mpmath.sqrt(r2) - v2 / mu
        p = (r2 * v2 - rv * rv) / mu
        return float(ia), float(1 - p * ia)


def scale(r, v):
    return ref.norm(r), ref.norm(v)


def check_elements(c):
    a, e, i, o, w, m = c["orb"]
    t = c["t"]
    ep = Epoch(t)
    el = ClassicalElements(ep, a, e, i, o, w, m)
    ep.value += 5.0
    if c["before"]:
        # the same set, holding other elements first
        b = c["before"]
        el.semimajor_axis, el.eccentricity, el.inclination, el.raan, el.argument_of_perigee, el.mean_anomaly = b
        el.to_ijk()
        el.eccentric_anomaly()
        el.semimajor_axis, el.eccentricity, el.inclination, el.raan, el.argument_of_perigee, el.mean_anomaly = a, e, i, o, w, m
    s = el.to_ijk()
    ea = ref.kepler(m, e)
    r, v = ref.elements_to_rv(a, e, i, o, w, ea)
    rm, vm = scale(r, v)
    # Kepler's equation is solved to 1e-12; dE = dM / (1 - e cos E)
    k = 1 - e * math.cos(ea)
    dE = (2e-12 + 4e-16 * abs(m)) / k
    tr = 1e-13 * a + dE * a
    tv = 1e-13 * vm + dE * math.sqrt(ref.MU / a) / k * 2
    ctx = f" of elements {c['orb']!r}"
    vclose(xyz(s.position, "position"), r, tr, "position" + ctx)
    vclose(xyz(s.velocity, "velocity"), v, tv, "velocity" + ctx)
    close(s.epoch.value, t, 0.0, "epoch" + ctx)
    g = between(el.eccentric_anomaly(), 0.0, TP, "eccentric anomaly")
    close(ref.wrap(g - ea), 0.0, dE, "eccentric anomaly" + ctx)
    P, Q_, _ = ref.pqw(i, o, w)
    vclose(xyz(el.perigee_vector(), "perigee"), P, 1e-14, "perigee direction" + ctx)
    vclose(xyz(el.semilatus_rectum_vector(), "semi-latus rectum"), Q_, 1e-14, "semi-latus rectum direction" + ctx)
    truth((el.semimajor_axis, el.eccentricity, el.inclination, el.raan, el.argument_of_perigee, el.mean_anomaly) == (a, e, i, o, w, m)
          and el.epoch.value == t, "conversion modified the elements")


def check_state(c):
    a, e, i, o, w, nu = c["orb"]
    t = c["t"]
    r, v = ref.state_of(c["orb"])
    ep = Epoch(t)
    R, V = Vector3D(*r), Vector3D(*v)
    st_ = IJK(ep, R, V)
    el = ClassicalElements.from_ijk(st_)
    truth(xyz(st_.position) == r and xyz(st_.velocity) == v and st_.epoch.value == t, "from_ijk modified the state")
    ctx = f" from elements {c['orb']!r}"
    rm, vm = scale(r, v)
    f = 1 / (1 - e)
    ia, e2 = exact(r, v)
    close(1 / num(el.semimajor_axis, "a"), ia, 4e-15 * (2 / rm + ia), "1/semi-major axis" + ctx)
    ge = num(el.eccentricity, "e")
    truth(ge >= 0, "negative eccentricity" + ctx)
    close(ge * ge, e2, 1e-14 + 1e-14 * (1 - e2) * a / rm, "squared eccentricity" + ctx)
    gi = between(el.inclination, 0.0, PI, "inclination")
    si = math.sin(i)
    close(gi, i, 1e-12 + min(4e-8, 1e-14 / max(si, 1e-300)), "inclination" + ctx)
    go = between(el.raan, 0.0, TP, "right ascension of the node")
    between(el.argument_of_perigee, 0.0, TP, "argument of perigee")
    between(el.mean_anomaly, 0.0, TP, "mean anomaly")
    if si > 1e-6:
        close(ref.wrap(go - o), 0.0, 1e-14 / si, "right ascension of the node" + ctx)
    if si > 1e-6 and e > 1e-4:
        close(ref.wrap(el.argument_of_perigee - w), 0.0, 1e-13 / si + 1e-13 / e * f ** 2, "argument of perigee" + ctx)
    if e > 1e-4:
        m = ref.ea_from_nu(nu, e)
        m -= e * math.sin(m)
        close(ref.wrap(el.mean_anomaly - m), 0.0, 1e-13 / e * f ** 2, "mean anomaly" + ctx)
    close(el.epoch.value, t, 0.0, "epoch" + ctx)
    b = el.to_ijk()
    close(b.epoch.value, t, 0.0, "epoch after a round trip" + ctx)
    # 1e-10 in general, 1e-7 for nearly circular orbits (where the perigee direction is lost to rounding)
    tol = 1e-10 if e > 1e-3 else 1e-7
    vclose(xyz(b.position, "position"), r, tol * rm, "position after a round trip" + ctx)
    vclose(xyz(b.velocity, "velocity"), v, tol * vm, "velocity after a round trip" + ctx)


def _ma(t):
    o, m = t
    return o[:5] + [m]


orb = gen.orbit(6500.0, 1e6, 0.999)
mas = st.one_of(gen.angle(0, TP), gen.angle(0, TP), gen.angle(), gen.signed(gen.logreal(1e-9, 1e4)))


def lab(c):
    e, i = c["orb"][1], c["orb"][2]
    out = ["circular" if e == 0 else "near-circular" if e < 1e-3 else "e > 0.9" if e > 0.9 else "eccentric"]
    if i in (0.0, PI):
        out.append("equatorial")
    elif min(i, PI - i) < 1e-3:
        out.append("near-equatorial")
    return out


SUBS = [
    Sub("elements to state", st.fixed_dictionaries({"orb": st.tuples(orb, mas).map(_ma), "t": gen.mjd(1950, 2050),
                                                 "before": st.one_of(st.none(), st.none(), st.tuples(orb, mas).map(_ma))}), check_elements,
        quick=15000, label=lab),
    Sub("state to elements", st.fixed_dictionaries({"orb": orb, "t": gen.mjd(1950, 2050)}), check_state, quick=20000, label=lab),
]
