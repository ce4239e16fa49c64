"""C12 two-position orbit determination: two-body motion as the oracle"""
import math

from hypothesis import strategies as st
from openspace.coordinates.positions import PositionConvert
from openspace.coordinates.states import GCRF, ITRF
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, Observation, SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, vclose, xyz

RULE = ("elliptical orbits of any shape up to eccentricity 0.95 and any orientation (circular, equatorial, polar, retrograde), any starting "
        "anomaly and a transfer angle from 0.001 to 3.1 rad, observed exactly (stub observations), from space and from the ground; "
        "non-trivial: every case")
ASSUMPTIONS = ["perigee radius above 6500 km, transfer angle 0.001..3.1 rad (the method is singular at half a turn)",
               "the true positions are those of two-body motion over exactly the difference of the two epochs"]
PI = math.pi
TP = 2 * PI


class Exact(Observation):
    """an observation that reports a given inertial position"""

    def __init__(self, t, r):
        super().__init__()
        self._t = t
        self._r = r

    def ijk_position(self):
        return Vector3D(*self._r)

    def epoch(self):
        return Epoch(self._t)


def truth_of(c):
    a, e, i, o, w, nu = c["orb"]
    e1 = ref.ea_from_nu(nu, e)
    e2 = ref.ea_from_nu(nu + c["dnu"], e)
    m = ((e2 - e * math.sin(e2)) - (e1 - e * math.sin(e1))) % TP
    n = math.sqrt(ref.MU / a) / a
    t1 = c["t"]
    t2 = t1 + m / n / 86400
    dt = (t2 - t1) * 86400
    r1, v1 = ref.elements_to_rv(a, e, i, o, w, e1)
    r2, v2 = ref.kepler_propagate(r1, v1, dt)
    return t1, t2, dt, r1, v1, r2


def verify(el, t1, dt, r1, v1, r2, dnu, tol_v, ctx):
    close(el.epoch.value, t1, 0.0, "epoch of the elements" + ctx)
    a = num(el.semimajor_axis, "semi-major axis")
    e = num(el.eccentricity, "eccentricity")
    truth(0 <= e < 1, f"eccentricity {e!r} of an elliptical orbit" + ctx)
    between(el.inclination, 0.0, PI, "inclination")
    between(el.raan, 0.0, TP, "right ascension of the node")
    between(el.argument_of_perigee, 0.0, TP, "argument of perigee")
    ma = num(el.mean_anomaly, "mean anomaly")
    g1, gv1 = ref.elements_to_rv(a, e, el.inclination, num(el.raan), num(el.argument_of_perigee), ref.kepler(ma, e))
    vclose(g1, r1, 1e-11 * ref.norm(r1), "first position" + ctx)
    k = 1 + 0.01 / (PI - dnu) ** 2 + 1e-4 / dnu
    g2, _ = ref.kepler_propagate(g1, gv1, dt)
    vclose(g2, r2, 3e-7 * k * ref.norm(r2), "position at the second observation" + ctx)
    if v1 is not None:
        vclose(gv1, v1, tol_v * k * ref.norm(v1), "velocity at the first observation" + ctx)
    s = el.to_ijk()
    vclose(xyz(s.position, "state"), r1, 1e-9 * ref.norm(r1), "position of the state of the elements" + ctx)


def check_exact(c):
    t1, t2, dt, r1, v1, r2 = truth_of(c)
    if not dt > 0.5:
        return
    el = Gauss.coes_from_positions(Exact(t1, r1), Exact(t2, r2))
    verify(el, t1, dt, r1, v1, r2, c["dnu"], 1e-9, f" for {c!r}")


def check_real(c):
    t1, t2, dt, r1, v1, r2 = truth_of(c)
    if not dt > 0.5:
        return
    obs = []
    for t, r, kind, where in ((t1, r1, c["kind"][0], c["site"][0]), (t2, r2, c["kind"][1], c["site"][1])):
        e = Epoch(t)
        gha = num(e.greenwich_hour_angle(), "hour angle")
        itrf = ref.mv(ref.frame_rot(2, gha), r)
        if kind == "space":
            g = xyz(PositionConvert.itrf.to_gcrf(Vector3D(*itrf), e), "gcrf")
            obs.append(SpaceObservation(GCRF(e, Vector3D(*where), Vector3D(1, 2, 3)), Vector3D(*ref.sub(g, tuple(where))), 0.1, 1e-5))
        else:
            u = ref.unit(tuple(where))
            lat, lon = math.asin(max(-1.0, min(1.0, u[2]))), math.atan2(u[1], u[0])
            p = ref.geodetic_to_itrf(lat, lon, 0.1)
            enz = ref.mv(((-math.sin(lon), math.cos(lon), 0.0),
                          (-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)),
                          ref.geodetic_normal(lat, lon)), ref.sub(itrf, p))
            obs.append(GroundObservation(ITRF.from_fixed(e, Vector3D(*p)), Vector3D(*enz), 0.1, 1e-5))
    p1, p2 = xyz(obs[0].ijk_position(), "position"), xyz(obs[1].ijk_position(), "position")
    ctx = f" for {c!r}"
    vclose(p1, r1, 1e-7 * ref.norm(r1) + 1e-6, "inertial position of the first observation" + ctx)
    vclose(p2, r2, 1e-7 * ref.norm(r2) + 1e-6, "inertial position of the second observation" + ctx)
    el = Gauss.coes_from_positions(*obs)
    # the orbit through the reported positions
    verify(el, t1, dt, p1, v1, p2, c["dnu"], 3e-7 * (1 + 1 / c["dnu"]) * (1 + 1 / (PI - c["dnu"])) ** 2 * 3 / (1 - c["orb"][1]) ** 2, ctx)


orb = gen.orbit(6500.0, 1e6, 0.95)
dnus = st.one_of(gen.real(0.01, 3.1), gen.real(0.01, 3.1), gen.logreal(1e-3, 3.1, [PI / 2, 1.0, 3.0]))
orb_real = gen.orbit(6700.0, 1e5, 0.8, e_edges=True)
where = gen.scaled_unit(gen.logreal(6600, 1e5))


def lab(c):
    e, i = c["orb"][1], c["orb"][2]
    out = ["circular" if e == 0 else "near-circular" if e < 1e-3 else "e > 0.9" if e > 0.9 else "eccentric"]
    if min(i, PI - i) < 1e-3:
        out.append("equatorial")
    if i > PI / 2:
        out.append("retrograde")
    if c["dnu"] > 2.5:
        out.append("long arc")
    return out


SUBS = [
    Sub("exact positions", st.fixed_dictionaries({"orb": orb, "dnu": dnus, "t": gen.mjd(1950, 2050)}), check_exact, quick=12000, label=lab),
    Sub("observations", st.fixed_dictionaries({"orb": orb_real, "dnu": gen.real(0.05, 2.8), "t": gen.mjd(1950, 2050),
                                               "kind": st.lists(st.sampled_from(["space", "ground"]), min_size=2, max_size=2),
                                               "site": st.lists(where, min_size=2, max_size=2)}), check_real, quick=6000, label=lab),
]
