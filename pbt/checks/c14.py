"""C14 geopotential: Cunningham recursion in the Earth-fixed frame as oracle; closed-form Legendre functions"""
import math

from hypothesis import strategies as st
from openspace.coordinates.states import GCRF
from openspace.math.functions import LegendrePolynomial
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("positions at any Earth-fixed latitude (to 1e-6 rad from the poles), longitude and distance 6378..1e6 km, epochs 1950..2050, one to "
        "three evaluations per case, on new objects or one moved about; Legendre tables at every latitude; non-trivial: every case")
ASSUMPTIONS = ["agreement is measured relative to mu/r^2 (R/r)^2 times 1e-3, the size of the oblateness term"]
PI = math.pi


def check_gravity(c):
    old = None
    for lat, lon, r, t in c["pts"]:
        if PI / 2 - abs(lat) < 1e-6:
            continue
        m = ref.gcrf_to_itrf_matrix(t)
        p = ref.mv(ref.mt(m), ref.mul(ref.geodetic_normal(lat, lon), r))
        if old is None or not c["reuse"]:
            g = old = GCRF(Epoch(t), Vector3D(*p), Vector3D(1, 2, 3))
        else:  # an object evaluated before, elsewhere
            g = old
            g.position.x, g.position.y, g.position.z = p
            g.epoch.value = t
        got = xyz(g.acceleration_from_gravity(), "acceleration")
        want = ref.gravity_gcrf(p, t)
        sc = ref.MU / r ** 2 * (ref.RE / r) ** 2 * 1e-3
        vclose(got, want, (2e-7 + 1e-14 / math.cos(lat)) * sc,
               f"non-spherical acceleration at Earth-fixed latitude {lat!r}, longitude {lon!r}, distance {r!r}, epoch {t!r}")
        truth(xyz(g.position) == p and g.epoch.value == t, "evaluating gravity modified the state")


def check_legendre(c):
    phi = c["phi"]
    p = LegendrePolynomial(phi).p
    x = math.sin(phi)
    if len(p) < 5:
        fail("Legendre table is too short")
    for n in range(5):
        for m in range(n + 1):
            # cos phi is computed directly: (1 - x^2)^(m/2) near the poles
            want = ref.legendre(n, 0, x) if m == 0 else ref.legendre_cs(n, m, x, math.cos(phi))
            close(p[n][m], want, 1e-13 * max(1.0, abs(ref.legendre_cs(n, m, 1.0, 1.0))), f"P[{n}][{m}] at latitude {phi!r}")


pt = st.tuples(gen.latitude(), gen.angle(-PI, 2 * PI), gen.logreal(6378, 1e6, [7000.0, 42164.0]), gen.mjd(1950, 2050)).map(list)
SUBS = [
    Sub("gravity", st.fixed_dictionaries({"pts": st.lists(pt, min_size=1, max_size=3), "reuse": st.booleans()}), check_gravity, quick=9000,
        label=lambda c: ["within 1e-2 of a pole" if any(abs(p[0]) > PI / 2 - 1e-2 for p in c["pts"]) else "elsewhere"]),
    Sub("legendre", st.fixed_dictionaries({"phi": gen.latitude()}), check_legendre, quick=8000),
]
