"""C08 spherical coordinates and space observations"""
import math

from hypothesis import strategies as st
from openspace.coordinates.positions import PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, turn, vclose, xyz

RULE = ("vectors of any direction (axes, poles, coordinate planes, tiny components) and length 1e-6..1e9; triples with any "
        "right ascension -2 pi..2 pi and any declination; observers anywhere with any observed direction; "
        "non-trivial: at least two non-zero components")
ASSUMPTIONS = []
PI = math.pi


def named(r, ra, dec):
    return (r * math.cos(dec) * math.cos(ra), r * math.cos(dec) * math.sin(ra), r * math.sin(dec))


def check_cart(c):
    v = tuple(c["v"])
    n = ref.norm(v)
    V = Vector3D(*v)
    s = SphericalPosition.from_cartesian(V)
    truth(xyz(V) == v, "from_cartesian modified its argument")
    r = num(s.radius, "radius")
    ra = turn(s.right_ascension, math.atan2(v[1], v[0]), "right ascension")
    dec = between(s.declination, -PI / 2, PI / 2, "declination")
    close(r, n, 1e-15 * 4 * n, "radius")
    vclose(named(r, ra, dec), v, 4e-15 * n, f"point named by {r!r}, {ra!r}, {dec!r}")
    vclose(xyz(s.to_cartesian(), "cartesian"), v, 4e-15 * n, "Cartesian to spherical and back")
    h = math.hypot(v[0], v[1])
    if h > 0:
        close(ref.wrap(ra - math.atan2(v[1], v[0])), 0.0, 2e-15, "right ascension")
    close(dec, math.atan2(v[2], h), 2e-15, "declination")


def check_sph(c):
    r, ra, dec = c["r"], c["ra"], c["dec"]
    s = SphericalPosition(r, ra, dec)
    p = xyz(s.to_cartesian(), "cartesian")
    vclose(p, named(r, ra, dec), 2e-15 * r, f"Cartesian point of {r!r}, {ra!r}, {dec!r}")
    truth((s.radius, s.right_ascension, s.declination) == (r, ra, dec), "to_cartesian modified the spherical position")
    b = SphericalPosition.from_cartesian(Vector3D(*p))
    close(b.radius, r, 1e-14 * r, "radius after a round trip")
    close(b.declination, dec, 1e-7 if abs(dec) > 1.5 else 1e-13, "declination after a round trip")
    if math.cos(dec) > 1e-6:
        close(ref.wrap(b.right_ascension - ra), 0.0, 4e-15 / math.cos(dec) + 4e-15 * abs(ra), "right ascension after a round trip")


def check_space(c):
    for t, p, v, d, re, ae in c["obs"]:
        p, v, d = tuple(p), tuple(v), tuple(d)
        st_ = GCRF(Epoch(t), Vector3D(*p), Vector3D(*v))
        D = Vector3D(*d)
        ob = SpaceObservation(st_, D, re, ae)

        def look(when):
            n = ref.norm(d)
            close(ob.range, n, 4e-15 * n, f"range {when}")
            ra = turn(ob.right_ascension, math.atan2(d[1], d[0]), "right ascension")
            dec = between(ob.declination, -PI / 2, PI / 2, "declination")
            vclose(named(n, ra, dec), d, 8e-15 * n, f"observed direction {when}")
            vclose(xyz(ob.observed_direction, "direction"), d, 0.0, f"stored direction {when}")
            close(ob.epoch().value, t, 0.0, f"epoch {when}")
            close(ob.range_error, re, 0.0, f"range error {when}")
            close(ob.angular_error, ae, 0.0, f"angular error {when}")
            vclose(xyz(ob.observer_state.position, "observer"), p, 0.0, f"observer position {when}")
            vclose(xyz(ob.observer_state.velocity, "observer"), v, 0.0, f"observer velocity {when}")
            close(ob.observer_state.epoch.value, t, 0.0, f"observer epoch {when}")
            e = Epoch(t)
            q = ref.add(p, d)
            m = ref.norm(p) + n
            want = xyz(PositionConvert.gcrf.to_ijk(Vector3D(*q), e), "ijk")
            got = xyz(ob.ijk_position(), "ijk")
            vclose(got, want, 1e-13 * m, f"inertial position {when}")
            gha = num(e.greenwich_hour_angle(), "hour angle")
            model = ref.mv(ref.mm(ref.frame_rot(2, -gha), ref.gcrf_to_itrf_matrix(t, gha)), q)
            vclose(got, model, 5e-8 * m, f"inertial position {when} against the published model")

        look("of a new observation")
        truth(xyz(st_.position) == p and xyz(D) == d and st_.epoch.value == t, "building an observation modified its inputs")
        st_.position.x += 100.0
        st_.velocity.y += 1.0
        st_.epoch.value += 1.0
        D.z += 50.0
        look("after its inputs were changed")


lengths = gen.logreal(1e-6, 1e9, [1.0])
tiny = st.lists(st.one_of(gen.signed(gen.logreal(1e-12, 1e6)), st.just(0.0), gen.real(-10, 10)), min_size=3, max_size=3).filter(
    lambda v: any(abs(x) > 1e-12 for x in v))
vecs = st.one_of(gen.scaled_unit(lengths), gen.scaled_unit(lengths), tiny)
ob = st.tuples(gen.mjd(1950, 2050), gen.scaled_unit(gen.logreal(6500, 1e5)), gen.scaled_unit(gen.real(0.1, 10)),
               gen.scaled_unit(gen.logreal(1e-2, 1e5)), st.one_of(gen.logreal(1e-6, 100), gen.logreal(1e-12, 1e6), st.just(0.0)),
               st.one_of(gen.logreal(1e-9, 0.1), gen.logreal(1e-15, 1), st.just(0.0))).map(list)
SUBS = [
    Sub("cartesian", st.fixed_dictionaries({"v": vecs}), check_cart, quick=20000,
        nontrivial=lambda c: sum(1 for x in c["v"] if x) >= 2),
    Sub("spherical", st.fixed_dictionaries({"r": lengths, "ra": gen.angle(), "dec": gen.latitude()}), check_sph, quick=15000),
    Sub("space observation", st.fixed_dictionaries({"obs": st.lists(ob, min_size=1, max_size=2)}), check_space, quick=5000),
]
