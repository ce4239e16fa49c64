"""C13 force model: independent accelerations term by term, and their sum"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("one to three states per case, 6400..1e6 km from the Earth in any direction, some near the Moon, epochs 1950..2050, with any thrust, area-to-mass "
        "scalar and perturbation setting, evaluated in any order and repeatedly, on separate objects or on one object changed from state to state; "
        "spacecraft of any size, albedo and masses; non-trivial: every case")
ASSUMPTIONS = ["states at least 2000 km from the Moon and not within 1e-5 rad of the Earth's rotation axis"]


def gscale(r):
    m = ref.norm(r)
    return ref.MU / m ** 2 * (ref.RE / m) ** 2 * 1e-3


def check(c):
    objs = []
    for s in c["states"]:
        r, v = tuple(s["r"]), tuple(s["v"])
        g = GCRF(Epoch(s["t"]), Vector3D(*r), Vector3D(*v))
        g.thrust = Vector3D(*s["thrust"])
        g.srp_scalar = s["srp"]
        g.use_perturbations = s["pert"]
        objs.append((g, s))
    for j, (k, term) in enumerate(c["ask"]):
        g, s = objs[k % len(objs)]
        r, v, t = tuple(s["r"]), tuple(s["v"]), s["t"]
        if c["reuse"]:
            # one object, changed in place or attribute by attribute to hold each state in turn
            g = objs[0][0]
            if j % 2:
                g.position, g.velocity, g.epoch, g.thrust = Vector3D(*r), Vector3D(*v), Epoch(t), Vector3D(*s["thrust"])
            else:
                g.position.x, g.position.y, g.position.z = r
                g.velocity.x, g.velocity.y, g.velocity.z = v
                g.thrust.x, g.thrust.y, g.thrust.z = s["thrust"]
                g.epoch.value = t
            g.srp_scalar, g.use_perturbations = s["srp"], s["pert"]
        sun, moon = ref.sun(t), ref.moon(t)
        if ref.dist(moon, r) < 2000:
            continue
        m = ref.gcrf_to_itrf_matrix(t)
        f = ref.mv(m, r)
        if math.hypot(f[0], f[1]) < 1e-5 * ref.norm(f):
            continue
        ctx = f" for {s!r}"
        ds, dm = ref.norm(sun), ref.norm(moon)
        a_sun = ref.third_body(r, sun, ref.MU_SUN)
        a_moon = ref.third_body(r, moon, ref.MU_MOON)
        dd = ref.dist(moon, r)
        t_sun = 2e-14 * ref.MU_SUN / ds ** 2 + 1e-8 * ref.norm(a_sun)
        t_moon = 2e-14 * ref.MU_MOON * (1 / dm ** 2 + 1 / dd ** 2) + (1e-8 + 1e-3 / dd) * ref.norm(a_moon)
        a_c = ref.central(r)
        t_c = 1e-14 * ref.norm(a_c)
        a_p = ref.srp(r, t, s["srp"])
        t_p = 1e-10 * ref.norm(a_p)
        a_g = ref.gravity_gcrf(r, t)
        t_g = 2e-7 * gscale(r)
        th = tuple(s["thrust"])
        if term == "earth":
            vclose(xyz(g.acceleration_from_earth(), term), a_c, t_c, "central acceleration" + ctx)
        elif term == "sun":
            vclose(xyz(g.acceleration_from_sun(), term), a_sun, t_sun, "acceleration by the Sun" + ctx)
        elif term == "moon":
            vclose(xyz(g.acceleration_from_moon(), term), a_moon, t_moon, "acceleration by the Moon" + ctx)
        elif term == "srp":
            vclose(xyz(g.acceleration_from_srp(), term), a_p, t_p, "acceleration by radiation pressure" + ctx)
        elif term == "gravity":
            vclose(xyz(g.acceleration_from_gravity(), term), a_g, t_g, "non-spherical acceleration" + ctx)
        elif term == "thrust":
            got = g.acceleration_from_thrust()
            vclose(xyz(got, term), th, 0.0, "acceleration by thrust" + ctx)
            got.x += 1.0
        elif term == "sun vector":
            vclose(xyz(g.sun_vector(), term), ref.sub(sun, r), 0.02, "vector to the Sun" + ctx)
        elif term == "moon vector":
            vclose(xyz(g.moon_vector(), term), ref.sub(moon, r), 1e-3, "vector to the Moon" + ctx)
        else:
            d = g.derivative()
            if len(d) != 2:
                fail(f"derivative has {len(d)} parts")
            vclose(xyz(d[0], "velocity"), v, 0.0, "first part of the derivative" + ctx)
            want, tol = ref.add(th, a_c), t_c + 1e-15 * ref.norm(th)
            if s["pert"]:
                for a, e in ((a_moon, t_moon), (a_sun, t_sun), (a_p, t_p), (a_g, t_g)):
                    want = ref.add(want, a)
                    tol += e
            vclose(xyz(d[1], "acceleration"), want, tol, "second part of the derivative" + ctx)
            d[0].x += 1.0
            d[1].y += 1.0
        truth(xyz(g.position) == r and xyz(g.velocity) == v and g.epoch.value == t and xyz(g.thrust) == th
              and g.srp_scalar == s["srp"] and bool(g.use_perturbations) == s["pert"], f"evaluating {term} modified the state")


def check_scalar(c):
    """area, mass and area-to-mass scalar of a spacecraft as its properties change"""
    s = Spacecraft(GCRF(Epoch(c["t"]), Vector3D(42164.0, 0.0, 0.0), Vector3D(0.0, 3.07, 0.0)))
    for radius, albedo, dry, prop in c["sets"]:
        s.body_radius, s.albedo, s.dry_mass, s.propellant_mass = radius, albedo, dry, prop
        ctx = f" for radius {radius!r} km, albedo {albedo!r}, masses {dry!r} and {prop!r} kg"
        area = math.pi * radius * radius
        close(s.area(), area, 1e-15 * 4 * area, "area" + ctx)
        close(s.total_mass(), dry + prop, 4e-16 * (dry + prop), "total mass" + ctx)
        k = (1 + albedo) * area * 1e6 / (dry + prop)
        close(s.srp_scalar(), k, 1e-14 * k, "area-to-mass scalar" + ctx)
        truth((s.body_radius, s.albedo, s.dry_mass, s.propellant_mass) == (radius, albedo, dry, prop), "reading the scalar changed the spacecraft")


TERMS = ["earth", "sun", "moon", "srp", "gravity", "thrust", "sun vector", "moon vector", "derivative", "derivative"]
pos = gen.scaled_unit(gen.logreal(6400, 1e6, [42164.0, 7000.0, 3e5]))


def _near(t):
    """some states are near the Moon"""
    s, off = t
    if off:
        s = dict(s, r=list(ref.add(ref.moon(s["t"]), tuple(off))))
    return s


state = st.tuples(st.fixed_dictionaries({
    "t": gen.mjd(1950, 2050), "r": pos, "v": gen.scaled_unit(gen.real(0.01, 11)),
    "thrust": st.one_of(st.just([0.0, 0.0, 0.0]), gen.scaled_unit(gen.logreal(1e-9, 1e-2))),
    "srp": st.one_of(st.just(0.0), gen.logreal(1e-5, 10)), "pert": st.sampled_from([True, True, False])}),
    st.one_of(st.none(), st.none(), st.none(), st.none(), gen.scaled_unit(gen.logreal(2500, 1e5)))).map(_near)
SUBS = [Sub("terms", st.fixed_dictionaries({"states": st.lists(state, min_size=1, max_size=3), "ask": st.lists(
    st.tuples(st.integers(0, 2), st.sampled_from(TERMS)).map(list), min_size=3, max_size=8), "reuse": st.booleans()}), check, quick=9000,
    label=lambda c: sorted({x[1] for x in c["ask"]})),
    Sub("scalar", st.fixed_dictionaries({"t": gen.mjd(1950, 2050), "sets": st.lists(st.tuples(
        gen.logreal(1e-6, 1.0), gen.real(0, 1, [0.0, 1.0]), gen.logreal(1e-3, 1e6), st.one_of(st.just(0.0), gen.logreal(1e-4, 1e6))).map(list),
        min_size=1, max_size=3)}), check_scalar, quick=2000)]
