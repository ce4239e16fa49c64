"""The oracles checked against published values and against each other (never against the code under test)."""
import datetime
import math
import random

from pbt import ref


def near(name, got, want, tol):
    if not abs(got - want) <= tol:
        raise AssertionError(f"oracle {name}: {got!r}, expected {want!r}")


def mjd(y, mo, d, h=0, mi=0, s=0.0):
    return datetime.date(y, mo, d).toordinal() - 678576 + (h + (mi + s / 60) / 60) / 24


def published():
    # Vallado, example 3-5: GMST 1992-08-20 12:14 UT1
    near("gmst", math.degrees(ref.gmst82(mjd(1992, 8, 20, 12, 14))), 152.578787810, 1e-6)
    # Meeus, example 12.a
    near("gmst 0h", math.degrees(ref.gmst82(mjd(1987, 4, 10))), 197.693195, 1e-6)
    # Meeus, example 25.a: true longitude of date and radius vector of the Sun
    t = mjd(1992, 10, 13)
    lon, r = ref.sun_almanac(t)
    near("sun longitude", math.degrees(lon + math.radians(1.3969713) * ref.centuries(t)) % 360, 199.90988, 1e-4)
    near("sun distance", r, 0.99766, 1e-5)
    # Meeus, example 47.a: Moon
    t = mjd(1992, 4, 12)
    lon, lat, r = ref.moon_meeus(t)
    near("moon longitude", math.degrees(lon + math.radians(1.3969713) * ref.centuries(t)) % 360, 133.162655, 0.01)
    near("moon latitude", math.degrees(lat), -3.229126, 0.005)
    near("moon distance", r, 368409.7, 100)
    # Meeus, example 22.a: mean obliquity 1987-04-10
    near("obliquity", math.degrees(ref.obliquity(mjd(1987, 4, 10))), 23 + 26 / 60 + 27.407 / 3600, 2e-3)
    # Vallado, example 2-4
    r, v = ref.kepler_propagate((1131.340, -2282.343, 6672.423), (-5.64305, 4.30333, 2.42879), 2400.0, 398600.4418)
    for a, b in zip(r, (-4219.7527, 4363.0292, -3958.7666)):
        near("kepler position", a, b, 0.01)
    for a, b in zip(v, (3.689866, -1.916735, -6.112511)):
        near("kepler velocity", a, b, 1e-5)
    # Vallado, example 2-1
    near("kepler equation", math.degrees(ref.kepler(math.radians(235.4), 0.4)), 220.512074767522, 1e-9)
    # Vallado, example 3-3 inverted
    p = ref.geodetic_to_itrf(math.radians(34.352496), math.radians(46.4464), 5085.2187)
    for a, b in zip(p, (6524.834, 6862.875, 6448.296)):
        near("geodetic", a, b, 0.02)


def cross_checks(n=200):
    rnd = random.Random(7)
    for _ in range(n):
        e = rnd.uniform(0, 0.9)
        a = rnd.uniform(7000, 50000) / (1 - e)
        orb = [a, e, rnd.uniform(0, math.pi)] + [rnd.uniform(0, 2 * math.pi) for _ in range(3)]
        r, v = ref.state_of(orb)
        # universal variables against Kepler's equation
        dt = rnd.uniform(-1, 1) * 2 * math.pi * math.sqrt(a ** 3 / ref.MU)
        r1, v1 = ref.kepler_propagate(r, v, dt)
        e0 = ref.ea_from_nu(orb[5], e)
        m = e0 - e * math.sin(e0) + math.sqrt(ref.MU / a ** 3) * dt
        r2, v2 = ref.elements_to_rv(*orb[:5], ref.kepler(m, e))
        near("two-body", ref.dist(r1, r2) / a, 0, 1e-8)
        # relative geometry and its inverse
        ro = ref.add(r, tuple(rnd.uniform(-0.1, 0.1) * ref.norm(r) for _ in range(3)))
        vo = ref.add(v, tuple(rnd.uniform(-0.5, 0.5) for _ in range(3)))
        p, q = ref.curvilinear(r, v, ro, vo)
        rb, vb = ref.curvilinear_inverse(p, q, r, v)
        near("relative position", ref.dist(rb, ro) / ref.norm(ro), 0, 1e-11)
        near("relative velocity", ref.dist(vb, vo) / ref.norm(vo), 0, 1e-10)
        # geopotential: gradient against the derivative of the potential
        u = ref.unit(tuple(rnd.gauss(0, 1) for _ in range(3)))
        x = ref.mul(u, rnd.uniform(6500, 45000))
        g = ref.gravity_itrf(x)
        h = 1e-3 * ref.norm(x)
        for k in range(3):
            d = tuple(h if i == k else 0.0 for i in range(3))
            d2 = tuple(h / 2 if i == k else 0.0 for i in range(3))
            c1 = (potential(ref.add(x, d)) - potential(ref.sub(x, d))) / (2 * h)
            c2 = (potential(ref.add(x, d2)) - potential(ref.sub(x, d2))) / h
            near("gravity gradient", ref.dist((g[k],), ((4 * c2 - c1) / 3,)) / ref.norm(g), 0, 1e-7)
        # Hill's equations: derivative of the flow
        n0 = rnd.uniform(7e-5, 1e-3)
        s0 = [rnd.uniform(-10, 10) for _ in range(3)] + [rnd.uniform(-0.01, 0.01) for _ in range(3)]
        t, h = rnd.uniform(-1e4, 1e4), 1.0
        s1, sp, sm = ref.cw(s0, n0, t), ref.cw(s0, n0, t + h), ref.cw(s0, n0, t - h)
        acc = [(sp[3 + k] - sm[3 + k]) / (2 * h) for k in range(3)]
        want = (3 * n0 * n0 * s1[0] + 2 * n0 * s1[4], -2 * n0 * s1[3], -n0 * n0 * s1[2])
        for k in range(3):
            near("hill rates", (sp[k] - sm[k]) / (2 * h), s1[3 + k], 1e-6)
            near("hill equations", acc[k], want[k], 1e-8)
        near("hill start", max(abs(a - b) for a, b in zip(ref.cw(s0, n0, 0.0), s0)), 0, 1e-12)
        # frames are rotations
        t = rnd.uniform(15000, 88000)
        for m3 in (ref.precession(t), ref.nutation_rot(t), ref.gast_rot(t, 1.0)):
            p3 = ref.mm(m3, ref.mt(m3))
            near("rotation", max(abs(p3[i][j] - (i == j)) for i in range(3) for j in range(3)), 0, 1e-14)
        w = ref.unit(tuple(rnd.gauss(0, 1) for _ in range(3)))
        near("nutation", ref.dist(ref.mv(ref.nutation_rot(t), w), ref.mv(ref.nutation_lin(t), w)), 0, 2e-8)


def potential(x):
    r = ref.norm(x)
    s = x[2] / r
    lon = math.atan2(x[1], x[0])
    u = 0.0
    for (n, m), c in ref._CBAR.items():
        k = math.sqrt((2 if m else 1) * (2 * n + 1) * math.factorial(n - m) / math.factorial(n + m))
        u += (ref.RE / r) ** n * k * ref.legendre(n, m, s) * (
            c * math.cos(m * lon) + ref._SBAR.get((n, m), 0.0) * math.sin(m * lon))
    return ref.MU / r * u


def run():
    published()
    cross_checks()
