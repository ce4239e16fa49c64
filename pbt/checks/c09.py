"""C09 orbit geometry: all formulas against one ellipse"""
import math

from hypothesis import strategies as st
from openspace.bodies.celestial import Earth
from openspace.math.functions import EquationsOfMotion as Q
from openspace.math.functions import Radius
from openspace.math.linalg import Vector3D

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, turn, vclose, xyz

RULE = ("ellipses with any gravitational parameter (1e-3..1e21), semi-major axis (0.01..1e13), eccentricity 0..0.999999 and true "
        "anomaly; orbit planes and positions in them of every orientation, exactly and nearly equatorial, polar and retrograde; "
        "non-trivial: eccentricity above 1e-6, or an orbit plane")
ASSUMPTIONS = ["quantities defined by a difference (eccentricity from axes, energy, 1/a from speed) are compared to the rounding of that "
               "difference"]
PI = math.pi
EPS = 2.3e-16


def check_ellipse(c):
    mu, a, e, nu = c["mu"], c["a"], c["e"], c["nu"]
    om = (1 - e) * (1 + e)
    b = a * math.sqrt(om)
    p = a * om
    cc = a * e
    k = 1 + e * math.cos(nu)
    k = max(k, 1 - e)
    r = p / k
    v2 = mu * (2 / r - 1 / a)
    # speed from the two components, without cancellation
    vr, vt = math.sqrt(mu / p) * e * math.sin(nu), math.sqrt(mu / p) * k
    v = math.hypot(vr, vt)
    h = math.sqrt(mu * p)
    xi = -mu / (2 * a)
    n = math.sqrt(mu / a) / a
    tau = 2 * PI / n
    ctx = f" for mu={mu!r} a={a!r} e={e!r} nu={nu!r}"

    def rel(got, want, what, tol=2e-14):
        close(got, want, tol * abs(want), what + ctx)

    # eccentricity
    rel(Q.E.from_a_c(a, cc), e, "eccentricity from a and c")
    for got, what in ((Q.E.from_a_b(a, b), "eccentricity from a and b"), (Q.E.from_a_p(a, p), "eccentricity from a and p")):
        g = num(got, what)
        truth(g >= 0, f"{what} is negative: {g!r}" + ctx)
        close(g * g, e * e, 40 * EPS, what + " (squared)" + ctx)
    close(Q.F.from_a_b(a, b), e * e / (1 + math.sqrt(om)), 20 * EPS, "flattening from a and b" + ctx)
    # semi-major axis
    rel(Q.A.from_mu_n(mu, n), a, "semi-major axis from mean motion")
    rel(Q.A.from_mu_tau(mu, tau), a, "semi-major axis from period")
    g = num(Q.A.from_mu_r_v(mu, r, v), "semi-major axis from r and v")
    cond = 1 + a * (2 / r)
    if cond * EPS < 1e-6:
        close(1 / g, 1 / a, 40 * EPS * (2 / r + 1 / p), "1 / semi-major axis from r and v" + ctx)
    # semi-minor axis and semi-parameter
    g = num(Q.B.from_a_e(a, e), "semi-minor axis")
    truth(g > 0, "semi-minor axis not positive" + ctx)
    close((g / a) ** 2, om, 20 * EPS, "(semi-minor axis / a)^2" + ctx)
    rel(Q.P.from_a_b(a, b), p, "semi-parameter from a and b")
    close(num(Q.P.from_a_e(a, e)) / a, om, 20 * EPS, "semi-parameter / a" + ctx)
    rel(Q.P.from_mu_h(mu, h), p, "semi-parameter from h")
    # areal velocity
    rel(Q.H.from_mu_p(mu, p), h, "areal velocity from p")
    phi = math.atan2(vr, vt)
    close(Q.H.from_r_v_phi(r, v, phi), h, 40 * EPS * r * v, "areal velocity from r, v and flight-path angle" + ctx)
    # radius, energy, speed
    close(p / num(Radius.from_p_e_nu(p, e, nu), "radius"), k, 20 * EPS, "p / radius from p, e and true anomaly" + ctx)
    close(Q.XI.from_mu_r_v(mu, r, v), xi, 40 * EPS * (mu / r + mu / p), "energy from r and v" + ctx)
    rel(Q.XI.from_mu_a(mu, a), xi, "energy from a")
    tol = 60 * EPS * mu * (2 / r + 1 / p)

    def speed(got, what, t):
        g = num(got, what)
        truth(g >= 0, f"{what} is negative" + ctx)
        close(g * g, v * v, t, what + " (squared)" + ctx)

    if v * v > 4 * tol:
        speed(Q.V.from_a_mu_r(a, mu, r), "speed from a", tol)
        speed(Q.V.from_mu_r_xi(mu, r, xi), "speed from energy", tol)
        t2 = 60 * EPS * ((mu / r) * (2 + 2 / k) + mu / p)
        if v * v > 4 * t2:
            speed(Q.V.from_mu_r_e_nu(mu, r, e, nu), "speed from e and true anomaly", t2)
    # period and mean motion
    rel(Q.TAU.from_a_mu(a, mu), tau, "period")
    rel(Q.N.from_a_mu(a, mu), n, "mean motion from a")
    rel(Q.N.from_tau(tau), n, "mean motion from period")


def check_plane(c):
    i, raan, u, r, s = c["i"], c["raan"], c["u"], c["r"], c["s"]
    si, ci = math.sin(i), math.cos(i)
    if c["exact"]:
        i = 0.0 if i < PI / 2 else PI
        si, ci = 0.0, (1.0 if i == 0 else -1.0)
    w = (si * math.sin(raan), -si * math.cos(raan), ci)
    node = (math.cos(raan), math.sin(raan), 0.0)
    up = ref.cross(w, node)
    rv = tuple(r * (math.cos(u) * node[k] + math.sin(u) * up[k]) for k in range(3))
    W = Vector3D(*w)
    R = Vector3D(*rv)
    gi = between(Q.I.from_w(W), 0.0, PI, "inclination")
    go = turn(Q.RAAN.from_w(W), math.atan2(w[0], -w[1]), "right ascension of the node")
    gu = between(Q.U.from_r_w(R, W), 0.0, 2 * PI, "argument of latitude")
    truth(xyz(W) == w and xyz(R) == rv, "computing the angles modified the vectors")
    ctx = f" for normal {w!r}, position {rv!r}"
    close(gi, math.atan2(math.hypot(w[0], w[1]), w[2]), 1e-13 + (min(4e-8, 2e-15 / abs(si)) if si else 4e-8), "inclination" + ctx)
    hw = math.hypot(w[0], w[1])
    nd = (math.cos(go), math.sin(go), 0.0)
    if hw > 0:
        vclose(nd, (-w[1] / hw, w[0] / hw, 0.0), 4e-15, "direction of the ascending node" + ctx)
    # whatever node is used, node and argument of latitude together name the position
    m = (math.sin(gi) * math.sin(go), -math.sin(gi) * math.cos(go), math.cos(gi))
    got = tuple(math.cos(gu) * nd[k] + math.sin(gu) * ref.cross(m, nd)[k] for k in range(3))
    vclose(got, ref.unit(rv), 1e-12, f"direction of the position named by node {go!r}, inclination {gi!r}, argument of latitude {gu!r}" + ctx)
    # areal velocity of a state in that plane
    t = ref.cross(w, ref.unit(rv))
    vel = tuple(s[0] * ref.unit(rv)[k] + s[1] * t[k] for k in range(3))
    H = xyz(Q.H.from_r_v(R, Vector3D(*vel)), "areal velocity")
    vclose(H, ref.mul(w, r * s[1]), 1e-14 * r * (abs(s[0]) + s[1]), "areal velocity vector" + ctx)


def check_geo(c):
    # a circular orbit with the period of the Earth's rotation
    a = num(Earth.geo_radius(), "geosynchronous radius")
    close(num(Q.TAU.from_a_mu(a, Earth.MU)), 86164.0905, 0.01, "period of the geosynchronous orbit")


inc = st.one_of(gen._grid(0, PI), gen._grid(0, PI), st.sampled_from([0.0, PI / 2, PI]), gen.near([0.0, PI / 2, PI], 0, PI, 1e-12, 0.1))
ecc = st.one_of(gen._grid(0, 0.99), gen._grid(0, 0.99), gen.logreal(1e-9, 0.9), gen.logreal(1e-6, 0.1).map(lambda x: 1 - x),
                st.sampled_from([0.0, 0.5, 0.999]))
SUBS = [
    Sub("ellipse", st.fixed_dictionaries({"mu": gen.logreal(1e-3, 1e21, [ref.MU, 1.0, 3.986004418e14]), "a": gen.logreal(1e-2, 1e13, [ref.RE, 42164.0, 1.0]),
                                          "e": ecc, "nu": gen.angle()}), check_ellipse, quick=15000,
        nontrivial=lambda c: c["e"] > 1e-6,
        label=lambda c: ["e > 0.99" if c["e"] > 0.99 else "e < 1e-3" if c["e"] < 1e-3 else "e between"]),
    Sub("plane", st.fixed_dictionaries({"i": inc, "raan": gen.angle(0, 2 * PI), "u": gen.angle(0, 2 * PI), "r": gen.logreal(1e3, 1e6),
                                        "s": st.tuples(gen.real(-10, 10), gen.logreal(1e-2, 12)).map(list),
                                        "exact": st.sampled_from([False, False, False, True])}), check_plane, quick=15000,
        label=lambda c: ["equatorial normal" if c["exact"] else "inclined normal"]),
    Sub("geosynchronous", st.just({}), check_geo, quick=1, thorough=1, nontrivial=lambda c: False),
]
