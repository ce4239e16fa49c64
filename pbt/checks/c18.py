"""C18 relative and inertial states: independent curvilinear geometry, both directions"""
import math

from hypothesis import strategies as st
from openspace.coordinates.states import GCRF, HCW, StateConvert
from openspace.math.linalg import Vector3D, Vector6D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, truth, vclose, xyz

RULE = ("origins with any position, speed and flight direction (not rectilinear) and any epoch; other states anywhere off the polar axis, "
        "near and far, in front, behind and opposite; relative states with arcs up to half a turn in-track and a quarter turn cross-track; "
        "non-trivial: every case")
ASSUMPTIONS = ["cross-track angle at most pi/2 - 1e-3, angular momentum at least 1e-3 of r v"]
PI = math.pi


def origin(c):
    r = tuple(c["r"])
    # velocity from a direction and an angle to the radius
    u = ref.unit(r)
    w = ref.cross(u, tuple(c["dir"]))
    if ref.norm(w) < 1e-3:
        w = ref.cross(u, (0.36, 0.48, 0.8))
    if ref.norm(w) < 1e-3:
        w = ref.cross(u, (0.8, -0.36, 0.48))
    t = ref.unit(w)
    v = tuple(c["speed"] * (math.cos(c["fpa"]) * t[k] + math.sin(c["fpa"]) * u[k]) for k in range(3))
    return r, v


def gcrf(t, r, v):
    return GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))


def frame(o, r, v):
    m = HCW.frame_matrix(o)
    for got, want, nm in zip((m.row1, m.row2, m.row3), ref.ric_axes(r, v), ("radial", "in-track", "cross-track")):
        vclose(xyz(got, nm), want, 3e-13, f"{nm} axis of the frame of {r!r} {v!r}")


def tols(r0, v0, p, q):
    """rounding of angles and rates in the relative frame"""
    rm, r1 = ref.norm(r0), ref.norm(p)
    m = ref.ric_axes(r0, v0)
    f = ref.mv(m, p)
    cp = max(math.hypot(f[0], f[1]) / r1, 1e-30)
    k = rm * ref.norm(v0) / ref.norm(ref.cross(r0, v0))
    ang = 2e-14 * k / cp
    rate = (2e-14 * k / cp ** 3) * (ref.norm(q) / r1 + ref.norm(v0) / rm)
    return ang * rm, rate * rm, cp


def check_to_hcw(c):
    r0, v0 = origin(c)
    o = gcrf(c["t"], r0, v0)
    frame(o, r0, v0)
    for (far, d, vel) in c["others"]:
        p = tuple(d) if far else ref.add(r0, tuple(d))
        q = tuple(vel) if far else ref.add(v0, tuple(vel))
        if ref.norm(p) < 1000:
            continue
        ta, tv, cp = tols(r0, v0, p, q)
        if cp < 1e-3:
            continue
        s = gcrf(c["t2"], p, q)
        h = StateConvert.gcrf.to_hcw(o, s)
        ctx = f" of {p!r} {q!r} about {r0!r} {v0!r}"
        wp, wq = ref.curvilinear(r0, v0, p, q)
        hp, hv = xyz(h.position, "hcw"), xyz(h.velocity, "hcw")
        rm = ref.norm(r0)
        tp = ta + 2e-15 * (rm + ref.norm(p))
        close(hp[0], wp[0], 4e-15 * (rm + ref.norm(p)), "radial separation" + ctx)
        close(ref.wrap((hp[1] - wp[1]) / rm) * rm, 0.0, tp, "in-track arc" + ctx)
        truth(abs(hp[1]) <= PI * rm * (1 + 1e-15), "in-track arc beyond half a turn" + ctx)
        close(hp[2], wp[2], tp, "cross-track arc" + ctx)
        vclose(hv, wq, tv + 4e-14 * (ref.norm(q) + ref.norm(v0)) * ref.norm(r0) * ref.norm(v0) / ref.norm(ref.cross(r0, v0)) / cp,
               "relative velocity" + ctx)
        close(h.epoch.value, c["t"], 0.0, "epoch of the relative state" + ctx)
        b = StateConvert.hcw.to_gcrf(h, o)
        k = 1 / cp * rm * ref.norm(v0) / ref.norm(ref.cross(r0, v0))
        vclose(xyz(b.position, "position"), p, 4e-14 * k * ref.norm(p), "inertial position after a round trip" + ctx)
        vclose(xyz(b.velocity, "velocity"), q, 1e-13 * k * (ref.norm(q) + ref.norm(v0) * ref.norm(p) / rm), "inertial velocity after a round trip" + ctx)
        close(b.epoch.value, c["t"], 0.0, "epoch after a round trip" + ctx)
        truth(xyz(s.position) == p and xyz(s.velocity) == q and s.epoch.value == c["t2"] and xyz(h.position) == hp and xyz(h.velocity) == hv,
              "conversion modified a state")
    truth(xyz(o.position) == r0 and xyz(o.velocity) == v0 and o.epoch.value == c["t"], "conversion modified the origin")
    # the origin itself
    z = StateConvert.gcrf.to_hcw(o, o)
    k = ref.norm(r0) * ref.norm(v0) / ref.norm(ref.cross(r0, v0))
    vclose(xyz(z.position, "origin"), (0, 0, 0), 1e-14 * k * ref.norm(r0), "relative position of the origin")
    vclose(xyz(z.velocity, "origin"), (0, 0, 0), 2e-14 * k * ref.norm(v0), "relative velocity of the origin")


def check_to_gcrf(c):
    r0, v0 = origin(c)
    rm = ref.norm(r0)
    o = gcrf(c["t"], r0, v0)
    for x, lam, phi, vel in c["rel"]:
        pos = (rm * x, rm * lam, rm * phi)
        vel = tuple(vel)
        if c["vec"]:
            h = HCW.from_state_vector(Vector6D(*pos, *vel))
        else:
            h = HCW(Epoch(c["t2"]), Vector3D(*pos), Vector3D(*vel))
        ctx = f" of {pos!r} {vel!r} about {r0!r} {v0!r}"
        g = StateConvert.hcw.to_gcrf(h, o)
        p, q = ref.curvilinear_inverse(pos, vel, r0, v0)
        k = rm * ref.norm(v0) / ref.norm(ref.cross(r0, v0))
        f = (1 + x)
        vclose(xyz(g.position, "position"), p, 2e-14 * k * rm * f, "inertial position" + ctx)
        vs = ref.norm(vel) + ref.norm(v0)
        vclose(xyz(g.velocity, "velocity"), q, 4e-14 * k * vs * (1 + f), "inertial velocity" + ctx)
        close(g.epoch.value, c["t"], 0.0, "epoch of the inertial state" + ctx)
        truth(xyz(h.position) == pos and xyz(h.velocity) == vel, "conversion modified the relative state")
        b = StateConvert.gcrf.to_hcw(o, g)
        ta, tv, cp = tols(r0, v0, p, q)
        if PI - abs(lam) > 1e-9:
            vclose(xyz(b.position, "hcw"), pos, 2 * ta + 4e-15 * (rm + ref.norm(p)), "relative position after a round trip" + ctx)
        vclose(xyz(b.velocity, "hcw"), vel, 4 * tv + 1e-13 * k / cp * vs * (1 + 1 / f), "relative velocity after a round trip" + ctx)
    truth(xyz(o.position) == r0 and xyz(o.velocity) == v0 and o.epoch.value == c["t"], "conversion modified the origin")


base = {"r": gen.scaled_unit(gen.logreal(6400, 1e6)), "dir": gen.unit(), "speed": gen.logreal(0.05, 12), "t": gen.mjd(1950, 2050),
        "t2": gen.mjd(1950, 2050), "fpa": st.one_of(st.just(0.0), gen.real(-0.5, 0.5), gen.real(-1.5, 1.5))}
other = st.one_of(
    st.tuples(st.just(False), gen.scaled_unit(gen.logreal(1e-6, 1e3)), gen.scaled_unit(gen.logreal(1e-9, 1))),
    st.tuples(st.just(True), gen.scaled_unit(gen.logreal(6400, 1e6)), gen.scaled_unit(gen.logreal(1e-3, 12)))).map(list)
lams = st.one_of(gen.signed(gen.logreal(1e-9, 3.1415)), gen.real(-3.14, 3.14), st.sampled_from([0.0, 1.0, -3.0]))
phis = st.one_of(gen.signed(gen.logreal(1e-9, 1.569)), gen.real(-1.569, 1.569), st.just(0.0))
xs = st.one_of(gen.signed(gen.logreal(1e-9, 0.8)), gen.real(-0.8, 5), st.just(0.0))
rel = st.tuples(xs, lams, phis, gen.scaled_unit(gen.logreal(1e-9, 10))).map(list)
SUBS = [
    Sub("inertial to relative", st.fixed_dictionaries(dict(base, others=st.lists(other, min_size=1, max_size=2))), check_to_hcw, quick=10000),
    Sub("relative to inertial", st.fixed_dictionaries(dict(base, rel=st.lists(rel, min_size=1, max_size=2), vec=st.booleans())), check_to_gcrf,
        quick=10000),
]
