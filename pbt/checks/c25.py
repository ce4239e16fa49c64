"""C25 detection, brightness and cameras: geometry and optics computed independently from the current states"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.hardware.constraints import OpticalConstraints
from openspace.hardware.payloads import Camera
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.checks.c23 import snap
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("observer on any bound orbit and epoch, moved or not, in any steering mode (tracking the target or a decoy next to it), target at 0.5 km.. "
        "anywhere in any direction (towards and away from Sun, Earth and Moon included) and at any epoch, any size, albedo, cameras, and detection limits at the "
        "defaults or placed 1e-6..1 to either side of the actual value so that each limit decides in turn; cameras of any pixel count and "
        "half-angle 1e-4..1.5 rad; non-trivial: every case")
ASSUMPTIONS = ["detection is not judged on a limit nearer than 1e-6 (rad or magnitudes, more where the angle itself is ill-conditioned)",
               "brightness is not judged for targets within 1e-4 rad of the Sun (no lit part)"]
PI = math.pi
DAY = 86400.0


def magnitude(radius, albedo, d, s):
    phi = PI - s
    return -26.74 - 2.5 * math.log10(2 / 3 * albedo * radius ** 2 / (PI * d * d) * (math.sin(phi) + (PI - phi) * math.cos(phi)))


def acos_err(a):
    return min(4e-8, 1e-15 / max(math.sin(a), 1e-16))


def place(c, r, t):
    kind, dirn, dist, tilt = c["where"]
    if kind == "free":
        u = tuple(dirn)
    else:
        b = {"sun": ref.sub(ref.sun(t), r), "moon": ref.sub(ref.moon(t), r), "earth": ref.mul(r, -1)}[kind]
        u = ref.add(ref.mul(ref.unit(b), c["side"]), ref.mul(tuple(dirn), tilt))
        if ref.norm(u) < 0.1:
            u = tuple(dirn)
    return ref.add(r, ref.mul(ref.unit(u), dist))


def check(c):
    r, v = ref.state_of(c["orb"])
    g = GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v))
    g.use_perturbations = c["pert"]
    me = Spacecraft(g)
    if c["go"]:
        me.step_to_epoch(Epoch(c["t"] + c["go"] / DAY))
    t = me.current_epoch().value
    r = xyz(me.position())
    v = xyz(me.velocity())
    p = place(c, r, t)
    if ref.norm(p) < 100 or ref.dist(r, ref.moon(t)) < 3000:
        return
    tgt = Spacecraft(GCRF(Epoch(t if c["sync"] else c["t2"]), Vector3D(*p), Vector3D(*v)))
    tgt.body_radius, tgt.albedo = c["tgt"]
    me.body_radius, me.albedo = c["own"] or c["tgt"]
    if c["cams"]:
        me.wfov = Camera(*c["cams"][0])
        me.nfov = Camera(*c["cams"][1])
    ctx = f" for {c!r}"
    decoy = None
    if c["point"] == "sun":
        me.track_sun()
    elif c["point"] == "target" and c["sync"]:
        me.track_state(tgt)
    elif c["point"] == "decoy":
        d = ref.dist(p, r)
        q = ref.add(p, ref.mul(tuple(c["decoy"][0]), d * c["decoy"][1]))
        decoy = Spacecraft(GCRF(Epoch(t), Vector3D(*q), Vector3D(*v)))
        me.track_state(decoy)
    before = snap(me), snap(tgt)
    # geometry of the current positions
    d = ref.sub(xyz(tgt.position()), r)
    rng = ref.norm(d)
    vclose(me.target_vector(tgt), d, 0.0, "target vector" + ctx)
    close(me.range(tgt), rng, 1e-14 * rng, "range" + ctx)
    sun, moon = ref.sub(ref.sun(t), r), ref.sub(ref.moon(t), r)
    vclose(me.sun_vector(), sun, 0.02, "vector to the Sun" + ctx)
    vclose(me.moon_vector(), moon, 1e-3, "vector to the Moon" + ctx)
    vclose(me.earth_vector(), ref.mul(r, -1), 0.0, "vector to the Earth" + ctx)
    vals = {"sun": ref.angle(sun, d), "earth": ref.angle(ref.mul(r, -1), d), "moon": ref.angle(moon, d),
            "bore": ref.angle(xyz(me.body_z), d)}
    errs = {k: 1e-9 + acos_err(a) for k, a in vals.items()}
    errs["moon"] += 1e-8 + 2e-3 / ref.norm(moon)
    close(me.sun_angle(tgt), vals["sun"], errs["sun"], "Sun angle" + ctx)
    close(me.moon_angle(tgt), vals["moon"], errs["moon"], "Moon angle" + ctx)
    close(me.earth_angle(tgt), vals["earth"], errs["earth"], "Earth angle" + ctx)
    # brightness
    s = vals["sun"]
    lit = s > 1e-4
    if lit:
        m = magnitude(c["tgt"][0], c["tgt"][1], rng, s)
        f = math.sin(s) - s * math.cos(s)
        merr = 1e-9 + 2e-15 / s ** 2 + 1.1 * errs["sun"] * s * math.sin(s) / f
        close(me.visual_magnitude(tgt), m, merr, "visual magnitude" + ctx)
        vals["mag"], errs["mag"] = m, merr
    # detection with every limit where the case wants it
    lim = me.wfov.limits
    for other in (me.nfov.limits, tgt.wfov.limits, tgt.nfov.limits):
        for name, x in zip(("sun_soft", "earth", "moon", "vismag", "bore", "sun_hard"), c["noise_limits"]):
            setattr(other, name, x)
    names = {"sun": "sun_soft", "earth": "earth", "moon": "moon", "mag": "vismag", "bore": "bore"}
    for key, off in c["limits"].items():
        if off is not None and key in vals:
            setattr(lim, names[key], vals[key] - off if key in ("sun", "earth", "moon") else vals[key] + off)
    lim.sun_hard = c["hard"]
    verdict, sure = True, True
    for key, name in names.items():
        x = getattr(lim, name)
        if key not in vals:
            sure = False
            continue
        margin = vals[key] - x if key in ("sun", "earth", "moon") else x - vals[key]
        if abs(margin) < 5e-7 + errs[key]:
            sure = False
        elif margin < 0:
            verdict = False
    if lit or s < 0.99 * lim.sun_soft:
        got = me.detect(tgt)
        if sure or not verdict:
            truth(bool(got) == verdict, f"detection gave {got!r}, the limits say {verdict} (values {vals!r}, limits "
                  f"{ {n: getattr(lim, n) for n in names.values()} !r})" + ctx)
    truth((snap(me), snap(tgt)) == before, "looking at a target changed a spacecraft" + ctx)


def check_camera(c):
    px, fov, r, d = c["px"], c["fov"], c["r"], c["d"]
    cam = Camera(px, fov)
    ctx = f" for {c!r}"
    tn = math.tan(fov)
    want = r * tn / (2 * px)
    close(cam.resolution(r), want, 1e-13 * want, "resolution" + ctx)
    close(cam.range_error(r, d), want * r / d, 1e-13 * want * r / d, "range error" + ctx)
    close(cam.tracking_minimum(d), d / tn, 1e-13 * d / tn, "tracking minimum" + ctx)
    ch = num(cam.limits.characterization, "characterization limit")
    close(ch, 2e-5 * px / tn, 2e-13 * px / tn, "characterization limit" + ctx)
    close(cam.resolution(ch), 1e-5, 1e-17, "resolution at the characterization limit" + ctx)
    close(cam.limits.bore, fov, 1e-15 * fov, "field-of-view limit" + ctx)
    truth((cam.pixels, cam.fov) == (px, fov), "camera parameters changed" + ctx)
    lim = OpticalConstraints(px, fov)
    close(lim.characterization, ch, 1e-13 * ch, "characterization limit of the constraints" + ctx)
    # documented defaults, whatever was done to other cameras
    rad = math.radians
    for k in (cam, Camera.wfov(), Camera.nfov(), Spacecraft(GCRF(Epoch(5e4), Vector3D(7000, 0, 0), Vector3D(0, 7, 1))).wfov):
        for name, x in (("sun_hard", rad(60)), ("sun_soft", rad(90)), ("moon", rad(10)), ("earth", rad(20)), ("vismag", 15)):
            close(getattr(k.limits, name), x, 1e-14 * x, f"default limit {name}" + ctx)
            if k is not cam:
                setattr(k.limits, name, c["r"])
        if k is not cam:
            k.pixels, k.fov, k.resolution_factor, k.limits.bore = 7, 0.7, 0.07, 0.01
    for k, f in ((Camera.wfov(), rad(5)), (Camera.nfov(), rad(0.125))):
        close(k.resolution(r), r * math.tan(f) / 6144, 1e-13 * r, "resolution of a nominal camera" + ctx)
        close(k.limits.bore, f, 1e-15, "field-of-view limit of a nominal camera" + ctx)
    close(cam.resolution(r), want, 1e-13 * want, "resolution" + ctx)


away = gen.logreal(1e-6, 1.0)
# mostly passing, so that every limit gets to decide
off = st.one_of(st.none(), away, away, away, away, away, away.map(lambda x: -x))
limits = st.fixed_dictionaries({k: off for k in ("sun", "earth", "moon", "mag", "bore")})
where = st.tuples(st.sampled_from(["free", "free", "free", "sun", "moon", "earth"]), gen.unit(),
                  st.one_of(gen.logreal(0.5, 5e4), gen.logreal(0.5, 500), gen.logreal(1e4, 4e5)), gen.logreal(1e-8, 1)).map(list)
body = st.tuples(st.one_of(gen.logreal(1e-4, 0.1), gen.logreal(1e-6, 0.5)), st.one_of(gen.real(0.02, 1.0), gen.logreal(1e-5, 1))).map(list)
cams = st.one_of(st.none(), st.lists(st.tuples(gen.logreal(64, 1e4), gen.logreal(1e-3, 0.5)).map(list), min_size=2, max_size=2))
SUBS = [
    Sub("detection", st.fixed_dictionaries({
        "orb": st.one_of(gen.orbit(6600.0, 60000.0, 0.5), gen.orbit(6600.0, 60000.0, 0.5), gen.orbit(60000.0, 330000.0, 0.3)), "t": gen.mjd(1951, 2049), "t2": gen.mjd(1951, 2049), "go": st.one_of(st.just(0.0), gen.real(-600, 600)),
        "pert": st.booleans(), "sync": st.booleans(), "where": where, "side": st.sampled_from([1, -1]), "tgt": body, "own": st.one_of(body, body, st.none()), "cams": cams,
        "point": st.sampled_from(["lvlh", "sun", "target", "decoy", "decoy"]), "decoy": st.tuples(gen.unit(), gen.logreal(1e-6, 0.9)).map(list),
        "limits": limits, "noise_limits": st.tuples(*[gen.real(0, 3)] * 6).map(list), "hard": gen.real(0, 3.2)}), check, quick=6000,
        label=lambda c: [c["point"]]),
    Sub("camera", st.fixed_dictionaries({"px": gen.logreal(1, 1e5, [1.0, 3072.0]), "fov": gen.logreal(1e-4, 1.5), "r": gen.logreal(1e-3, 1e6),
                                         "d": gen.logreal(1e-5, 1e3)}), check_camera, quick=4000),
]
