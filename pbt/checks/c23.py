"""C23 simulated noise: distribution tests over many samples of each generated case"""
import math
import random

import numpy as np
from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.hardware.payloads import Camera
from openspace.math.linalg import Vector3D
from openspace.time import Epoch
from scipy import stats

from pbt import gen, ref
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("vectors of any direction (axes and their neighbourhood included) and length 1e-2..1e6 with angle sigmas 1e-6..0.3 rad and length sigmas "
        "1e-9..2 of the length, 1500 samples per case, and a few cases of 60000 samples (tails); spacecraft pairs at ranges 0.3..5000 km with any pointing accuracy, cameras and "
        "target size, 400 observations per case; non-trivial: every case with a non-zero sigma")
ASSUMPTIONS = ["statistical tests reject at 1e-10 (Gaussian shape by Kolmogorov-Smirnov, spread by chi-square, isotropy by the first four circular "
               "harmonics, independence of successive samples and of length and tilt by correlation)"]
PLIM = 1e-10
ZLIM = 6.8
N = 1500


def normal(z, what, ctx):
    z = np.asarray(z)
    n = len(z)
    m = z.mean() * math.sqrt(n)
    if abs(m) > ZLIM:
        fail(f"{what} is biased: mean {z.mean():.4g} sigma over {n} samples" + ctx)
    spread((z * z).sum(), n, what, ctx)
    p = stats.kstest(z, "norm").pvalue
    if p < PLIM:
        fail(f"{what} is not Gaussian of the stated size (p={p:.1e})" + ctx)
    lag = (z[1:] * z[:-1]).sum() / math.sqrt(n)
    if abs(lag) > 8.5:
        fail(f"successive values of {what} are correlated ({lag / math.sqrt(n):.3g})" + ctx)


def spread(ss, n, what, ctx):
    p = 2 * min(stats.chi2.cdf(ss, n), stats.chi2.sf(ss, n))
    if p < PLIM:
        fail(f"spread of {what}: {math.sqrt(ss / n):.5g} times the stated sigma over {n} samples (p={p:.1e})" + ctx)


def tilts(v, samples, sigma, what, ctx):
    """tilt sizes are half-normal, directions isotropic"""
    u = ref.unit(v)
    h = (1.0, 0.0, 0.0) if abs(u[0]) < 0.6 else (0.0, 1.0, 0.0)
    e1 = ref.unit(ref.cross(u, h))
    e2 = ref.cross(u, e1)
    ang, c1, c2, c3, c4 = [], 0j, 0j, 0j, 0j
    for s in samples:
        ang.append(ref.angle(v, s))
        z = complex(ref.dot(s, e1), ref.dot(s, e2))
        if z:
            z /= abs(z)
            c1 += z
            c2 += z * z
            c3 += z ** 3
            c4 += z ** 4
    n = len(ang)
    a = np.array(ang) / sigma
    spread((a * a).sum(), n, what, ctx)
    p = stats.kstest(a, "halfnorm").pvalue
    if p < PLIM:
        fail(f"size of {what} is not that of a Gaussian angle (p={p:.1e})" + ctx)
    for k, c in ((1, c1), (2, c2), (3, c3), (4, c4)):
        x = abs(c) ** 2 / n
        if x > 25:
            fail(f"{what} is not isotropic around the vector (harmonic {k}: {abs(c) / n:.3g}, p={math.exp(-x):.1e})" + ctx)
    return a


def check_vector(c):
    v = tuple(c["v"])
    L = ref.norm(v)
    kind, sa, sl = c["kind"], c["ang"], c["rel"] * ref.norm(v)
    V = Vector3D(*v)
    ctx = f" for {c!r}"
    random.seed(c["seed"])
    if kind == "angle":
        call = lambda: V.with_angular_noise(sa)
    elif kind == "length":
        call = lambda: V.with_magnitude_noise(sl)
    else:
        call = lambda: V.with_noise(sl, sa)
    zero_a = kind == "length" or sa == 0
    zero_l = kind == "angle" or sl == 0
    count = 5 if (zero_a and zero_l) else N
    out = [xyz(call(), "noisy vector") for _ in range(count)]
    truth(xyz(V) == v, "adding noise changed the vector" + ctx)
    lens, dirs = [], []
    for s in out:
        sg = 1.0 if ref.dot(s, v) >= 0 else -1.0
        lens.append(sg * ref.norm(s))
        dirs.append(ref.mul(s, sg))
    if zero_l:
        for x in lens:
            close(x, L, 1e-13 * L, "length without length noise" + ctx)
    else:
        normal((np.array(lens) - L) / sl, "length noise", ctx)
    if zero_a:
        for s in dirs:
            if ref.norm(s) > 1e-6 * L:
                vclose(ref.unit(s), ref.unit(v), 1e-14, "direction without angular noise" + ctx)
    else:
        a = tilts(v, dirs, sa, "tilt", ctx)
        if not zero_l:
            z = (np.array(lens) - L) / sl
            r = (z * (a * a - 1)).sum() / math.sqrt(2 * len(a))
            if abs(r) > 12:
                fail(f"length and tilt noise are correlated ({r:.3g})" + ctx)


def tails(z, what, ctx):
    """counts beyond 2, 2.5, 3 and 3.5 sigma are binomial"""
    z = np.abs(np.asarray(z))
    n = len(z)
    for k in (2.0, 2.5, 3.0, 3.5):
        p = 2 * stats.norm.sf(k)
        x = int((z > k).sum())
        q = 2 * min(stats.binom.cdf(x, n, p), stats.binom.sf(x - 1, n, p))
        if q < PLIM:
            fail(f"{x} of {n} values of {what} lie beyond {k} sigma, {n * p:.4g} expected (p={q:.1e})" + ctx)


def check_large(c):
    """the same over many more samples, where smaller departures and the tails show"""
    v = tuple(c["v"])
    L = ref.norm(v)
    sa, sl = c["ang"], c["rel"] * L
    V = Vector3D(*v)
    ctx = f" for {c!r}"
    random.seed(c["seed"])
    out = [xyz(V.with_noise(sl, sa)) for _ in range(c["n"])]
    z = (np.array([ref.norm(s) for s in out]) - L) / sl
    normal(z, "length noise", ctx)
    tails(z, "length noise", ctx)
    tails(tilts(v, out, sa, "tilt", ctx), "tilt", ctx)


def snap(s):
    g = s.current_state()
    return (xyz(g.position), xyz(g.velocity), g.epoch.value, xyz(s.body_x), xyz(s.body_y), xyz(s.body_z), s.steering, s.slewing,
            s.propellant_mass, s.dry_mass, s.body_radius, s.albedo, s.pointing_accuracy)


def check_camera(c):
    r, v = ref.state_of(c["orb"])
    t = c["t"]
    p = ref.add(r, tuple(c["d"]))
    me = Spacecraft(GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)))
    tgt = Spacecraft(GCRF(Epoch(c["t2"]), Vector3D(*p), Vector3D(*v)))
    me.pointing_accuracy = c["pa"]
    tgt.body_radius = c["radius"]
    me.body_radius = c["radius"] if c["own"] is None else c["own"]
    if c["cams"]:
        me.wfov = Camera(*c["cams"][0])
        me.nfov = Camera(*c["cams"][1])
    if c["go"]:
        me.step_to_epoch(Epoch(t + c["go"] / 86400))
    r, v, t = xyz(me.position()), xyz(me.velocity()), me.current_epoch().value
    d = ref.sub(p, r)
    R = ref.norm(d)
    if R < 0.2:
        return
    ctx = f" for {c!r}"
    cam = me.wfov if c["cam"] == "wfov" else me.nfov
    want = math.tan(cam.fov) * R / (2 * cam.pixels) / (2 * c["radius"]) * R
    random.seed(c["seed"])
    before = snap(me), snap(tgt)
    lens, dirs = [], []
    # a second target, looked at every now and then with either camera
    d2 = ref.mul(d, -0.6)
    tgt2 = Spacecraft(GCRF(Epoch(c["t2"]), Vector3D(*ref.add(r, d2)), Vector3D(*v)))
    tgt2.body_radius = 1.7 * c["radius"]
    for k in range(400):
        if k % 80 == 40:
            for cam2, look in ((me.wfov, me.observe_wfov), (me.nfov, me.observe_nfov)):
                ob = look(tgt2)
                w2 = math.tan(cam2.fov) * ref.norm(d2) / (2 * cam2.pixels) / (2 * tgt2.body_radius) * ref.norm(d2)
                close(ob.range_error, w2, 1e-9 * w2, "recorded range error of a second target" + ctx)
                close(ob.angular_error, c["pa"], 0.0, "recorded angle error of a second target" + ctx)
        ob = me.observe_wfov(tgt) if c["cam"] == "wfov" else me.observe_nfov(tgt)
        close(ob.range_error, want, 1e-9 * want, "recorded range error" + ctx)
        close(ob.angular_error, c["pa"], 0.0, "recorded angle error" + ctx)
        if k % 100 == 0:
            o = ob.observer_state
            truth((xyz(o.position), xyz(o.velocity), o.epoch.value) == (r, v, t), "recorded observer state is not the current one" + ctx)
        s = xyz(ob.observed_direction, "observed direction")
        sg = 1.0 if ref.dot(s, d) >= 0 else -1.0
        lens.append(sg * ref.norm(s))
        dirs.append(ref.mul(s, sg))
    truth((snap(me), snap(tgt)) == before, "observing changed a spacecraft" + ctx)
    normal((np.array(lens) - R) / want, "range noise", ctx)
    tilts(d, dirs, c["pa"], "pointing noise", ctx)


sa = st.one_of(gen.logreal(1e-6, 0.3), gen.logreal(1e-6, 0.3), st.just(0.0))
sl = st.one_of(gen.logreal(1e-9, 2), gen.logreal(1e-6, 0.2), st.just(0.0))
seeds = st.integers(0, 2**31)
cams = st.one_of(st.none(), st.lists(st.tuples(st.one_of(gen.logreal(64, 1e4), gen.logreal(1, 1e6)), st.one_of(gen.logreal(1e-3, 0.5), gen.logreal(1e-5, 0.5))).map(list), min_size=2, max_size=2))
SUBS = [
    Sub("many samples", st.fixed_dictionaries({"v": gen.scaled_unit(gen.logreal(1e-2, 1e6)), "ang": gen.logreal(1e-6, 0.3),
                                               "rel": gen.logreal(1e-6, 0.1), "n": st.just(60000), "seed": seeds}), check_large, quick=12),
    Sub("vector", st.fixed_dictionaries({"v": gen.scaled_unit(gen.logreal(1e-2, 1e6)), "kind": st.sampled_from(["angle", "length", "both", "both"]),
                                         "ang": sa, "rel": sl, "seed": seeds}), check_vector, quick=900,
        nontrivial=lambda c: c["ang"] or c["rel"], label=lambda c: [c["kind"]]),
    Sub("camera", st.fixed_dictionaries({
        "orb": gen.orbit(6700.0, 50000.0, 0.3), "t": gen.mjd(1950, 2050), "t2": gen.mjd(1950, 2050), "d": gen.scaled_unit(st.one_of(gen.logreal(0.5, 5000), gen.logreal(0.3, 10))),
        "pa": gen.logreal(1e-6, 1e-2), "radius": gen.logreal(1e-4, 0.1), "own": st.one_of(st.none(), gen.logreal(1e-4, 0.1)), "cams": cams, "go": st.one_of(st.just(0.0), gen.real(1, 600)),
        "cam": st.sampled_from(["wfov", "nfov"]), "seed": seeds}), check_camera, quick=300, label=lambda c: [c["cam"]]),
]
