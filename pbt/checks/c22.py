"""C22 relative navigation filter: a numpy Kalman filter as the model, stepped through the same observations"""
import math
import random

import numpy as np
from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF, HCW
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from pbt import gen, ref
from pbt.checks.c16 import separation
from pbt.core import Sub, Violation, close, fail, num, six, truth, vclose, xyz

RULE = ("one or two filters with any initial relative state (to 300 km and 0.5 km/s) and reference orbit, fed two to ten time-ordered "
        "observations in any interleaving, each from any observer orbit, of a point near the prediction (0..20 km off, or exactly on it) or "
        "anywhere within 500 km, with range errors 0..100 km and angle errors 0..1e-2 rad, intervals 0 s to two days; filters started by "
        "acquisition (of a craft at the same or another epoch, once or again) and fed by both cameras; error-free tracking runs; runs of up to 90 observations; non-trivial: every case")
ASSUMPTIONS = ["comparison tolerance grows with the condition number of the innovation covariance and with the rounding of the transition matrix; steps beyond 1e8 are not compared",
               "initial covariance 0.5 km^2 and 5e-5 km^2/s^2, process noise 1e-16 (documented)"]
DAY = 86400.0
P0 = np.diag([0.5, 0.5, 0.5, 5e-5, 5e-5, 5e-5])
Q0 = np.eye(6) * 1e-16


def cw_matrix(n, t):
    cols = []
    for k in range(6):
        e = [0.0] * 6
        e[k] = 1.0
        cols.append(ref.cw(e, n, t))
    return np.array(cols).T


class Model:
    def __init__(self, t, x, a):
        self.t, self.x, self.p, self.n = t, np.array(x, dtype=float), P0.copy(), math.sqrt(ref.MU / a) / a
        self.cond = 1.0
        self.dmax = np.sqrt(np.diag(P0))

    def predicted(self, t):
        return cw_matrix(self.n, (t - self.t) * DAY) @ self.x

    def process(self, t, r, v, d, re, ae):
        dt = (t - self.t) * DAY
        self.t = t
        z, _ = ref.curvilinear(r, v, ref.add(r, d), v)
        rng = ref.norm(d)
        ra = math.atan2(d[1], d[0])
        dec = math.atan2(d[2], math.hypot(d[0], d[1]))
        rr, aa, dd = rng + re, ra + ae, dec + ae
        off = ref.sub((rr * math.cos(dd) * math.cos(aa), rr * math.cos(dd) * math.sin(aa), rr * math.sin(dd)), d)
        h, _ = ref.curvilinear(r, v, ref.add(r, off), v)
        R = np.diag([k * k for k in h])
        self.herr = h
        F = cw_matrix(self.n, dt)
        x = F @ self.x
        p = F @ self.p @ F.T + Q0
        # transition matrix elements such as 2 (cos nt - 1) / n carry an absolute rounding error of one part in 1e16 over n
        n = self.n
        dF = 4e-16 * (1 + abs(n * dt)) * np.block([[np.full((3, 3), 6.0), np.full((3, 3), 4 / n)], [np.full((3, 3), 6 * n), np.full((3, 3), 4.0)]])
        half = dF @ np.abs(self.p) @ np.abs(F).T
        self.dx = dF @ np.abs(self.x)
        self.dP = half + half.T + dF @ np.abs(self.p) @ dF.T
        S = p[:3, :3] + R
        w = np.linalg.eigvalsh((S + S.T) / 2)
        self.cond = w[2] / w[0] if w[0] > 0 else math.inf
        K = np.linalg.solve(S.T, p[:, :3].T).T
        self.innov = np.array(z) - x[:3]
        self.x10, self.p10 = x, p
        self.x = x + K @ self.innov
        M = np.eye(6) - K @ np.eye(3, 6)
        self.p = M @ p @ M.T + K @ R @ K.T
        self.K = K
        inv = np.abs(np.linalg.inv(S)) if self.cond <= 1e8 else np.zeros((3, 3))
        self.dK = self.dP[:, :3] @ inv + np.abs(K) @ self.dP[:3, :3] @ inv
        self.dPost = np.abs(M) @ self.dP @ np.abs(M).T + self.dK @ np.abs(S) @ self.dK.T
        self.dt = dt
        self.r, self.d = r, d


def mat(m, what):
    rows = [six(getattr(m, f"row{k}"), what) for k in range(1, 7)]
    return np.array(rows)


def compare(f, m, ctx):
    """filter against model; the model then continues from the filter's own numbers"""
    close(f.epoch.value, m.t, 0.0, "epoch of the filter" + ctx)
    x = np.array(six(f.x00, "state"))
    p = mat(f.p00, "covariance")
    s = f.propagator.state
    truth(xyz(s.position) + xyz(s.velocity) == tuple(x), "the propagated relative state is not the filter state" + ctx)
    truth(six(s.vector) == tuple(x), "the propagated relative state is not the filter state" + ctx)
    if m.cond > 1e8:
        return x, p, False
    # rounding: of the prediction, and of the gain times the innovation
    g = 1 + 6 * abs(m.n * m.dt)
    scale_x = np.array([1, 1, 1, m.n, m.n, m.n]) * (np.abs(m.x10[:3]).max() + np.abs(m.x10[3:]).max() / m.n) * g
    dz = ref.norm(m.r) * 1e-13 + np.abs(m.innov).max() * 1e-14
    tol = 1e-13 * scale_x + np.abs(m.K).sum(axis=1) * (dz + (1e-13 + 4e-15 * m.cond) * np.abs(m.innov).max() * 4 + 1e-13 * scale_x[:3].max()) \
        * (1 + 1e-12 * m.cond)
    # measurement variances come from small differences of large numbers
    e = [abs(k) for k in m.herr]
    abs_err = ref.norm(m.r) * 4e-15 + ref.norm(m.d) * 2e-15
    var = sum(2 * k * abs_err + abs_err ** 2 for k in e)
    smin = np.linalg.eigvalsh(m.p10[:3, :3] + np.diag([k * k for k in e]))[0]
    rel = var / max(smin, 1e-300)
    tol = tol + np.abs(m.K).sum(axis=1) * rel * np.abs(m.innov).max() * 4
    tol = tol * 50 + 4 * (m.dK @ np.abs(m.innov) + m.dx + np.abs(m.K) @ m.dx[:3])
    for k in range(6):
        if not abs(x[k] - m.x[k]) <= tol[k]:
            fail(f"filter state component {k}: got {x[k]!r}, Kalman filter gives {m.x[k]!r} (tolerance {tol[k]:.2e})" + ctx)
    d = np.sqrt(np.abs(np.diag(m.p10)))
    lim = np.outer(d, d) * (1e-11 * g * g + 1e-14 * m.cond + 4 * rel) * 30 + 8 * m.dPost
    bad = np.abs(p - m.p) > lim + 1e-300
    if bad.any():
        i, j = np.argwhere(bad)[0]
        fail(f"covariance element {i},{j}: got {p[i, j]!r}, Kalman filter gives {m.p[i, j]!r} (tolerance {lim[i, j]:.2e})" + ctx)
    # rounding is relative to the largest covariance the history has been through
    m.dmax = np.maximum(d, m.dmax * g)
    lim = 1e-10 * g * g + 1e-13 * m.cond
    asym = np.abs(p - p.T) / np.outer(m.dmax, m.dmax)
    if asym.max() > lim:
        fail(f"covariance is not symmetric: {asym.max():.2e}" + ctx)
    low = np.linalg.eigvalsh((p + p.T) / 2 / np.outer(m.dmax, m.dmax))[0]
    if low < -lim:
        fail(f"covariance is not positive semi-definite: {low:.2e}" + ctx)
    if np.abs(m.innov).max() < 1e-15 * ref.norm(m.r):
        truth(np.all(np.abs(x - m.x10) <= tol), "a measurement without innovation changed the prediction" + ctx)
    return x, p, True


def observer(o):
    return tuple(map(tuple, ref.state_of(o)))


def check(c):
    t = c["t"]
    fs = []
    for a, x in c["filters"]:
        ep = Epoch(t)
        hill = Hill(HCW(Epoch(t), Vector3D(*x[:3]), Vector3D(*x[3:])), a)
        f = RelativeKalman(ep, hill)
        ep.value += 3.0
        fs.append((f, Model(t, x, a)))
        truth(six(f.x00) == tuple(x), "a new filter does not start at its state")
    for k, (which, dt, orb, kind, d, re, ae) in enumerate(c["obs"]):
        f, m = fs[which % len(fs)]
        t = t + dt / DAY
        ctx = f" after observation {k} of {c!r}"
        r, v = observer(orb)
        pred = m.predicted(t)
        if kind == "free":
            look = tuple(d)
        else:
            off = tuple(d) if kind == "near" else (0.0, 0.0, 0.0)
            rel = tuple(pred[j] + off[j] * 0.04 for j in range(3))
            rm = ref.norm(r)
            if abs(rel[1]) > 3 * rm or abs(rel[2]) > 1.4 * rm or rel[0] < -0.5 * rm:
                look = tuple(d)
            else:
                p, _ = ref.curvilinear_inverse(rel, (0, 0, 0), r, v)
                look = ref.sub(p, r)
        if ref.norm(look) < 1e-3 or ref.norm(look) > 3 * ref.norm(r):
            look = (3.0, -4.0, 5.0)
        fr = ref.mv(ref.ric_axes(r, v), ref.add(r, look))
        if math.hypot(fr[0], fr[1]) < 0.1 * ref.norm(r):
            look = (3.0, -4.0, 5.0)
        ob = SpaceObservation(GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)), Vector3D(*look), re, ae)
        others = [(six(g.x00), mat(g.p00, "p"), g.epoch.value) for g, _ in fs if g is not f]
        f.process(ob)
        m.process(t, r, v, look, re, ae)
        x, p, ok = compare(f, m, ctx)
        if not ok:
            return
        m.x, m.p = x, p
        truth(xyz(ob.observed_direction) == look and xyz(ob.observer_state.position) == r and ob.epoch().value == t
              and (ob.range_error, ob.angular_error) == (re, ae), "processing changed the observation" + ctx)
        # the caller may reuse what it handed in
        ob.observer_state.epoch.value += 50.0
        ob.observer_state.position.x += 1.0
        ob.observed_direction.y -= 7.0
        truth(f.epoch.value == t and six(f.x00) == tuple(x), "changing an observation already processed changed the filter" + ctx)
        now = [(six(g.x00), mat(g.p00, "p"), g.epoch.value) for g, _ in fs if g is not f]
        for (a0, b0, e0), (a1, b1, e1) in zip(others, now):
            truth(a0 == a1 and (b0 == b1).all() and e0 == e1, "processing an observation changed another filter" + ctx)
    # a filter created now is a fresh one
    f = RelativeKalman(Epoch(t), Hill(HCW(Epoch(t), Vector3D(1, 2, 3), Vector3D(0, 0, 0)), 42164.0))
    truth((mat(f.p00, "p") == P0).all() and six(f.x00) == (1, 2, 3, 0, 0, 0), "a new filter does not start with the default covariance")


def check_long(c):
    """many observations, the same few again and again"""
    check({"t": c["t"], "filters": c["filters"], "obs": [c["base"][k % len(c["base"])] for k in range(c["count"])]})


def acquired(me, seed, ctx):
    """start tracking; the relative state is that of the seed at the spacecraft's epoch"""
    r, v, t = xyz(me.position()), xyz(me.velocity()), me.current_epoch().value
    me.acquire(seed)
    truth(xyz(me.position()) == r and xyz(me.velocity()) == v and me.current_epoch().value == t, "acquisition moved the spacecraft" + ctx)
    p, q = xyz(seed.position()), xyz(seed.velocity())
    close(seed.current_epoch().value, t, 2e-8, "epoch of the acquired spacecraft" + ctx)
    x = six(me.filter.x00, "filter state")
    wx, wv = ref.curvilinear(r, v, p, q)
    k = ref.norm(r) / ref.norm(p)
    f = ref.mv(ref.ric_axes(r, v), p)
    cp = math.hypot(f[0], f[1]) / ref.norm(p)
    if ref.dist(x[:3], wx) > 2e-12 * ref.norm(r) or ref.dist(x[3:], wv) > 2e-12 * (ref.norm(v) + ref.norm(q) * k) / cp ** 2:
        fail(f"filter state {x!r} at acquisition is not the relative state {(wx, wv)!r}" + ctx)
    close(me.filter.epoch.value, t, 0.0, "filter epoch at acquisition" + ctx)
    al = 2 / ref.norm(r) - ref.dot(v, v) / ref.MU
    close(me.filter.propagator.sma, 1 / al, 1e-11 / al, "semi-major axis of the filter" + ctx)
    truth((mat(me.filter.p00, "p") == P0).all(), "the filter does not start with the default covariance" + ctx)
    return Model(t, x, 1 / al)


def check_craft(c):
    """a filter started by acquisition and fed by the cameras"""
    t = c["t"]
    r, v = observer(c["orb"])
    p, q = ref.curvilinear_inverse(tuple(c["x"][:3]), tuple(c["x"][3:]), r, v)
    me = Spacecraft(GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)))
    tgt = Spacecraft(GCRF(Epoch(t), Vector3D(*p), Vector3D(*q)))
    seed = Spacecraft(GCRF(Epoch(t + c["skew"] / DAY), Vector3D(*ref.add(p, tuple(c["seed_off"]))), Vector3D(*q)))
    if min(separation(me, s) for s in (tgt, seed)) < 0.5:
        return
    me.pointing_accuracy = c["pa"]
    tgt.body_radius = c["radius"]
    ctx = f" of {c!r}"
    m = acquired(me, seed, ctx)
    for k, (dt, cam, s) in enumerate(c["obs"]):
        me.step_to_epoch(Epoch(me.current_epoch().value + dt / DAY))
        if cam == "again":
            who = seed if s % 2 else tgt
            if separation(me, who) < 0.5:
                return
            m = acquired(me, who, f" again after observation {k}" + ctx)
            continue
        tgt.step_to_epoch(me.current_epoch())
        random.seed(s)
        ob = me.observe_wfov(tgt) if cam == "wfov" else me.observe_nfov(tgt)
        random.seed(s)
        (me.process_wfov if cam == "wfov" else me.process_nfov)(tgt)
        g = ob.observer_state
        m.process(g.epoch.value, xyz(g.position), xyz(g.velocity), xyz(ob.observed_direction), ob.range_error, ob.angular_error)
        x, pp, ok = compare(me.filter, m, f" after observation {k}" + ctx)
        if not ok:
            return
        m.x, m.p = x, pp


def check_converge(c):
    a, x0 = c["a"], tuple(c["x"])
    n = math.sqrt(ref.MU / a) / a
    t0 = c["t"]
    guess = tuple(x0[k] + c["err"][k] for k in range(6))
    f = RelativeKalman(Epoch(t0), Hill(HCW(Epoch(t0), Vector3D(*guess[:3]), Vector3D(*guess[3:])), a))
    t = t0
    tt = 0.0
    for k in range(c["count"]):
        t = t0 + (k + 1) * c["dt"] / DAY
        tt = (t - t0) * DAY
        r, v = ref.state_of([a, 0.0] + c["ang"] + [n * tt])
        x = ref.cw(x0, n, tt)
        p, _ = ref.curvilinear_inverse(x[:3], (0, 0, 0), r, v)
        d = ref.sub(p, r)
        if ref.norm(d) < 0.1:
            return
        f.process(SpaceObservation(GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)), Vector3D(*d), c["re"], c["ae"]))
    got = six(f.x00, "state")
    x = ref.cw(x0, n, tt)
    vclose(got[:3], x[:3], 0.05, f"estimated position after {c['count']} error-free observations of {c!r}")
    vclose(got[3:], x[3:], 2e-3, f"estimated velocity after {c['count']} error-free observations of {c!r}")


PI = math.pi
orb = gen.orbit(6600.0, 60000.0, 0.3)
comp = st.one_of(gen.real(-300, 300), gen.signed(gen.logreal(1e-3, 50)), st.just(0.0))
rate = st.one_of(gen.real(-0.5, 0.5), gen.signed(gen.logreal(1e-6, 0.01)), st.just(0.0))
x6 = st.tuples(comp, comp, comp, rate, rate, rate).map(list)
err_r = st.one_of(gen.logreal(1e-4, 10), gen.logreal(1e-4, 10), gen.logreal(1e-10, 100), st.just(0.0))
err_a = st.one_of(gen.logreal(1e-7, 1e-2), gen.logreal(1e-7, 1e-2), gen.logreal(1e-10, 1e-2), st.just(0.0))
dts = st.one_of(gen.real(0, 6000), gen.logreal(100, 2e5), gen.real(1, 600), st.just(0.0), gen.logreal(0.01, 100))
ob = st.tuples(st.integers(0, 1), dts, orb, st.sampled_from(["near", "near", "on", "free"]), gen.scaled_unit(gen.logreal(0.1, 500)),
               err_r, err_a).map(list)
steady = st.tuples(st.integers(0, 1), st.one_of(gen.real(1, 900), gen.real(0.1, 10)), orb, st.sampled_from(["near", "on"]),
                   gen.scaled_unit(gen.logreal(0.1, 50)), gen.logreal(1e-3, 10), gen.logreal(1e-6, 1e-2)).map(list)
small = st.tuples(*([gen.real(-80, 80)] * 3 + [gen.real(-0.02, 0.02)] * 3)).map(list)
SUBS = [
    Sub("filter", st.fixed_dictionaries({"t": gen.mjd(1950, 2050), "filters": st.lists(st.tuples(gen.logreal(6600, 1e5), x6).map(list),
                                                                                     min_size=1, max_size=2),
                                         "obs": st.lists(ob, min_size=2, max_size=10)}), check, quick=3500,
        label=lambda c: [f"{len(c['filters'])} filters"]),
    Sub("long", st.fixed_dictionaries({"t": gen.mjd(1950, 2050), "filters": st.lists(st.tuples(gen.logreal(6600, 1e5), x6).map(list),
                                                                                   min_size=1, max_size=2),
                                       "base": st.lists(steady, min_size=1, max_size=5), "count": st.integers(20, 90)}), check_long, quick=200),
    Sub("acquired", st.fixed_dictionaries({
        "t": gen.mjd(1950, 2050), "orb": gen.orbit(6900.0, 50000.0, 0.05), "x": small, "seed_off": gen.scaled_unit(gen.logreal(0.01, 5)),
        "pa": gen.logreal(1e-7, 1e-3), "radius": gen.logreal(1e-3, 1),
        "obs": st.lists(st.tuples(st.one_of(gen.real(0.5, 600), gen.real(0.5, 600), st.just(0.0)), st.sampled_from(["wfov", "nfov", "wfov", "nfov", "again"]), st.integers(0, 10**6)).map(list),
                        min_size=1, max_size=4),
        "skew": st.one_of(st.just(0.0), gen.signed(gen.logreal(0.1, 2000)))}),
        check_craft, quick=800),
    Sub("convergence", st.fixed_dictionaries({
        "a": gen.logreal(6800, 5e4), "t": gen.mjd(1950, 2050), "x": small, "count": st.integers(15, 30), "dt": gen.real(60, 300),
        "err": st.tuples(*([gen.real(-0.7, 0.7)] * 3 + [gen.real(-7e-3, 7e-3)] * 3)).map(list), "re": gen.logreal(1e-4, 1e-2), "ae": gen.logreal(1e-7, 1e-5),
        "ang": st.tuples(gen.real(0, PI), gen.real(0, 2 * PI), gen.real(0, 2 * PI)).map(list)}), check_converge, quick=400),
]
