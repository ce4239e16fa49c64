"""C24 attitude: histories of operations over several spacecraft against a model of mode, target and slew"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.checks.c16 import separation
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("two or three spacecraft (any bound orbits, or flying 0.5..300 km apart, epochs equal or up to a day apart, the last two sometimes starting from "
        "the same state) under four to fourteen operations: steps (of any size and sign), propagation forward and backward, impulsive and "
        "finite burns, all three pointing commands, acquisition, attitude "
        "updates, changes of the slew rate; tracking may be chained, mutual or cyclic; non-trivial: at least one pointing command and one "
        "operation that moves time")
ASSUMPTIONS = ["spacecraft that track each other stay at least 50 m apart", "at an update within 1e-9 days of the end of a slew the flag may be either"]
DAY = 86400.0
MODES = ("lvlh", "solar", "target")
SYNC = 2e-8
RATE0 = 1 / (math.radians(0.5) * DAY)


class Craft:
    def __init__(self, s):
        self.s = s
        self.mode = 0
        self.target = None
        self.slewing = False
        self.stop = None
        self.rate = RATE0


def snap(s):
    g = s.current_state()
    return xyz(g.position, "position"), xyz(g.velocity, "velocity"), num(g.epoch.value, "epoch")


def triad(s, r, v, t, m, ctx):
    z = xyz(s.body_z, "body z")
    x, y = xyz(s.body_x, "body x"), xyz(s.body_y, "body y")
    sun = ref.sub(ref.sun(t), r)
    if m.mode == 0:
        want, what, tol = ref.mul(r, -1), "Earth", 1e-12
    elif m.mode == 1:
        want, what, tol = ref.mul(sun, -1), "direction away from the Sun", 2e-9
    else:
        tr, _, tt = snap(m.target.s)
        want, what = ref.sub(tr, r), "target"
        d = ref.norm(want)
        if d < 0.05:
            return
        if abs(tt - t) > SYNC:
            fail(f"tracked target is at epoch {tt!r}, the spacecraft at {t!r}" + ctx)
        tol = 1e-11 + 2e-4 / d
    a = ref.angle(z, want)
    if not a <= tol:
        fail(f"boresight is {a:.3e} rad away from the {what}" + ctx)
    if m.mode == 2 and abs(math.sin(ref.angle(want, sun))) < 1e-5:
        return
    truth(min(map(ref.norm, (x, y, z))) > 0, "a body axis is zero" + ctx)
    x, y, z = ref.unit(x), ref.unit(y), ref.unit(z)
    worst = max(abs(ref.dot(x, y)), abs(ref.dot(y, z)), abs(ref.dot(z, x)))
    if worst > 1e-9:
        fail(f"body axes are not orthogonal: {worst:.2e}" + ctx)
    vclose(ref.cross(x, y), z, 1e-9, "third body axis against the right-hand rule" + ctx)
    if m.mode == 0:
        vclose(y, ref.unit(ref.cross(r, v)), 1e-10, "second body axis in Earth pointing" + ctx)


def inspect(m, ctx):
    s = m.s
    r, v, t = snap(s)
    truth(s.steering == MODES[m.mode], f"steering mode is {s.steering!r}, commanded {MODES[m.mode]!r}" + ctx)
    if m.mode == 2:
        truth(s.tracked_target is m.target.s, "tracked target is not the commanded one" + ctx)
    triad(s, r, v, t, m, ctx)
    if m.slewing:
        if t > m.stop + 1e-9:
            m.slewing = False
        elif t > m.stop - 1e-9:
            m.slewing = bool(s.slewing)
    truth(bool(s.slewing) == m.slewing, f"slewing flag is {s.slewing!r} at {t!r}, the slew ends at {m.stop!r}" + ctx)
    if m.slewing:
        close(s.slew_stop.value, m.stop, 1e-12, "end of the slew" + ctx)


def begin(m, d, t, ctx, slop=0.0):
    """the slew a new command starts; d is the direction to turn to, known to slop radians"""
    old = xyz(m.old_z)
    got = num(m.s.slew_stop.value, "end of the slew")
    k = m.rate
    end = t + ref.angle(old, d) * k
    if abs(got - end) > 1e-10 + abs(snap(m.s)[2] - t) + (4e-8 + slop) * k:
        fail(f"the slew ends at {got!r}, {(got - t) * DAY!r} s after the command; turning takes {(end - t) * DAY!r} s" + ctx)
    m.slewing, m.stop = True, got


def build(c):
    out = []
    base = None
    for k, (orb, off, dt) in enumerate(c["craft"]):
        r, v = ref.state_of(orb)
        if k and off is not None:
            r, v = ref.add(base[0], tuple(off)), base[1]
        if base is None:
            base = r, v
        if c["twin"] and k == 2:
            (r, v), dt = twin
        twin = (r, v), dt
        g = GCRF(Epoch(c["t"] + dt), Vector3D(*r), Vector3D(*v))
        g.use_perturbations = c["pert"]
        out.append(Craft(Spacecraft(g)))
    return out


def far(fleet):
    """no spacecraft is too close to the one it tracks"""
    return all(ref.dist(snap(m.s)[0], snap(m.target.s)[0]) > 0.05 for m in fleet if m.mode == 2)


def sane(r, v):
    return 6450 < ref.norm(r) < 2e5 and ref.norm(ref.cross(r, v)) > 0.1 * ref.norm(r) * ref.norm(v) and \
        ref.dot(v, v) / 2 - ref.MU / ref.norm(r) < -0.5


def check(c):
    fleet = build(c)
    for k, m in enumerate(fleet):
        inspect(m, f" of new spacecraft {k} in {c!r}")
    for k, (who, op, x) in enumerate(c["ops"]):
        m = fleet[who % len(fleet)]
        s = m.s
        ctx = f" after operation {k} ({op} {x!r} on spacecraft {who % len(fleet)}) of {c!r}"
        before = [snap(f.s) for f in fleet]
        r0, v0, t0 = snap(s)
        m.old_z = s.body_z.copy()
        if not sane(r0, v0):
            return
        if op == "step":
            s.step()
        elif op == "go":
            s.step_to_epoch(Epoch(t0 + x / DAY))
        elif op == "goslew":
            if not m.slewing or abs(m.stop - t0) > 0.3:
                continue
            s.step_to_epoch(Epoch(m.stop + x / DAY))
        elif op == "update":
            s.update_attitude()
        elif op == "impulse":
            s.impulsive_maneuver(Vector3D(*x))
        elif op == "finite":
            s.finite_maneuver(Vector3D(*x))
        elif op == "size":
            s.propagator.step_size = x
            continue
        elif op == "rate":
            s.slew_scalar = m.rate = x
            continue
        elif op == "lvlh":
            new = m.mode != 0
            m.mode, m.target = 0, None
            s.track_lvlh()
            if new:
                begin(m, ref.mul(r0, -1), t0, ctx)
        elif op == "sun":
            new = m.mode != 1
            m.mode, m.target = 1, None
            s.track_sun()
            if new:
                begin(m, ref.sub(r0, ref.sun(t0)), t0, ctx)
        else:
            g = fleet[(who + 1 + int(x) % (len(fleet) - 1)) % len(fleet)]
            if separation(s, g.s) < 0.05:
                continue
            new = m.mode != 2 or m.target is not g
            m.mode, m.target = 2, g
            p0 = snap(g.s)[0]
            if op == "acquire":
                s.acquire(g.s)
            else:
                s.track_state(g.s)
            if new:
                p1 = snap(g.s)[0]
                if ref.dist(p1, r0) < 0.05:  # no direction to turn to
                    return
                # spacecraft brought to one epoch may still move by the rounding of epochs
                begin(m, ref.sub(p1, r0), t0, ctx, 0.0 if (p1, snap(s)[0]) == (p0, r0) else 2e-4 / ref.dist(p1, r0))
        if op in CMDS + ("update",):
            r1, _, t1 = snap(s)
            still = (0.0, 0.0) if m.mode != 2 else (SYNC, SYNC * DAY * 2 * ref.norm(v0) + 1e-9 * ref.norm(r0))
            truth(abs(t1 - t0) <= still[0] and ref.dist(r1, r0) <= still[1], "a pointing command moved the spacecraft" + ctx)
        for f, b in zip(fleet, before):
            if f is m or snap(f.s) != b:
                inspect(f, ctx)
            else:
                if f.slewing and abs(b[2] - f.stop) < 1e-9:
                    f.slewing = bool(f.s.slewing)
                truth(bool(f.s.slewing) == f.slewing, "slewing flag of another spacecraft changed" + ctx)
                truth(f.s.steering == MODES[f.mode], "steering mode of another spacecraft changed" + ctx)
        if not far(fleet):
            return


orb = gen.orbit(6600.0, 60000.0, 0.5)
rel = st.one_of(st.none(), gen.scaled_unit(gen.logreal(0.5, 300)))
skew = st.one_of(st.just(0.0), st.just(0.0), gen.real(-0.02, 0.02), gen.signed(gen.logreal(1e-6, 0.3)))
craft = st.tuples(orb, rel, skew).map(list)
who = st.integers(0, 2)
secs = st.one_of(gen.real(-400, 900), gen.real(0, 400), gen.logreal(0.01, 3000), st.sampled_from([0.0, 300.0, 60.0]))
ric = gen.scaled_unit(gen.logreal(1e-6, 0.3))
ops = gen.pick(
    (2, st.tuples(who, st.just("step"), st.just(0))), (4, st.tuples(who, st.just("go"), secs)),
    (3, st.tuples(who, st.just("goslew"), st.one_of(gen.signed(gen.logreal(0.001, 100)), st.just(0.0)))),
    (1, st.tuples(who, st.just("update"), st.just(0))), (1, st.tuples(who, st.just("impulse"), ric)),
    (1, st.tuples(who, st.just("finite"), gen.scaled_unit(gen.logreal(1e-6, 0.02)))),
    (1, st.tuples(who, st.just("rate"), gen.logreal(1e-4, 0.1))),
    (1, st.tuples(who, st.just("size"), gen.signed(gen.logreal(1, 900)))),
    (2, st.tuples(who, st.just("lvlh"), st.just(0))), (2, st.tuples(who, st.just("sun"), st.just(0))),
    (4, st.tuples(who, st.just("track"), st.integers(0, 1))), (1, st.tuples(who, st.just("acquire"), st.integers(0, 1))),
).map(list)
CMDS = ("lvlh", "sun", "track", "acquire")
MOVES = ("step", "go", "goslew", "finite")


def labels(c):
    out = [f"{len(c['craft'])} craft"]
    if sum(o[1] in CMDS for o in c["ops"]) > 1:
        out.append("several commands")
    return out


SUBS = [
    Sub("history", st.fixed_dictionaries({"t": gen.mjd(1950, 2050), "pert": st.booleans(), "twin": st.booleans(),
                                          "craft": st.lists(craft, min_size=2, max_size=3),
                                          "ops": st.lists(ops, min_size=4, max_size=14)}), check, quick=9000,
        nontrivial=lambda c: any(o[1] in CMDS for o in c["ops"]) and any(o[1] in MOVES for o in c["ops"]), label=labels),
]
