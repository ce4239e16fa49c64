"""C16 inertial propagation: an independent Runge-Kutta integrator over the code's own derivative and over independent forces"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.propagators.inertial import RK4
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import KnownFinding, Sub, Violation, close, fail, num, truth, vclose, xyz

RULE = ("any bound orbit with perigee above 150 km (eccentricity to 0.8) at any epoch 1950..2050, perturbed or not, through the propagator "
        "or a spacecraft, under sequences of one to five steps (any step size in force, forward or backward; perturbations switched in between) and propagations to epochs "
        "before, after or equal to the current one; any other state (escaping, falling, at rest); propagations of up to three days (two months when unperturbed); non-trivial: at least one operation that moves time")
ASSUMPTIONS = ["reference: classical RK4 over ceil(|dt| / 300 s) equal steps (one more is accepted when dt is a multiple of 300 s to "
               "rounding), once over the code's own state derivative (tight) and once over independently coded forces"]
DAY = 86400.0
KEY = "C16-srp-dropped"


def code_acc(pert, scalar):
    def acc(r, mjd, dt):
        g = GCRF(Epoch(mjd), Vector3D(*r), Vector3D(0, 0, 0))
        g.use_perturbations = pert
        g.srp_scalar = scalar
        return xyz(g.derivative()[1], "acceleration")
    return acc


def run_ref(r, v, mjd, dt, n, acc):
    for _ in range(n):
        r, v, mjd = ref.rk4_step(r, v, mjd, dt / n, acc)
    return r, v, mjd


def separation(me, other):
    """least distance of two spacecraft now and once the other is brought to the first one's epoch"""
    p = RK4(other.current_state())
    p.step_to_epoch(me.current_epoch())
    at = xyz(me.position())
    return min(ref.dist(at, xyz(other.position())), ref.dist(at, xyz(p.state.position)))


def agree(got, want, n, T, r0, v0):
    """difference of two states in units of the rounding tolerance of n steps over T seconds"""
    rp = min(ref.norm(got[0]), ref.norm(want[0]), ref.norm(r0))
    w = math.sqrt(ref.MU / rp ** 3) * 1.5
    amp = (1 + w * abs(T)) ** 1.5 * (1 + n)
    tr = 4e-14 * (ref.norm(r0) + ref.norm(got[0])) * amp + 2e-12
    sp = max(ref.norm(v0), 0.1 * w * ref.norm(r0))
    tv = 4e-14 * (sp + ref.norm(got[1])) * amp * (1 + w * ref.norm(r0) / sp)
    return max(ref.dist(got[0], want[0]) / tr, ref.dist(got[1], want[1]) / tv)


def expect(r0, v0, t0, dt, counts, pert, scalar, got, ctx):
    """the state after integrating dt seconds; returns the known finding it shows, if any"""
    best = None
    for n in counts:
        d = agree(got, run_ref(r0, v0, t0, dt, n, code_acc(pert, scalar)), n, dt, r0, v0)
        best = d if best is None or d < best else best
    found = None
    if best > 1 and scalar and pert:
        alt = min(agree(got, run_ref(r0, v0, t0, dt, n, code_acc(pert, 0.0)), n, dt, r0, v0) for n in counts)
        if alt <= 1:
            found, scalar, best = True, 0.0, alt
    if best > 1:
        w = run_ref(r0, v0, t0, dt, counts[0], code_acc(pert, scalar))
        fail(f"state after {dt!r} s from {r0!r} {v0!r} at {t0!r} (perturbations {pert}): got {got[0]!r} {got[1]!r}, Runge-Kutta over the "
             f"state derivative gives {w[0]!r} {w[1]!r} ({best:.2g} tolerances away)" + ctx)
    # independent forces: the frame and series agree to a few 1e-11 of gravity
    n = counts[0]
    w = run_ref(r0, v0, t0, dt, n, ref.coast(pert, scalar))
    rp = min(ref.norm(got[0]), ref.norm(r0))
    om = 1.5 * math.sqrt(ref.MU / rp ** 3)
    amp = (1 + om * abs(dt)) ** 1.5
    ga = ref.MU / rp ** 2 * 1e-9
    if len(counts) == 1:
        vclose(got[0], w[0], ga * dt * dt * amp + 1e-12 * ref.norm(r0) * (1 + n) * amp, "position by independent forces" + ctx)
        vclose(got[1], w[1], ga * abs(dt) * amp + 1e-12 * ref.norm(v0) * (1 + n) * amp, "velocity by independent forces" + ctx)
    if not pert and n:
        h = dt / n
        k = om * abs(h)
        if k < 0.35:
            kr, kv = ref.kepler_propagate(r0, v0, dt)
            tol = k ** 4 * (om * abs(dt)) * (1 + om * abs(dt)) + 1e-11
            vclose(got[0], kr, tol * ref.norm(r0) * 2, "position on the Keplerian orbit" + ctx)
            vclose(got[1], kv, tol * max(ref.norm(v0), om * rp) * 2, "velocity on the Keplerian orbit" + ctx)
    return found


def state(p):
    s = p.state
    return xyz(s.position, "position"), xyz(s.velocity, "velocity"), num(s.epoch.value, "epoch")


def counts_for(dt):
    q = abs(dt / 300.0)
    n = math.ceil(q)
    out = [n]
    k = round(q)
    if k > 0 and abs(q - k) < 1e-6:
        out = [k, k + 1]
    return out


def check(c):
    r, v = ref.state_of(c["orb"])
    r, v = tuple(r), tuple(v)
    t = c["t"]
    src = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    src.use_perturbations = c["pert"]
    scalar = 0.0
    if c["craft"]:
        craft = Spacecraft(src)
        prop = craft.propagator
        scalar = num(craft.srp_scalar(), "srp scalar")
        close(scalar, 1.3 * math.pi * 25 / 800, 1e-12, "area-to-mass scalar of a spacecraft")
        step, goto = craft.step, craft.step_to_epoch
    else:
        src.srp_scalar = scalar = c["srp"]
        prop = RK4(src)
        step, goto = prop.step, prop.step_to_epoch
    # changing the source afterwards changes nothing
    src.use_perturbations = not c["pert"]
    if c["spoil"]:
        src.srp_scalar += 50.0
        src.position.x += 777.0
        src.velocity.y -= 3.0
        src.epoch.value += 0.25
    known = False
    r0, v0, t0 = state(prop)
    truth((r0, v0, t0) == (r, v, t), f"a new propagator does not start at its state: {(r0, v0, t0)!r}")
    pert = c["pert"]
    size = num(prop.step_size, "step size")
    close(size, 300.0, 0.0, "default step size")
    for k, (op, x) in enumerate(c["ops"]):
        r0, v0, t0 = state(prop)
        ctx = f" in operation {k} ({op} {x!r}) of {c!r}"
        if ref.norm(r0) < 6450 or ref.norm(r0) > 4e5 or abs(ref.dist(r0, ref.moon(t0))) < 1e4:
            break
        if op == "size":
            prop.step_size = x
            size = x
            continue
        if op == "forces":  # switched on the state being propagated
            pert = bool(x)
            prop.state.use_perturbations = pert
            continue
        if op == "step":
            step()
            dt, counts, want_t, slack = size, [1], t0 + size / DAY, 3
        else:
            target = Epoch(t0 + x / DAY)
            tv = target.value
            goto(target)
            truth(target.value == tv, "step_to_epoch changed its argument" + ctx)
            dt = (tv - t0) * DAY
            counts, want_t = counts_for(dt), tv
            slack = 3 * max(counts) + 1
        r1, v1, t1 = state(prop)
        close(t1, want_t, 7.3e-12 * slack, "epoch reached" + ctx)
        close(prop.step_size, size, 0.0, "step size in force" + ctx)
        truth(bool(prop.state.use_perturbations) == pert, "the perturbation setting changed" + ctx)
        if dt == 0:
            truth((r1, v1) == (r0, v0), "the state changed without time passing" + ctx)
            continue
        if c["craft"]:
            truth(xyz(craft.position()) == r1 and xyz(craft.velocity()) == v1 and craft.current_epoch().value == t1,
                  "spacecraft and propagator disagree" + ctx)
        if expect(r0, v0, t0, dt, counts, pert, scalar, (r1, v1), ctx):
            known = True
    if c["spoil"]:
        r, v, t = (r[0] + 777.0, r[1], r[2]), (v[0], v[1] - 3.0, v[2]), t + 0.25
    truth(xyz(src.position) == r and xyz(src.velocity) == v and src.epoch.value == t
          and src.srp_scalar == (c["srp"] if not c["craft"] else 0) + 50.0 * c["spoil"], "propagation modified the state it was given")
    if known:
        raise KnownFinding(KEY, "the radiation-pressure scalar of the given state is not used when it is propagated")


def check_any(c):
    """states that are not on a bound orbit around perigee: escape, falling, rising, at rest; and long propagation"""
    if "orb" in c:
        r, v = map(tuple, ref.state_of(c["orb"]))
    else:
        r, v = tuple(c["r"]), tuple(c["v"])
    src = GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v))
    src.use_perturbations = c["pert"]
    p = RK4(src)
    t = c["t"]
    for k, x in enumerate(c["to"]):
        r0, v0, t0 = state(p)
        ctx = f" in leg {k} of {c!r}"
        target = t0 + x / DAY
        if ref.dist(r0, ref.moon(t0)) < 3e4 or ref.norm(r0) < 6450:
            return
        if "orb" not in c:
            # the whole leg has to stay above the Earth
            q, u, m = r0, v0, t0
            for _ in range(50):
                q, u, m = ref.rk4_step(q, u, m, x / 50, ref.coast(False))
                if ref.norm(q) < 6500:
                    return
        p.step_to_epoch(Epoch(target))
        r1, v1, t1 = state(p)
        dt = (target - t0) * DAY
        counts = counts_for(dt)
        close(t1, target, 7.3e-12 * (3 * max(counts) + 1), "epoch reached" + ctx)
        close(p.step_size, 300.0, 0.0, "step size in force" + ctx)
        truth(bool(p.state.use_perturbations) == c["pert"], "the perturbation setting changed" + ctx)
        if ref.norm(r1) < 6450 or dt == 0 or ref.dist(r1, ref.moon(t1)) < 3e4:
            return
        if "orb" in c:
            # the method loses energy on low orbits: not below the altitude the property speaks of
            q, u, m = r0, v0, t0
            for _ in range(counts[0]):
                q, u, m = ref.rk4_step(q, u, m, dt / counts[0], ref.coast(False))
                if ref.norm(q) < 6500:
                    return
        best = min(agree((r1, v1), run_ref(r0, v0, t0, dt, n, code_acc(c["pert"], 0.0)), n, dt, r0, v0) for n in counts)
        if best > 1:
            w = run_ref(r0, v0, t0, dt, counts[0], code_acc(c["pert"], 0.0))
            fail(f"state after {dt!r} s: got {r1!r} {v1!r}, Runge-Kutta over the state derivative gives {w[0]!r} {w[1]!r} "
                 f"({best:.2g} tolerances away)" + ctx)


def check_legs(c):
    """forward and back, or in two legs: within the accuracy of the method on an unperturbed orbit"""
    r, v = ref.state_of(c["orb"])
    src = GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v))
    src.use_perturbations = c["pert"]
    p = RK4(src)
    for x in c["legs"]:
        p.step_to_epoch(Epoch(c["t"] + x / DAY))
    p.step_to_epoch(Epoch(c["t"]))
    got = state(p)
    # the same legs by the reference
    a, b, m = r, v, c["t"]
    for x in list(c["legs"]) + [0.0]:
        dt = (c["t"] + x / DAY - m) * DAY
        a, b, m = run_ref(a, b, m, dt, math.ceil(abs(dt / 300.0)), ref.coast(c["pert"]))
    rp = c["orb"][0] * (1 - c["orb"][1])
    om = 1.5 * math.sqrt(ref.MU / rp ** 3)
    T = sum(abs(x) for x in c["legs"]) * 2
    own = ref.dist(a, r)
    tol = 4 * own + ref.norm(r) * (om * 300) ** 4 * 1e-2 * (om * T) * (1 + om * T) + 1e-9 * ref.norm(r)
    vclose(got[0], r, tol, f"position after returning to the start of {c!r}")
    close(got[2], c["t"], 1e-9, "epoch after returning")


orb = gen.orbit(6528.0, 60000.0, 0.8)
sizes = st.one_of(gen.real(1, 600, [300.0, 60.0, 0.5]), gen.real(-600, -1, [-300.0]), gen.logreal(0.01, 300))
jumps = st.one_of(gen.real(-2400, 2400), gen.real(0, 4000), gen.real(-300, 300), gen.signed(gen.logreal(1e-3, 3000)),
                  gen.ints(-8, 8).map(lambda k: k * 300.0), gen.near([300.0, 600.0, -300.0, 900.0], -3000, 3000, 1e-5, 1.0), st.just(0.0))
op = st.one_of(st.tuples(st.just("to"), jumps), st.tuples(st.just("to"), jumps), st.tuples(st.just("step"), st.just(0.0)),
               st.tuples(st.just("size"), sizes), st.tuples(st.just("forces"), st.sampled_from([0, 1]))).map(list)
far = st.one_of(gen.logreal(300, 2e4), gen.real(-40000, 40000), gen.signed(gen.logreal(3e4, 3e5)))
SUBS = [
    Sub("any state", st.fixed_dictionaries({"r": gen.scaled_unit(gen.logreal(6528, 3e5)), "v": st.one_of(
        gen.scaled_unit(gen.real(0, 16)), st.just([0.0, 0.0, 0.0])), "t": gen.mjd(1950, 2050), "pert": st.booleans(),
        "to": st.lists(st.one_of(gen.real(-3000, 3000), gen.real(-300, 300)), min_size=1, max_size=2)}), check_any, quick=1500,
        label=lambda c: ["escape" if ref.dot(c["v"], c["v"]) / 2 > ref.MU / ref.norm(c["r"]) else "bound"]),
    Sub("long", st.fixed_dictionaries({"orb": gen.orbit(6700.0, 60000.0, 0.3), "t": gen.mjd(1950, 2050), "pert": st.booleans(),
                                       "to": st.lists(far, min_size=1, max_size=2)}), check_any, quick=160,
        label=lambda c: ["more than a day" if max(map(abs, c["to"])) > DAY else "less than a day"]),
    Sub("very long", st.fixed_dictionaries({"orb": gen.orbit(12000.0, 60000.0, 0.2), "t": gen.mjd(1950, 2050), "pert": st.just(False),
                                            "to": st.tuples(gen.signed(gen.logreal(3e5, 5e6))).map(list)}), check_any, quick=16, thorough=160),
    Sub("history", st.fixed_dictionaries({
        "orb": orb, "t": gen.mjd(1950, 2050), "pert": st.sampled_from([True, True, False]), "craft": st.sampled_from([False, True]), "spoil": st.booleans(),
        "srp": st.one_of(st.just(0.0), st.just(0.0), gen.logreal(1e-2, 10)), "ops": st.lists(op, min_size=1, max_size=5)}), check, quick=4500,
        nontrivial=lambda c: any(o == "step" or (o == "to" and x) for o, x in c["ops"]),
        label=lambda c: ["perturbed" if c["pert"] else "two-body", "spacecraft" if c["craft"] else "propagator"]
        + (["backward"] if any(o == "to" and x < 0 for o, x in c["ops"]) else [])),
    Sub("return", st.fixed_dictionaries({"orb": gen.orbit(6628.0, 50000.0, 0.3), "t": gen.mjd(1950, 2050), "pert": st.booleans(),
                                         "legs": st.lists(gen.real(-6000, 6000), min_size=1, max_size=3)}), check_legs, quick=400),
]
