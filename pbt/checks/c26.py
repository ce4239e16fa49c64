"""C26 independence: histories over a fleet built from shared objects, each member replayed alone; copies of every value"""
import math
import random

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.positions import LLA
from openspace.coordinates.states import GCRF, HCW, IJK, ITRF
from openspace.math.linalg import Vector3D, Vector6D
from openspace.propagators.inertial import RK4
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import KnownFinding, Sub, close, fail, num, six, truth, vclose, xyz

RULE = ("two to four spacecraft built from one to three shared states that share epoch and vector objects, under three to fourteen operations: "
        "steps, propagation, burns, pointing and chained tracking, acquisition, observation, filtering, attribute changes, and spoiling of every object "
        "that was passed in or handed out; copies of epochs, vectors, geodetic positions, states of every frame, propagators; non-trivial: "
        "histories with an operation that moves a spacecraft, every copy")
ASSUMPTIONS = ["a spacecraft tracked by another is also moved by the other's updates, to the other's epoch",
               "filtering is exercised on targets 0.5..500 km away"]
DAY = 86400.0
KEY = "C26-copy-drops-srp"


def state_values(g):
    return xyz(g.position, "position") + xyz(g.velocity, "velocity") + (num(g.epoch.value, "epoch"), bool(g.use_perturbations))


def cam(k):
    l = k.limits
    return (k.pixels, k.fov, k.resolution_factor, l.sun_hard, l.sun_soft, l.moon, l.earth, l.vismag, l.bore, l.characterization)


def everything(s):
    """all observable values of a spacecraft"""
    f = getattr(s, "filter", None)
    filt = None
    if f is not None:
        filt = (f.epoch.value, six(f.x00)) + tuple(six(getattr(f.p00, f"row{k}")) for k in range(1, 7)) + (six(f.propagator.state.vector), f.propagator.sma)
    p = s.propagator
    return {
        "state": state_values(s.current_state()), "vector": six(s.current_state().vector, "state vector"),
        "position": xyz(s.position()), "velocity": xyz(s.velocity()),
        "epoch": s.current_epoch().value, "initial state": state_values(s.initial_state) + six(s.initial_state.vector),
        "axes": (xyz(s.body_x), xyz(s.body_y), xyz(s.body_z)), "mode": (s.steering, bool(s.slewing), id(getattr(s, "tracked_target", None))),
        "slew": getattr(getattr(s, "slew_stop", None), "value", None), "rate": (s.slew_scalar, s.pointing_accuracy),
        "body": (s.albedo, s.body_radius, s.dry_mass, s.propellant_mass, s.m_dot, s.isp), "cameras": (cam(s.wfov), cam(s.nfov)), "filter": filt,
        "step size": p.step_size,
    }


def same(a, b, ctx, skip=()):
    for k in a:
        if k not in skip and a[k] != b[k]:
            fail(f"{k} changed from {a[k]!r} to {b[k]!r}" + ctx)


def spoil_state(g, x):
    g.epoch.value += x
    g.position.x += 100 * x
    g.position.y -= x
    g.position.z *= 1 + x
    g.velocity.x += x
    g.velocity.z -= x
    for k in ("x", "y", "z", "vx", "vy", "vz"):
        setattr(g.vector, k, getattr(g.vector, k) + x)
    if hasattr(g, "thrust"):
        g.thrust.x += x
        g.srp_scalar += x
        g.use_perturbations = not g.use_perturbations


def spoil_vec(v, x):
    v.x += x
    v.y -= 3 * x
    v.z *= 1 + x


def spoil_inner(s, w, others, ctx):
    """change the objects a spacecraft keeps, one at a time, look for effects elsewhere, and put the values back"""
    f = getattr(s, "filter", None)
    parts = [("initial state", s.initial_state.epoch, "value"), ("initial state", s.initial_state.position, "y"),
             ("initial state", s.initial_state.velocity, "z"), ("axes", s.body_z, "x"), ("axes", s.body_y, "y"), ("axes", s.body_x, "z")]
    if getattr(s, "slew_stop", None) is not None:
        parts.append(("slew", s.slew_stop, "value"))
    if f is not None:
        parts += [("filter", f.epoch, "value"), ("filter", f.x00, "vy"), ("filter", f.propagator.state.position, "x"),
                  ("filter", f.propagator.state.vector, "y")]
    mine, rest = everything(s), [everything(o) for o in others]
    for name, obj, attr in parts:
        old = getattr(obj, attr)
        setattr(obj, attr, old + w)
        same(mine, everything(s), f" when its {name} was changed" + ctx, (name,))
        for o, e in zip(others, rest):
            same(e, everything(o), f" when the {name} of another spacecraft was changed" + ctx)
        setattr(obj, attr, old)
    same(mine, everything(s), " (everything was put back)" + ctx)


def build(c):
    ep = Epoch(c["t"])
    vecs = []
    states = []
    for k, (orb, share_r, share_v) in enumerate(c["states"]):
        r, v = ref.state_of(orb)
        vecs.append([Vector3D(*r), Vector3D(*v)])
        pos, vel = vecs[-1]
        if share_v and k:  # the same position and velocity objects in two states
            pos, vel = vecs[0]
        states.append((GCRF(ep, pos, vel), xyz(pos), xyz(vel)))
    for g, _, _ in states:
        g.use_perturbations = c["pert"]
    return ep, vecs, states


def solo(g, log):
    """the same spacecraft alone: only its own movements"""
    r, v, t, pert = g
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    s.use_perturbations = pert
    s = Spacecraft(s)
    for op, x in log:
        if op == "step":
            s.propagator.step_size = x
            s.step()
        elif op == "go":
            s.step_to_epoch(Epoch(x))
        elif op == "impulse":
            s.impulsive_maneuver(Vector3D(*x))
        elif op == "finite":
            s.finite_maneuver(Vector3D(*x))
        else:
            for n, w in x.items():
                setattr(s, n, w)
    return s


def sane(r, v):
    return 6450 < ref.norm(r) < 2e5 and ref.norm(ref.cross(r, v)) > 0.1 * ref.norm(r) * ref.norm(v) and \
        ref.dot(v, v) / 2 - ref.MU / ref.norm(r) < -0.5


def geometry(s, others, ctx):
    r, v = xyz(s.position()), xyz(s.velocity())
    g = s.current_state()
    truth(six(g.vector) == xyz(g.position) + xyz(g.velocity) == r + v, "six-component vector is not the position and velocity" + ctx)
    inv = 2 / ref.norm(r) - ref.dot(v, v) / ref.MU
    close(s.sma(), 1 / inv, 1e-14 * (2 / ref.norm(r) + ref.dot(v, v) / ref.MU) / inv ** 2 + 1e-13 / inv, "semi-major axis" + ctx)
    for o in others:
        ro, vo = xyz(o.position()), xyz(o.velocity())
        p = ref.mv(ref.ric_axes(r, v), ro)
        rho = math.hypot(p[0], p[1])
        if rho < 1e-3 * ref.norm(p):
            continue
        want, _ = ref.curvilinear(r, v, ro, vo)
        got = xyz(s.hill_position(o), "relative position")
        w = ref.norm(r)
        d = (got[0] - want[0], w * ref.wrap((got[1] - want[1]) / w), got[2] - want[2])
        if not ref.norm(d) <= 1e-11 * (w + ref.norm(ro)) * ref.norm(p) / rho:
            fail(f"relative position: got {got!r}, expected {want!r}" + ctx)


def chain(start, fleet):
    out = set()
    s = start
    while getattr(s, "tracked_target", None) is not None and s.steering == "target":
        s = s.tracked_target
        if id(s) in out:
            break
        out.add(id(s))
    return out


def check(c):
    ep, vecs, states = build(c)
    own = [(p, v, c["t"], c["pert"]) for _, p, v in states]
    fleet, home, logs = [], [], []
    for k in c["from"]:
        k %= len(states)
        fleet.append(Spacecraft(states[k][0]))
        home.append(k)
        logs.append([])
    used = [(g, state_values(g)) for g, _, _ in states]
    spoiled = False
    passed = []
    for k, (who, op, x) in enumerate(c["ops"]):
        a = who % len(fleet)
        s = fleet[a]
        ctx = f" after operation {k} ({op} {x!r} on spacecraft {a}) of {c!r}"
        before = [everything(f) for f in fleet]
        r0, v0, t0 = before[a]["position"], before[a]["velocity"], before[a]["epoch"]
        if not sane(r0, v0):
            break
        skip = set()
        j = (a + 1 + int(x["to"]) % (len(fleet) - 1)) % len(fleet) if isinstance(x, dict) and "to" in x else None
        touched = None
        dist = ref.dist(r0, before[j]["position"]) if j is not None else None
        if op in ("lvlh", "sun", "track", "acquire", "look") and ref.norm(before[a]["axes"][2]) < 1e-3:
            continue  # pointing at a target at its own position: no direction to turn from
        if op == "step":
            s.propagator.step_size = x
            s.step()
            logs[a].append(["step", x])
        elif op == "go":
            e = Epoch(t0 + x / DAY)
            logs[a].append(["go", e.value])
            s.step_to_epoch(e)
            passed.append(e)
        elif op in ("impulse", "finite"):
            b = Vector3D(*x)
            logs[a].append([op, x])
            (s.impulsive_maneuver if op == "impulse" else s.finite_maneuver)(b)
            truth(xyz(b) == tuple(x), "the burn vector changed" + ctx)
            passed.append(b)
        elif op == "attr":
            vals = {"dry_mass": x[0], "propellant_mass": x[1], "isp": x[2], "m_dot": x[3]}
            logs[a].append(["set", vals])
            for n, w in vals.items():
                setattr(s, n, w)
            s.albedo, s.body_radius, s.pointing_accuracy, s.slew_scalar = x[4:8]
            s.wfov.limits.vismag, s.wfov.limits.moon, s.nfov.fov, s.nfov.limits.earth = x[4:8]
        elif op == "lvlh":
            s.track_lvlh()
        elif op == "sun":
            s.track_sun()
        elif op in ("track", "acquire"):
            if dist < 0.05:
                continue
            met = solo(own[home[j]], logs[j] + [["go", t0]])
            if ref.dist(xyz(met.position()), r0) < 0.05:  # the same place once it is brought to this epoch
                continue
            (s.track_state if op == "track" else s.acquire)(fleet[j])
        elif op in ("observe", "process"):
            if not 0.5 < dist < 500 or (op == "process" and getattr(s, "filter", None) is None):
                continue
            random.seed(x["seed"])
            if op == "process":
                (s.process_wfov if x["wide"] else s.process_nfov)(fleet[j])
                skip = {"filter"}
            else:
                ob = (s.observe_wfov if x["wide"] else s.observe_nfov)(fleet[j])
                spoil_state(ob.observer_state, 1.5)
                spoil_vec(ob.observed_direction, 2.0)
            same(before[a], everything(s), " (observing is not supposed to)" + ctx, skip)
        elif op == "look":
            if dist < 0.05:
                continue
            f = fleet[j]
            geometry(s, [f], ctx)
            s.range(f), s.earth_angle(f), s.moon_angle(f), s.sun_angle(f), s.detect(f)
            same(before[a], everything(s), " (looking is not supposed to)" + ctx)
        elif op == "spoil":
            w = x["by"]
            spoil_state(s.current_state(), w)
            spoil_vec(s.position(), w)
            spoil_vec(s.velocity(), w)
            s.current_epoch().value += w
            spoil_state(s.initial_state.copy(), w)
            for q in (s.earth_vector(), s.sun_vector(), s.moon_vector(), s.target_vector(fleet[j]), s.hill_position(fleet[j])):
                spoil_vec(q, w)
            for q in s.current_state().vector_list() + s.current_state().derivative():
                spoil_vec(q, w)
            spoil_state(RK4(s.current_state()).state, w)
            spoil_inner(s, w, [f for f in fleet if f is not s], ctx)
            for q in passed:
                if isinstance(q, Epoch):
                    q.value += w
                else:
                    spoil_vec(q, w)
            passed = []
            same(before[a], everything(s), " (changing objects handed out by it is not supposed to)" + ctx)
        elif op == "spoil_built":
            # everything the fleet was built from
            for g, _, _ in states:
                spoil_state(g, x["by"])
            ep.value += x["by"]
            for p in vecs:
                spoil_vec(p[0], x["by"])
                spoil_vec(p[1], x["by"])
            spoiled = True
            same(before[a], everything(s), " (changing objects it was built from is not supposed to)" + ctx)
        # nobody else is affected, except tracked spacecraft, which are brought along
        reach = chain(s, fleet)
        t1 = s.current_epoch().value
        for i, f in enumerate(fleet):
            if f is s:
                continue
            now = everything(f)
            if id(f) in reach:
                if now["epoch"] != before[i]["epoch"]:
                    close(now["epoch"], t1, 2e-8, "epoch of a tracked spacecraft" + ctx)
                    logs[i].append(["go", t1])
                same(before[i], now, f" of spacecraft {i}" + ctx, ("state", "vector", "position", "velocity", "epoch", "axes", "mode"))
            else:
                same(before[i], now, f" of spacecraft {i}" + ctx)
        for i, f in enumerate(fleet):
            g = f.initial_state
            p, v, t, pert = own[home[i]]
            truth(xyz(g.position) == p and xyz(g.velocity) == v and g.epoch.value == t, f"initial state of spacecraft {i} changed" + ctx)
        if not spoiled:
            for g, w in used:
                truth(state_values(g) == w, "a state the spacecraft were built from changed" + ctx)
            truth(ep.value == c["t"], "the epoch the states were built from changed" + ctx)
    ctx = f" in {c!r}"
    for i, f in enumerate(fleet):
        if not sane(xyz(f.position()), xyz(f.velocity())):
            return
        lone = solo(own[home[i]], logs[i])
        close(f.current_epoch().value, lone.current_epoch().value, 4e-8, f"epoch of spacecraft {i} against the same one alone" + ctx)
        vclose(f.position(), xyz(lone.position()), 2e-3, f"position of spacecraft {i} against the same one alone" + ctx)
        vclose(f.velocity(), xyz(lone.velocity()), 2e-6, f"velocity of spacecraft {i} against the same one alone" + ctx)
        m = lone.total_mass()
        close(f.total_mass(), m, 1e-9 * m, f"mass of spacecraft {i} against the same one alone" + ctx)
        truth(bool(f.current_state().use_perturbations) == c["pert"], f"perturbation setting of spacecraft {i}" + ctx)
        geometry(f, [g for g in fleet if g is not f], ctx)


# ---------------------------------------------------------------------------------------------


def check_state(c):
    cls = {"GCRF": GCRF, "ITRF": ITRF, "HCW": HCW, "IJK": IJK}[c["frame"]]
    t, r, v = c["t"], tuple(c["r"]), tuple(c["v"])
    e, R, V = Epoch(t), Vector3D(*r), Vector3D(*v)
    fixed = c["how"] == "fixed" and cls is ITRF
    hcw = c["how"] == "vector" and cls is HCW
    if fixed:
        v = (0.0, 0.0, 0.0)
        s = ITRF.from_fixed(e, R)
    elif hcw:
        x6 = Vector6D(*(r + v))
        s = HCW.from_state_vector(x6)
        x6.x += 1.0
        x6.vz -= 1.0
        t = s.epoch.value
    else:
        s = cls(e, R, V)
    ctx = f" for {c!r}"

    def whole(q):
        out = xyz(q.position) + xyz(q.velocity) + six(q.vector) + (q.epoch.value,)
        if cls is GCRF:
            out += xyz(q.thrust) + (q.use_perturbations,)
        return out

    srp = 0
    if cls is GCRF:
        s.use_perturbations = c["pert"]
        s.thrust = Vector3D(*c["thrust"])
        srp = s.srp_scalar = c["srp"]
    want = r + v + r + v + (t,) + ((tuple(c["thrust"]) + (c["pert"],)) if cls is GCRF else ())
    e.value += 1
    spoil_vec(R, 1.0)
    spoil_vec(V, 1.0)
    truth(whole(s) == want, f"a state built from objects that change later is {whole(s)!r}, expected {want!r}" + ctx)
    q = s.copy()
    truth(type(q) is cls, f"copy of a {cls.__name__} is a {type(q).__name__}" + ctx)
    truth(whole(q) == want, f"copy is {whole(q)!r}, original {want!r}" + ctx)
    known = False
    if cls is GCRF:
        truth(s.srp_scalar == srp, "copying changed the original" + ctx)
        if q.srp_scalar != srp:
            truth(q.srp_scalar == 0, f"copy has radiation-pressure scalar {q.srp_scalar!r}, original {srp!r}" + ctx)
            known = True
    q2 = q.copy()
    lst = s.vector_list()
    truth(len(lst) == 2 and xyz(lst[0]) == r and xyz(lst[1]) == v, "position and velocity list" + ctx)
    spoil_state(q, 0.5)
    truth(whole(s) == want, "changing a copy changed the original" + ctx)
    truth(whole(q2) == want, "changing a copy changed its own copy" + ctx)
    spoil_state(s, 0.25)
    truth(whole(q2) == want, "changing the original changed a copy" + ctx)
    # propagators hold states of their own
    if cls is GCRF:
        p = RK4(q2)
        a = RK4(q2)
        truth(whole(p.state)[:13] == want[:13], "state of a new propagator" + ctx)
        spoil_state(q2, 0.5)
        truth(whole(p.state)[:13] == want[:13], "changing a state changed the propagator built from it" + ctx)
        spoil_state(p.state, 0.5)
        truth(whole(a.state)[:13] == want[:13], "changing the state of a propagator changed another" + ctx)
    if cls is HCW:
        p, a = Hill(q2, 42164.0), Hill(q2, 42164.0)
        spoil_state(q2, 0.5)
        truth(whole(p.state) == want, "changing a state changed the propagator built from it" + ctx)
        p.step_by_seconds(10.0)
        truth(whole(a.state) == want, "stepping a propagator changed another" + ctx)
    if known:
        raise KnownFinding(KEY, "GCRF.copy() does not keep srp_scalar")


def check_values(c):
    x = c["x"]
    ctx = f" for {c!r}"
    e = Epoch(x[0])
    v3, v6, l = Vector3D(*x[:3]), Vector6D(*x), LLA(*x[:3])
    read = {
        "epoch": lambda q: (q.value,), "3-vector": lambda q: (q.x, q.y, q.z), "6-vector": lambda q: (q.x, q.y, q.z, q.vx, q.vy, q.vz),
        "geodetic position": lambda q: (q.latitude, q.longitude, q.altitude),
    }
    for name, obj in (("epoch", e), ("3-vector", v3), ("6-vector", v6), ("geodetic position", l)):
        get = read[name]
        want = get(obj)
        q = obj.copy()
        truth(type(q) is type(obj), f"copy of a {name} is a {type(q).__name__}" + ctx)
        truth(get(q) == want == tuple(x[:len(want)]), f"copy of a {name} is {get(q)!r}, original {want!r}" + ctx)
        z = q.copy()
        for n in list(vars(q)):
            setattr(q, n, 77.5)
        truth(get(obj) == want, f"changing a copy of a {name} changed the original" + ctx)
        for n in list(vars(obj)):
            setattr(obj, n, -3.25)
        truth(get(z) == want, f"changing a {name} changed its copy" + ctx)
    a, b = Vector3D(*x[:3]), Vector3D(*x[3:])
    w = Vector6D.from_position_and_velocity(a, b)
    spoil_vec(a, 2.0)
    spoil_vec(b, 2.0)
    truth(six(w) == tuple(x), "six-component vector of position and velocity" + ctx)


orb = gen.orbit(6600.0, 60000.0, 0.4)
who = st.integers(0, 3)
secs = st.one_of(gen.real(-400, 900), gen.real(1, 250), gen.logreal(0.01, 2000)).map(
    lambda x: x + 0.37 if abs(x / 300 - round(x / 300)) < 1e-3 else x)
ric = gen.scaled_unit(gen.logreal(1e-6, 0.3))
to = st.fixed_dictionaries({"to": st.integers(0, 2)})
tos = st.fixed_dictionaries({"to": st.integers(0, 2), "seed": st.integers(0, 10**6), "wide": st.booleans()})
by = st.fixed_dictionaries({"to": st.integers(0, 2), "by": gen.logreal(1e-3, 10)})
attr = st.tuples(gen.logreal(100, 2000), gen.logreal(50, 500), gen.real(200, 400), gen.logreal(1e-3, 0.1), gen.real(0.05, 1), gen.logreal(1e-4, 0.1),
                 gen.logreal(1e-6, 1e-3), gen.logreal(1e-4, 0.1)).map(list)
J = st.just
ops = gen.pick(
    (2, st.tuples(who, J("step"), gen.real(5, 290))), (3, st.tuples(who, J("go"), secs)), (2, st.tuples(who, J("impulse"), ric)),
    (1, st.tuples(who, J("finite"), gen.scaled_unit(gen.logreal(1e-6, 0.02)))), (1, st.tuples(who, J("attr"), attr)),
    (1, st.tuples(who, J("lvlh"), J(0))), (1, st.tuples(who, J("sun"), J(0))), (2, st.tuples(who, J("track"), to)),
    (1, st.tuples(who, J("acquire"), to)), (1, st.tuples(who, J("observe"), tos)), (1, st.tuples(who, J("process"), tos)),
    (1, st.tuples(who, J("look"), to)), (2, st.tuples(who, J("spoil"), by)), (1, st.tuples(who, J("spoil_built"), by)),
).map(list)
MOVES = ("step", "go", "impulse", "finite")
comp = st.one_of(gen.real(-1e5, 1e5), gen.signed(gen.logreal(1e-6, 1e6)), st.just(0.0))
vec = st.tuples(comp, comp, comp).map(list)


def near_states(t):
    """second and third states near the first one in half of the cases, so that observation and filtering happen"""
    states, close_by = t
    if close_by:
        a = states[0][0]
        states = [states[0]] + [[[a[0], a[1], a[2], a[3], a[4], a[5] + d / a[0]], s[1], s[2]] for s, d in zip(states[1:], close_by)]
    return states


states = st.tuples(st.lists(st.tuples(orb, st.booleans(), gen.pick((3, J(False)), (1, J(True)))).map(list), min_size=1, max_size=3),
                   st.one_of(st.none(), st.tuples(gen.signed(gen.logreal(1, 200)), gen.signed(gen.logreal(1, 200))))).map(near_states)
SUBS = [
    Sub("fleet", st.fixed_dictionaries({"t": gen.mjd(1950, 2050), "pert": st.booleans(), "states": states,
                                        "from": st.lists(st.integers(0, 2), min_size=2, max_size=4), "ops": st.lists(ops, min_size=3, max_size=14)}),
        check, quick=8000, nontrivial=lambda c: any(o[1] in MOVES for o in c["ops"]),
        label=lambda c: [f"{len(c['from'])} craft"] + sorted({o[1] for o in c["ops"]})),
    Sub("states", st.fixed_dictionaries({"frame": st.sampled_from(["GCRF", "ITRF", "HCW", "IJK"]), "how": st.sampled_from(["plain", "plain", "fixed", "vector"]),
                                         "t": gen.mjd(1900, 2100), "r": vec, "v": vec, "thrust": vec, "srp": st.one_of(J(0), gen.real(0, 1)),
                                         "pert": st.booleans()}), check_state, quick=6000, label=lambda c: [c["frame"]]),
    Sub("values", st.fixed_dictionaries({"x": st.lists(comp, min_size=6, max_size=6)}), check_values, quick=4000),
]
