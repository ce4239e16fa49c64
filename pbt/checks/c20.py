"""C20 finite maneuvers: rocket equation and an independent integration of thrust over decreasing mass"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.checks.c16 import agree, code_acc, counts_for, run_ref, separation
from pbt.checks.c19 import inertial_burn, snap
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("spacecraft on any bound orbit (e to 0.7), perturbed or not, with any dry mass, propellant, mass flow and specific impulse, given one to "
        "three finite burns in any direction lasting 1 ms to 5 hours (many integration steps) within the propellant, with coasting, single steps, "
        "impulsive burns, changes of engine, step size, attitude mode and perturbation setting in between and before; non-trivial: every case")
ASSUMPTIONS = ["g0 = 9.81 m/s^2; commanded delta-v uses at most 90% of the propellant on board and is not zero",
               "reference: classical RK4 over ceil(duration / 300 s) equal steps with the thrust direction fixed in inertial space"]
DAY = 86400.0
G0 = ref.G0


def burn_ref(r, v, t0, t1, n, u, mdot, m0, isp, acc):
    dt = (t1 - t0) * DAY
    h = dt / n
    t = t0
    for k in range(n):
        def a(rr, mm, s, k=k):
            f = mdot * isp * G0 / (m0 - mdot * (k * h + s))
            return ref.add(acc(rr, mm, s), ref.mul(u, f))
        r, v, t = ref.rk4_step(r, v, t, h, a)
    return r, v


def check(c):
    r, v = ref.state_of(c["orb"])
    g = GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v))
    g.use_perturbations = c["pert"]
    craft = Spacecraft(g)
    init = (r, v, c["t"])
    dry, prop = c["mass"]
    craft.dry_mass, craft.propellant_mass = dry, prop
    mdot, isp = c["engine"]
    pert = c["pert"]
    r2, v2 = ref.state_of(c["orb2"])
    other = Spacecraft(GCRF(Epoch(c["t"]), Vector3D(*r2), Vector3D(*v2)))
    craft.m_dot, craft.isp = mdot, isp
    size = num(craft.propagator.step_size, "step size")
    for k, (op, x) in enumerate(c["ops"]):
        ctx = f" in operation {k} ({op} {x!r}) of {c!r}"
        r0, v0, t0 = snap(craft)
        if ref.norm(ref.cross(r0, v0)) < 0.1 * ref.norm(r0) * ref.norm(v0) or ref.norm(r0) < 6450 or ref.norm(r0) > 3e5:
            break
        scal = (0.0, num(craft.srp_scalar(), "scalar"))
        if op == "burn":
            direction, want_dur, frac = x
            m0 = dry + prop
            dur = min(want_dur, frac * prop / mdot)
            dv = -isp * G0 * math.log1p(-mdot * dur / m0)
            if dv < 1e-12 or dv > 6:
                continue
            b = tuple(dv * q for q in direction)
            B = Vector3D(*b)
            # the burn must not run the spacecraft into the Earth
            craft.finite_maneuver(B)
            truth(xyz(B) == b, "the maneuver changed the burn vector" + ctx)
            r1, v1, t1 = snap(craft)
            dv = ref.norm(b)
            dur = m0 / mdot * -math.expm1(-dv / (isp * G0))
            # the code computes 1 - e^-x directly
            sd = 4e-16 * m0 / mdot + 1e-13 * dur
            end = t0 + dur / DAY
            n0 = max(1, math.ceil(abs(dur / 300.0)))
            close(t1, end, 7.3e-12 * (3 * n0 + 3) + sd / DAY, "end of the burn" + ctx)
            used = mdot * dur
            close(craft.propellant_mass, prop - used, 1e-13 * m0 + mdot * sd, "propellant left" + ctx)
            truth(craft.dry_mass == dry, "dry mass changed" + ctx)
            close(craft.total_mass(), dry + prop - used, 1e-12 * m0 + mdot * sd, "total mass" + ctx)
            truth((craft.m_dot, craft.isp) == (mdot, isp), "the engine changed" + ctx)
            u = ref.unit(inertial_burn(r0, v0, b))
            # integrate; the epochs of the code are rounded to 7e-12 days, so allow the neighbouring end times
            best, alt = None, None
            slack = 7.3e-12 * DAY * 2 + sd
            thr = mdot * isp * G0 / (m0 - used)
            for e in (end, math.nextafter(end, math.inf), math.nextafter(end, -math.inf)):
                dt = (e - t0) * DAY
                if dt <= 0:
                    continue
                for n in counts_for(dt):
                    for sc in scal:
                        w = burn_ref(r0, v0, t0, e, n, u, mdot, m0, isp, code_acc(pert, sc))
                        d = agree((r1, v1), w, n, dt, r0, v0)
                        best = d if best is None else min(best, d)
                        rp = min(ref.norm(r0), ref.norm(r1))
                        dr = ref.dist(r1, w[0]) / (slack * (ref.norm(v1) + thr * dt) * 2 + 1e-9 * ref.norm(r0) * 1e-3)
                        dw = ref.dist(v1, w[1]) / (slack * (thr + ref.MU / rp ** 2) * 2 + 1e-12 * ref.norm(v0))
                        alt = max(dr, dw) if alt is None else min(alt, max(dr, dw))
                if best <= 1:
                    break
            if best is not None and best > 1 and alt > 1:
                w = burn_ref(r0, v0, t0, end, n0, u, mdot, m0, isp, code_acc(pert, 0.0))
                fail(f"state after the burn: got {r1!r} {v1!r}, integration of the thrust gives {w[0]!r} {w[1]!r} "
                     f"({best:.2g} tolerances away)" + ctx)
            # the rocket equation directly: change of velocity beyond the unthrusted motion, for short burns
            if dur < 60:
                fr, fv, _ = run_ref(r0, v0, t0, (t1 - t0) * DAY, 1, code_acc(pert, 0.0))
                got = ref.sub(v1, fv)
                rp = min(ref.norm(r0), ref.norm(r1))
                tol = dv * (0.7 * dur * math.sqrt(ref.MU / rp ** 3)) ** 2 + thr * slack * 2 + 1e-13 * ref.norm(v0) \
                    + dv * (mdot * dur / (m0 - used)) ** 4 * 0.05
                vclose(got, ref.mul(u, dv), tol + ref.MU / rp ** 2 * 2 * slack, "velocity gained" + ctx)
            prop = num(craft.propellant_mass, "propellant")
        elif op == "go":
            target = Epoch(t0 + x / DAY)
            craft.step_to_epoch(target)
            r1, v1, t1 = snap(craft)
            dt = (target.value - t0) * DAY
            if dt:
                d = min(agree((r1, v1), run_ref(r0, v0, t0, dt, n, code_acc(pert, sc)), n, dt, r0, v0)
                        for n in counts_for(dt) for sc in scal)
                if d > 1:
                    fail(f"coasting is wrong by {d:.2g} tolerances (thrust still on?)" + ctx)
        elif op == "step":
            craft.step()
            r1, v1, t1 = snap(craft)
            close(t1, t0 + size / DAY, 7.3e-12 * 4, "epoch after a step" + ctx)
            d = min(agree((r1, v1), run_ref(r0, v0, t0, size, 1, code_acc(pert, sc)), 1, size, r0, v0) for sc in scal)
            if d > 1:
                fail(f"a step after a burn is wrong by {d:.2g} tolerances" + ctx)
        elif op == "size":
            size = float(x)
            craft.propagator.step_size = size
        elif op == "engine":
            mdot, isp = x
            craft.m_dot, craft.isp = mdot, isp
        elif op == "mode":
            if x == "target" and (separation(craft, other) < 1.0 or ref.norm(xyz(craft.body_z)) < 1e-3):
                continue
            {"lvlh": craft.track_lvlh, "sun": craft.track_sun, "target": lambda: craft.track_state(other)}[x]()
        elif op == "pert":
            pert = bool(x)
            craft.propagator.state.use_perturbations = pert
        elif op == "kick":
            craft.impulsive_maneuver(Vector3D(*x))
        close(craft.propagator.step_size, size, 0.0, "step size in force" + ctx)
        truth(craft.propellant_mass == prop and craft.dry_mass == dry, "masses changed" + ctx)
        i = craft.initial_state
        truth((xyz(i.position), xyz(i.velocity), i.epoch.value) == init, "the recorded initial state changed" + ctx)
        truth(bool(craft.current_state().use_perturbations) == pert, "the perturbation setting changed" + ctx)


orb = gen.orbit(6700.0, 60000.0, 0.7)
engine = st.one_of(st.just([0.003, 350.0]), st.tuples(gen.logreal(1e-4, 5), gen.logreal(40, 4000)).map(list))
durs = st.one_of(gen.logreal(1e-3, 3000), gen.real(1, 1000), gen.real(1, 299), gen.real(301, 900), gen.logreal(300, 20000), st.sampled_from([300.0, 600.0, 100.0]))
op = st.one_of(
    st.tuples(st.just("burn"), st.tuples(gen.unit(), durs, gen.real(0.05, 0.9)).map(list)),
    st.tuples(st.just("burn"), st.tuples(gen.unit(), durs, gen.real(0.05, 0.9)).map(list)),
    st.tuples(st.just("burn"), st.tuples(gen.unit(), durs, gen.real(0.05, 0.9)).map(list)),
    st.tuples(st.just("go"), gen.real(-300, 600)), st.tuples(st.just("step"), st.just(0)), st.tuples(st.just("engine"), engine),
    st.tuples(st.just("kick"), gen.scaled_unit(gen.real(0.001, 0.2))), st.tuples(st.just("mode"), st.sampled_from(["lvlh", "sun", "target"])),
    st.tuples(st.just("pert"), st.integers(0, 1))).map(list)
burn1 = st.tuples(st.just("burn"), st.tuples(gen.unit(), durs, gen.real(0.05, 0.9)).map(list)).map(list)
setup = st.one_of(st.tuples(st.just("mode"), st.sampled_from(["lvlh", "sun", "target"])), st.tuples(st.just("go"), gen.real(-3000, 6000)),
                  st.tuples(st.just("kick"), gen.scaled_unit(gen.real(0.001, 0.5))),
                  st.tuples(st.just("size"), st.one_of(gen.real(1, 400), st.sampled_from([60.0, -100.0, 600.0])))).map(list)
SUBS = [Sub("burns", st.fixed_dictionaries({
    "orb": orb, "orb2": orb, "t": gen.mjd(1950, 2050), "pert": st.sampled_from([True, False]), "engine": engine,
    "mass": st.one_of(st.just([600.0, 200.0]), st.tuples(gen.logreal(10, 1e4), gen.logreal(1, 5e3)).map(list), st.tuples(gen.logreal(0.05, 100), gen.logreal(0.01, 100)).map(list)),
    "ops": st.tuples(st.lists(setup, max_size=2), burn1, st.lists(op, max_size=3)).map(lambda t: t[0] + [t[1]] + t[2])}), check, quick=7000,
    label=lambda c: [f"{sum(1 for o, _ in c['ops'] if o == 'burn')} burns"] + (["multi-step"] if any(o == "burn" and x[1] > 300 for o, x in c["ops"]) else []))]
