"""C19 impulsive maneuvers: velocity vector addition along independent axes, everything else unchanged"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.checks.c16 import agree, code_acc, counts_for, run_ref, separation
from pbt.core import Sub, close, fail, num, truth, vclose, xyz

RULE = ("spacecraft on any bound orbit (e to 0.8), perturbed or not, with any masses, in any attitude mode (slewing or not), given sequences of "
        "two to six operations: impulsive burns of any size 1e-9..20 km/s and direction (zero included), the opposite of the last burn, "
        "propagation, single steps, mode changes, step size changes, switching perturbations; non-trivial: at least one non-zero burn")
ASSUMPTIONS = ["a tracked target starts at least 1 km away"]
DAY = 86400.0


def snap(s):
    g = s.current_state()
    return xyz(g.position, "position"), xyz(g.velocity, "velocity"), num(g.epoch.value, "epoch")


def inertial_burn(r, v, b):
    a = ref.ric_axes(r, v)
    return tuple(math.fsum(a[k][j] * b[k] for k in range(3)) for j in range(3))


def check(c):
    r, v = ref.state_of(c["orb"])
    g = GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v))
    g.use_perturbations = c["pert"]
    craft = Spacecraft(g)
    r2, v2 = ref.state_of(c["orb2"])
    if ref.dist(r, r2) < 1.0:  # a target at the spacecraft's own position has no direction
        return
    other = Spacecraft(GCRF(Epoch(c["t"]), Vector3D(*r2), Vector3D(*v2)))
    craft.dry_mass, craft.propellant_mass = c["mass"]
    init = (r, v, c["t"])
    last = None
    pert = c["pert"]
    size = num(craft.propagator.step_size, "step size")
    for k, (op, x) in enumerate(c["ops"]):
        ctx = f" in operation {k} ({op} {x!r}) of {c!r}"
        r0, v0, t0 = snap(craft)
        if ref.norm(ref.cross(r0, v0)) < 0.1 * ref.norm(r0) * ref.norm(v0) or ref.norm(r0) < 6450 or ref.norm(r0) > 3e5:
            break
        if op in ("burn", "undo"):
            b = tuple(x) if op == "burn" else (tuple(-q for q in last) if last else (0.0, 0.0, 0.0))
            mode, slew = craft.steering, craft.slewing
            stop = craft.slew_stop.value if slew else None
            target = getattr(craft, "tracked_target", None)
            B = Vector3D(*b)
            craft.impulsive_maneuver(B)
            truth(xyz(B) == b, "the maneuver changed the burn vector" + ctx)
            r1, v1, t1 = snap(craft)
            vm = ref.norm(v0) + ref.norm(b)
            kk = ref.norm(r0) * ref.norm(v0) / ref.norm(ref.cross(r0, v0))
            vclose(r1, r0, 2e-14 * kk * ref.norm(r0), "position across an impulsive maneuver" + ctx)
            vclose(v1, ref.add(v0, inertial_burn(r0, v0, b)), 1e-13 * kk * vm, "velocity after an impulsive maneuver" + ctx)
            close(t1, t0, 0.0, "epoch across an impulsive maneuver" + ctx)
            truth((craft.dry_mass, craft.propellant_mass) == tuple(c["mass"]), "masses changed" + ctx)
            close(craft.total_mass(), sum(c["mass"]), 1e-12 * sum(c["mass"]), "total mass" + ctx)
            truth(craft.steering == mode, f"steering mode changed from {mode} to {craft.steering}" + ctx)
            truth(getattr(craft, "tracked_target", None) is target, "tracked target changed" + ctx)
            if slew:
                truth(craft.slew_stop.value == stop, "the end of the slew changed" + ctx)
            last = b if op == "burn" else None
            # motion starts from the new velocity
            truth(bool(craft.current_state().use_perturbations) == pert, "the perturbation setting changed" + ctx)
            close(craft.propagator.step_size, size, 0.0, "step size across an impulsive maneuver" + ctx)
        elif op == "size":
            size = float(x)
            craft.propagator.step_size = size
        elif op in ("go", "step"):
            if op == "go":
                target = Epoch(t0 + x / DAY)
                craft.step_to_epoch(target)
                dt = (target.value - t0) * DAY
                counts = counts_for(dt)
            else:
                craft.step()
                dt, counts = size, [1]
            r1, v1, t1 = snap(craft)
            close(t1, t0 + dt / DAY, 1e-9, "epoch after the motion" + ctx)
            last = None
            if dt:
                best = min(agree((r1, v1), run_ref(r0, v0, t0, dt, n, code_acc(pert, sc)), n, dt, r0, v0)
                           for n in counts for sc in (0.0, craft.srp_scalar()))
                if best > 1:
                    fail(f"motion from the state after the maneuvers is wrong by {best:.2g} tolerances" + ctx)
        elif op == "pert":
            pert = bool(x)
            craft.propagator.state.use_perturbations = pert
        elif op == "lvlh":
            craft.track_lvlh()
        elif op == "sun":
            craft.track_sun()
        elif op == "target" and separation(craft, other) > 0.05:
            craft.track_state(other)
        i = craft.initial_state
        truth((xyz(i.position), xyz(i.velocity), i.epoch.value) == init, "the recorded initial state changed" + ctx)
        truth((xyz(g.position), xyz(g.velocity), g.epoch.value) == init, "the state the spacecraft was built from changed" + ctx)


def check_pairs(c):
    """two burns in one plane at one instant add up; the opposite burn undoes; against the sum in inertial axes"""
    r, v = ref.state_of(c["orb"])
    craft = Spacecraft(GCRF(Epoch(c["t"]), Vector3D(*r), Vector3D(*v)))
    b1, b2 = (c["b1"][0], c["b1"][1], 0.0), (c["b2"][0], c["b2"][1], 0.0)
    # in-plane burns that do not reverse the motion leave the axes unchanged
    vt = ref.dot(ref.ric_axes(r, v)[1], v)
    if vt + b1[1] < 0.2 or vt + b1[1] + b2[1] < 0.2:
        return
    tol = 1e-12 * (ref.norm(v) + ref.norm(b1) + ref.norm(b2)) ** 2 / min(0.2, ref.norm(v))
    craft.impulsive_maneuver(Vector3D(*b1))
    craft.impulsive_maneuver(Vector3D(*b2))
    got = snap(craft)
    vclose(got[1], ref.add(v, inertial_burn(r, v, ref.add(b1, b2))), tol, f"velocity after two burns of {c!r}")
    craft.impulsive_maneuver(Vector3D(*ref.mul(b2, -1)))
    craft.impulsive_maneuver(Vector3D(*ref.mul(b1, -1)))
    got = snap(craft)
    vclose(got[1], v, tol, f"velocity after the opposite burns of {c!r}")
    vclose(got[0], r, 1e-12 * ref.norm(r), f"position after the opposite burns of {c!r}")


orb = gen.orbit(6600.0, 60000.0, 0.8)
burn = st.one_of(gen.scaled_unit(gen.logreal(1e-9, 3)), gen.scaled_unit(gen.real(1, 20)), gen.scaled_unit(gen.real(0.001, 1)), gen.scaled_unit(gen.real(0.001, 1)), st.just([0.0, 0.0, 0.0]))
op = st.one_of(st.tuples(st.just("burn"), burn), st.tuples(st.just("burn"), burn), st.tuples(st.just("undo"), st.just(0)),
               st.tuples(st.just("go"), st.one_of(gen.real(-400, 900), gen.real(1, 200))),
               st.tuples(st.just("size"), st.one_of(gen.real(1, 400), gen.real(-200, -1), st.just(60.0))), st.tuples(st.just("step"), st.just(0)),
               st.tuples(st.sampled_from(["lvlh", "sun", "target"]), st.just(0)), st.tuples(st.just("pert"), st.integers(0, 1))).map(list)
two = st.tuples(gen.real(-2, 2), gen.real(-2, 2)).map(list)
SUBS = [
    Sub("history", st.fixed_dictionaries({
        "orb": orb, "orb2": orb, "t": gen.mjd(1950, 2050), "pert": st.sampled_from([True, False]),
        "mass": st.tuples(gen.logreal(1, 1e4), gen.logreal(0.1, 1e4)).map(list), "ops": st.lists(op, min_size=2, max_size=6)}), check, quick=6000,
        nontrivial=lambda c: any(o == "burn" and any(x) for o, x in c["ops"]),
        label=lambda c: sorted({o for o, _ in c["ops"]})),
    Sub("pairs", st.fixed_dictionaries({"orb": orb, "t": gen.mjd(1950, 2050), "b1": two, "b2": two}), check_pairs, quick=3000),
]
