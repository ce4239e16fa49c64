"""C17 relative propagation: closed-form Clohessy-Wiltshire flow, composition, and two-body motion"""
import math

from hypothesis import strategies as st
from openspace.coordinates.states import HCW
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, fail, num, truth, vclose, xyz, six

RULE = ("reference semi-major axes 10..1e9 km, most 6400..1e6, relative states of any size 1e-6..1e3 km and rates to 1 km/s (zero components included), "
        "sequences of one to six increments of any sign and size up to many revolutions, explicit or by the step size in force; "
        "non-trivial: a non-zero state and some time passing")
ASSUMPTIONS = ["the epoch label of a relative state is arbitrary (documented)"]


def scale(x, n):
    return math.sqrt(sum(k * k for k in x[:3])) + math.sqrt(sum(k * k for k in x[3:])) / n


def both(h, what):
    s = h.state
    x = xyz(s.position, what) + xyz(s.velocity, what)
    truth(six(s.vector, what) == x, f"{what}: the six-component vector differs from position and velocity")
    return x


def check_flow(c):
    a, x0 = c["a"], tuple(c["x"])
    n = math.sqrt(ref.MU / a) / a
    s = HCW(Epoch(c["t"]), Vector3D(*x0[:3]), Vector3D(*x0[3:]))
    h = Hill(s, a)
    close(h.n, n, 1e-14 * n, "mean motion")
    mine = x0
    if c["spoil"]:
        s.position.x += 3.0
        s.velocity.y -= 0.5
        s.vector.z += 2.0
        mine = (x0[0] + 3.0, x0[1], x0[2], x0[3], x0[4] - 0.5, x0[5])
    truth(both(h, "new propagator") == x0, "a new propagator does not start at (or keep) its state")
    close(h.step_size, 600.0, 0.0, "default step size")
    size, total = 600.0, 0.0
    cur = x0
    big = 1.0
    for k, (op, t) in enumerate(c["ops"]):
        ctx = f" after operation {k} ({op} {t!r}) of {c!r}"
        if op == "size":
            h.step_size = t
            size = t
            continue
        if op == "step":
            t = size
            h.step()
        else:
            h.step_by_seconds(t)
        total += t
        sc = scale(cur, n)
        want = ref.cw(cur, n, t)
        got = both(h, "state")
        g = 1 + 6 * abs(n * t)
        tol = 2e-14 * sc * g * (1 + abs(n * t)) + 1e-300
        vclose(got[:3], want[:3], tol, "relative position" + ctx)
        vclose(got[3:], want[3:], tol * n, "relative velocity" + ctx)
        big *= g
        cur = got
        close(h.n, n, 1e-14 * n, "mean motion" + ctx)
        close(h.step_size, size, 0.0, "step size in force" + ctx)
    # composition
    want = ref.cw(x0, n, total)
    steps = len(c["ops"])
    T = sum(abs(t) if o == "by" else abs(size) + 600 for o, t in c["ops"] if o != "size")
    tol = 1e-13 * scale(x0, n) * (1 + 6 * n * T) ** 2 * (1 + n * T) * (1 + steps)
    vclose(cur[:3], want[:3], tol + 1e-300, f"relative position after {total!r} s in several increments {c!r}")
    vclose(cur[3:], want[3:], (tol + 1e-300) * n, f"relative velocity after {total!r} s in several increments {c!r}")
    truth(xyz(s.position) + xyz(s.velocity) == mine and s.epoch.value == c["t"], "propagation modified the state it was given")


def check_twobody(c):
    a, d, T = c["a"], c["d"], c["T"]
    n = math.sqrt(ref.MU / a) / a
    r0, v0 = ref.state_of([a, 0.0] + c["ang"])
    pos = tuple(a * d * k for k in c["u"])
    vel = tuple(a * n * d * k for k in c["w"])
    r1, v1 = ref.curvilinear_inverse(pos, vel, r0, v0)
    t = T / n
    h = Hill(HCW(Epoch(0), Vector3D(*pos), Vector3D(*vel)), a)
    h.step_by_seconds(t)
    got = both(h, "state")
    p, q = ref.curvilinear(*ref.kepler_propagate(r0, v0, t), *ref.kepler_propagate(r1, v1, t))
    tol = a * (40 * d * d * (1 + abs(T)) ** 2 + 1e-11)
    vclose(got[:3], p, tol, f"relative position of two spacecraft on two-body orbits {c!r}")
    vclose(got[3:], q, tol * n, f"relative velocity of two spacecraft on two-body orbits {c!r}")


comp = st.one_of(gen.signed(gen.logreal(1e-6, 1e3)), gen.real(-50, 50), st.just(0.0))
rate = st.one_of(gen.signed(gen.logreal(1e-9, 1)), gen.real(-0.01, 0.01), st.just(0.0))
x6 = st.tuples(comp, comp, comp, rate, rate, rate).map(list)
ts = st.one_of(gen.real(-1e4, 1e4, [0.0]), gen.signed(gen.logreal(1e-3, 1e6)), st.just(0.0), st.sampled_from([600.0, 86400.0, -86400.0, 1.0]))
op = st.one_of(st.tuples(st.just("by"), ts), st.tuples(st.just("by"), ts), st.tuples(st.just("step"), st.just(0.0)),
               st.tuples(st.just("size"), ts)).map(list)
PI = math.pi
SUBS = [
    Sub("flow", st.fixed_dictionaries({"a": st.one_of(gen.logreal(6400, 1e6, [42164.0, 6378.137]), gen.logreal(10, 1e9)), "x": x6, "t": st.one_of(gen.mjd(1950, 2050), st.just(0.0)), "spoil": st.booleans(),
                                       "ops": st.lists(op, min_size=1, max_size=6)}), check_flow, quick=16000,
        nontrivial=lambda c: any(c["x"]) and any(o != "size" and (o == "step" or t) for o, t in c["ops"])),
    Sub("two-body", st.fixed_dictionaries({
        "a": gen.logreal(6600, 1e5), "d": gen.logreal(1e-6, 1e-3), "T": gen.real(-12, 12), "u": gen.unit(), "w": gen.unit(),
        "ang": st.tuples(gen.real(0, PI), gen.real(0, 2 * PI), gen.real(0, 2 * PI), gen.real(0, 2 * PI)).map(list)}), check_twobody, quick=6000),
]
