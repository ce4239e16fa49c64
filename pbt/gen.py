"""Hypothesis strategies for the quantities of this code base (all produce JSON-able values)."""
import math

from hypothesis import strategies as st

PI = math.pi
_N = 2**32
_BASE = 2**600


def ints(lo, hi):
    """evenly distributed integers (Hypothesis prefers small ones; far from zero it draws evenly)"""
    return st.integers(_BASE + lo, _BASE + hi).map(lambda k: k - _BASE)


def _grid(lo, hi):
    return ints(0, _N).map(lambda k: lo + (hi - lo) * (k / _N))


def _flush(x):
    """values whose squares underflow are out of every property's domain"""
    return 0.0 if abs(x) < 1e-30 else x


def real(lo, hi, edges=(), edge_weight=1):
    """a real number in [lo, hi]: spread out evenly, or any double, or one of the given edge values"""
    parts = [_grid(lo, hi), _grid(lo, hi), _grid(lo, hi), st.floats(lo, hi).map(_flush)]
    e = [x for x in edges if lo <= x <= hi]
    if e:
        parts += [st.sampled_from(e)] * edge_weight
    return st.one_of(parts)


def logreal(lo, hi, edges=()):
    """a positive number spread evenly in its logarithm"""
    a, b = math.log(lo), math.log(hi)
    parts = [ints(0, _N).map(lambda k: min(hi, max(lo, math.exp(a + (b - a) * (k / _N)))))] * 4
    if edges:
        parts.append(st.sampled_from(list(edges)))
    return st.one_of(parts)


def signed(s):
    return st.tuples(st.booleans(), s).map(lambda t: -t[1] if t[0] else t[1])


def near(points, lo, hi, smallest=1e-12, biggest=0.1):
    """a point of the list plus a small offset of any size, either side"""
    return st.tuples(st.sampled_from(list(points)), signed(logreal(smallest, biggest))).map(
        lambda t: min(hi, max(lo, t[0] + t[1])))


QUARTERS = [k * PI / 2 for k in range(-8, 9)]


def angle(lo=-2 * PI, hi=2 * PI):
    """an angle, with quarter turns and their neighbourhood"""
    q = [x for x in QUARTERS if lo <= x <= hi] or [lo, hi]
    return st.one_of(_grid(lo, hi), _grid(lo, hi), _grid(lo, hi), st.sampled_from(q), near(q, lo, hi))


def latitude():
    return st.one_of(_grid(-PI / 2, PI / 2), _grid(-PI / 2, PI / 2), st.sampled_from([0.0, PI / 2, -PI / 2]),
                     near([0.0, PI / 2, -PI / 2, PI / 4, -PI / 4], -PI / 2, PI / 2))


def mjd(y0=1950, y1=2050):
    """epochs between two years: anywhere, on whole or half days, near them, whole seconds, around J2000"""
    lo = 51544.5 + (y0 - 2000) * 365.25
    hi = 51544.5 + (y1 - 2000) * 365.25
    base = _grid(lo, hi)
    off = 69.184 / 86400
    return st.one_of(
        base, base, base,
        ints(math.ceil(lo), math.floor(hi)).map(float),
        ints(math.ceil(lo * 2), math.floor(hi * 2)).map(lambda k: k / 2),
        st.tuples(ints(math.ceil(lo) + 1, math.floor(hi) - 1), signed(logreal(1e-9, 0.5))).map(lambda t: t[0] + t[1]),
        st.tuples(ints(math.ceil(lo) + 1, math.floor(hi) - 1), signed(logreal(1e-9, 1e-3))).map(
            lambda t: t[0] + off + t[1]),
        st.tuples(ints(math.ceil(lo) + 1, math.floor(hi) - 1), ints(0, 86399)).map(
            lambda t: t[0] + t[1] / 86400),
        signed(logreal(1e-6, 400.0)).map(lambda d: min(hi, max(lo, 51544.5 + d))),
    )


def unit(draw_edges=True):
    """a direction as a unit vector: anywhere, along axes, near axes, in coordinate planes"""
    def sph(t):
        z, a = t
        s = math.sqrt(max(0.0, 1 - z * z))
        return [s * math.cos(a), s * math.sin(a), z]

    anywhere = st.tuples(_grid(-1, 1), _grid(0, 2 * PI)).map(sph)
    if not draw_edges:
        return anywhere
    axes = st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0],
                            [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])

    def tilt(t):
        a, u, d = t
        v = [a[i] + d * u[i] for i in range(3)]
        m = math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
        return [x / m for x in v]

    close = st.tuples(axes, anywhere, logreal(1e-10, 0.3)).map(tilt)
    plane = st.tuples(st.integers(0, 2), _grid(0, 2 * PI)).map(
        lambda t: [0.0 if i == t[0] else (math.cos(t[1]) if i == (t[0] + 1) % 3 else math.sin(t[1])) for i in range(3)])
    return st.one_of(anywhere, anywhere, anywhere, axes, close, plane)


def scaled_unit(length, edges=True):
    return st.tuples(unit(edges), length).map(lambda t: [t[1] * x for x in t[0]])


def orbit(rp_lo=6528.0, a_hi=100000.0, e_hi=0.9, e_edges=True):
    """a bound orbit as elements [a, e, i, raan, argp, nu]; perigee radius at least rp_lo"""
    if e_edges:
        e = st.one_of(_grid(0, e_hi), _grid(0, e_hi), logreal(1e-9, e_hi), _grid(0, min(0.05, e_hi)),
                      st.sampled_from([0.0, min(0.001, e_hi), e_hi]))
    else:
        e = _grid(0, e_hi)
    i = st.one_of(_grid(0, PI), _grid(0, PI), st.sampled_from([0.0, PI / 2, PI]),
                  near([0.0, PI / 2, PI], 0, PI, 1e-10, 0.1))
    ang = angle(0, 2 * PI)

    def build(t):
        e_, i_, o, w, nu, f = t
        lo = rp_lo / (1 - e_)
        hi = max(lo * 1.0001, a_hi)
        a = lo * (hi / lo) ** f
        return [a, e_, i_, o, w, nu]

    return st.tuples(e, i, ang, ang, ang, _grid(0, 1)).map(build)


def pick(*weighted):
    """sampled choice among (weight, strategy)"""
    parts = []
    for w, s in weighted:
        parts += [s] * w
    return st.one_of(parts)
