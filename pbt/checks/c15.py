"""C15 Sun and Moon: the cited series written down independently, and more accurate ephemerides"""
import math

from hypothesis import strategies as st
from openspace.bodies.celestial import Moon, Sun
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, truth, vclose, xyz

RULE = ("sequences of two to eight requests for the Sun or the Moon at epochs 1950..2050, with repeated and neighbouring epochs and results "
        "modified by the caller between them; non-trivial: every case")
ASSUMPTIONS = ["independent ephemerides: Meeus' geometric Sun and truncated ELP Moon (equinox J2000)"]
T0, T1 = 51544.5 - 50 * 365.25, 51544.5 + 50 * 365.25


def ecliptic(v):
    c, s = math.cos(ref.EPS0), math.sin(ref.EPS0)
    x, y, z = v[0], c * v[1] + s * v[2], -s * v[1] + c * v[2]
    return math.atan2(y, x), math.atan2(z, math.hypot(x, y)), ref.norm(v)


def check(c):
    kept = []
    for k, body, off, spoil in c["ask"]:
        t = min(T1, max(T0, c["epochs"][k % len(c["epochs"])] + off))
        e = Epoch(t)
        got = (Sun if body == "sun" else Moon).get_position(e)
        p = xyz(got, body)
        truth(e.value == t, "asking for a position changed the epoch")
        ctx = f" at epoch {t!r}"
        lon, lat, r = ecliptic(p)
        if body == "sun":
            vclose(p, ref.sun(t), 0.02, "Sun" + ctx)
            l2, r2 = ref.sun_almanac(t)
            close(math.degrees(ref.wrap(lon - l2)), 0.0, 0.2, "longitude of the Sun in degrees" + ctx)
            close(math.degrees(lat), 0.0, 0.02, "latitude of the Sun in degrees" + ctx)
            close(r / ref.AU, r2, 0.0005, "distance of the Sun in AU" + ctx)
        else:
            vclose(p, ref.moon(t), 1e-3, "Moon" + ctx)
            l2, b2, r2 = ref.moon_meeus(t)
            close(math.degrees(ref.wrap(lon - l2)), 0.0, 0.09, "longitude of the Moon in degrees" + ctx)
            close(math.degrees(lat), math.degrees(b2), 0.017, "latitude of the Moon in degrees" + ctx)
            close(r, r2, 600, "distance of the Moon" + ctx)
        if spoil:
            got.x += 1e5
            e.value += 100.0
        else:
            kept.append((got, p, body + ctx))
    for got, p, what in kept:
        vclose(xyz(got), p, 0.0, "position given before, after later requests: " + what)


offs = st.one_of(st.just(0.0), st.just(0.0), gen.signed(gen.logreal(1e-6, 20)))
ask = st.tuples(st.integers(0, 2), st.sampled_from(["sun", "moon"]), offs, st.booleans()).map(list)
SUBS = [Sub("ephemeris", st.fixed_dictionaries({"epochs": st.lists(gen.mjd(1950, 2050), min_size=1, max_size=3),
                                                "ask": st.lists(ask, min_size=2, max_size=8)}), check, quick=15000)]
