"""C04 sidereal angle: IAU-1982 mean sidereal time as oracle"""
import math

from hypothesis import strategies as st
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth

RULE = ("epochs 1800..2200 anywhere and within 1e-9..1e-3 days of 0h UTC, 0h TDT and noon, each with a list of further "
        "epochs 1e-11..40 days away asked in the same run; non-trivial: every case with at least one pair")
ASSUMPTIONS = ["UT1 = UTC, as the code documents; terrestrial time 69.184 s ahead"]
TWO_PI = 2 * math.pi
RATE = 1.00273790935 * TWO_PI  # per day


def check(c):
    base = c["t"]
    epochs = [base] + [base + d for d in c["d"]] + [base]
    seen = []
    for t in epochs:
        e = Epoch(t)
        g = between(e.greenwich_hour_angle(), 0.0, TWO_PI, "Greenwich hour angle")
        close(e.value, t, 0.0, "epoch after asking for its hour angle")
        T = abs(ref.centuries(t))
        close(ref.wrap(g - ref.gmst82(ref.utc(t))), 0.0, 1e-7 + 3e-7 * T, f"Greenwich hour angle at MJD {t!r} against GMST")
        seen.append((t, g))
    for (t1, g1), (t2, g2) in zip(seen, seen[1:]):
        dt = t2 - t1
        if abs(dt) < 50:
            # rate of the expression at this date, from the reference
            want = ref.wrap(ref.gmst82(ref.utc(t2)) - ref.gmst82(ref.utc(t1)))
            close(ref.wrap(g2 - g1 - want), 0.0, 1.2e-8 + 1e-8 * abs(dt), f"advance of the hour angle from {t1!r} to {t2!r}")
            if abs(dt) < 0.4:
                close(ref.wrap(g2 - g1 - RATE * dt), 0.0, 2e-8, f"sidereal rate between {t1!r} and {t2!r}")
    close(seen[0][1], seen[-1][1], 0.0, "hour angle asked twice for the same epoch")


offsets = st.one_of(gen.signed(gen.logreal(1e-11, 40.0)), gen.signed(gen.logreal(1e-6, 1.0)), st.sampled_from([1.0, -1.0, 0.5, 365.25]))
SUBS = [Sub("gmst", st.fixed_dictionaries({"t": gen.mjd(1801, 2199), "d": st.lists(offsets, min_size=1, max_size=6)}), check,
            quick=25000,
            label=lambda c: ["within 1e-3 d of 0h UTC" if abs(math.remainder(ref.utc(c["t"]), 1.0)) < 1e-3 else "other"])]
