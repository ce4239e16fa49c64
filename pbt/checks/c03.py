"""C03 calendar: the standard library's proleptic Gregorian ordinal as oracle"""
import datetime
import math
from fractions import Fraction as F

from hypothesis import strategies as st
from openspace.math.functions import Conversions, sign
from openspace.time import Epoch

from pbt import gen
from pbt.core import Sub, Violation, close, num, truth

RULE = ("dates of years 1..9999 (evenly over all days, month ends, 28/29 February, century and leap years, year ends) "
        "with any time of day; pairs of dates days to centuries apart, offsets of 1e-9..1e6 days either sign; "
        "non-trivial: a date in January or February, on a month's last day, or with a non-zero time of day")
ASSUMPTIONS = ["the Python datetime module's proleptic Gregorian calendar"]
LAST = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def of_ordinal(n):
    d = datetime.date.fromordinal(n)
    return [d.year, d.month, d.day]


years = st.one_of(gen.ints(1, 9999), gen.ints(1850, 2150), st.sampled_from(
    [1, 4, 100, 200, 400, 1000, 1582, 1600, 1700, 1800, 1858, 1900, 1999, 2000, 2001, 2004, 2100, 2200, 2400, 9999]))
dates = st.one_of(
    gen.ints(1, datetime.date.max.toordinal()).map(of_ordinal),
    gen.ints(675000, 785000).map(of_ordinal),
    st.tuples(years, gen.ints(1, 12), gen.ints(0, 1)).map(
        lambda t: [t[0], t[1], 1 if t[2] == 0 else LAST[t[1] - 1] + (1 if t[1] == 2 and leap(t[0]) else 0)]),
    st.tuples(years, gen.ints(1, 12), gen.ints(1, 28)).map(list),
    st.tuples(years, gen.ints(0, 2)).map(lambda t: [t[0], 2, 28] if t[1] == 0 else (
        [t[0], 3, 1] if t[1] == 1 or not leap(t[0]) else [t[0], 2, 29])))
seconds = st.one_of(gen.real(0, 59.999999999), gen.ints(0, 59).map(float), gen.ints(0, 59), st.sampled_from([0.0, 59.999]))
times = st.one_of(st.tuples(gen.ints(0, 23), gen.ints(0, 59), seconds).map(list),
                  st.sampled_from([[0, 0, 0.0], [12, 0, 0.0], [23, 59, 59.999], [0, 0, 1e-3]]))
instants = st.tuples(dates, times).map(lambda t: t[0] + t[1])


def exact(i):
    y, m, d, h, mi, s = i
    return F(datetime.date(y, m, d).toordinal() - 678576) + F(h, 24) + F(mi, 1440) + F(s) / 86400


def tol(x):
    return 4 * math.ulp(abs(x) + 1)


def check_calendar(c):
    i, j = c["i"], c["j"]
    e1, e2 = Epoch.from_gregorian(*i), Epoch.from_gregorian(*j)
    x1, x2 = exact(i), exact(j)
    v1, v2 = num(e1.value, "epoch"), num(e2.value, "epoch")
    close(v1, float(x1), tol(float(x1)), f"modified Julian date of {i}")
    close(v2, float(x2), tol(float(x2)), f"modified Julian date of {j}")
    if abs(x1 - x2) > 4 * (F(tol(float(x1))) + F(tol(float(x2)))):
        truth((v1 < v2) == (x1 < x2), f"calendar order of {i} and {j} is not kept: {v1} {v2}")
    jd = num(e1.julian_value(), "Julian date")
    close(jd, v1 + 2400000.5, 2 * math.ulp(jd), "Julian date")
    cen = num(e1.julian_centuries_past_j2000(), "centuries")
    close(cen, (v1 - 51544.5) / 36525, 1e-13 + 4e-16 * abs(cen), "Julian centuries past J2000")
    close(e1.value, v1, 0.0, "epoch value after reading it")


def check_shift(c):
    v, t = c["v"], c["t"]
    e = Epoch(v)
    f = e.plus_days(t)
    truth(f is not e, "shifting an epoch returned the same object")
    close(f.value, v + t, math.ulp(abs(v) + abs(t)), "epoch shifted by days")
    close(e.value, v, 0.0, "the shifted epoch")
    f.value = 1.0
    close(e.value, v, 0.0, "the original after its shifted copy was changed")
    g = e.copy()
    close(g.value, v, 0.0, "copy of an epoch")
    e.value = v + 5
    close(g.value, v, 0.0, "copy of an epoch after the original was changed")
    close(Epoch(v).julian_centuries_past_j2000() * 36525, v - 51544.5, 1e-9, "days from J2000")
    close(Epoch(v).julian_value(), v + 2400000.5, 1e-9, "Julian date")


def check_units(c):
    h, m, s = c["h"], c["m"], c["s"]
    sc = abs(h) / 24 + abs(m) / 1440 + abs(s) / 86400
    close(Conversions.hms_to_decimal_day(h, m, s), float(F(h) / 24 + F(m) / 1440 + F(s) / 86400), 4e-16 * 2 * sc + 1e-300,
          "hours, minutes, seconds as days")
    d = float(F(h) + F(m) / 60 + F(s) / 3600)
    sc = abs(h) + abs(m) / 60 + abs(s) / 3600
    close(Conversions.dms_to_radians(h, m, s), math.pi / 180 * d, 1e-15 * sc * math.pi / 180 + 1e-300,
          "degrees, minutes, seconds as radians")


def check_sign(c):
    x = c["x"]
    close(sign(x), (x > 0) - (x < 0), 0.0, f"sign of {x!r}")


def nontriv(c):
    y, m, d, h, mi, s = c["i"]
    return m <= 2 or d >= 28 or h or mi or s


SUBS = [
    Sub("calendar", st.fixed_dictionaries({"i": instants, "j": instants}), check_calendar, quick=30000, nontrivial=nontriv,
        label=lambda c: ["leap day" if c["i"][1:3] == [2, 29] else "other day", "century year" if c["i"][0] % 100 == 0 else ""]),
    Sub("next day", st.tuples(gen.ints(1, datetime.date.max.toordinal() - 1), times).map(
        lambda t: {"i": of_ordinal(t[0]) + t[1], "j": of_ordinal(t[0] + 1) + t[1]}), check_calendar, quick=10000,
        nontrivial=nontriv),
    Sub("shift", st.fixed_dictionaries({"v": st.one_of(gen.mjd(1800, 2200), gen.real(-700000, 3000000)),
                                        "t": st.one_of(gen.signed(gen.logreal(1e-9, 1e6)), st.sampled_from([0.0, 1.0, -1.0, 0.5]))}),
        check_shift, quick=10000, nontrivial=lambda c: c["t"] != 0),
    Sub("units", st.fixed_dictionaries({k: st.one_of(gen.real(-1000, 1000), gen.real(0, 60), gen.ints(0, 59))
                                        for k in "hms"}), check_units, quick=8000),
    Sub("sign", st.fixed_dictionaries({"x": st.one_of(gen.signed(gen.logreal(1e-300, 1e300)), gen.real(-2, 2), gen.ints(-3, 3),
                                                      st.sampled_from([0.0, -0.0, 0, 5e-324, -5e-324]))}), check_sign, quick=500,
        nontrivial=lambda c: True),
]
