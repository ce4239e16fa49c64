"""C10 anomalies: Kepler's equation as the oracle (residuals, ellipse geometry)"""
import math

from hypothesis import strategies as st
from openspace.math.functions import EquationsOfMotion as Q

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, turn, vclose

RULE = ("eccentricities 0..0.9999 with many near both ends, mean anomalies of any sign from 1e-12 to thousands of revolutions, at and "
        "next to multiples of a quarter turn; true and eccentric anomalies anywhere; non-trivial: eccentricity above 1e-6 and an anomaly "
        "that is not a multiple of pi")
ASSUMPTIONS = ["mean anomalies up to 1e6 rad"]
PI = math.pi
TP = 2 * PI


def check_kepler(c):
    for m, e in c["cases"]:
        ea = between(Q.EA.from_ma_e(m, e), 0.0, TP, f"eccentric anomaly of M={m!r}, e={e!r}")
        tol = 1e-11 + 1e-15 * abs(m)
        close(ref.wrap(ea - e * math.sin(ea) - m), 0.0, tol, f"residual of Kepler's equation for M={m!r}, e={e!r}, E={ea!r}")
        ma = between(Q.MA.from_ea_e(ea, e), 0.0, TP, "mean anomaly")
        close(ref.wrap(ma - m), 0.0, tol, f"mean anomaly after a round trip, M={m!r}, e={e!r}")


def check_ea(c):
    ea, e, a, mu = c["ea"], c["e"], c["a"], c["mu"]
    ce, se = math.cos(ea), math.sin(ea)
    ma = between(Q.MA.from_ea_e(ea, e), 0.0, TP, "mean anomaly")
    close(ref.wrap(ma - (ea - e * se)), 0.0, 4e-15, f"mean anomaly of E={ea!r}, e={e!r}")
    rho = 1 - e * ce
    b = math.sqrt((1 - e) * (1 + e))
    nu = turn(Q.NU.from_e_ea(e, ea), math.atan2(b * se, ce - e), "true anomaly")
    ctx = f" for E={ea!r}, e={e!r}: nu={nu!r}"
    vclose((math.cos(nu), math.sin(nu)), ((ce - e) / rho, b * se / rho), 1e-14 / (1 - e), "direction of the true anomaly" + ctx)
    if abs(se) > 1e-12 / (1 - e):
        truth((nu < PI) == (se > 0), "true and eccentric anomaly lie in different half revolutions" + ctx)
    # back from the state
    n = math.sqrt(mu / a) / a
    r = a * rho
    rdv = a * a * n * e * se
    if e > 1e-9:
        g = between(Q.EA.from_rdv_r_a_n(rdv, r, a, n), 0.0, TP, "eccentric anomaly from r and v")
        close(ref.wrap(g - ea), 0.0, 1e-13 + 8e-15 / e, f"eccentric anomaly from r.v={rdv!r}, r={r!r}, a={a!r}, n={n!r}")
    else:
        between(Q.EA.from_rdv_r_a_n(rdv, r, a, n), 0.0, TP, "eccentric anomaly from r and v")


def check_ma(c):
    """eccentric anomalies within a turn either way"""
    ea, e = c["ea"], c["e"]
    ma = between(Q.MA.from_ea_e(ea, e), 0.0, TP, f"mean anomaly of E={ea!r}, e={e!r}")
    close(ref.wrap(ma - (ea - e * math.sin(ea))), 0.0, 4e-15, f"mean anomaly of E={ea!r}, e={e!r}")
    nu = turn(Q.NU.from_e_ea(e, ea), math.atan2(math.sqrt((1 - e) * (1 + e)) * math.sin(ea), math.cos(ea) - e), "true anomaly")
    rho = 1 - e * math.cos(ea)
    vclose((math.cos(nu), math.sin(nu)), ((math.cos(ea) - e) / rho, math.sqrt((1 - e) * (1 + e)) * math.sin(ea) / rho), 1e-14 / (1 - e),
           f"direction of the true anomaly for E={ea!r}, e={e!r}: nu={nu!r}")


def check_w(c):
    u, nu = (x if x < TP else 0.0 for x in (c["u"], c["nu"]))
    w = turn(Q.W.from_u_nu(u, nu), u - nu, f"argument of perigee for u={u!r}, nu={nu!r}")
    close(ref.wrap(w - (u - nu)), 0.0, 4e-15, f"argument of perigee for u={u!r}, nu={nu!r}")


ecc = st.one_of(gen._grid(0, 0.99), gen._grid(0, 0.99), gen.logreal(1e-9, 0.9), gen.logreal(1e-4, 0.1).map(lambda x: 1 - x),
                st.sampled_from([0.0, 0.5, 0.9, 0.99, 0.9999]))
mas = st.one_of(gen.angle(0, TP), gen.angle(0, TP), gen.angle(), gen.signed(gen.logreal(1e-12, 1e6)), gen.real(-100, 100),
                st.tuples(gen.ints(-3000, 3000), gen.angle(0, TP)).map(lambda t: t[0] * TP + t[1]),
                st.tuples(gen.ints(-50, 50), gen.signed(gen.logreal(1e-12, 0.5))).map(lambda t: t[0] * PI + t[1]))
one = st.tuples(mas, ecc).map(list)
SUBS = [
    Sub("kepler", st.fixed_dictionaries({"cases": st.lists(one, min_size=1, max_size=3)}), check_kepler, quick=15000,
        nontrivial=lambda c: any(e > 1e-6 and abs(math.sin(m)) > 1e-9 for m, e in c["cases"]),
        label=lambda c: ["e > 0.99" if max(e for _, e in c["cases"]) > 0.99 else "e <= 0.99"]
        + (["negative M"] if min(m for m, _ in c["cases"]) < 0 else []) + (["many revolutions"] if max(abs(m) for m, _ in c["cases"]) > TP else [])),
    Sub("geometry", st.fixed_dictionaries({"ea": gen.angle(0, TP), "e": ecc, "a": gen.logreal(1e2, 1e8), "mu": gen.logreal(1, 1e12, [ref.MU])}),
        check_ea, quick=15000, nontrivial=lambda c: c["e"] > 1e-6 and abs(math.sin(c["ea"])) > 1e-9),
    Sub("negative", st.fixed_dictionaries({"ea": gen.angle(-TP, TP), "e": ecc}), check_ma, quick=8000),
    Sub("perigee", st.fixed_dictionaries({"u": gen.angle(0, TP), "nu": gen.angle(0, TP)}), check_w, quick=8000),
]
