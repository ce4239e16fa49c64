"""C05 frames: independently built precession, nutation and sidereal rotations as oracle"""
import math

from hypothesis import strategies as st
from openspace.bodies.celestial import Earth
from openspace.coordinates.positions import PositionConvert
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, close, num, truth, vclose, xyz

RULE = ("a history of 1..5 conversions: positions of any direction (axes, near axes) and length 1e-3..1e7 km, epochs "
        "1900..2100 anywhere or seconds to days after the previous one, every call repeated in reverse order at the end, with new objects and with one epoch and one vector object reused; "
        "non-trivial: every case (all positions are non-zero)")
ASSUMPTIONS = ["nutation is first order in its two angles in the cited model, which leaves 5e-8 relative non-orthogonality"]


def rows(m, what):
    return [xyz(m.row1, what), xyz(m.row2, what), xyz(m.row3, what)]


def mclose(got, want, tol, what):
    g = rows(got, what)
    for i in range(3):
        for j in range(3):
            close(g[i][j], want[i][j], tol, f"{what}[{i}][{j}]")


def epochs(c):
    out, t = [], c["t"]
    for p, d in c["calls"]:
        t = min(88069.0, max(15020.0, t + d))
        out.append((tuple(p), t))
    return out


G = PositionConvert.gcrf
I = PositionConvert.itrf


def convert_all(p, t, e=None, v=None):
    if e is None:
        e, v = Epoch(t), Vector3D(*p)
    else:  # objects used before for other arguments
        e.value = t
        v.x, v.y, v.z = p
    r = {
        "gcrf to mod": xyz(G.to_mod(v, e), "mod"), "gcrf to tod": xyz(G.to_tod(v, e), "tod"),
        "gcrf to itrf": xyz(G.to_itrf(v, e), "itrf"), "gcrf to ijk": xyz(G.to_ijk(v, e), "ijk"),
        "itrf to tod": xyz(I.to_tod(v, e), "tod"), "itrf to mod": xyz(I.to_mod(v, e), "mod"),
        "itrf to gcrf": xyz(I.to_gcrf(v, e), "gcrf"), "itrf to ijk": xyz(I.to_ijk(v, e), "ijk"),
    }
    truth(xyz(v) == p and e.value == t, "a conversion modified its arguments")
    for q in (G.to_mod(v, e), G.to_tod(v, e), G.to_itrf(v, e), G.to_ijk(v, e), I.to_tod(v, e), I.to_mod(v, e), I.to_gcrf(v, e), I.to_ijk(v, e)):
        q.x += 1.0
        q.y -= 1.0
        q.z *= 3.0
    truth(xyz(v) == p and e.value == t, "changing the result of a conversion modified its arguments")
    return r


def check(c):
    calls = epochs(c)
    results, kept = [], []
    for p, t in calls:
        n = ref.norm(p)
        e = Epoch(t)
        r = convert_all(p, t)
        results.append(r)
        gha = num(e.greenwich_hour_angle(), "hour angle")
        P, N, NR, R = ref.precession(t), ref.nutation_lin(t), ref.nutation_rot(t), ref.gast_rot(t, gha)
        # published model, full rotations
        mod = ref.mv(P, p)
        tod = ref.mv(NR, mod)
        vclose(r["gcrf to mod"], mod, 3e-13 * n, f"GCRF to mean of date at {t!r}")
        vclose(r["gcrf to tod"], tod, 2.5e-8 * n, f"GCRF to true of date at {t!r}")
        itrf = ref.mv(R, tod)
        vclose(r["gcrf to itrf"], itrf, 2.5e-8 * n, f"GCRF to ITRF at {t!r}")
        own = ref.mv(ref.gast_rot(t, ref.gmst82(ref.utc(t))), tod)
        vclose(r["gcrf to itrf"], own, 7e-7 * n, f"GCRF to ITRF at {t!r} with IAU-1982 sidereal time")
        # reverse
        btod = ref.mv(ref.mt(R), p)
        vclose(r["itrf to tod"], btod, 3e-13 * n, f"ITRF to true of date at {t!r}")
        bmod = ref.mv(ref.mt(NR), btod)
        vclose(r["itrf to mod"], bmod, 2.5e-8 * n, f"ITRF to mean of date at {t!r}")
        vclose(r["itrf to gcrf"], ref.mv(ref.mt(P), bmod), 2.5e-8 * n, f"ITRF to GCRF at {t!r}")
        vclose(r["itrf to ijk"], ref.mv(ref.frame_rot(2, -gha), p), 3e-13 * n, f"ITRF to IJK at {t!r}")
        vclose(r["gcrf to ijk"], ref.mv(ref.frame_rot(2, -gha), r["gcrf to itrf"]), 3e-13 * n, f"GCRF to IJK at {t!r}")
        # chain of stages
        nm = rows(Earth.nutation(e), "nutation")
        vclose(r["gcrf to tod"], ref.mv(nm, r["gcrf to mod"]), 3e-13 * n, "nutation of the mean-of-date position")
        vclose(r["gcrf to itrf"], ref.mv(R, r["gcrf to tod"]), 3e-13 * n, "sidereal rotation of the true-of-date position")
        vclose(r["itrf to mod"], ref.mv(ref.mt(nm), r["itrf to tod"]), 3e-13 * n, "reverse nutation of the true-of-date position")
        vclose(r["itrf to gcrf"], ref.mv(ref.mt(P), r["itrf to mod"]), 3e-13 * n, "reverse precession")
        # matrices
        mclose(Earth.precession(e), P, 1e-13, "precession matrix")
        mclose(Earth.nutation(e), NR, 2e-8, "nutation matrix")
        mclose(Earth.rotation(e), R, 1e-13, "Earth rotation matrix")
        for m in (Earth.precession(e), Earth.nutation(e), Earth.rotation(e)):
            kept.append((lambda m=m: rows(m, "matrix"), rows(m, "matrix"), t))
        v = Vector3D(*p)
        for q in (G.to_mod(v, e), G.to_tod(v, e), G.to_itrf(v, e), G.to_ijk(v, e), I.to_tod(v, e), I.to_mod(v, e), I.to_gcrf(v, e), I.to_ijk(v, e)):
            kept.append((lambda q=q: xyz(q, "result"), xyz(q, "result"), t))
        close(Earth.obliquity_of_ecliptic_at_epoch(e), ref.obliquity(t), 1e-14, "mean obliquity")
        # round trips and lengths
        vclose(xyz(I.to_gcrf(Vector3D(*r["gcrf to itrf"]), e), "gcrf"), p, 5e-8 * n, f"GCRF to ITRF and back at {t!r}")
        vclose(xyz(G.to_itrf(Vector3D(*r["itrf to gcrf"]), e), "itrf"), p, 5e-8 * n, f"ITRF to GCRF and back at {t!r}")
        vclose(xyz(I.to_mod(Vector3D(*r["gcrf to itrf"]), e), "mod"), r["gcrf to mod"], 5e-8 * n, "mean of date through ITRF")
        vclose(xyz(I.to_tod(Vector3D(*r["gcrf to itrf"]), e), "tod"), r["gcrf to tod"], 3e-13 * n, "true of date through ITRF")
        for k, q in r.items():
            close(ref.norm(q), n, 5e-8 * n, f"length after {k}")
    e, v = Epoch(calls[0][1]), Vector3D(*calls[0][0])
    for old in ((), (e, v)):
        for (p, t), r in reversed(list(zip(calls, results))):
            again = convert_all(p, t, *old)
            for k in r:
                truth(again[k] == r[k], f"{k} at {t!r} gave {r[k]} first and {again[k]} after other conversions")
    for look, was, t in kept:
        truth(look() == was, f"a result for {t!r}, {was}, changed to {look()} with later conversions")


pos = gen.scaled_unit(gen.logreal(1e-3, 1e7, [7000.0, 42164.0]))
gap = st.one_of(gen.signed(gen.logreal(1e-9, 3.0)), gen.signed(gen.logreal(1e-5, 40000.0)), st.just(0.0))
SUBS = [Sub("frames", st.fixed_dictionaries({"t": gen.mjd(1900, 2100), "calls": st.lists(st.tuples(pos, gap).map(list), min_size=1, max_size=5)}),
            check, quick=6000, label=lambda c: [f"{len(c['calls'])} calls"])]
