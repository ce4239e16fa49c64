"""C06 geodetic coordinates: ellipsoid normal construction as oracle"""
import math

from hypothesis import strategies as st
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import LLA, PositionConvert
from openspace.math.linalg import Vector3D

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, turn, vclose, xyz

RULE = ("latitudes, longitudes and altitudes over the whole range with poles, equator, quarter meridians, the ellipsoid "
        "surface and their neighbourhoods (1e-12 and up); Earth-fixed positions also drawn directly as vectors; "
        "non-trivial: every case with a non-zero latitude or longitude")
ASSUMPTIONS = ["altitudes -50..400000 km (closer to the Earth's centre the inverse is not unique)"]
PI = math.pi

lons = st.one_of(gen.angle(-PI, 2 * PI), gen.angle(-PI, 2 * PI), gen.real(-20, 20))
alts = st.one_of(gen.real(-50, 2000), gen.logreal(1e-6, 4e5), gen.real(0, 400000), st.sampled_from([0.0, -50.0, 35786.0, 400000.0, 1e-9]))


def back(p, what):
    """convert to geodetic and check it reproduces the point"""
    v = Vector3D(*p)
    g = PositionConvert.itrf.to_lla(v)
    truth(xyz(v) == tuple(p), "to_lla modified its argument")
    lat = between(g.latitude, -PI / 2, PI / 2, f"{what}: latitude")
    lon = turn(g.longitude, math.atan2(p[1], p[0]), f"{what}: longitude")
    alt = num(g.altitude, f"{what}: altitude")
    n = ref.norm(p)
    vclose(ref.geodetic_to_itrf(lat, lon, alt), p, 1e-9 * n, f"{what}: point named by latitude {lat!r}, longitude {lon!r}, altitude {alt!r}")
    again = xyz(PositionConvert.lla.to_itrf(g), "itrf")
    vclose(again, p, 1e-9 * n, f"{what}: Earth-fixed to geodetic and back")
    given = Vector3D(*p)
    site = GroundSite.from_itrf_position(given)
    truth(xyz(given) == tuple(p), f"{what}: building a site changed the position it was given")
    given.x, given.z = given.x + 5.0, given.z - 7.0  # does not move the site
    vclose(xyz(site.itrf_position, "site"), p, 1e-9 * n, f"{what}: site built from an Earth-fixed position")
    close(site.latitude, lat, 1e-12, "site latitude")
    close(site.longitude, lon, 1e-12, "site longitude")
    return lat, lon, alt


def check_lla(c):
    lat, lon, alt = c["lat"], c["lon"], c["alt"]
    g = LLA(lat, lon, alt)
    want = ref.geodetic_to_itrf(lat, lon, alt)
    n = ref.norm(want)
    p = xyz(PositionConvert.lla.to_itrf(g), "itrf")
    truth((g.latitude, g.longitude, g.altitude) == (lat, lon, alt), "to_itrf modified its argument")
    vclose(p, want, 4e-15 * n, f"Earth-fixed position of latitude {lat!r}, longitude {lon!r}, altitude {alt!r}")
    s = GroundSite(g)
    vclose(xyz(s.itrf_position, "site"), want, 4e-15 * n, "Earth-fixed position of a site")
    close(s.latitude, lat, 0.0, "latitude of a site")
    close(s.longitude, lon, 0.0, "longitude of a site")
    la, lo, al = back(p, f"latitude {lat!r}, longitude {lon!r}, altitude {alt!r}")
    m = n / (ref.RE - 100 + alt)
    close(la, lat, 1.5e-9 * m + 1e-15, "recovered latitude")
    close(al, alt, 1e-9 * n, "recovered altitude")
    k = math.cos(lat) * m
    if k > 1e-7:
        close(ref.wrap(lo - lon), 0.0, 2e-9 / k + 1e-15 * abs(lon), "recovered longitude")


def check_xyz(c):
    p = ref.mul(tuple(c["u"]), c["r"])
    back(p, f"position {p}")


SUBS = [
    Sub("geodetic", st.fixed_dictionaries({"lat": gen.latitude(), "lon": lons, "alt": alts}), check_lla, quick=25000,
        nontrivial=lambda c: c["lat"] != 0 or c["lon"] != 0,
        label=lambda c: ["within 1e-3 of a pole" if abs(abs(c["lat"]) - PI / 2) < 1e-3 else
                         ("within 1e-3 of the equator" if abs(c["lat"]) < 1e-3 else ("north" if c["lat"] > 0 else "south"))]),
    Sub("vector", st.fixed_dictionaries({"u": gen.unit(), "r": st.one_of(gen.logreal(6379.0, 4e5), gen.real(6340.0, 6400.0))}), check_xyz,
        quick=20000,
        examples=[{"u": [0.0, 0.0, 1.0], "r": 6356.75}, {"u": [0.0, 0.0, -1.0], "r": 42164.0}, {"u": [1e-9, 0.0, 1.0], "r": 7000.0}]),
]
