"""C07 ground observations: independent topocentric geometry as oracle"""
import math

from hypothesis import strategies as st
from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import ENZ, LLA, PositionConvert
from openspace.coordinates.states import GCRF, ITRF
from openspace.estimation.obs import GroundObservation
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from pbt import gen, ref
from pbt.core import Sub, between, close, num, truth, vclose, xyz

RULE = ("sites anywhere (poles, equator, date line, altitudes -11..500 km, most below 10) observing one to three spacecraft placed at any "
        "azimuth, elevation (also below the horizon) and range 1..400000 km, epochs 1950..2050, several observations per site, spacecraft also after propagation to another epoch; "
        "non-trivial: every case")
ASSUMPTIONS = ["target at least 1 km from the site and 1000 km from the Earth's centre"]
PI = math.pi


def axes(lat, lon):
    return ((-math.sin(lon), math.cos(lon), 0.0),
            (-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)),
            ref.geodetic_normal(lat, lon))


def enz_of(az, el, r):
    return (r * math.cos(el) * math.sin(az), r * math.cos(el) * math.cos(az), r * math.sin(el))


def check_obs(ob, epoch, site_pos, enz, what):
    r = ref.norm(enz)
    rr = num(ob.range, "range")
    az = between(ob.azimuth, 0.0, 2 * PI, f"{what}: azimuth")
    el = between(ob.elevation, -PI / 2, PI / 2, f"{what}: elevation")
    close(rr, r, 1e-12 * r + 1e-10, f"{what}: range")
    vclose(enz_of(az, el, rr), enz, 1e-12 * r + 2e-10, f"{what}: direction named by azimuth {az!r} and elevation {el!r}")
    close(ob.epoch().value, epoch, 0.0, f"{what}: epoch of the observation")
    close(ob.observer_state.epoch.value, epoch, 0.0, f"{what}: epoch of the observer")
    vclose(xyz(ob.observer_state.position, "observer"), site_pos, 1e-9, f"{what}: position of the observer")
    vclose(xyz(ob.observer_state.velocity, "observer velocity"), (0, 0, 0), 0.0, f"{what}: Earth-fixed velocity of the site")


def check_site(c):
    lat, lon, alt = c["lat"], c["lon"], c["alt"]
    built_from = LLA(lat, lon, alt)
    site = GroundSite(built_from)
    # what the caller does with the coordinates afterwards does not move the site
    built_from.latitude, built_from.longitude, built_from.altitude = 0.3 - lat / 2, 1.0 - lon, alt + 3.0
    sp = ref.geodetic_to_itrf(lat, lon, alt)
    ax = axes(lat, lon)
    m = ENZ.matrix(lon, lat)
    for got, want, nm in zip((m.row1, m.row2, m.row3), ax, ("east", "north", "zenith")):
        vclose(xyz(got, nm), want, 2e-15, f"{nm} axis of the site at latitude {lat!r}, longitude {lon!r}")
    for t, az, el, r, v, go in c["obs"]:
        # a target at that azimuth, elevation and range, in the inertial frame of the epoch
        q = ref.add(sp, ref.mv(ref.mt(ax), enz_of(az, el, r)))
        if ref.norm(q) < 1000:
            continue
        e = Epoch(t)
        enz = xyz(site.enz_position(Vector3D(*q)), "enz")
        vclose(enz, enz_of(az, el, r), 1e-12 * r + 2e-10, "east-north-zenith position")
        g = xyz(PositionConvert.itrf.to_gcrf(Vector3D(*q), e), "gcrf")
        craft = Spacecraft(GCRF(e, Vector3D(*g), Vector3D(*v)))
        if go:  # observed at another epoch than it was built at, after another observation
            if ref.norm(g) < 6500:
                continue
            site.angles_and_range(craft)
            craft.step_to_epoch(Epoch(t + go / 86400.0))
            t = num(craft.current_epoch().value, "epoch")
            e = Epoch(t)
            g = xyz(craft.position(), "position")
        # where the spacecraft is in the Earth-fixed frame according to the code and to the published model
        fixed = xyz(PositionConvert.gcrf.to_itrf(craft.position(), craft.current_epoch()), "itrf")
        model = ref.mv(ref.gcrf_to_itrf_matrix(t), g)
        ob = site.angles_and_range(craft)
        check_obs(ob, t, sp, ref.mv(ax, ref.sub(fixed, sp)), "observation from a site")
        d = ref.norm(ref.sub(model, sp))
        if d < 0.1:
            continue
        got = ref.add(sp, ref.mv(ref.mt(ax), enz_of(ob.azimuth, ob.elevation, ob.range)))
        vclose(got, model, 8e-7 * ref.norm(g) + 1e-6, "Earth-fixed point seen by the site")
        close(ob.range, d, 8e-7 * ref.norm(g) + 1e-6, "straight-line range")
        # inverse
        gha = num(e.greenwich_hour_angle(), "hour angle")
        n = ref.norm(g)
        vclose(xyz(ob.ijk_position(), "ijk"), ref.mv(ref.frame_rot(2, -gha), fixed), 2e-9 * n, "observation turned into an IJK position")
        vclose(xyz(ob.gcrf_position(), "gcrf"), g, 6e-8 * n, "observation turned into a GCRF position")
        vclose(xyz(ob.gcrf_position(), "gcrf"), xyz(PositionConvert.itrf.to_gcrf(Vector3D(*fixed), e), "gcrf"), 2e-9 * n,
               "observation turned into a GCRF position")
        truth(xyz(craft.position()) == g and craft.current_epoch().value == t, "observing moved the spacecraft")
        vclose(xyz(site.itrf_position, "site"), sp, 1e-9, "site after observing")
        if go:
            continue
        # from angles
        re, ae = c["errs"]
        obs_state = ITRF.from_fixed(e, Vector3D(*sp))
        ob2 = GroundObservation.from_angles_and_range(obs_state, az, el, r, re, ae)
        check_obs(ob2, t, sp, enz_of(az, el, r), "observation built from angles and range")
        close(ob2.elevation, el, 1e-7 if abs(el) > 1.5 else 1e-12, "elevation given to an observation")
        if math.cos(el) > 1e-6:
            close(ref.wrap(ob2.azimuth - az), 0.0, 1e-14 / math.cos(el) + 1e-14 * abs(az), "azimuth given to an observation")
        close(ob2.range, r, 1e-14 * r, "range given to an observation")
        close(ob2.range_error, re, 0.0, "range error given to an observation")
        close(ob2.angular_error, ae, 0.0, "angular error given to an observation")
        n = ref.norm(q)
        vclose(xyz(ob2.gcrf_position(), "gcrf"), g, 6e-8 * n, "observation from angles turned into a GCRF position")
        vclose(xyz(ob2.ijk_position(), "ijk"), ref.mv(ref.frame_rot(2, -gha), q), 2e-9 * n, "observation from angles turned into an IJK position")
        obs_state.position.x = 1.0
        obs_state.epoch.value = 1.0
        check_obs(ob2, t, sp, enz_of(az, el, r), "observation after its observer state was changed")


els = st.one_of(gen.real(-PI / 2, PI / 2), gen.real(0, PI / 2), gen.near([0.0, PI / 2, -PI / 2], -PI / 2, PI / 2), st.just(0.0))
obs = st.tuples(gen.mjd(1950, 2050), gen.angle(0, 2 * PI), els, gen.logreal(1.0, 4e5), gen.scaled_unit(gen.real(0.1, 10)),
                st.one_of(st.just(0.0), st.just(0.0), gen.real(-600, 900), gen.signed(gen.logreal(0.01, 1000)))).map(list)
SUBS = [Sub("site", st.fixed_dictionaries({
    "lat": gen.latitude(), "lon": gen.angle(-PI, 2 * PI), "alt": st.one_of(gen.real(0, 10), st.just(0.0), gen.real(-0.4, 0.5), gen.real(-11, 500)),
    "obs": st.lists(obs, min_size=1, max_size=3), "errs": st.tuples(
        st.one_of(gen.logreal(1e-6, 10), gen.logreal(1e-12, 1e6), st.just(0.0)), st.one_of(gen.logreal(1e-9, 0.1), gen.logreal(1e-15, 1), st.just(0.0))).map(list)}), check_site,
    quick=6000, label=lambda c: ["below horizon" if any(o[2] < 0 for o in c["obs"]) else "above horizon",
                                 "near pole" if abs(c["lat"]) > 1.5 else "elsewhere"])]
