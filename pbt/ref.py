"""Independent reference models.  Nothing here imports the code under test.

Constants are the published ones (WGS-84/EGM-96 mu, WGS-84 radius, IAU-1976 precession, Montenbruck & Gill
low-precision Sun, Moon and nutation, EGM2008 coefficients), written down here from those sources.
"""
import math
from math import acos, asin, atan2, cos, degrees, exp, fmod, hypot, log, pi, radians, sin, sqrt, tan

MU = 398600.4418
RE = 6378.137
FLAT = 1 / 298.2572235
MU_SUN = 1.327124400419e11
MU_MOON = 4902.800305555
AU = 149597870.691
P_SUN = 4.56e-6
G0 = 0.00981
DAY = 86400.0
TWO_PI = 2 * pi
EPS0 = radians(23.43929111)
ARCSEC = pi / 648000.0


# ---------------------------------------------------------------- vectors as tuples

def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def mul(a, s):
    return tuple(x * s for x in a)


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return sqrt(dot(a, a))


def unit(a):
    return mul(a, 1 / norm(a))


def angle(a, b):
    """true angle of two non-zero vectors, accurate everywhere"""
    a, b = unit(a), unit(b)
    return 2 * atan2(norm(sub(a, b)), norm(add(a, b)))


def dist(a, b):
    return norm(sub(a, b))


def mv(m, v):
    return tuple(dot(r, v) for r in m)


def mm(a, b):
    bt = list(zip(*b))
    return tuple(tuple(dot(r, c) for c in bt) for r in a)


def mt(a):
    return tuple(zip(*a))


def frame_rot(axis, t):
    """matrix of a rotation of the coordinate frame about axis 0, 1 or 2 (passive)"""
    c, s = cos(t), sin(t)
    if axis == 0:
        return ((1, 0, 0), (0, c, s), (0, -s, c))
    if axis == 1:
        return ((c, 0, -s), (0, 1, 0), (s, 0, c))
    return ((c, s, 0), (-s, c, 0), (0, 0, 1))


def rodrigues(v, axis, t):
    k = unit(axis)
    c, s = cos(t), sin(t)
    kv = cross(k, v)
    kd = dot(k, v)
    return tuple(v[i] * c + kv[i] * s + k[i] * kd * (1 - c) for i in range(3))


def wrap(x):
    """to [-pi, pi]"""
    return math.remainder(x, TWO_PI)


# ---------------------------------------------------------------- time

def centuries(mjd):
    return (mjd - 51544.5) / 36525.0


def gmst82(mjd_ut):
    """Greenwich mean sidereal time, IAU 1982, radians in [0, 2 pi)"""
    day = math.floor(mjd_ut)
    ut = (mjd_ut - day) * 86400.0
    t0 = (day - 51544.5) / 36525.0
    t = (mjd_ut - 51544.5) / 36525.0
    g = 24110.54841 + 8640184.812866 * t0 + 1.002737909350795 * ut + (0.093104 - 6.2e-6 * t) * t * t
    return (g % 86400.0) / 86400.0 * TWO_PI


# ---------------------------------------------------------------- Earth orientation

def obliquity(mjd):
    t = centuries(mjd)
    return EPS0 + ARCSEC * (-46.8150 * t - 0.00059 * t * t + 0.001813 * t ** 3)


def precession(mjd):
    t = centuries(mjd)
    zeta = ARCSEC * (2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3)
    z = zeta + ARCSEC * (0.79280 * t * t + 0.000205 * t ** 3)
    theta = ARCSEC * (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3)
    return mm(frame_rot(2, -z), mm(frame_rot(1, theta), frame_rot(2, -zeta)))


def nutation_angles(mjd):
    d = mjd - 51544.5
    f1 = radians(125.0 - 0.05295 * d)
    f2 = radians(200.9 + 1.97129 * d)
    dpsi = radians(-0.0048 * sin(f1) - 0.0004 * sin(f2))
    deps = radians(0.0026 * cos(f1) + 0.0002 * cos(f2))
    return dpsi, deps


def nutation_rot(mjd):
    """the full rotation"""
    dpsi, deps = nutation_angles(mjd)
    eps = obliquity(mjd)
    return mm(frame_rot(0, -(eps + deps)), mm(frame_rot(2, -dpsi), frame_rot(0, eps)))


def nutation_lin(mjd):
    """first order in the nutation angles, as the cited model writes it"""
    dpsi, deps = nutation_angles(mjd)
    eps = obliquity(mjd)
    c, s = dpsi * cos(eps), dpsi * sin(eps)
    return ((1, -c, -s), (c, 1, -deps), (s, deps, 1))


def gast_rot(mjd, gmst):
    dpsi, _ = nutation_angles(mjd)
    return frame_rot(2, gmst + dpsi * cos(obliquity(mjd)))


def utc(mjd):
    return mjd - 69.184 / 86400.0


def gcrf_to_itrf_matrix(mjd, gmst=None):
    if gmst is None:
        gmst = gmst82(utc(mjd))
    return mm(gast_rot(mjd, gmst), mm(nutation_lin(mjd), precession(mjd)))


# ---------------------------------------------------------------- ellipsoid

def geodetic_normal(lat, lon):
    return (cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat))


def geodetic_to_itrf(lat, lon, alt):
    """the point of the ellipsoid whose normal has this direction (via its parametric latitude) plus alt normals"""
    b = RE * (1 - FLAT)
    beta_c, beta_s = RE * cos(lat), b * sin(lat)
    k = hypot(beta_c, beta_s)
    surf = (RE * beta_c / k * cos(lon), RE * beta_c / k * sin(lon), b * beta_s / k)
    return add(surf, mul(geodetic_normal(lat, lon), alt))


# ---------------------------------------------------------------- Sun and Moon

def rot_ecl_to_eq(v):
    c, s = cos(EPS0), sin(EPS0)
    return (v[0], c * v[1] - s * v[2], s * v[1] + c * v[2])


def sun(mjd):
    """Satellite Orbits (3.43)-(3.45)"""
    t = centuries(mjd)
    m = radians(357.5256 + 35999.049 * t)
    lon = radians(282.94) + m + ARCSEC * (6892 * sin(m) + 72 * sin(2 * m))
    r = (149.619 - 2.499 * cos(m) - 0.021 * cos(2 * m)) * 1e6
    return rot_ecl_to_eq((r * cos(lon), r * sin(lon), 0.0))


_MOON_LON = [  # arcsec, multiples of l, l', F, D
    (22640, 1, 0, 0, 0), (769, 2, 0, 0, 0), (-4586, 1, 0, 0, -2), (2370, 0, 0, 0, 2), (-668, 0, 1, 0, 0),
    (-412, 0, 0, 2, 0), (-212, 2, 0, 0, -2), (-206, 1, 1, 0, -2), (192, 1, 0, 0, 2), (-165, 0, 1, 0, -2),
    (148, 1, -1, 0, 0), (-125, 0, 0, 0, 1), (-110, 1, 1, 0, 0), (-55, 0, 0, 2, -2)]
_MOON_LAT = [
    (-526, 0, 0, 1, -2), (44, 1, 0, 1, -2), (-31, -1, 0, 1, -2), (-25, -2, 0, 1, 0), (-23, 0, 1, 1, -2),
    (21, -1, 0, 1, 0), (11, 0, -1, 1, -2)]
_MOON_R = [
    (-20905, 1, 0, 0, 0), (-3699, -1, 0, 0, 2), (-2956, 0, 0, 0, 2), (-570, 2, 0, 0, 0), (246, 2, 0, 0, -2),
    (-205, 0, 1, 0, -2), (-171, 1, 0, 0, 2), (-152, 1, 1, 0, -2)]


def moon(mjd):
    """Satellite Orbits (3.47)-(3.51), referred to the equinox of J2000"""
    t = centuries(mjd)
    l0 = radians(218.31617 + 481267.88088 * t - 1.3972 * t)
    args = [radians(x) for x in (134.96292 + 477198.86753 * t, 357.52543 + 35999.04944 * t,
                                 93.27283 + 483202.01873 * t, 297.85027 + 445267.11135 * t)]

    def ph(k):
        return math.fsum(n * a for n, a in zip(k, args))

    dl = ARCSEC * math.fsum(c * sin(ph(k)) for c, *k in _MOON_LON)
    f = args[2]
    beta = ARCSEC * (18520 * sin(f + dl + ARCSEC * (412 * sin(2 * f) + 541 * sin(args[1])))
                     + math.fsum(c * sin(ph(k)) for c, *k in _MOON_LAT))
    r = 385000 + math.fsum(c * cos(ph(k)) for c, *k in _MOON_R)
    lam = l0 + dl
    return rot_ecl_to_eq((r * cos(beta) * cos(lam), r * cos(beta) * sin(lam), r * sin(beta)))


_ML = [(0,0,1,0,6288774,-20905355),(2,0,-1,0,1274027,-3699111),(2,0,0,0,658314,-2955968),(0,0,2,0,213618,-569925),
       (0,1,0,0,-185116,48888),(0,0,0,2,-114332,-3149),(2,0,-2,0,58793,246158),(2,-1,-1,0,57066,-152138),
       (2,0,1,0,53322,-170733),(2,-1,0,0,45758,-204586),(0,1,-1,0,-40923,-129620),(1,0,0,0,-34720,108743),
       (0,1,1,0,-30383,104755),(2,0,0,-2,15327,10321),(0,0,1,2,-12528,0),(0,0,1,-2,10980,79661),
       (4,0,-1,0,10675,-34782),(0,0,3,0,10034,-23210),(4,0,-2,0,8548,-21636),(2,1,-1,0,-7888,24208),
       (2,1,0,0,-6766,30824),(1,0,-1,0,-5163,-8379),(1,1,0,0,4987,-16675),(2,-1,1,0,4036,-12831),
       (2,0,2,0,3994,-10445),(4,0,0,0,3861,-11650),(2,0,-3,0,3665,14403)]
_MB = [(0,0,0,1,5128122),(0,0,1,1,280602),(0,0,1,-1,277693),(2,0,0,-1,173237),(2,0,-1,1,55413),(2,0,-1,-1,46271),
       (2,0,0,1,32573),(0,0,2,1,17198),(2,0,1,-1,9266),(0,0,2,-1,8822),(2,-1,0,-1,8216),(2,0,-2,-1,4324),
       (2,0,1,1,4200),(2,1,0,-1,-3359),(2,-1,-1,1,2463),(2,-1,0,1,2211),(2,-1,-1,-1,2065),(0,1,-1,-1,-1870),
       (4,0,-1,-1,1828),(0,1,0,1,-1794),(0,0,0,3,-1749),(0,1,-1,1,-1565),(1,0,0,1,-1491),(0,1,1,1,-1475),
       (0,1,1,-1,-1410),(0,1,0,-1,-1344),(1,0,0,-1,-1335),(0,0,3,1,1107),(4,0,0,-1,1021),(4,0,-1,1,833)]


def moon_meeus(mjd):
    """truncated ELP series (Meeus ch. 47): ecliptic longitude, latitude (equinox J2000) and distance"""
    t = centuries(mjd)
    lp = 218.3164477 + 481267.88123421 * t
    d = 297.8501921 + 445267.1114034 * t
    m = 357.5291092 + 35999.0502909 * t
    mp = 134.9633964 + 477198.8675055 * t
    f = 93.2720950 + 483202.0175233 * t
    e = 1 - 0.002516 * t
    sl = sb = sr = 0.0
    for kd, km, kmp, kf, s, c in _ML:
        a = radians(kd * d + km * m + kmp * mp + kf * f)
        k = e ** abs(km)
        sl += k * s * sin(a)
        sr += k * c * cos(a)
    for kd, km, kmp, kf, s in _MB:
        sb += e ** abs(km) * s * sin(radians(kd * d + km * m + kmp * mp + kf * f))
    lon = radians(lp + sl * 1e-6 - 1.3969713 * t)
    lat = radians(sb * 1e-6)
    lat -= radians(47.0029 * t / 3600) * sin(lon + radians(180 - 174.876))
    return lon, lat, 385000.56 + sr * 1e-3


def sun_almanac(mjd):
    """geometric Sun of Meeus ch. 25: longitude (equinox J2000) and distance in AU"""
    t = centuries(mjd)
    l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t
    m = radians(357.52911 + 35999.05029 * t - 0.0001537 * t * t)
    e = 0.016708634 - 0.000042037 * t
    c = ((1.914602 - 0.004817 * t) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m))
    nu = m + radians(c)
    return radians(l0 + c - 1.3969713 * t), 1.000001018 * (1 - e * e) / (1 + e * cos(nu))


# ---------------------------------------------------------------- geopotential (degree and order 2..4, EGM2008)

_CBAR = {(2, 0): -0.484165143790815e-3, (2, 1): -0.206615509074176e-9, (2, 2): 0.243938357328313e-5,
         (3, 0): 0.957161207093473e-6, (3, 1): 0.203046201047864e-5, (3, 2): 0.904787894809528e-6,
         (3, 3): 0.721321757121568e-6, (4, 0): 0.539965866638991e-6, (4, 1): -0.536157389388867e-6,
         (4, 2): 0.350501623962649e-6, (4, 3): 0.990856766672321e-6, (4, 4): -0.188519633023033e-6}
_SBAR = {(2, 1): 0.138441389137979e-8, (2, 2): -0.140027370385934e-5, (3, 1): 0.248200415856872e-6,
         (3, 2): -0.619005475177618e-6, (3, 3): 0.141434926192941e-5, (4, 1): -0.473567346518086e-6,
         (4, 2): 0.662480026275829e-6, (4, 3): -0.200956723567452e-6, (4, 4): 0.308803882149194e-6}


def _denorm(n, m):
    return sqrt((1 if m == 0 else 2) * (2 * n + 1) * math.factorial(n - m) / math.factorial(n + m))


_C = {k: v * _denorm(*k) for k, v in _CBAR.items()}
_S = {k: v * _denorm(*k) for k, v in _SBAR.items()}


def gravity_itrf(r, nmax=4):
    """gradient of the degree 2..4 geopotential, Cunningham's recursion (no singularity at the poles)"""
    x, y, z = r
    r2 = x * x + y * y + z * z
    rho = RE * RE / r2
    x0, y0, z0 = RE * x / r2, RE * y / r2, RE * z / r2
    n1 = nmax + 1
    v = [[0.0] * (n1 + 2) for _ in range(n1 + 2)]
    w = [[0.0] * (n1 + 2) for _ in range(n1 + 2)]
    v[0][0] = RE / sqrt(r2)
    v[1][0] = z0 * v[0][0]
    for n in range(2, n1 + 1):
        v[n][0] = ((2 * n - 1) * z0 * v[n - 1][0] - (n - 1) * rho * v[n - 2][0]) / n
    for m in range(1, n1 + 1):
        v[m][m] = (2 * m - 1) * (x0 * v[m - 1][m - 1] - y0 * w[m - 1][m - 1])
        w[m][m] = (2 * m - 1) * (x0 * w[m - 1][m - 1] + y0 * v[m - 1][m - 1])
        if m < n1:
            v[m + 1][m] = (2 * m + 1) * z0 * v[m][m]
            w[m + 1][m] = (2 * m + 1) * z0 * w[m][m]
        for n in range(m + 2, n1 + 1):
            v[n][m] = ((2 * n - 1) * z0 * v[n - 1][m] - (n + m - 1) * rho * v[n - 2][m]) / (n - m)
            w[n][m] = ((2 * n - 1) * z0 * w[n - 1][m] - (n + m - 1) * rho * w[n - 2][m]) / (n - m)
    ax = ay = az = 0.0
    for (n, m), c in _C.items():
        s = _S.get((n, m), 0.0)
        if m == 0:
            ax -= c * v[n + 1][1]
            ay -= c * w[n + 1][1]
            az -= (n + 1) * c * v[n + 1][0]
        else:
            fac = 0.5 * (n - m + 1) * (n - m + 2)
            ax += 0.5 * (-c * v[n + 1][m + 1] - s * w[n + 1][m + 1]) + fac * (c * v[n + 1][m - 1] + s * w[n + 1][m - 1])
            ay += 0.5 * (-c * w[n + 1][m + 1] + s * v[n + 1][m + 1]) + fac * (-c * w[n + 1][m - 1] + s * v[n + 1][m - 1])
            az += (n - m + 1) * (-c * v[n + 1][m] - s * w[n + 1][m])
    k = MU / (RE * RE)
    return (k * ax, k * ay, k * az)


def legendre(n, m, x):
    """associated Legendre function without the Condon-Shortley phase, by differentiating P_n in closed form"""
    return legendre_cs(n, m, x, sqrt(max(0.0, 1 - x * x)))


def legendre_cs(n, m, x, cosphi):
    """the same with the cosine of the latitude given"""
    c = list({0: [1.0], 1: [0.0, 1.0], 2: [-0.5, 0, 1.5], 3: [0, -1.5, 0, 2.5], 4: [0.375, 0, -3.75, 0, 4.375]}[n])
    for _ in range(m):
        c = [k * c[k] for k in range(1, len(c))] or [0.0]
    return cosphi ** m * math.fsum(ck * x ** k for k, ck in enumerate(c))


# ---------------------------------------------------------------- force model

def third_body(r, s, mu):
    d = sub(s, r)
    dm, sm = norm(d), norm(s)
    return tuple(mu * (d[i] / dm ** 3 - s[i] / sm ** 3) for i in range(3))


def central(r):
    m = norm(r)
    return mul(r, -MU / m ** 3)


def srp(r, mjd, scalar):
    return mul(unit(sub(sun(mjd), r)), -P_SUN * scalar / 1000.0)


def gravity_gcrf(r, mjd, gmst=None):
    m = gcrf_to_itrf_matrix(mjd, gmst)
    return mv(mt(m), gravity_itrf(mv(m, r)))


def acceleration(r, mjd, pert=True, scalar=0.0, thrust=(0.0, 0.0, 0.0)):
    a = add(thrust, central(r))
    if pert:
        a = add(a, third_body(r, moon(mjd), MU_MOON))
        a = add(a, third_body(r, sun(mjd), MU_SUN))
        if scalar:
            a = add(a, srp(r, mjd, scalar))
        a = add(a, gravity_gcrf(r, mjd))
    return a


def rk4_step(r, v, mjd, h, acc):
    """classical fourth-order step; acc(r, mjd, dt) with dt seconds from the start of the step"""
    hd = h / 2 / DAY
    m1 = mjd + hd
    m2 = m1 + hd
    k1v, k1a = v, acc(r, mjd, 0.0)
    k2v = add(v, mul(k1a, h / 2))
    k2a = acc(add(r, mul(k1v, h / 2)), m1, h / 2)
    k3v = add(v, mul(k2a, h / 2))
    k3a = acc(add(r, mul(k2v, h / 2)), m1, h / 2)
    k4v = add(v, mul(k3a, h))
    k4a = acc(add(r, mul(k3v, h)), m2, h)
    r2 = tuple(r[i] + h / 6 * (k1v[i] + 2 * k2v[i] + 2 * k3v[i] + k4v[i]) for i in range(3))
    v2 = tuple(v[i] + h / 6 * (k1a[i] + 2 * k2a[i] + 2 * k3a[i] + k4a[i]) for i in range(3))
    return r2, v2, m2


def coast(pert=True, scalar=0.0):
    return lambda r, mjd, dt: acceleration(r, mjd, pert, scalar)


def steps_for(dt, max_step=300.0):
    return math.ceil(abs(dt / max_step))


def propagate(r, v, mjd, mjd_to, pert=True, scalar=0.0, n=None):
    dt = (mjd_to - mjd) * DAY
    n = steps_for(dt) if n is None else n
    acc = coast(pert, scalar)
    for _ in range(n):
        r, v, mjd = rk4_step(r, v, mjd, dt / n, acc)
    return r, v, mjd


def burn(r, v, mjd, direction, dv, mdot, m0, isp, pert=True, n=None):
    """thrust along a fixed inertial direction; returns state, epoch, duration, propellant used"""
    dur = m0 / mdot * (1 - exp(-dv / (isp * G0)))
    u = unit(direction)
    end = mjd + dur / DAY
    dt = (end - mjd) * DAY
    n = steps_for(dt) if n is None else n
    h = dt / n
    for k in range(n):
        t0 = k * h

        def acc(rr, mm_, t, t0=t0):
            f = mdot * isp * G0 / (m0 - mdot * (t0 + t))
            return acceleration(rr, mm_, pert, 0.0, mul(u, f))

        r, v, mjd = rk4_step(r, v, mjd, h, acc)
    return r, v, mjd, dur, mdot * dur


# ---------------------------------------------------------------- two-body motion

def kepler(m, e):
    """eccentric anomaly in [0, 2 pi) of a mean anomaly, by bracketing"""
    m = m % TWO_PI
    lo, hi = 0.0, TWO_PI
    x = m + e * sin(m) if e < 0.8 else pi
    for _ in range(200):
        f = x - e * sin(x) - m
        if f > 0:
            hi = x
        else:
            lo = x
        d = 1 - e * cos(x)
        nx = x - f / d if d > 0 else 0.5 * (lo + hi)
        if not lo <= nx <= hi:
            nx = 0.5 * (lo + hi)
        if nx == x or hi - lo < 1e-16:
            break
        x = nx
    return x


def pqw(i, raan, argp):
    """perigee, 90 deg ahead, and normal directions (exactly in the coordinate planes at exact quarter turns)"""
    m = mm(quarter_rot(2, argp), mm(quarter_rot(0, i), quarter_rot(2, raan)))
    return m


def quarter_rot(axis, a):
    """frame_rot, with exact zeros and ones at a == 0, pi/2, pi, 3 pi/2, 2 pi"""
    k = round(a / (pi / 2))
    m = frame_rot(axis, a)
    if a == k * (pi / 2) and abs(k) <= 4:
        m = tuple(tuple(float(round(x)) for x in row) for row in m)
    return m


def elements_to_rv(a, e, i, raan, argp, ecc_anom, mu=MU):
    p, q, _ = pqw(i, raan, argp)
    c, s = cos(ecc_anom), sin(ecc_anom)
    b = sqrt((1 - e) * (1 + e))
    r = add(mul(p, a * (c - e)), mul(q, a * b * s))
    k = sqrt(mu / a) / (1 - e * c)
    v = add(mul(p, -k * s), mul(q, k * b * c))
    return r, v


def ea_from_nu(nu, e):
    return 2 * atan2(sqrt(1 - e) * sin(nu / 2), sqrt(1 + e) * cos(nu / 2))


def state_of(orb):
    """[a, e, i, raan, argp, nu] -> r, v"""
    a, e, i, o, w, nu = orb
    return elements_to_rv(a, e, i, o, w, ea_from_nu(nu, e))


def kepler_propagate(r, v, dt, mu=MU):
    """two-body motion by universal variables (works for any conic)"""
    r0 = norm(r)
    alpha = 2 / r0 - dot(v, v) / mu
    rv = dot(r, v) / sqrt(mu)
    if alpha > 0:
        period = TWO_PI / (sqrt(mu) * alpha ** 1.5)
        dt = math.remainder(dt, period)
    s = sqrt(mu) * dt

    def cs(z):
        if z > 1e-2:
            q = sqrt(z)
            return (1 - cos(q)) / z, (q - sin(q)) / q ** 3
        if z < -1e-2:
            q = sqrt(-z)
            return (math.cosh(q) - 1) / -z, (math.sinh(q) - q) / q ** 3
        c = sum((-z) ** k / math.factorial(2 * k + 2) for k in range(8))
        d = sum((-z) ** k / math.factorial(2 * k + 3) for k in range(8))
        return c, d

    def f(x):
        z = alpha * x * x
        c, d = cs(z)
        t = rv * x * x * c + (1 - alpha * r0) * x ** 3 * d + r0 * x
        rr = x * x * c + rv * x * (1 - z * d) + r0 * (1 - z * c)
        return t - s, rr

    # bracket
    hi = 1.0 if s >= 0 else -1.0
    lo = 0.0
    while (f(hi)[0] < 0) if s >= 0 else (f(hi)[0] > 0):
        lo, hi = hi, hi * 2
    if lo > hi:
        lo, hi = hi, lo
    x = 0.5 * (lo + hi)
    for _ in range(300):
        g, rr = f(x)
        if g > 0:
            hi = x
        else:
            lo = x
        nx = x - g / rr
        if not lo < nx < hi:
            nx = 0.5 * (lo + hi)
        if nx == x or abs(nx - x) <= 1e-16 * abs(x):
            x = nx
            break
        x = nx
    z = alpha * x * x
    c, d = cs(z)
    ff = 1 - x * x / r0 * c
    gg = dt - x ** 3 / sqrt(mu) * d
    r1 = add(mul(r, ff), mul(v, gg))
    rm = norm(r1)
    fd = sqrt(mu) / (rm * r0) * x * (z * d - 1)
    gd = 1 - x * x / rm * c
    return r1, add(mul(r, fd), mul(v, gd))


# ---------------------------------------------------------------- relative motion

def ric_axes(r, v):
    a = unit(r)
    c = unit(cross(r, v))
    return a, cross(c, a), c


def curvilinear(r0, v0, r1, v1):
    """radial separation, in-track and cross-track arcs and their rates of state 1 in the frame of state 0"""
    m = ric_axes(r0, v0)
    rm = norm(r0)
    p, q = mv(m, r1), mv(m, v1)
    w0 = mv(m, v0)
    r1m = norm(r1)
    rho2 = p[0] * p[0] + p[1] * p[1]
    lam = atan2(p[1], p[0])
    phi = atan2(p[2], sqrt(rho2))
    lamd = (p[0] * q[1] - p[1] * q[0]) / rho2
    phid = (q[2] * rho2 - p[2] * (p[0] * q[0] + p[1] * q[1])) / (r1m * r1m * sqrt(rho2))
    return ((r1m - rm, lam * rm, phi * rm),
            (dot(r1, v1) / r1m - w0[0], (lamd - w0[1] / rm) * rm, phid * rm))


def curvilinear_inverse(pos, vel, r0, v0):
    m = ric_axes(r0, v0)
    rm = norm(r0)
    w0 = mv(m, v0)
    r = rm + pos[0]
    lam, phi = pos[1] / rm, pos[2] / rm
    rd = vel[0] + w0[0]
    lamd, phid = vel[1] / rm + w0[1] / rm, vel[2] / rm
    cl, sl, cp, sp = cos(lam), sin(lam), cos(phi), sin(phi)
    p = (r * cp * cl, r * cp * sl, r * sp)
    q = (rd * cp * cl - r * phid * sp * cl - r * lamd * cp * sl,
         rd * cp * sl - r * phid * sp * sl + r * lamd * cp * cl,
         rd * sp + r * phid * cp)
    t = mt(m)
    return mv(t, p), mv(t, q)


def cw(x, n, t):
    """Clohessy-Wiltshire solution"""
    x0, y0, z0, u0, v0, w0 = x
    s, c = sin(n * t), cos(n * t)
    k = 2 * v0 / n + 4 * x0  # centre of the radial oscillation
    a = u0 / n
    b = -(3 * x0 + 2 * v0 / n)
    xx = k + a * s + b * c
    uu = n * (a * c - b * s)
    yy = y0 + 2 * a * c - 2 * b * s - 2 * a - 1.5 * k * n * t
    vv = -2 * n * a * s - 2 * n * b * c - 1.5 * k * n
    zz = z0 * c + w0 / n * s
    ww = -z0 * n * s + w0 * c
    return (xx, yy, zz, uu, vv, ww)
