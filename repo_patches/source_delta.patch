From 48cd48e2d7a5dae1872058b0cb29ec0bbfb9a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:06 +0000
Subject: [PATCH 01/19] fix: rotate finite burns from the RIC frame into GCRF

frame_matrix rows are the RIC axes, so it takes GCRF to RIC; the burn needs
the transpose.
---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..6d01842 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From 7cac9e018714684aa947bc604f754bbb5a6ca4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:08 +0000
Subject: [PATCH 02/19] fix: finite burns consume propellant instead of adding
 it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 6d01842..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From e1df23d9b4283c8958c07d2645681921b0373cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:10 +0000
Subject: [PATCH 03/19] fix: keep depleting mass across integration steps of a
 finite burn

Every step restarted from the mass at ignition, so burns longer than one step
fell short of the commanded delta-v.
---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..964967e 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -73,6 +73,9 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
 
+        # Carry the mass spent during this step into the next one
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From 126a0d0981bbfb160bc40cca9cf70381a296e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:12 +0000
Subject: [PATCH 04/19] fix: use the target's size and albedo for its visual
 magnitude

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..47bc010 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From a1aebd2b9c56a97d37853ef0259ea2f381a8c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 05/19] fix: point at the new target when track_state is called
 while tracking another

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 47bc010..ec61aaf 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,8 +303,8 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
-        # Include slew duration if not already target-pointing
-        if self.steering != Spacecraft.STEERING_MODES[2]:
+        # Include slew duration if not already pointing at this target
+        if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-- 
2.43.0


From 0ff17433a60c4b0ba355cd4fcc16ddbcdd3c6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:15 +0000
Subject: [PATCH 06/19] fix: refresh the attitude after a maneuver changes the
 state

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ec61aaf..f60defd 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -138,6 +138,7 @@ class Spacecraft:
         self.propagator = RK4(
             StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
         )
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -157,6 +158,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From 0bd81ec9ed2ab575f5fc2f79156f2f680da76f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:17 +0000
Subject: [PATCH 07/19] fix: keep the position along the orbit for equatorial
 element sets

With no node both the RAAN and the argument of latitude came from atan2(0, 0),
so every equatorial state mapped to the same point of the orbit.
---
 src/openspace/estimation/iod.py | 11 ++++-------
 src/openspace/math/functions.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..02800a3 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -4,6 +4,7 @@ from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
 from openspace.estimation.obs import Observation
 from openspace.math.constants import SECONDS_IN_DAY
+from openspace.math.functions import EquationsOfMotion
 from openspace.math.linalg import Vector3D
 
 
@@ -39,13 +40,9 @@ class Gauss:
 
         # equation 2.111
         w: Vector3D = ea.cross(e0)
-        ua: float = atan2(ra.z, -ra.x * w.y + ra.y * w.x)
-        inc: float = atan2(sqrt(w.x * w.x + w.y * w.y), w.z)
-        raan: float = atan2(w.x, -w.y)
-        if inc < 0:
-            inc += 2 * pi
-        if raan < 0:
-            raan += 2 * pi
+        ua: float = EquationsOfMotion.U.from_r_w(ra, w)
+        inc: float = EquationsOfMotion.I.from_w(w)
+        raan: float = EquationsOfMotion.RAAN.from_w(w)
 
         # equation 2.99
         tau: float = sqrt(Earth.MU) * (ob2.epoch().value - ob1.epoch().value) * SECONDS_IN_DAY
diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..51f4f5a 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -436,6 +436,10 @@ class RightAscensionNode:
 
            document equation reference from Satellite Orbits
         """
+        # the node of an equatorial orbit is undefined, use the x-axis
+        if w.x == 0 and w.y == 0:
+            return 0
+
         raan: float = atan2(w.x, -w.y)
         if raan < 0:
             raan += 2 * pi
@@ -844,7 +848,12 @@ class ArgumentOfLatitude:
 
            find equation reference
         """
-        u: float = atan2(r.z, -r.x * w.y + r.y * w.x)
+        u: float
+        if w.x == 0 and w.y == 0:
+            # equatorial orbit, measured from the x-axis to match RightAscensionNode
+            u = atan2(sign(w.z) * r.y, r.x)
+        else:
+            u = atan2(r.z, -r.x * w.y + r.y * w.x)
         if u < 0:
             u += 2 * pi
         return u
-- 
2.43.0


From c9c9c234917251d3e619438ba9dc46db0068d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 08/19] fix: do not fail on circular orbits whose
 semi-parameter rounds above a

---
 src/openspace/math/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 51f4f5a..58185ee 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,8 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        # rounding can leave p slightly above a for circular orbits
+        return sqrt(max(0, 1 - p / a))
 
 
 class Flattening:
-- 
2.43.0


From f27d20f65b6802e5530c814e40c8df1be841ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 09/19] fix: reduce the mean anomaly to one revolution before
 solving Kepler's equation

Newton's method could cycle forever for high eccentricities when the mean
anomaly was outside of one revolution.
---
 src/openspace/math/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index 58185ee..3e9eb0e 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -723,6 +723,9 @@ class EccentricAnomaly:
         :rtype: float
         """
         converged: bool = False
+
+        # the starting guess below is only valid within one revolution
+        ma = ma % (2 * pi)
         ea0: float = ma
         num: float
         den: float
-- 
2.43.0


From f261d4c94d95fbbe9a74f37b37719f954c371532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 10/19] fix: geodetic conversion at the poles and its precision
 near poles and equator

Rounding pushed the argument of asin above one near the poles, and the
cancellation in equation 2.77e cost up to kilometers at high altitude.
---
 src/openspace/coordinates/positions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..daa6c6e 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -253,10 +253,16 @@ class _PositionConvertITRF:
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
         arg = (eps2 + 1.0) * (d / n)
-        lamb: float = asin(arg)
+        lamb: float = asin(max(-1.0, min(1.0, arg)))
+
+        # The closed form loses precision near the poles and the equator, so polish the latitude
+        slamb: float = sin(lamb)
+        for _ in range(3):
+            lamb = atan2(z + e2 * a * slamb / sqrt(1.0 - e2 * slamb * slamb), rho)
+            slamb = sin(lamb)
 
         # Equation 2.77g
-        h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
+        h: float = rho * cos(lamb) + z * slamb - a * sqrt(1.0 - e2 * slamb * slamb)
         phi: float = atan2(y, x)
         if phi < 0:
             phi += pi * 2.0
-- 
2.43.0


From e3050f179e101a6a2601d2a67e967d3d1f201f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:24 +0000
Subject: [PATCH 11/19] fix: solve Gauss' method for eccentric orbits

The secant iteration may pass through omega <= 0, which equation 2.103 covers
with its other two branches, or through omega >= 1, which it must not; both
ended in a math domain error.
---
 src/openspace/estimation/iod.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 02800a3..34ddde9 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, asinh, atan2, cos, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -104,9 +104,18 @@ class Gauss:
         converged: bool = False
         f_of_nu_1: float
         n2: float
+
+        # omega stays below one only for nu above this value
+        n_min: float = sqrt(m / (1 + l))
+        if n1 <= n_min:
+            n0 = 2 * n_min
+            n1 = 1.5 * n_min
+
         while not converged:
             f_of_nu_1 = Gauss.f_of_nu(n1, m, l)
             n2 = n1 - f_of_nu_1 * (n1 - n0) / (f_of_nu_1 - Gauss.f_of_nu(n0, m, l))
+            if n2 <= n_min:
+                n2 = (n1 + n_min) / 2
             if abs(n2 - n1) < Gauss.NU_TOLERANCE:
                 converged = True
             else:
@@ -140,6 +149,14 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
-        g: float = 2 * asin(sqrt(w))
-        sg: float = sin(g)
-        return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        g: float
+        sg: float
+        if w > 0:
+            g = 2 * asin(sqrt(w))
+            sg = sin(g)
+            return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        elif w < 0:
+            g = 2 * asinh(sqrt(-w))
+            sg = sinh(g)
+            return (sinh(2 * g) - 2 * g) / (sg * sg * sg)
+        return 4 / 3
-- 
2.43.0


From 82cb89639aca46d7ba5d8b812077b47e912dd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:26 +0000
Subject: [PATCH 12/19] fix: misplaced parenthesis in the ecliptic latitude of
 the moon (equation 3.49)

---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 95a37d50bae01a472c609455a83121ec7b311d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:28 +0000
Subject: [PATCH 13/19] fix: apply angular noise to vectors along the z-axis

---
 src/openspace/math/linalg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..ef820f2 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,10 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            axis = self.cross(Vector3D(1, 0, 0))
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From 28e44dcaee9d6e697c915683d289f9a8180fc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:29 +0000
Subject: [PATCH 14/19] fix: keep the perturbation setting of a state while
 copying and propagating it

---
 src/openspace/bodies/artificial.py    |  6 ++++--
 src/openspace/coordinates/states.py   | 10 ++++++++++
 src/openspace/propagators/inertial.py |  5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index f60defd..f8f9ce8 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,11 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
+        state: GCRF = StateConvert.hcw.to_gcrf(
+            HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
+        state.use_perturbations = self.current_state().use_perturbations
+        self.propagator = RK4(state)
         self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..7bd962b 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,16 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state
+
+        :return: state with the same epoch, vectors, and perturbation setting
+        :rtype: GCRF
+        """
+        state: GCRF = super().copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 964967e..e439af5 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -51,15 +51,18 @@ class RK4:
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1.use_perturbations = self.state.use_perturbations
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2.use_perturbations = self.state.use_perturbations
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3.use_perturbations = self.state.use_perturbations
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,11 +70,13 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
+        use_perturbations: bool = self.state.use_perturbations
         self.state = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        self.state.use_perturbations = use_perturbations
 
         # Carry the mass spent during this step into the next one
         self.m0 -= self.m_dot * h
-- 
2.43.0


From 9b0fa38fe4994f33285d36c4daea8f97d304f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:27 +0000
Subject: [PATCH 15/19] fix: eccentricity of a gauss determination near a true
 anomaly of 90 degrees

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 34ddde9..2c12bbd 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -73,7 +73,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From f1256898445b5b8bc12088800a9c12c8b48274c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:51 +0000
Subject: [PATCH 16/19] fix: keep the thrust of a state while copying it

---
 src/openspace/coordinates/states.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 7bd962b..6a6aa11 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -140,10 +140,11 @@ class GCRF(State):
     def copy(self) -> "GCRF":
         """create a duplicate of the calling state
 
-        :return: state with the same epoch, vectors, and perturbation setting
+        :return: state with the same epoch, vectors, thrust, and perturbation setting
         :rtype: GCRF
         """
         state: GCRF = super().copy()
+        state.thrust = self.thrust.copy()
         state.use_perturbations = self.use_perturbations
         return state
 
-- 
2.43.0


From 4ca3ebece4baa350c4015a00c3c23231052d8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:41 +0000
Subject: [PATCH 17/19] fix: keep the integration step size of a spacecraft
 across an impulsive maneuver

---
 src/openspace/bodies/artificial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index f8f9ce8..2c3a7ed 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -139,7 +139,9 @@ class Spacecraft:
             HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
         state.use_perturbations = self.current_state().use_perturbations
+        step_size: float = self.propagator.step_size
         self.propagator = RK4(state)
+        self.propagator.step_size = step_size
         self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
-- 
2.43.0


From 1da341899f431e48b4a5e8dd7646eefe699490db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:32 +0000
Subject: [PATCH 18/19] fix: start the relative filter from the seed at the
 filter's epoch

---
 src/openspace/bodies/artificial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 2c3a7ed..b538d21 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -179,10 +179,11 @@ class Spacecraft:
         :type seed: Spacecraft
         """
 
+        # Tracking brings the seed to the current epoch, at which the filter is initialized
+        self.track_state(seed)
         self.filter = RelativeKalman(
             self.current_epoch(), Hill(StateConvert.gcrf.to_hcw(self.current_state(), seed.current_state()), self.sma())
         )
-        self.track_state(seed)
 
     def observe_wfov(self, target: "Spacecraft") -> SpaceObservation:
         """produce a simulated observation from the wfov
-- 
2.43.0


From 84b3bc3f83ebff6f04dc20a4a3ed7608812e3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:39 +0000
Subject: [PATCH 19/19] fix: time the slew to a tracked target with its
 direction at the current epoch

---
 src/openspace/bodies/artificial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index b538d21..ac51928 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -312,6 +312,10 @@ class Spacecraft:
         """
         # Include slew duration if not already pointing at this target
         if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
+            # The slew ends at the direction of the target at the current epoch
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
+
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-- 
2.43.0

