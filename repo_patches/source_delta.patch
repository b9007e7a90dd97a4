From 24cab16eb672786baab8eda2ac23a64e9f87146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 01/23] fix: remainder() must stay within half a period

val - round(val / r) * r rounds twice, so wrapped longitudes, azimuths and
normalized angles could leave [-pi, pi], e.g. Lon::deg(-359100.) > Lon::MAX.
---
 geokit/src/math/fp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/fp.rs b/geokit/src/math/fp.rs
index 2e54cd8..50fb9a0 100644
--- a/geokit/src/math/fp.rs
+++ b/geokit/src/math/fp.rs
@@ -10,7 +10,13 @@ pub fn sq(x: Float) -> Float {
     x * x
 }
 pub fn remainder(val: Float, r: Float) -> Float {
-    val - (val / r).round_ties_even() * r
+    // `%` is exact: `val - (val / r).round() * r` is not and may fall outside [-r/2, r/2].
+    let rem = val % r;
+    if 2. * rem.abs() > r.abs() {
+        rem - r.abs().copysign(rem)
+    } else {
+        rem
+    }
 }
 
 /// Compute `sum(0, N, c[k] * F[k](x))` where `F[k](x) = sin(k * x)`
-- 
2.43.0


From 5e16270d18cbdbfe9faaf3a654aee6718c46c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 02/23] fix: take the prime meridian into account on spherical
 datums

llh_to_xyz() and xyz_to_llh() ignored the datum's prime meridian when its
ellipsoid is a sphere.
---
 geokit/src/geodesy/geodetic_datum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..1959f4c 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,8 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                // Change longitude origin from Greenwich meridian to this datum's prime meridian
+                lon: Lon::new(lon * RAD) - self.prime_meridian().lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From 1ebd097310c14e4a364a0336075e02685b126c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 03/23] fix: UTM zone 1 starts at 180 deg West

The central meridian of every UTM zone was 3 degrees too far East
(zone 31 is centred on 3E, not 6E).
---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..5ab1a05 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -184,7 +184,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From d477ca88d4a384c09eba007a837c8f9a07d7d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 04/23] fix: Transverse Mercator away from the central meridian

- unproj() looped forever on coordinates for which the series overflows,
- proj() folded points more than 90 degrees away from the central meridian
  onto the other hemisphere, and unproj() could not undo it,
- proj() returned infinite coordinates for the equatorial points 90 degrees
  away from the central meridian,
- unproj() could return a NaN longitude near the poles.
---
 geokit/src/projections/cyl/transverse_mercator.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 5ab1a05..5989f7e 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -107,7 +107,13 @@ impl Projection for TransverseMercator {
             let lon0 = self.lon0;
             (beta.cos() * (lon - lon0).sin()).atanh()
         };
-        let xi_0 = (beta.sin() * eta_0.cosh()).asin();
+        if !eta_0.is_finite() {
+            // On the equator, 90 degrees away from the central meridian.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+        // Same as sin(xi_0) = sin(beta) * cosh(eta_0), but keeps the right quadrant for points
+        // more than 90 degrees away from the central meridian.
+        let xi_0 = beta.sin().atan2(beta.cos() * (input.lon - self.lon0).cos());
 
         let xis = [
             self.h[0] * (2.0 * xi_0).sin() * (2.0 * eta_0).cosh(),
@@ -154,6 +160,9 @@ impl Projection for TransverseMercator {
 
         let beta_p = (xi_p0.sin() / eta_p0.cosh()).asin();
         let Q_p = beta_p.tan().asinh();
+        if !Q_p.is_finite() {
+            return Err(ProjectionError::ENHOutOfBounds);
+        }
 
         fn iter_fn(e: Float, Q_p: Float, Q_pp: Float) -> Float {
             Q_p + (e * (e * Q_pp.tanh()).atanh())
@@ -169,7 +178,7 @@ impl Projection for TransverseMercator {
         }
 
         Ok(LLH {
-            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
+            lon: self.lon0 + eta_p0.sinh().atan2(xi_p0.cos()) * RAD,
             lat: Lat::new(Q_pp.sinh().atan() * RAD),
             height: input.height,
         })
-- 
2.43.0


From 7d339775a56d45b8a452b3d10321f16fe9bb8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 05/23] fix: Mercator projections reject the poles

proj() returned an infinite northing at the South pole.
---
 geokit/src/projections/cyl/mercator.rs     | 5 +++++
 geokit/src/projections/cyl/web_mercator.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/geokit/src/projections/cyl/mercator.rs b/geokit/src/projections/cyl/mercator.rs
index d27ebd6..833ee9d 100644
--- a/geokit/src/projections/cyl/mercator.rs
+++ b/geokit/src/projections/cyl/mercator.rs
@@ -120,6 +120,11 @@ impl Mercator {
 
 impl Projection for Mercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() >= Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         let sin_lat = input.lat.sin();
         let e_sin_lat = self.e * sin_lat;
         let lat1 = input.lat / 2.0 + PI_4 * RAD;
diff --git a/geokit/src/projections/cyl/web_mercator.rs b/geokit/src/projections/cyl/web_mercator.rs
index 07464ad..3a54659 100644
--- a/geokit/src/projections/cyl/web_mercator.rs
+++ b/geokit/src/projections/cyl/web_mercator.rs
@@ -50,6 +50,11 @@ impl WebMercator {
 
 impl Projection for WebMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
+        if input.lat.abs() >= Lat::MAX {
+            // The poles are at infinity.
+            return Err(ProjectionError::LLHOutOfBounds);
+        }
+
         Ok(ENH {
             easting: self.false_easting + (self.a * (input.lon - self.lon0)).length(),
             northing: self.false_northing + self.a * (input.lat / 2.0 + PI_4 * RAD).tan().ln(),
-- 
2.43.0


From f7ce5d10149731ca24dfe729831bf3842778355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 06/23] fix: inverse geodesic between coincident points

The Vincenty and Rapp solvers divided 0 by 0 and reported that the computation
did not converge, so that GeographicCrs::dist(p, p) was an error and a closed
line string could not be closed again.
---
 geokit/src/geodesy/geodesics/rapp.rs     | 10 ++++++++++
 geokit/src/geodesy/geodesics/vincenty.rs | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..e84df1d 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -189,6 +189,16 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 + (sin_beta2 * cos_beta1 - sin_beta1 * cos_beta2 * cos_lambda).powi(2))
             .sqrt();
             sigma = sin_sigma.atan2(cos_sigma);
+            if sigma == 0.0 {
+                // Coincident points: Eq (1.61) is indeterminate.
+                return Ok(Geodesic {
+                    p1,
+                    alpha1: Azimuth::NORTH,
+                    p2,
+                    alpha2: Azimuth::NORTH,
+                    s: Length::ZERO,
+                });
+            }
             sin_2_sigma = 2. * sin_sigma * cos_sigma;
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..8011732 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -148,6 +148,17 @@ impl<'e> VincentyGeodesicSolver<'e> {
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
 
+            if sigma == 0.0 {
+                // Coincident points: Eq (17) is indeterminate.
+                return Ok(Geodesic {
+                    p1,
+                    alpha1: Azimuth::NORTH,
+                    p2,
+                    alpha2: Azimuth::NORTH,
+                    s: Length::ZERO,
+                });
+            }
+
             // Eq (17)
             let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
             cos_alpha_sq = 1. - sin_alpha.powi(2);
-- 
2.43.0


From 923acbffb386a43117cccdef705ea0baa64f8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 07/23] fix: parameterization of curves by arc length

param() subtracted the segment lengths one by one from `s`: rounding could step
over the last segment and panic for param(length()), and zero-length segments
gave NaN coordinates.
---
 .../geometry/coordinate/curve/line_string.rs  | 34 ++++++++-----------
 geokit/src/geometry/primitive/curve.rs        | 21 ++++++------
 2 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..6603620 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -79,27 +79,23 @@ impl ParameterizedCurve for LineString {
 
     fn param(&self, _crs: &dyn Crs, s: Length) -> Box<Pos> {
         assert!(s <= self.length(_crs), "Invalid curvilinear parameter `s`");
-        let mut len_iter = self.len.iter();
-        let mut res_len = s;
-        let mut start_pos_ix = 0;
-        let mut ratio = 0.;
-        while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
-                break;
+        let mut from_len = 0. * M;
+        for (ix, l) in self.len.iter().enumerate() {
+            let to_len = from_len + *l;
+            if s < to_len {
+                let ratio = (s - from_len) / *l;
+                let start = self.pos(ix);
+                let end = self.pos(ix + 1);
+                return start
+                    .iter()
+                    .zip(end.iter())
+                    .map(|(&s, &e)| (1. - ratio) * s + ratio * e)
+                    .collect::<Vec<_>>()
+                    .into_boxed_slice();
             }
-            res_len -= *l;
-            start_pos_ix += 1;
+            from_len = to_len;
         }
-        let start = self.pos(start_pos_ix);
-        let end = self.pos(start_pos_ix + 1);
-
-        start
-            .iter()
-            .zip(end.iter())
-            .map(|(&s, &e)| (1. - ratio) * s + ratio * e)
-            .collect::<Vec<_>>()
-            .into_boxed_slice()
+        self.end().into()
     }
 
     fn as_line_string(
diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..9d4cc50 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -99,19 +99,18 @@ impl ParameterizedCurve for Curve {
 
     fn param(&self, crs: &dyn Crs, s: Length) -> Box<Pos> {
         assert!(s <= self.length(crs), "Invalid curvilinear parameter `s`");
-        let mut seg_iter = self.seg.iter();
-        let mut res_len = s;
-        let mut seg_ix = 0;
-        while let Some(s) = seg_iter.next() {
-            let seg_len = s.length(crs);
-            if seg_len >= res_len {
-                break;
+        let mut from_len = 0. * M;
+        for seg in self.seg.iter() {
+            let seg_len = seg.length(crs);
+            let to_len = from_len + seg_len;
+            if s < to_len {
+                let res_len = s - from_len;
+                // rounding of `s - from_len` must not exceed the segment
+                return seg.param(crs, if res_len > seg_len { seg_len } else { res_len });
             }
-            res_len -= seg_len;
-            seg_ix += 1;
+            from_len = to_len;
         }
-        let seg = &self.seg[seg_ix];
-        seg.param(crs, res_len)
+        self.end().into()
     }
 
     fn as_line_string(
-- 
2.43.0


From 96498276aa67567de234ff26ff57076d70df21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 08/23] fix: CurveBuilder::with_seg checks the coordinate
 dimension

as append_segment() does.
---
 geokit/src/geometry/primitive/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index 9d4cc50..c6df3df 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -143,6 +143,9 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
+        if crs.dim() != seg.coord_dim() {
+            return Err("Invalid coordinate dimension");
+        }
         Ok(Self::new(crs, vec![clone_box(&seg)]))
     }
 
-- 
2.43.0


From 6dab93525cc1bb8a49fc279f21179941f4d2e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 09/23] fix: Angle::dms carries 60 minutes over to the degrees

An angle just below a whole degree was decomposed as d degrees 60 minutes.
---
 geokit/src/quantities/angle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..347704a 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,9 +191,9 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
@@ -202,6 +202,10 @@ impl Angle {
             m = deg.floor();
             s = 60. * deg.fract();
         }
+        if m >= 60. {
+            d += 1.;
+            m = 0.;
+        }
         Dms(sgn * d, m, s)
     }
 
-- 
2.43.0


From e59f6bc0dbce7af99facecd3cf3bd5ee39fa2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 10/23] fix: the normal sphere is a sphere

Its radius was given as an inverse flattening.
---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From f54036894dbaa22fe78ee8d945d31ff6e5da9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 11/23] fix: Geodesic displays the latitude of its first point

---
 geokit/src/geodesy/geodesics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/mod.rs b/geokit/src/geodesy/geodesics/mod.rs
index 250433b..5986741 100644
--- a/geokit/src/geodesy/geodesics/mod.rs
+++ b/geokit/src/geodesy/geodesics/mod.rs
@@ -7,7 +7,7 @@ use derive_more::derive::Display;
 
 /// Geodesic segment data.
 #[derive(Copy, Clone, Debug, PartialEq, Display)]
-#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.0, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
+#[display("From: (lon: {}, lat: {}, az: {})\nTo:   (lon: {}, lat: {}, az: {})\nL:   {}\ns:   {}", p1.0, p1.1, alpha1, p2.0, p2.1, alpha2, p2.0 - p1.0, s)]
 pub struct Geodesic {
     pub p1: (Lon, Lat),
     pub alpha1: Azimuth,
-- 
2.43.0


From f78691ec15673d5d2b311c5929225733555bbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 12/23] fix: GeodeticTolerance::small allows 1e-3 m on heights

as documented.
---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From bc418724b1572c19a57d8fbb8909a270901e7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 13/23] fix: Interval::new(-pi, -pi) is a singleton

It was turned into the empty interval [pi, -pi].
---
 geokit/src/cs/s1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..3bd52b1 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -66,10 +66,14 @@ impl Interval {
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
         let mut low = lo.wrapped();
-        let hig = hi.wrapped();
+        let mut hig = hi.wrapped();
+        let is_empty = low == Angle::PI && hig == Angle::M_PI;
         if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
         }
+        if hig == Angle::M_PI && !is_empty {
+            hig = Angle::PI;
+        }
         Self { lo: low, hi: hig }
     }
 
-- 
2.43.0


From 13da04e721602da7f43cd73282535c8962385538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 14/23] fix: Rapp inverse crosses the nearest pole on
 meridional lines

The pole crossed by the shortest line depends on both latitudes.
---
 geokit/src/geodesy/geodesics/rapp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index e84df1d..b3a5db0 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -6,6 +6,7 @@ use crate::geodesy::geodesics::{Geodesic, GeodesicSolver};
 use crate::geodesy::Ellipsoid;
 use crate::math::fp::PI;
 use crate::math::polynomial::Polynomial;
+use crate::quantities::angle::Angle;
 use crate::quantities::length::Length;
 use crate::units::angle::RAD;
 use crate::units::length::M;
@@ -277,7 +278,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         } else if lambda == PI {
             // lambda = PI -> pole crossing
-            if lat1 >= Lat::ZERO {
+            if lat1.angle() + lat2.angle() >= Angle::ZERO {
                 // crossing north pole by going north then south
                 (0., PI)
             } else {
-- 
2.43.0


From 758a062960bdb6ff15c69401185d5f6140ab8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 15/23] fix: Karney direct geodesics from the poles

The departure azimuth was lost to rounding when the first point is a pole.
---
 geokit/src/geodesy/geodesics/karney.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/karney.rs b/geokit/src/geodesy/geodesics/karney.rs
index 2d67b33..e403e8b 100644
--- a/geokit/src/geodesy/geodesics/karney.rs
+++ b/geokit/src/geodesy/geodesics/karney.rs
@@ -229,11 +229,11 @@ fn solve_triangle_from_p(beta: Angle, alpha: Azimuth) -> Triangle {
 
     // Eq (11)
     let sigma = Complex::new(cos_alpha * cos_beta, sin_beta).arg();
-    let (sin_sigma, cos_sigma) = sigma.sin_cos();
 
-    // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator
+    // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator.
+    // At the poles, cos_sigma = cos_alpha * cos_beta must not be recomputed from sigma.
     let sin_alpha0 = alpha0.sin();
-    let omega = Complex::new(cos_sigma, sin_alpha0 * sin_sigma).arg();
+    let omega = Complex::new(cos_alpha * cos_beta, sin_alpha0 * sin_beta).arg();
 
     Triangle {
         alpha0: Azimuth::new(alpha0),
-- 
2.43.0


From 0c8c7bb2e2174c49223111e46c4a4559ee4e43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:18 +0000
Subject: [PATCH 16/23] fix: Rapp direct geodesics from a pole or longer than
 half a turn

From a pole the end point was lost to a division by cos(beta1), and past half a
turn the end azimuth was reversed.
---
 geokit/src/geodesy/geodesics/rapp.rs | 30 ++++++++++------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index b3a5db0..7ffb17b 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -110,18 +110,17 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         }
 
-        let alpha = sin_alpha.asin();
-        // From Eq (1.22)
-        let beta2 = ((sigma_1 + sigma).sin() * alpha.cos()).asin() * RAD;
-        let (sin_beta2, cos_beta2) = beta2.sin_cos();
+        // Solve the spherical triangle (pole, p1, p2) with atan2 only: the equivalent formulas
+        // in asin(beta2) or divided by cos(beta1) and cos(beta2) are ill-conditioned at the poles,
+        // and the ones for the azimuth only hold for sigma < pi.
+        let cos_beta2_cos_alpha2 = cos_beta1 * cos_sigma * cos_alpha1 - sin_beta1 * sin_sigma;
+        let sin_beta2 = sin_beta1 * cos_sigma + cos_beta1 * sin_sigma * cos_alpha1;
+        let cos_beta2 = sin_alpha.hypot(cos_beta2_cos_alpha2);
         // geodetic latitude from reduced latitude
-        let lat2 = beta2.tan().atan2(1. - self.ellipsoid.f());
+        let lat2 = sin_beta2.atan2((1. - self.ellipsoid.f()) * cos_beta2);
 
-        // Eq (1.76)
-        let sin_lambda = sin_sigma * sin_alpha1 / cos_beta2;
-        // From Eq (1.57)
-        let cos_lambda = (cos_sigma - sin_beta1 * sin_beta2) / (cos_beta1 * cos_beta2);
-        let lambda = sin_lambda.atan2(cos_lambda);
+        let lambda = (sin_sigma * sin_alpha1)
+            .atan2(cos_beta1 * cos_sigma - sin_beta1 * sin_sigma * cos_alpha1);
 
         // Eq (1.56)
         let f = self.ellipsoid.f();
@@ -135,16 +134,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
 
         let L = lambda - lambda_minus_L;
 
-        let alpha21 = if s12.m() < 1000.0 {
-            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-            // Eq (1.73)
-            (sin_lambda * cos_beta1)
-                .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq)
-        } else {
-            // Eq (1.71)
-            (sin_lambda * cos_beta1)
-                .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2)
-        };
+        let alpha21 = sin_alpha.atan2(cos_beta2_cos_alpha2);
 
         Ok(Geodesic {
             p1,
-- 
2.43.0


From e3612cc401f231981f6b9c5904dd8e68e02f6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:18 +0000
Subject: [PATCH 17/23] fix: cos(8 sigma_m) in the Rapp inverse

mixed up sin(2 sigma) with sin(2 sigma_m).
---
 geokit/src/geodesy/geodesics/rapp.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 7ffb17b..4f142c6 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -208,9 +208,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
                 cos_6_sigma_m =
                     cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
-                cos_8_sigma_m = cos_2_sigma_m.powi(4)
-                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma.powi(2)
-                    + sin_2_sigma.powi(4);
+                cos_8_sigma_m = 2. * cos_4_sigma_m.powi(2) - 1.;
 
                 // Eq (1.56)
                 let big_as = self.axs.map(|p| p.eval_at(cos_alpha_sq));
-- 
2.43.0


From 9a7348595d1191af79b4ad0e2533eb9c489f7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:56 +0000
Subject: [PATCH 18/23] fix: Complex::arg is +pi for negative reals, whatever
 the sign of their zero imaginary part

---
 geokit/src/math/complex.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/complex.rs b/geokit/src/math/complex.rs
index 39951ab..3ed4d90 100644
--- a/geokit/src/math/complex.rs
+++ b/geokit/src/math/complex.rs
@@ -36,7 +36,8 @@ impl Complex {
 
     /// Return the argument **in (-pi..pi] radians** of this complex.
     pub fn arg(self) -> Angle {
-        self.im.atan2(self.re) * RAD
+        // `+ 0.0` turns a negative zero into a positive one: the argument of a negative real is +pi.
+        (self.im + 0.0).atan2(self.re) * RAD
     }
 
     /// Return the multiplicative inverse of this complex.
-- 
2.43.0


From 18d12b3b7dc9ed077c45154dd191f2668c1c6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:19 +0000
Subject: [PATCH 19/23] verif hook: expose the datum shifts under --cfg
 geokit_verif

---
 geokit/src/transformations/xyz.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geokit/src/transformations/xyz.rs b/geokit/src/transformations/xyz.rs
index 7eb4529..c4c91e2 100644
--- a/geokit/src/transformations/xyz.rs
+++ b/geokit/src/transformations/xyz.rs
@@ -1,5 +1,6 @@
 //! This module defines types to perform coordinates transformation through normalized geocentric
 //! coordinates.
+#![allow(unexpected_cfgs)] // `geokit_verif`
 
 use super::{CrsTransformation, TransformationError};
 use crate::{
@@ -290,6 +291,27 @@ impl XYZTransformation for Helmert7Params {
     }
 }
 
+/// Verification hook: gives access to the crate private transformations when built with
+/// `--cfg geokit_verif`.
+#[cfg(geokit_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn translation(t: [Length; 3]) -> Box<dyn XYZTransformation> {
+        let [tx, ty, tz] = t;
+        Box::new(GeocentricTranslation::new(tx, ty, tz))
+    }
+
+    pub fn helmert(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> Box<dyn XYZTransformation> {
+        Box::new(Helmert7Params::new(conv, rotation, translation, ppm))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::GeocentricTranslation;
-- 
2.43.0


From 4fb3cfd6b64b0c61d4ab7ca792c5728680668ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 20/23] fix: sample_s2 outputs heights in the requested length
 unit

---
 geokit/src/bin/sample_s2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 9cc0c13..1714664 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -80,7 +80,7 @@ fn main() {
                 .map(move |xyz| s2_to_ll(cmd.inverse_flattening, cmd.rad_per_unit, xyz))
                 .zip(height_distr)
                 .take(cmd.count as usize)
-                .map(|(ll, h)| [ll[0], ll[1], h])
+                .map(|(ll, h)| [ll[0], ll[1], h / cmd.meter_per_unit])
                 .for_each(|llh| {
                     let [lon, lat, h] = llh;
                     println!("{lon:17.12} {lat:16.12} {h:9.3}");
-- 
2.43.0


From 56c439034202e246c8f192b6e6413f1e2a158cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:27 +0000
Subject: [PATCH 21/23] verif hook: sample_s2 enumerates its random source
 under --cfg geokit_verif

---
 geokit/src/bin/sample_s2.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 1714664..1a3be23 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -6,6 +6,7 @@
 //!
 //! This is mostly useful to feed input to tools like [proj](https://proj.org) to
 //! generate test data.
+#![allow(unexpected_cfgs)] // `geokit_verif`
 use clap::{Parser, ValueEnum};
 use geokit::math::fp::PI;
 use rand::Rng;
@@ -55,7 +56,7 @@ enum CoordType {
 fn main() {
     let cmd = Cli::parse();
 
-    let rng = rand::rng();
+    let rng = random_source();
     match cmd.coord_type {
         CoordType::XYZ => sample_s2(rng)
             .map(move |xyz| s2_to_xyz(cmd.a, cmd.inverse_flattening, cmd.meter_per_unit, xyz))
@@ -72,7 +73,7 @@ fn main() {
                 println!("{lon:17.12} {lat:16.12}");
             }),
         CoordType::LonLatHeight => {
-            let h_rng = rand::rng();
+            let h_rng = random_source();
             let height_distr = Uniform::new_inclusive(-1500., 30_000.)
                 .unwrap()
                 .sample_iter(h_rng);
@@ -95,6 +96,38 @@ fn main() {
     //println!("{max_lat}");
 }
 
+#[cfg(not(geokit_verif))]
+fn random_source() -> impl Rng {
+    rand::rng()
+}
+
+/// Verification hook: under `--cfg geokit_verif`, the random source enumerates the cells of a
+/// square grid, row by row: two words per cell, `GEOKIT_VERIF_GRID` cells per side.
+#[cfg(geokit_verif)]
+fn random_source() -> impl Rng {
+    struct Grid(u64, u64);
+    impl rand::RngCore for Grid {
+        fn next_u32(&mut self) -> u32 {
+            (self.next_u64() >> 32) as u32
+        }
+        fn next_u64(&mut self) -> u64 {
+            let (k, n) = (self.0, self.1);
+            self.0 += 1;
+            let cell = (k / 2) % (n * n);
+            let i = if k % 2 == 0 { cell / n } else { cell % n };
+            (u64::MAX / n) * i + u64::MAX / n / 2
+        }
+        fn fill_bytes(&mut self, dst: &mut [u8]) {
+            for c in dst.chunks_mut(8) {
+                let w = self.next_u64().to_le_bytes();
+                c.copy_from_slice(&w[..c.len()]);
+            }
+        }
+    }
+    let n = std::env::var("GEOKIT_VERIF_GRID").ok().and_then(|v| v.parse().ok());
+    Grid(0, n.unwrap_or(1000))
+}
+
 fn sample_s2(rng: impl Rng) -> impl Iterator<Item = [f64; 3]> {
     UnitSphere.sample_iter(rng)
 }
-- 
2.43.0


From e17bfec70782367f724c23c94da3b5e2aef3f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:10 +0000
Subject: [PATCH 22/23] fix: Rapp inverse between opposite meridians could
 point over the wrong pole

---
 geokit/src/geodesy/geodesics/rapp.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 4f142c6..4061c64 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -277,20 +277,20 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             let (tan_alpha12, tan_alpha21) = if s.m() < 10_000.0 {
                 (
                     // Eq (1.72)
-                    lambda.sin() * cos_beta2
+                    sin_lambda * cos_beta2
                         / ((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
                     // Eq (1.73)
-                    lambda.sin() * cos_beta1
+                    sin_lambda * cos_beta1
                         / ((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
                 )
             } else {
                 (
                     // Eq (1.70)
-                    lambda.sin() * cos_beta2
-                        / (sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
+                    sin_lambda * cos_beta2
+                        / (sin_beta2 * cos_beta1 - cos_lambda * sin_beta1 * cos_beta2),
                     // Eq (1.71)
-                    lambda.sin() * cos_beta1
-                        / (sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
+                    sin_lambda * cos_beta1
+                        / (sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2),
                 )
             };
             (
-- 
2.43.0


From e28512b67a5906c5562040e51d1d80a0976cc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:47 +0000
Subject: [PATCH 23/23] verif hook: counter-based random source for sample_s2
 (cfg geokit_verif only)

---
 geokit/src/bin/sample_s2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geokit/src/bin/sample_s2.rs b/geokit/src/bin/sample_s2.rs
index 1a3be23..ff49184 100644
--- a/geokit/src/bin/sample_s2.rs
+++ b/geokit/src/bin/sample_s2.rs
@@ -102,7 +102,8 @@ fn random_source() -> impl Rng {
 }
 
 /// Verification hook: under `--cfg geokit_verif`, the random source enumerates the cells of a
-/// square grid, row by row: two words per cell, `GEOKIT_VERIF_GRID` cells per side.
+/// square grid, row by row: two words per cell, `GEOKIT_VERIF_GRID` cells per side. With 0 cells,
+/// it enumerates a counter through a bijection of the words (SplitMix64).
 #[cfg(geokit_verif)]
 fn random_source() -> impl Rng {
     struct Grid(u64, u64);
@@ -113,6 +114,12 @@ fn random_source() -> impl Rng {
         fn next_u64(&mut self) -> u64 {
             let (k, n) = (self.0, self.1);
             self.0 += 1;
+            if n == 0 {
+                let z = k.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
+                let z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
+                let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
+                return z ^ (z >> 31);
+            }
             let cell = (k / 2) % (n * n);
             let i = if k % 2 == 0 { cell / n } else { cell % n };
             (u64::MAX / n) * i + u64::MAX / n / 2
-- 
2.43.0

