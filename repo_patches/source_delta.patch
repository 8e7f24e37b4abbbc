From 5a2fde6420379470f3fb5a68663dba4f8f7c691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 01/18] fix: back-substitute every unknown in the tridiagonal
 solver

The loop stopped one row early, so x[n - 2] was never corrected by
scratch[n - 2] * x[n - 1].
---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 5df52cdcd34213a29ecd57f8e03d3304a899d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 02/18] fix: include both boundary terms when a natural cubic
 has three points

With a single interior point the row is both the first and the last one,
and the contribution of the last ordinate was dropped.
---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..3dadbd1 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary_term = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary_term += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary_term += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary_term);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From ac513a8c7e01d78fd55b46f8575b53a3ecd720e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 03/18] fix: make the last Catmull-Rom segment pass through the
 last point

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..c2e2f05 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0


From 2801a1d79a8e2e1e57ed5a1fd41d0f9a998cca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 04/18] fix: use the previous interval length in inner
 Catmull-Rom segments

prev_h measured two intervals, so the slope at an inner point differed
between the segments on its left and on its right.
---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index c2e2f05..5f1717b 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -129,7 +129,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 .mul(Vector4::new(prev_point.y, point.y, next_point.y, V::zero()))
             } else {
                 let prev_point = &self.points[pos - 1];
-                let prev_h = next_point.x - prev_point.x;
+                let prev_h = point.x - prev_point.x;
                 let alpha = h / (h + prev_h);
                 let next_next_point = &self.points[pos + 2];
                 let next_h = next_next_point.x - next_point.x;
-- 
2.43.0


From 1fb3fa1c93b36c881100364dd03e1a35ca26addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 05/18] fix: report insufficient points from Hermite::try_new
 as documented

An empty slice panicked on raw_points[0].
---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..e63c9d3 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 1d5bcf638d3e223481a5496e247e5f0f478d0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 06/18] fix: reject a query on fewer than two points

A single point has no segment: querying it at its own abscissa made the
interpolators index points[1].
---
 crates/qlab-math/src/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation.rs b/crates/qlab-math/src/interpolation.rs
index 548da9e..dd3b727 100644
--- a/crates/qlab-math/src/interpolation.rs
+++ b/crates/qlab-math/src/interpolation.rs
@@ -80,7 +80,7 @@ fn find_index_at_left_boundary<V: PartialOrd>(
     points: &[impl X<V>],
     x: V,
 ) -> Result<usize, InterpolationError<V>> {
-    if points.is_empty() {
+    if points.len() < 2 {
         return Err(InterpolationError::InsufficientPointsError(points.len()));
     }
     let pos = points.partition_point(|point| *point.x() < x);
-- 
2.43.0


From a24cc3c7f812fb67671c4ab4da7cde37df42279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 07/18] fix: reject unsorted points in Linear::try_fit

The segment search requires ascending abscissas; the splines already
report PointOrderError.
---
 crates/qlab-math/src/interpolation/linear.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..a4d1109 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -48,8 +48,11 @@ impl<V: Real> Linear<V> {
 impl<V: Value> Interpolator for Linear<V> {
     type Value = V;
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
-        let mut points = Vec::with_capacity(raw_points.len());
+        let mut points: Vec<Point2D<V>> = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if points.last().is_some_and(|last| x < last.x) {
+                return Err(InterpolationError::PointOrderError);
+            }
             points.push(Point2D { x, y });
         }
         self.points = points;
-- 
2.43.0


From be957cae24816dc1fa939207a18c57337d98c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 08/18] fix: compute 30/360 day counts across a year end

Subtracting the months as u32 underflowed whenever the month of date2
precedes the month of date1.
---
 crates/qlab-time/src/day_count/thirty_360.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..c1bd4ff 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -18,7 +18,8 @@ impl Thirty360 {
         let d1 = date1.day().min(30);
         let d2 = date2.day().min(30);
         Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
+            360 * (date2.year() - date1.year()) as u32 + 30 * date2.month() + d2
+                - 30 * date1.month()
                 - d1,
         )
     }
-- 
2.43.0


From f36e561124a49fcd2d6312c04fadc7142560752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 09/18] fix: return None when adding years overflows

self.year() + rhs_years overflowed i32 in a checked operation.
---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3043718 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 1d54b7c71b3f2817f3cd06aaa4014fefa96a8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 10/18] fix: compare modified rolling with the month of the
 unadjusted date

The month of the start date was used, so any period that leaves the
start month rolled in the opposite direction.
---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3043718..e682b2a 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 5b6ca4a79864cce202e8a6fd2b4d0afe240a5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 11/18] fix: return None for a bond whose first coupon follows
 the penultimate

There is no regular coupon then, and adjusting the first one panicked.
---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..3bf933d 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -113,14 +113,15 @@ impl<V: Value> Bond<V> {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                bond_cash_flows.first_mut()?.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount +=
+                    coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 23c5cbeb8a40ecbcba31d54db2a1cb988f79555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 12/18] fix: count coupon dates from the first coupon date

Adding six months to the previous date drifted away from the end of the
month: 31 Aug, 28 Feb, 28 Aug, ...
---
 crates/qlab-instrument/src/bond.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 3bf933d..713c7dc 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -68,6 +68,7 @@ impl<V: Value> Bond<V> {
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_from_first_coupon = 0;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +78,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_from_first_coupon += 12 / coupon_frequency as u32;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
-- 
2.43.0


From b195e5560b6e99f41eae3faf4a549c8c65b449e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 13/18] fix: honour include_first in business_days_between

The flag was inverted, and equal dates with the default flags panicked on
a negative day count.
---
 third-parties/calendar/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..dd74b38 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -212,12 +212,11 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        let first = from + Duration::days(i64::from(!include_first));
+        let day_diff = ((to + Duration::days(i64::from(include_last))) - first).num_days();
+        for date in first
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or(0))
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 3b12bff8f2ce6d020c7289e37850c02fb04b913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 14/18] fix: report Friday and Saturday as the Israeli weekend

is_business_day already closes on them, but is_weekend kept the default
Saturday and Sunday, so Sundays were weekend business days.
---
 third-parties/calendar/src/israel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..4c67a6f 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -8,6 +8,11 @@ use chrono::{NaiveDate, Weekday};
 pub struct Israel;
 
 impl Calendar for Israel {
+    fn is_weekend(&self, date: NaiveDate) -> bool {
+        let (_, w, _, _, _) = self.naive_date_to_dkmy(date);
+        matches!(w, Weekday::Fri | Weekday::Sat)
+    }
+
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
 
-- 
2.43.0


From 050737a32d5b559814c4a1103ae28fcfe5736b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 15/18] fix: use the Orthodox Easter for the Ukrainian moveable
 holidays

Orthodox Easter Monday and Holy Trinity Day were derived from the Western
Easter table.
---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 419d22e414e6a3e14e1711e5d2473c5895779934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 16/18] fix: compute the Japanese equinox holidays outside the
 tabulated years

The tables only covered 2014-2028, so for instance 21 March 2011 was a
business day, and the autumnal equinox of 2016 was on the wrong day.
---
 third-parties/calendar/src/japan.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..1e00c35 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -8,15 +8,29 @@ use chrono::{NaiveDate, Weekday};
 pub struct Japan;
 
 impl Japan {
+    // Day of the month on which the sun crosses the equator in Japan: `offset` is that moment in
+    // 1980, in millionths of a day, which moves by 242194 millionths every year.
+    fn equinox_day(offset: i32, y: i32) -> u32 {
+        let leap_days = if y < 1980 {
+            (y - 1983) / 4
+        } else {
+            (y - 1980) / 4
+        };
+        ((offset + 242_194 * (y - 1980)) / 1_000_000 - leap_days) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
+            1900..=1979 => Self::equinox_day(20_835_700, y),
+            1980..=2099 => Self::equinox_day(20_843_100, y),
+            2100..=2150 => Self::equinox_day(21_851_000, y),
             _ => 20,
         }
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2020 | 2024 | 2028 => 22,
+            1900..=1979 => Self::equinox_day(23_258_800, y),
+            1980..=2099 => Self::equinox_day(23_248_800, y),
+            2100..=2150 => Self::equinox_day(24_248_800, y),
             _ => 23,
         }
     }
-- 
2.43.0


From f87d78ec8b29ef6c600f7233665028237d1d4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 17/18] fix: close Singapore for the Chinese New Year of 2010
 in February

It fell on 14 and 15 February 2010; the table had 15 and 16 January.
---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 987f818d9815d3ce69f9ab7ed7bd3c011b0e0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 18/18] fix: refuse a bond with no regular coupon when issued a
 period before

The first coupon after the penultimate one and the issue date exactly one
period before the first coupon gave a bond with the final flow alone.
---
 crates/qlab-instrument/src/bond.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 713c7dc..9f618e7 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -64,6 +64,9 @@ impl<V: Value> Bond<V> {
         coupon_rate: V,
         face_value: V,
     ) -> Option<Self> {
+        if first_coupon_date > penultimate_coupon_date {
+            return None;
+        }
         let months_in_regular_coupon_period = Months::new(12 / coupon_frequency as u32);
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
-- 
2.43.0

