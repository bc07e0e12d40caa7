From 77bbf898f2888b9d23fe2d49ac130a7cd49ea518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 01/74] fix: autodiff cbrt derivative is NaN for negative
 arguments

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 24f36c6..c7e229c 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -501,7 +501,7 @@ impl<'v> Variable<'v> {
             index: self.graph.push(
                 Arity::Unary,
                 &[self.index],
-                &[((3.0 * self.value.powf(2.0 / 3.0)).recip())],
+                &[((3.0 * self.value.cbrt().powi(2)).recip())],
             ),
         }
     }
-- 
2.43.0


From fd64c716b00c1f5db70d4dd162d47f73218bc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 02/74] fix: autodiff log with a variable base swaps its two
 partial derivatives

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index c7e229c..5b478ad 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1031,8 +1031,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
                 Arity::Binary,
                 &[self.index, base.index],
                 &[
-                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                     1.0 / (self.value * f64::ln(base.value)),
+                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                 ],
             ),
         }
-- 
2.43.0


From f9ef49f8bc3ccec42bbc694c63f9c94885def159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 03/74] fix: autodiff derivative of a constant raised to a
 variable power

---
 crates/RustQuant_autodiff/src/overload.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 5b478ad..f5bfae6 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1413,7 +1413,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * self.ln()],
             ),
         }
     }
@@ -1481,7 +1481,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * self.ln()],
             ),
         }
     }
-- 
2.43.0


From c47053946a80dc26b3daec1fc21a5f64bed6a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 04/74] fix: semi-quarterly frequency is 8 periods per year, as
 documented

---
 crates/RustQuant_time/src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/constants.rs b/crates/RustQuant_time/src/constants.rs
index d1b9775..b4fdf92 100644
--- a/crates/RustQuant_time/src/constants.rs
+++ b/crates/RustQuant_time/src/constants.rs
@@ -32,7 +32,7 @@ pub(crate) const ANNUALLY: isize = 1;
 pub(crate) const SEMI_ANNUALLY: isize = 2;
 pub(crate) const TRI_ANNUALLY: isize = 3;
 pub(crate) const QUARTERLY: isize = 4;
-pub(crate) const SEMI_QUARTERLY: isize = 6;
+pub(crate) const SEMI_QUARTERLY: isize = 8;
 pub(crate) const MONTHLY: isize = 12;
 pub(crate) const SEMI_MONTHLY: isize = 24;
 pub(crate) const BI_WEEKLY: isize = 26;
-- 
2.43.0


From 37d210b0e0d30ad78247ff5f498d4d19949fe81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 05/74] fix: get_last_day_of_month returned the weekday of the
 day after the last

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 9780f97..94af6ae 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -198,7 +198,7 @@ pub fn get_first_day_of_month(year: i32, month: Month) -> Result<Weekday, Error>
 pub fn get_last_day_of_month(year: i32, month: Month) -> Result<Weekday, Error> {
     let date = Date::from_calendar_date(year, month, 1)?;
 
-    let last_day = date + Duration::days(month.length(year) as i64);
+    let last_day = date + Duration::days(month.length(year) as i64 - 1);
 
     Ok(last_day.weekday())
 }
-- 
2.43.0


From 6d7c003dd3116e6e4e3355c44f03a84a53c6e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 06/74] fix: date_sequence panicked on an empty range instead
 of returning no dates

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 94af6ae..3b84c0e 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -178,7 +178,7 @@ pub fn previous_business_day(date: Date, calendar: &Calendar) -> Date {
 
 /// Function to generate a sequence of dates from a start date, end date.
 pub fn date_sequence(start: Date, end: Date) -> Vec<Date> {
-    let mut dates = Vec::with_capacity((end - start).whole_days() as usize);
+    let mut dates = Vec::with_capacity(((end - start).whole_days() + 1).max(0) as usize);
     let mut current_date = start;
 
     while current_date <= end {
-- 
2.43.0


From 116feac39d6879703e2e54c325782557cc031b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 07/74] fix: no-leap day counts dropped a day per leap year
 touched instead of per leap day in the period

---
 crates/RustQuant_time/src/day_counting.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 1e5db68..500db64 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_year_count};
+use super::{contains_leap_year, days_between, is_last_day_of_february};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -187,17 +187,17 @@ impl DayCountConvention {
     // NL/360 day count factor calculation.
     pub(crate) fn day_count_factor_nl_360(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = Self::leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 360.0
+        (day_count - leap_days) / 360.0
     }
 
     // NL/365 day count factor calculation.
     pub(crate) fn day_count_factor_nl_365(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = Self::leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 365.0
+        (day_count - leap_days) / 365.0
     }
 
     // One/One day count factor calculation.
@@ -342,6 +342,14 @@ impl DayCountConvention {
         Self::thirty_360_numerator(y1, y2, m1, m2, d1, d2) / 365.0
     }
 
+    /// Number of 29ths of February in the period (start date exclusive, end date inclusive).
+    pub(crate) fn leap_day_count(start_date: Date, end_date: Date) -> i64 {
+        (start_date.year()..=end_date.year())
+            .filter_map(|y| Date::from_calendar_date(y, Month::February, 29).ok())
+            .filter(|leap_day| start_date < *leap_day && *leap_day <= end_date)
+            .count() as i64
+    }
+
     /// Function to comput the 30/360 numerator.
     pub(crate) fn thirty_360_numerator(
         y1: i32,
-- 
2.43.0


From bf0ffb992c895856cf934b7db6d3798308e2e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 08/74] fix: Act/365 Actual divides by 366 only if the period
 contains a leap day

---
 crates/RustQuant_time/src/day_counting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 500db64..606d36e 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -222,7 +222,7 @@ impl DayCountConvention {
 
     // Actual/365 Actual day count factor calculation.
     pub(crate) fn day_count_factor_actual_365_actual(start_date: Date, end_date: Date) -> f64 {
-        match contains_leap_year(start_date, end_date) {
+        match Self::leap_day_count(start_date, end_date) > 0 {
             true => (end_date - start_date).whole_days() as f64 / 366.0,
             false => (end_date - start_date).whole_days() as f64 / 365.0,
         }
-- 
2.43.0


From 807086e16ab88bfbde357ebec4ec208501eb0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 09/74] fix: 30U/360 adjusts an end of February end date only
 if the start date is one too

---
 crates/RustQuant_time/src/day_counting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 606d36e..83337d4 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -319,7 +319,9 @@ impl DayCountConvention {
             d1 = 30;
         }
 
-        if d2 == 31 && d1 == 30 || is_last_day_of_february(end_date) {
+        if d2 == 31 && d1 == 30
+            || is_last_day_of_february(start_date) && is_last_day_of_february(end_date)
+        {
             d2 = 30;
         }
 
-- 
2.43.0


From f086e55fa82117795b4252383e8ef90a9bfd5fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 10/74] fix: Act/Act AFB counts whole years backwards and no
 longer panics on the 29th of February

---
 crates/RustQuant_time/src/day_counting.rs | 38 ++++++++++++++---------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 83337d4..1d4a59a 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -128,24 +128,32 @@ impl DayCountConvention {
 
     // Actual/Actual AFB day count factor calculation.
     pub(crate) fn day_count_factor_actual_actual_afb(start_date: Date, end_date: Date) -> f64 {
-        let (y1, _y2) = (start_date.year(), end_date.year());
-        let (_m1, m2) = (start_date.month(), end_date.month());
-        let (_d1, d2) = (start_date.day(), end_date.day());
-
-        let stub_date = if Date::from_calendar_date(y1, m2, d2).unwrap() < start_date {
-            Date::from_calendar_date(y1 + 1, m2, d2).unwrap()
-        } else {
-            Date::from_calendar_date(y1, m2, d2).unwrap()
+        // Whole years are counted backwards from the end date. If that is
+        // the 28th or 29th of February, each year ends on the last of February.
+        let last_of_february = end_date.month() == Month::February && end_date.day() >= 28;
+        let anniversary = |years: i32| {
+            let year = end_date.year() - years;
+            let day = match last_of_february && years > 0 {
+                true => Month::February.length(year),
+                false => end_date.day(),
+            };
+            Date::from_calendar_date(year, end_date.month(), day).unwrap()
         };
 
-        let initial_stub_days = (stub_date - start_date).whole_days() as f64;
-        // let final_stub_days = (end_date - stub_date).whole_days() as f64;
-        let final_stub_years = (end_date.year() - stub_date.year()) as f64;
-        let initial_stub_contains_leap = contains_leap_year(start_date, stub_date);
+        let mut years = 0;
+        while anniversary(years + 1) >= start_date {
+            years += 1;
+        }
 
-        match initial_stub_contains_leap {
-            true => final_stub_years + initial_stub_days / 366.0,
-            false => (end_date - start_date).whole_days() as f64 / 365.0,
+        let stub_date = anniversary(years);
+        let stub_days = (stub_date - start_date).whole_days() as f64;
+        let stub_contains_leap_day = (start_date.year()..=stub_date.year())
+            .filter_map(|y| Date::from_calendar_date(y, Month::February, 29).ok())
+            .any(|leap_day| start_date <= leap_day && leap_day < stub_date);
+
+        match stub_contains_leap_day {
+            true => years as f64 + stub_days / 366.0,
+            false => years as f64 + stub_days / 365.0,
         }
     }
 
-- 
2.43.0


From 12ed1ba455aa3ff27d448745e18d31bc7cc43840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 11/74] fix: French Ascension and Whit Monday follow Easter
 instead of fixed dates

---
 crates/RustQuant_time/src/countries/france.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/france.rs b/crates/RustQuant_time/src/countries/france.rs
index 7174890..49195d2 100644
--- a/crates/RustQuant_time/src/countries/france.rs
+++ b/crates/RustQuant_time/src/countries/france.rs
@@ -27,9 +27,9 @@ pub(crate) fn is_holiday_impl_france(date: Date) -> bool {
             // Victoire 1945
             || (d == 8 && m == Month::May)
             // Ascension
-            || (d == 10 && m == Month::May)
+            || (yd == em + 38)
             // Pentecote
-            || (d == 21 && m == Month::May)
+            || (yd == em + 49)
             // Fete nationale
             || (d == 14 && m == Month::July)
             // Assomption
-- 
2.43.0


From 572f89fc873c4bac3e09918fed1e0037445e5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 12/74] fix: Argentina misses New Year's Day

---
 crates/RustQuant_time/src/countries/argentina.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/argentina.rs b/crates/RustQuant_time/src/countries/argentina.rs
index 5f15fe9..ac152a5 100644
--- a/crates/RustQuant_time/src/countries/argentina.rs
+++ b/crates/RustQuant_time/src/countries/argentina.rs
@@ -19,7 +19,7 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
 
     if
     // New Year's Day
-    is_christmas_day(date)
+    is_new_years_day(date)
             // Holy Thursday
             || (yd == em-4)
             // Good Friday
@@ -40,6 +40,8 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
             || (d == 8 && m == Month::December)
             // Christmas Eve
             || is_christmas_eve(date)
+            // Christmas Day
+            || is_christmas_day(date)
             // New Year's Eve
             || is_new_years_eve(date)
     {
-- 
2.43.0


From aca445d692a6d6f843f62b9bf42dcb3476f5f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 13/74] fix: Singapore treats the 25th of every month as
 Christmas

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index dceb55d..ea7c9df 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -23,7 +23,7 @@ pub(crate) fn is_holiday_impl_singapore(date: Date) -> bool {
                 // National Day
                 || ((d == 9 || ((d == 10) && wd == Weekday::Monday)) && m == Month::August)
                 // Christmas Day
-                || (d == 25 || ((d == 26) && wd == Weekday::Monday) && m == Month::December)
+                || ((d == 25 || ((d == 26) && wd == Weekday::Monday)) && m == Month::December)
                 // Chinese New Year
                 || is_chinese_new_year(y, m, d)
                 // Hari Raya Haji
-- 
2.43.0


From 78f7b08b45485f56eed306cc78bd4c1f8134a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 14/74] fix: Singapore Chinese New Year 2014 and Vesak Day 2005
 in the wrong month

---
 crates/RustQuant_time/src/countries/singapore.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index ea7c9df..e57674e 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -57,7 +57,8 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1, January)
+            | (2014, 31, January)
+            | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
             | (2017, 28..=29, January)
@@ -138,7 +139,7 @@ fn is_vesak_day(year: i32, month: Month, day: u8) -> bool {
     matches!(
         (year, day, month),
         (2004, 2, June)
-            | (2005, 22..=23, October)
+            | (2005, 22..=23, May)
             | (2006, 12, May)
             | (2007, 31, May)
             | (2008, 19, May)
-- 
2.43.0


From ff0cd9350b971825379729ebc650348816383d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 15/74] fix: Hong Kong Lunar New Year 2014 in the wrong month

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index d952c00..bdabbc9 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -67,7 +67,8 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1 | 2, January)
+            | (2014, 31, January)
+            | (2014, 1..=3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
             | (2017, 28..=30, January)
-- 
2.43.0


From f0f485b5206a02d8785579ea09042348e9b491a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 16/74] fix: Israel has Purim in Adar I and Passover in Adar II
 of Hebrew leap years

---
 crates/RustQuant_time/src/countries/israel.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/israel.rs b/crates/RustQuant_time/src/countries/israel.rs
index 1ce3eae..6eb8b54 100644
--- a/crates/RustQuant_time/src/countries/israel.rs
+++ b/crates/RustQuant_time/src/countries/israel.rs
@@ -48,8 +48,14 @@ pub(crate) fn is_holiday_impl_israel(date: Date) -> bool {
     let mut hebrew_month = hebrew_date.month().ordinal as u8;
     let hebrew_day = hebrew_date.day_of_month().0 as u8;
 
-    if hebrew_date.is_in_leap_year() && hebrew_month > 7 {
-        hebrew_month -= 1;
+    // In a leap year the festivals of Adar fall in Adar II, the 7th month: Adar I has none.
+    if hebrew_date.is_in_leap_year() {
+        if hebrew_month == 6 {
+            return false;
+        }
+        if hebrew_month > 6 {
+            hebrew_month -= 1;
+        }
     }
 
     // Check if the date is Independence Day or Memorial Day.
-- 
2.43.0


From b2330ada20f59938e0b30fc9286239b84ddbe6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 17/74] fix: Hong Kong lunar festivals and Christmas
 substitutes 2004-2020 on wrong dates

---
 .../RustQuant_time/src/countries/hong_kong.rs | 80 +++++++------------
 1 file changed, 31 insertions(+), 49 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index bdabbc9..0ca913c 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -59,27 +59,27 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22..=24, January)
             | (2005, 9..=11, February)
-            | (2006, 28..=30, January)
-            | (2007, 17..=19, February)
+            | (2006, 28 | 30 | 31, January)
+            | (2007, 17 | 19 | 20, February)
             | (2008, 7..=9, February)
             | (2009, 26..=28, January)
-            | (2010, 13..=15, February)
-            | (2011, 2..=4, February)
+            | (2010, 13 | 15 | 16, February)
+            | (2011, 3..=5, February)
             | (2012, 23..=25, January)
-            | (2013, 10..=12, February)
+            | (2013, 10..=13, February)
             | (2014, 31, January)
             | (2014, 1..=3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
-            | (2017, 28..=30, January)
-            | (2018, 16..=18, February)
+            | (2017, 28..=31, January)
+            | (2018, 16..=19, February)
             | (2019, 5..=7, February)
             | (2020, 25 | 27 | 28, January)
     )
 }
 
 fn is_buddhas_birthday(year: i32, month: Month, day: u8) -> bool {
-    use Month::May;
+    use Month::{April, May};
     matches!(
         (year, day, month),
         (2004, 26, May)
@@ -90,15 +90,15 @@ fn is_buddhas_birthday(year: i32, month: Month, day: u8) -> bool {
             | (2009, 2, May)
             | (2010, 21, May)
             | (2011, 10, May)
-            | (2012, 28, May)
+            | (2012, 28, April)
             | (2013, 17, May)
             | (2014, 6, May)
             | (2015, 25, May)
             | (2016, 14, May)
             | (2017, 3, May)
             | (2018, 22, May)
-            | (2019, 12, May)
-            | (2020, 30, May)
+            | (2019, 13, May)
+            | (2020, 30, April)
     )
 }
 
@@ -112,12 +112,12 @@ fn is_ching_ming_festival(year: i32, month: Month, day: u8) -> bool {
             | (2007, 5, April)
             | (2008, 4, April)
             | (2009, 4, April)
-            | (2010, 5, April)
+            | (2010, 6, April)
             | (2011, 5, April)
             | (2012, 4, April)
             | (2013, 4, April)
             | (2014, 5, April)
-            | (2015, 5, April)
+            | (2015, 7, April)
             | (2016, 4, April)
             | (2017, 4, April)
             | (2018, 5, April)
@@ -133,10 +133,10 @@ fn is_tuen_ng_festival(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22, June)
             | (2005, 11, June)
-            | (2006, 1, June)
+            | (2006, 31, May)
             | (2007, 19, June)
             | (2008, 9, June)
-            | (2009, 28, June)
+            | (2009, 28, May)
             | (2010, 16, June)
             | (2011, 6, June)
             | (2012, 23, June)
@@ -155,23 +155,23 @@ fn is_mid_autumn_festival(year: i32, month: Month, day: u8) -> bool {
     use Month::{October, September};
     matches!(
         (year, day, month),
-        (2004, 28, September)
-            | (2005, 18, September)
+        (2004, 29, September)
+            | (2005, 19, September)
             | (2006, 7, October)
             | (2007, 26, September)
             | (2008, 15, September)
             | (2009, 3, October)
-            | (2010, 22, September)
-            | (2011, 12, September)
-            | (2012, 30, September)
-            | (2013, 19, September)
+            | (2010, 23, September)
+            | (2011, 13, September)
+            | (2012, 2, October)
+            | (2013, 20, September)
             | (2014, 9, September)
-            | (2015, 27, September)
-            | (2016, 15, September)
+            | (2015, 28, September)
+            | (2016, 16, September)
             | (2017, 5, October)
             | (2018, 25, September)
             | (2019, 14, September)
-            | (2020, 1, October)
+            | (2020, 2, October)
     )
 }
 
@@ -179,11 +179,11 @@ fn is_chung_yeung_festival(year: i32, month: Month, day: u8) -> bool {
     use Month::October;
     matches!(
         (year, day, month),
-        (2004, 28, October)
-            | (2005, 18, October)
-            | (2006, 7, October)
-            | (2007, 26, October)
-            | (2008, 16, October)
+        (2004, 22, October)
+            | (2005, 11, October)
+            | (2006, 30, October)
+            | (2007, 19, October)
+            | (2008, 7, October)
             | (2009, 26, October)
             | (2010, 16, October)
             | (2011, 5, October)
@@ -201,26 +201,8 @@ fn is_chung_yeung_festival(year: i32, month: Month, day: u8) -> bool {
 
 fn is_second_day_after_christmas(year: i32, month: Month, day: u8) -> bool {
     use Month::December;
-    matches!(
-        (year, day, month),
-        (2004, 27, December)
-            | (2005, 27, December)
-            | (2006, 27, December)
-            | (2007, 27, December)
-            | (2008, 29, December)
-            | (2009, 28, December)
-            | (2010, 27, December)
-            | (2011, 27, December)
-            | (2012, 27, December)
-            | (2013, 27, December)
-            | (2014, 29, December)
-            | (2015, 28, December)
-            | (2016, 27, December)
-            | (2017, 27, December)
-            | (2018, 27, December)
-            | (2019, 27, December)
-            | (2020, 28, December)
-    )
+    // Only when Christmas or the day after it falls on a Sunday.
+    matches!((year, day, month), (2004 | 2005 | 2010 | 2011 | 2016, 27, December))
 }
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From ab3922f508f78ac4554f33a5d80b1782642b7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 18/74] fix: curve keeps interpolating the old nodes after
 set_rate, set_rates and shift

---
 crates/RustQuant_data/src/curves.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..c2f2706 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -207,13 +207,15 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refresh_interpolator();
     }
 
     /// Set multiple rates in the curve.
     pub fn set_rates(&mut self, rates: Vec<(Date, f64)>) {
         for (date, rate) in rates {
-            self.set_rate(date, rate);
+            self.nodes.insert(date, rate);
         }
+        self.refresh_interpolator();
     }
 
     /// Get the first date in the curve.
@@ -279,6 +281,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refresh_interpolator();
     }
 
     /// Plot the curve.
@@ -340,6 +343,27 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Rebuild the interpolator from the current nodes, after they were changed.
+    fn refresh_interpolator(&mut self) {
+        let dates = self.dates();
+        let rates = self.rates();
+
+        // The dates and rates have equal lengths, hence construction cannot fail.
+        match self.interpolation_method {
+            InterpolationMethod::Linear => {
+                if let Ok(interpolator) = LinearInterpolator::new(dates, rates) {
+                    self.interpolator = Arc::new(interpolator);
+                }
+            }
+            InterpolationMethod::Exponential => {
+                if let Ok(interpolator) = ExponentialInterpolator::new(dates, rates) {
+                    self.interpolator = Arc::new(interpolator);
+                }
+            }
+            InterpolationMethod::CubicSpline | InterpolationMethod::Lagrange => {}
+        }
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0


From 8f3af667e8b6e67d4a963c85e9e51e774d129917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 19/74] fix: B-spline with clamped knots is zero at the right
 end of its range

---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index 7381331..fbacd4f 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -77,7 +77,15 @@ where
     /// Cox de Boor algorithm to evalute the spline curves.
     fn cox_de_boor(&self, point: IndexType, index: usize, degree: usize) -> ValueType {
         if degree == 0 {
-            return if point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
+            // Knot spans are half open, except the last one if the spline ends at the last knot.
+            let last = self.knots[self.knots.len() - 1];
+            let ends_span = point.eq(&last)
+                && self.knots[index].lt(&last)
+                && self.knots[index + 1].eq(&last);
+
+            return if (point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]))
+                || ends_span
+            {
                 ValueType::one()
             } else {
                 ValueType::zero()
-- 
2.43.0


From 4ce15e9a66e7f8126c6406ab5f37670915082634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 20/74] fix: Poisson mass and quantile for large counts and p =
 0

---
 .../RustQuant_math/src/distributions/poisson.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 24eed4f..4a87530 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -9,6 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
+use statrs::function::factorial::ln_factorial;
 use statrs::function::gamma::{gamma_li, gamma_ui};
 use RustQuant_error::RustQuantError;
 
@@ -93,8 +94,10 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
-        (self.lambda).powi(x as i32) * (-(self.lambda)).exp()
-            / ((1..=x as usize).product::<usize>() as f64)
+        // Work in logs: neither x! nor lambda^x is representable for large x.
+        let k = x.floor();
+
+        (k * self.lambda.ln() - self.lambda - ln_factorial(k as u64)).exp()
     }
 
     /// Cumulative distribution function of the Poisson distribution.
@@ -133,13 +136,13 @@ impl Distribution for Poisson {
         if (p - 1.0).abs() < f64::EPSILON {
             return f64::INFINITY;
         }
-        let mut sum = 0.0;
         let mut k = 0;
+        let mut sum = self.pmf(0.0);
         while sum < p {
-            sum += self.pmf(f64::from(k));
             k += 1;
+            sum += self.pmf(f64::from(k));
         }
-        f64::from(k - 1)
+        f64::from(k)
     }
 
     /// Returns the mean of the Poisson distribution.
@@ -165,7 +168,9 @@ impl Distribution for Poisson {
     /// assert_eq!(poisson.median(), 1.0);
     /// ```
     fn median(&self) -> f64 {
-        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda).floor()
+        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda)
+            .floor()
+            .max(0.0)
     }
 
     /// Returns the mode of the Poisson distribution.
-- 
2.43.0


From 6a7183b97c12fca9240cec98264392be7bd7bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 21/74] fix: Binomial mass, distribution function, median and
 sample

---
 .../src/distributions/binomial.rs             | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index d9f3232..27f4533 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -9,6 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
+use statrs::function::factorial::ln_binomial;
 use std::f64::consts::{E, PI};
 use RustQuant_error::RustQuantError;
 
@@ -113,13 +114,19 @@ impl Distribution for Binomial {
         assert!(k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: u32, k: u32| -> u32 {
-            (1..=n).product::<u32>() / ((1..=k).product::<u32>() * (1..=(n - k)).product::<u32>())
-        };
+        let k = k as usize;
 
-        n_C_k(self.n as u32, k as u32) as f64
-            * self.p.powi(k as i32)
-            * (1.0 - self.p).powi((self.n - k as usize) as i32)
+        // The distribution is degenerate at 0 or n.
+        if self.p == 0.0 || self.p == 1.0 {
+            let atom = if self.p == 0.0 { 0 } else { self.n };
+            return if k == atom { 1.0 } else { 0.0 };
+        }
+
+        // Work in logs: the factorials overflow already for moderate n.
+        (ln_binomial(self.n as u64, k as u64)
+            + k as f64 * self.p.ln()
+            + (self.n - k) as f64 * (-self.p).ln_1p())
+        .exp()
     }
 
     /// Cumulative distribution function of the Binomial distribution.
@@ -133,7 +140,16 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(binomial.cdf(3.0), 0.9129600, 1e-7);
     /// ```
     fn cdf(&self, k: f64) -> f64 {
-        statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
+        let k = k.floor();
+
+        if k < 0.0 {
+            return 0.0;
+        }
+        if k >= self.n as f64 {
+            return 1.0;
+        }
+
+        statrs::function::beta::beta_reg(self.n as f64 - k, 1_f64 + k, 1_f64 - self.p)
     }
 
     /// Inverse distribution (quantile) function of the Binomial distribution.
@@ -180,7 +196,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.median(), 2.0);
     ///
     fn median(&self) -> f64 {
-        self.mean().floor()
+        self.inv_cdf(0.5)
     }
 
     /// Mode of the Binomial distribution.
@@ -193,7 +209,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.mode(), 2.0);
     /// ```
     fn mode(&self) -> f64 {
-        ((self.n as f64 + 1.) * self.p).floor()
+        ((self.n as f64 + 1.) * self.p).floor().min(self.n as f64)
     }
 
     /// Variance of the Binomial distribution.
@@ -287,7 +303,7 @@ impl Distribution for Binomial {
 
         let mut rng = thread_rng();
 
-        let dist = Binomial::new(n as u64, self.p)?;
+        let dist = Binomial::new(self.n as u64, self.p)?;
 
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
-- 
2.43.0


From f9898170b59e93d5738bc84eed0b66a5072684e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 22/74] fix: Bernoulli distribution function between -1 and 0

---
 crates/RustQuant_math/src/distributions/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/bernoulli.rs b/crates/RustQuant_math/src/distributions/bernoulli.rs
index 6bd40cc..0dc213d 100644
--- a/crates/RustQuant_math/src/distributions/bernoulli.rs
+++ b/crates/RustQuant_math/src/distributions/bernoulli.rs
@@ -117,9 +117,9 @@ impl Distribution for Bernoulli {
     fn cdf(&self, k: f64) -> f64 {
         assert!((0.0..=1.0).contains(&self.p));
 
-        if (k as i32) < 0 {
+        if k < 0.0 {
             0.0
-        } else if (0..1).contains(&(k as i32)) {
+        } else if k < 1.0 {
             1.0 - self.p
         } else {
             1.0
-- 
2.43.0


From 7e0a2b9ceb40e4f64b318612c1620362f2afea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 23/74] fix: Chi-squared quantile, large degrees of freedom and
 samples

---
 .../src/distributions/chi_squared.rs          | 53 +++++++++++++------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2b89880..12f7e46 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{digamma, gamma, gamma_li};
+use statrs::function::gamma::{digamma, gamma_lr, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -91,8 +91,13 @@ impl Distribution for ChiSquared {
 
         let k = self.k;
 
-        x.powf((k as f64 / 2.0) - 1.0) * (-x / 2.0).exp()
-            / (2_f64.powf(k as f64 / 2.0) * gamma(k as f64 / 2.0))
+        if x == 0.0 {
+            return if k == 2 { 0.5 } else { 0.0 };
+        }
+
+        // Work in logs: the gamma function overflows for large k.
+        let h = k as f64 / 2.0;
+        ((h - 1.0) * x.ln() - x / 2.0 - h * 2_f64.ln() - ln_gamma(h)).exp()
     }
 
     /// Probability mass function of the Chi-Squared distribution.
@@ -126,7 +131,11 @@ impl Distribution for ChiSquared {
 
         let k = self.k;
 
-        gamma_li(k as f64 / 2.0, x / 2.0) / gamma(k as f64 / 2.0)
+        if x == 0.0 {
+            return 0.0;
+        }
+
+        gamma_lr(k as f64 / 2.0, x / 2.0)
     }
 
     /// Inverse (quantile) distribution function of the Chi-Squared distribution.
@@ -142,20 +151,32 @@ impl Distribution for ChiSquared {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!((0.0..=1.0).contains(&p));
 
-        let k = self.k as f64;
-        let mut x = 0.5 * k;
-        let mut delta = 0.5 * k;
+        if p == 0.0 {
+            return 0.0;
+        }
+        if p == 1.0 {
+            return f64::INFINITY;
+        }
 
-        while delta > 1e-10 {
-            let cdf = self.cdf(x);
-            if cdf < p {
-                x += delta;
+        // Bracket the quantile, then bisect.
+        let mut lower = 0.0;
+        let mut upper = self.k as f64;
+        while self.cdf(upper) < p {
+            lower = upper;
+            upper *= 2.0;
+        }
+
+        loop {
+            let x = 0.5 * (lower + upper);
+            if upper - lower <= 1e-12 * upper || x <= lower || x >= upper {
+                return x;
+            }
+            if self.cdf(x) < p {
+                lower = x;
             } else {
-                x -= delta;
+                upper = x;
             }
-            delta *= 0.5;
         }
-        x
     }
 
     /// Mean of the Chi-Squared distribution.
@@ -250,7 +271,7 @@ impl Distribution for ChiSquared {
     fn entropy(&self) -> f64 {
         let k = self.k as f64;
 
-        k / 2.0 + (2.0 * gamma(k / 2.0)).ln() + (1.0 - k / 2.0) * digamma(k / 2.0)
+        k / 2.0 + 2_f64.ln() + ln_gamma(k / 2.0) + (1.0 - k / 2.0) * digamma(k / 2.0)
     }
 
     /// Moment-generating function of the Chi-Squared distribution.
@@ -297,7 +318,7 @@ impl Distribution for ChiSquared {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From 3d64ccd02308ea62a0cb2e2a637ab6a21b4211b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 24/74] fix: Gamma density for large shapes and samples

---
 crates/RustQuant_math/src/distributions/gamma.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index dabfa41..980e424 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{gamma, gamma_li};
+use statrs::function::gamma::{gamma_lr, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -66,7 +66,8 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        beta.powf(alpha) * x.powf(alpha - 1.0) * (-beta * x).exp() / gamma(alpha)
+        // Work in logs: the gamma function overflows for large alpha.
+        (alpha * beta.ln() + (alpha - 1.0) * x.ln() - beta * x - ln_gamma(alpha)).exp()
     }
 
     fn pmf(&self, x: f64) -> f64 {
@@ -79,7 +80,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        gamma_li(alpha, beta * x) / gamma(alpha)
+        gamma_lr(alpha, beta * x)
     }
 
     fn inv_cdf(&self, _p: f64) -> f64 {
@@ -139,7 +140,7 @@ impl Distribution for Gamma {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From c6b4766f4b0578947f21f998a547b0a42d6d6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 25/74] fix: Discrete uniform variance and sample, transforms
 at zero

---
 .../src/distributions/uniform.rs              | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 2f25ddb..c2f449c 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -76,6 +76,11 @@ impl Distribution for Uniform {
     fn cf(&self, t: f64) -> Complex<f64> {
         let i: Complex<f64> = Complex::i();
 
+        // Removable singularity.
+        if t == 0.0 {
+            return Complex::new(1.0, 0.0);
+        }
+
         match self.class {
             DistributionClass::Discrete => {
                 ((i * t * self.a).exp() - (i * t * (self.b + 1.0)).exp())
@@ -256,7 +261,7 @@ impl Distribution for Uniform {
     /// ```
     fn variance(&self) -> f64 {
         match self.class {
-            DistributionClass::Discrete => (self.b - self.a + 1.0).powi(2) / 12.0,
+            DistributionClass::Discrete => ((self.b - self.a + 1.0).powi(2) - 1.0) / 12.0,
             DistributionClass::Continuous => (self.b - self.a).powi(2) / 12.0,
         }
     }
@@ -324,6 +329,11 @@ impl Distribution for Uniform {
     fn mgf(&self, t: f64) -> f64 {
         let n = self.b - self.a + 1.0;
 
+        // Removable singularity.
+        if t == 0.0 {
+            return 1.0;
+        }
+
         match self.class {
             DistributionClass::Discrete => {
                 ((t * self.a).exp() - (t * (self.b + 1.0)).exp()) / (n * (1.0 - (t).exp()))
@@ -356,17 +366,20 @@ impl Distribution for Uniform {
 
         let mut rng = thread_rng();
 
-        let dist = Uniform::new(self.a, self.b);
-
         let mut variates: Vec<f64> = Vec::with_capacity(n);
         match self.class {
             DistributionClass::Discrete => {
-                for _ in 0..variates.capacity() {
-                    variates.push(dist.sample(&mut rng) as usize as f64);
+                // Each of a, a + 1, ..., b is equally likely.
+                let dist = Uniform::new(self.a, self.b + 1.0);
+
+                for _ in 0..n {
+                    variates.push(dist.sample(&mut rng).floor());
                 }
             }
             DistributionClass::Continuous => {
-                for _ in 0..variates.capacity() {
+                let dist = Uniform::new(self.a, self.b);
+
+                for _ in 0..n {
                     variates.push(dist.sample(&mut rng));
                 }
             }
-- 
2.43.0


From 90f2f661ae1e80c96b8dce63ea260cd3b2347105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 26/74] fix: real FFT dropped the phase of the twiddle factors

---
 crates/RustQuant_math/src/fft.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/fft.rs b/crates/RustQuant_math/src/fft.rs
index 79bc244..726e73a 100644
--- a/crates/RustQuant_math/src/fft.rs
+++ b/crates/RustQuant_math/src/fft.rs
@@ -72,27 +72,16 @@ fn check_vec_length<T>(x: &[T]) {
 
 /// Real fourier transform in place
 fn fft_real_calculation(x: &mut [f64]) {
-    let n = x.len();
-    if n == 1 {
-        return;
-    }
+    let mut spectrum: Vec<Complex<f64>> = x.iter().map(|&re| Complex::new(re, 0.0)).collect();
 
-    let (mut even, mut odd) = split_array(x);
+    fft_complex_calculation(&mut spectrum);
 
-    fft_real_calculation(&mut even);
-    fft_real_calculation(&mut odd);
-
-    for k in 0..(n / 2) {
-        let t = Complex::new(0.0, -2.0 * PI * (k as f64) / (n as f64))
-            .exp()
-            .norm()
-            * odd[k];
-        x[k] = even[k] + t;
-        x[n / 2 + k] = even[k] - t;
+    // The twiddle factors are complex: only the modulus of the result is real.
+    for (value, coefficient) in x.iter_mut().zip(spectrum) {
+        *value = coefficient.norm();
     }
 }
 
-/// Complex fourier transform of data in place
 fn fft_complex_calculation(x: &mut [Complex<f64>]) {
     let n = x.len();
     if n == 1 {
-- 
2.43.0


From d351d24e2180b8ee08be136a33bcce38b0cf9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 27/74] fix: root finders return NaN instead of 0 when the
 search fails

---
 crates/RustQuant_math/src/rootfinding/bisection.rs      | 6 ++++--
 crates/RustQuant_math/src/rootfinding/brent.rs          | 6 ++++--
 crates/RustQuant_math/src/rootfinding/newton_raphson.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index abcad7a..0f9efc1 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -73,7 +73,8 @@ where
             }
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 
     fn solve(&mut self) -> f64 {
@@ -149,7 +150,8 @@ where
             self.data.increment_evaluation_count();
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 }
 
diff --git a/crates/RustQuant_math/src/rootfinding/brent.rs b/crates/RustQuant_math/src/rootfinding/brent.rs
index b3c3396..3e9cae7 100644
--- a/crates/RustQuant_math/src/rootfinding/brent.rs
+++ b/crates/RustQuant_math/src/rootfinding/brent.rs
@@ -141,7 +141,8 @@ where
             self.data.increment_evaluation_count();
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 
     fn solve(&mut self) -> f64 {
@@ -217,7 +218,8 @@ where
             self.data.increment_evaluation_count();
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 }
 
diff --git a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
index ef47acd..41a3e29 100644
--- a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
+++ b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
@@ -106,7 +106,8 @@ where
             }
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 
     fn solve(&mut self) -> f64 {
@@ -182,7 +183,8 @@ where
             self.data.increment_evaluation_count();
         }
 
-        0.0
+        // The search did not converge.
+        f64::NAN
     }
 }
 
-- 
2.43.0


From 608f08100f127faa94b57d281a267eac25501266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 28/74] fix: gradient descent reports the minimum at the
 returned minimizer

---
 crates/RustQuant_math/src/optimization/gradient_descent.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/optimization/gradient_descent.rs b/crates/RustQuant_math/src/optimization/gradient_descent.rs
index 6db87ba..b46a95c 100644
--- a/crates/RustQuant_math/src/optimization/gradient_descent.rs
+++ b/crates/RustQuant_math/src/optimization/gradient_descent.rs
@@ -190,8 +190,6 @@ impl GradientDescent {
                 .zip(&gradient)
                 .for_each(|(xi, gi)| *xi = *xi - self.learning_rate * gi);
 
-            result.minimum = f(&location).value;
-
             if verbose {
                 println!(
                     "Iter: {:?}, Norm: {}, Func: {:.4?}, X: {:.4?}",
@@ -213,6 +211,10 @@ impl GradientDescent {
             // }
         }
 
+        // The minimum is the value at the minimizer that is returned.
+        let graph = Graph::new();
+        result.minimum = f(&graph.vars(&result.minimizer)).value;
+
         result.elapsed = start.elapsed();
         result
     }
-- 
2.43.0


From 0e4c07f06152b278750f8b98b120e6ea02f5bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 29/74] fix: geometric mean overflowed on long vectors

---
 crates/RustQuant_math/src/statistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/statistic.rs b/crates/RustQuant_math/src/statistic.rs
index 7b21564..4bf8c3b 100644
--- a/crates/RustQuant_math/src/statistic.rs
+++ b/crates/RustQuant_math/src/statistic.rs
@@ -90,7 +90,8 @@ impl Statistic<f64> for Vec<f64> {
     fn geometric_mean(&self) -> f64 {
         assert!(!self.is_empty(), "Vector must have at least one element.");
 
-        self.iter().product::<f64>().powf(1.0 / self.len() as f64)
+        // The product itself can overflow or underflow.
+        (self.iter().map(|x| x.ln()).sum::<f64>() / self.len() as f64).exp()
     }
 
     fn harmonic_mean(&self) -> f64 {
-- 
2.43.0


From ed1da5052891a58a0f7fe8a385edd6969de1315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 30/74] fix: Newton-Raphson lost a root that it hit exactly at
 a stationary point

---
 crates/RustQuant_math/src/rootfinding/newton_raphson.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
index 41a3e29..2c3f728 100644
--- a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
+++ b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
@@ -75,6 +75,10 @@ where
 
         self.data.increment_evaluation_count();
 
+        if froot == 0.0 {
+            return self.data.root;
+        }
+
         while self.data.iteration_count <= Self::MAX_ITERATIONS {
             let check_1 = (self.data.root - xh) * dfroot - froot;
             let check_2 = (self.data.root - xl) * dfroot - froot;
@@ -99,6 +103,10 @@ where
             dfroot = self.derivative(self.data.root);
             self.data.increment_evaluation_count();
 
+            if froot == 0.0 {
+                return self.data.root;
+            }
+
             if froot < 0.0 {
                 xl = self.data.root;
             } else {
-- 
2.43.0


From a700e3f26232c91a82bbad3ab4f4d2794278a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 31/74] fix: bisection discarded a midpoint that is a root

---
 crates/RustQuant_math/src/rootfinding/bisection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index 0f9efc1..2fbcc26 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -65,7 +65,7 @@ where
             f_mid = self.value(x_mid);
             self.data.increment_evaluation_count();
 
-            if f_mid <= 0.0 {
+            if f_mid <= 0.0 || RootfinderData::close(f_mid, 0.0) {
                 self.data.root = x_mid;
             }
             if dx.abs() < self.data.accuracy || RootfinderData::close(f_mid, 0.0) {
-- 
2.43.0


From 38240cb48423ce73be800eb091652d4ae7b24e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 32/74] fix: sign of a term in ultima

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 2 +-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..084b316 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -326,7 +326,7 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 391d541..f726318 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -512,7 +512,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 
     #[inline]
@@ -520,7 +520,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
     }
 }
 
-- 
2.43.0


From 114b83f998961ff88a97b625a2a6ced462e52a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 33/74] fix: sign of charm

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 4 ++--
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 084b316..4b95d9b 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -223,11 +223,11 @@ impl BlackScholesMerton {
 
         match self.option_type {
             TypeFlag::Call => {
-                ((b - r) * T).exp()
+                -((b - r) * T).exp()
                     * (n.pdf(d1) * ((b / (v * T.sqrt())) - (d2 / (2.0 * T))) + (b - r) * n.cdf(d1))
             }
             TypeFlag::Put => {
-                ((b - r) * T).exp()
+                -((b - r) * T).exp()
                     * (n.pdf(d1) * ((b / (v * T.sqrt())) - (d2 / (2.0 * T))) - (b - r) * n.cdf(-d1))
             }
         }
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index f726318..1065bd3 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -420,7 +420,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        ((b - r) * t).exp()
+        -((b - r) * t).exp()
             * (N.pdf(d1) * ((b / (v * t.sqrt())) - (d2 / (2.0 * t))) + (b - r) * N.cdf(d1))
     }
 
@@ -429,7 +429,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        ((b - r) * t).exp()
+        -((b - r) * t).exp()
             * (N.pdf(d1) * ((b / (v * t.sqrt())) - (d2 / (2.0 * t))) - (b - r) * N.cdf(-d1))
     }
 
-- 
2.43.0


From b3e9a855e3bc7480cc646323ab3145d6dcb5e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 34/74] fix: implied volatility ignored the cost of carry

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 4b95d9b..23e3894 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -143,7 +143,9 @@ impl BlackScholesMerton {
     pub fn implied_volatility(&self, price: f64) -> f64 {
         crate::options::implied_volatility(
             price,
-            self.underlying_price,
+            // The carry-adjusted spot has the same forward under a carry of r.
+            self.underlying_price
+                * ((self.cost_of_carry - self.risk_free_rate) * self.year_fraction()).exp(),
             self.strike_price,
             self.year_fraction(),
             self.risk_free_rate,
-- 
2.43.0


From 7a58f6996bd060205665d591e024fd5da1962c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 35/74] fix: rho of options on futures

---
 .../src/options/option_models.rs              | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 1065bd3..f72fffe 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -402,6 +402,23 @@ mod bsm {
         -k * t * (-r * t).exp() * N.cdf(-d2)
     }
 
+    // The carry of a future does not move with the rate, which only discounts.
+    #[inline]
+    pub(crate) fn futures_call_rho(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
+        -t * call_price(s, k, t, r, b, v)
+    }
+
+    #[inline]
+    pub(crate) fn futures_put_rho(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
+        -t * put_price(s, k, t, r, b, v)
+    }
+
+    // The margined futures option does not depend on the rate at all.
+    #[inline]
+    pub(crate) fn zero_rho(_s: f64, _k: f64, _t: f64, _r: f64, _b: f64, _v: f64) -> f64 {
+        0.0
+    }
+
     #[inline]
     pub(crate) fn call_vanna(s: f64, k: f64, t: f64, r: f64, b: f64, v: f64) -> f64 {
         let d1 = d1(s, k, t, b, v);
@@ -525,7 +542,7 @@ mod bsm {
 }
 
 macro_rules! impl_gbsm {
-    ($gbsm_variant:ident) => {
+    ($gbsm_variant:ident, $call_rho:ident, $put_rho:ident) => {
         impl GeneralisedBlackScholesMerton for $gbsm_variant {
             /// Price a European option.
             fn price(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -573,8 +590,8 @@ macro_rules! impl_gbsm {
 
             fn rho(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
                 match option_type {
-                    TypeFlag::Call => bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                    TypeFlag::Put => bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v),
+                    TypeFlag::Call => bsm::$call_rho(self.s(), k, t, self.r(), self.b(), self.v),
+                    TypeFlag::Put => bsm::$put_rho(self.s(), k, t, self.r(), self.b(), self.v),
                 }
             }
 
@@ -637,11 +654,11 @@ macro_rules! impl_gbsm {
     };
 }
 
-impl_gbsm!(BlackScholes73);
-impl_gbsm!(Merton73);
-impl_gbsm!(Black76);
-impl_gbsm!(Asay82);
-impl_gbsm!(GarmanKohlhagen83);
+impl_gbsm!(BlackScholes73, call_rho, put_rho);
+impl_gbsm!(Merton73, call_rho, put_rho);
+impl_gbsm!(Black76, futures_call_rho, futures_put_rho);
+impl_gbsm!(Asay82, zero_rho, zero_rho);
+impl_gbsm!(GarmanKohlhagen83, call_rho, put_rho);
 
 mod heston {
     use num::Complex;
-- 
2.43.0


From a889bdbd7902f35d80009d4254e069bfb93c6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 36/74] fix: Bachelier sensitivities and volatilities left out
 discounting

---
 .../src/options/option_models.rs              | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index f72fffe..3ff55ac 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1035,13 +1035,13 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn atm_price(t: f64, v: f64) -> f64 {
-        v * (t / (2. * PI)).sqrt()
+    pub(crate) fn atm_price(t: f64, r: f64, v: f64) -> f64 {
+        df(r, t) * v * (t / (2. * PI)).sqrt()
     }
 
     #[inline]
-    pub(crate) fn atm_vol(price: f64, t: f64) -> f64 {
-        price * (2. * PI / t).sqrt()
+    pub(crate) fn atm_vol(price: f64, t: f64, r: f64) -> f64 {
+        price / df(r, t) * (2. * PI / t).sqrt()
     }
 
     const A: [f64; 8] = [
@@ -1068,7 +1068,8 @@ mod bachelier {
     ];
 
     #[inline]
-    pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
+    pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
+        let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price - (f - k));
         let eta = v / v.atanh();
 
@@ -1091,7 +1092,8 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
+    pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
+        let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price + (f - k));
         let eta = v / v.atanh();
 
@@ -1114,51 +1116,51 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn call_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d)
+        df(r, t) * N.cdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d) - 1.0
+        df(r, t) * (N.cdf(d) - 1.0)
     }
 
     #[inline]
-    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.pdf(d) / (v * t.sqrt())
+        df(r, t) * N.pdf(d) / (v * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_gamma(f, k, t, v)
+    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_gamma(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        t.sqrt() * N.pdf(d)
+        df(r, t) * t.sqrt() * N.pdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_vega(f, k, t, v)
+    pub(crate) fn put_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_vega(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * call_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * put_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 }
 
@@ -1173,51 +1175,51 @@ impl Bachelier {
 
     /// ATM price of a European option using the Bachelier model.
     pub fn atm_price(&self, t: f64) -> f64 {
-        bachelier::atm_price(t, self.v)
+        bachelier::atm_price(t, self.r, self.v)
     }
 
     /// ATM volatility of a European option using the Bachelier model.
     pub fn atm_vol(&self, price: f64, t: f64) -> f64 {
-        bachelier::atm_vol(price, t)
+        bachelier::atm_vol(price, t, self.r)
     }
 
     /// Implied volatility of a European option using the Bachelier model.
     pub fn iv(&self, price: f64, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_iv(price, self.f, k, t),
-            TypeFlag::Put => bachelier::put_iv(price, self.f, k, t),
+            TypeFlag::Call => bachelier::call_iv(price, self.f, k, t, self.r),
+            TypeFlag::Put => bachelier::put_iv(price, self.f, k, t, self.r),
         }
     }
 
     /// Delta of a European option using the Bachelier model.
     pub fn delta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Gamma of a European option using the Bachelier model.
     pub fn gamma(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Vega of a European option using the Bachelier model.
     pub fn vega(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Theta of a European option using the Bachelier model.
     pub fn theta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.r, self.v),
         }
     }
 }
-- 
2.43.0


From f4c0291d8be1c38a302dee57b5b3aa938c728824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 37/74] fix: Bachelier implied volatility series

---
 .../src/options/option_models.rs                     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 3ff55ac..0287c6d 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1071,7 +1071,7 @@ mod bachelier {
     pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
         let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price - (f - k));
-        let eta = v / v.atanh();
+        let eta = if v == 0.0 { 1.0 } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1083,7 +1083,8 @@ mod bachelier {
 
         // for k in 0..B.len() {
         for (k, v) in B.iter().enumerate() {
-            sum2 += v * eta.powi(k as i32);
+            // B starts at the first power.
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1095,7 +1096,7 @@ mod bachelier {
     pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
         let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price + (f - k));
-        let eta = v / v.atanh();
+        let eta = if v == 0.0 { 1.0 } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1106,8 +1107,9 @@ mod bachelier {
         }
 
         // for k in 1..=B.len() {
-        for (k, v) in B.iter().enumerate().skip(1) {
-            sum2 += v * eta.powi(k as i32);
+        for (k, v) in B.iter().enumerate() {
+            // B starts at the first power.
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
-- 
2.43.0


From 560560745cf846cb58faeea80527e9413c68a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 38/74] fix: SABR implied volatility formula

---
 .../src/options/option_models.rs              | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 0287c6d..e0c3412 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1238,12 +1238,19 @@ mod sabr {
         rho: f64,
         nu: f64,
     ) -> f64 {
-        coefficient(f, k, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
+        coefficient(f, k, alpha, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
             / denominator(f, k, beta, rho, nu)
     }
 
-    fn coefficient(f: f64, k: f64, beta: f64, rho: f64, _nu: f64) -> f64 {
-        z(f, k, beta) / chi(f, k, beta, rho)
+    fn coefficient(f: f64, k: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
+        let z = z(f, k, alpha, beta, nu);
+
+        // The ratio tends to one at the money.
+        if z.abs() < 1e-8 {
+            1.0
+        } else {
+            z / chi(z, rho)
+        }
     }
 
     fn numerator(f: f64, k: f64, t: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
@@ -1260,17 +1267,12 @@ mod sabr {
         term1 * (1.0 + term2 + term3)
     }
 
-    fn z(f: f64, k: f64, beta: f64) -> f64 {
-        (f / k).ln() * fk_power(f, k, beta)
+    fn z(f: f64, k: f64, alpha: f64, beta: f64, nu: f64) -> f64 {
+        nu / alpha * (f / k).ln() * fk_power(f, k, beta)
     }
 
-    fn chi(f: f64, k: f64, beta: f64, rho: f64) -> f64 {
-        let numerator = ((1.0 - 2.0 * rho * z(f, k, beta) + z(f, k, beta).powi(2)).sqrt()
-            + z(f, k, beta)
-            - rho)
-            .ln();
-        let denominator = 1.0 - rho;
-        numerator / denominator
+    fn chi(z: f64, rho: f64) -> f64 {
+        (((1.0 - 2.0 * rho * z + z.powi(2)).sqrt() + z - rho) / (1.0 - rho)).ln()
     }
 
     fn fk_power(f: f64, k: f64, beta: f64) -> f64 {
-- 
2.43.0


From a6e286f0a1dbb7bb98723f7fe3a5e3465298dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 39/74] fix: Heston price off the branch cut of the complex
 logarithm

---
 crates/RustQuant_instruments/src/options/option_models.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index e0c3412..18d6d3b 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -774,7 +774,8 @@ mod heston {
         };
 
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            // The negative root keeps the logarithm below off its branch cut.
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
@@ -896,7 +897,8 @@ mod heston {
         };
 
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            // The negative root keeps the logarithm below off its branch cut.
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
-- 
2.43.0


From 3fb1ca29a4435c9584c382cec1d237e28479f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 40/74] fix: Heston integrals lost accuracy outside short
 expiries

---
 .../src/options/option_models.rs               | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 18d6d3b..1da527a 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -671,6 +671,18 @@ mod heston {
         Two = 2,
     }
 
+    /// Integrate over the frequencies that matter, in pieces: the quadrature has a fixed
+    /// number of nodes, too few for the whole range when the integrand is narrow or oscillates.
+    fn integrate_frequencies<F>(f: F) -> f64
+    where
+        F: Fn(f64) -> f64,
+    {
+        [0.00001, 2.5, 5.0, 10.0, 20.0, 30.0, 40.0, 50.0]
+            .windows(2)
+            .map(|piece| integrate(&f, piece[0], piece[1]))
+            .sum()
+    }
+
     /// Heston model for option pricing.
     pub(crate) fn call_price(
         s: f64,
@@ -808,7 +820,7 @@ mod heston {
             ((-i * phi * k.ln()).exp() * f(j, phi)).re
         };
 
-        let dP1 = integrate(Re1, 0.00001, 50.0) * (PI * s).recip();
+        let dP1 = integrate_frequencies(Re1) * (PI * s).recip();
 
         dP1 * (-q * t).exp()
     }
@@ -939,8 +951,8 @@ mod heston {
 
         // Integration bounds given in Fabrice D. Rouah's book (see tests).
         // The integral decays rapidly so 50 is probably enough.
-        let P1 = 0.5 + FRAC_1_PI * integrate(Re1, 0.00001, 50.0);
-        let P2 = 0.5 + FRAC_1_PI * integrate(Re2, 0.00001, 50.0);
+        let P1 = 0.5 + FRAC_1_PI * integrate_frequencies(Re1);
+        let P2 = 0.5 + FRAC_1_PI * integrate_frequencies(Re2);
 
         (P1, P2)
     }
-- 
2.43.0


From 308c83fc8c4d494fdcc634fd32019164a0fe9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 41/74] fix: ultima is finite where d1 or d2 is zero

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 3 ++-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 23e3894..627cfa7 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -328,7 +328,8 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
+        self.vega() / self.volatility.powi(2)
+            * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 1da527a..bcb598a 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -529,7 +529,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
+        call_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 
     #[inline]
@@ -537,7 +537,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 - d2 / d1 - 1.0)
+        put_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 }
 
-- 
2.43.0


From 26e7588373eb2f9f244dccb93a47799ed3d6c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 42/74] fix: geometric Asian average overflowed on long paths

---
 crates/RustQuant_instruments/src/options/asian.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/asian.rs b/crates/RustQuant_instruments/src/options/asian.rs
index 9c27aef..bebcc77 100644
--- a/crates/RustQuant_instruments/src/options/asian.rs
+++ b/crates/RustQuant_instruments/src/options/asian.rs
@@ -52,7 +52,10 @@ impl Payoff for AsianOption {
 
         let average = match self.averaging_method {
             AveragingMethod::ArithmeticDiscrete => path.sum::<f64>() / n as f64,
-            AveragingMethod::GeometricDiscrete => path.product::<f64>().powf(1.0 / n as f64),
+            // The product of the prices overflows on long paths.
+            AveragingMethod::GeometricDiscrete => {
+                (path.map(|price| price.ln()).sum::<f64>() / n as f64).exp()
+            }
 
             // Continuous averaging (i.e. integral of the path).
             _ => panic!("Continuous averaging not implemented."),
-- 
2.43.0


From 0ce52fbafadcee734d38f0047bbfbfea707fc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 43/74] fix: barrier options ignored their rebate

---
 .../src/options/barrier.rs                    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/barrier.rs b/crates/RustQuant_instruments/src/options/barrier.rs
index 5ca052d..f009fb6 100644
--- a/crates/RustQuant_instruments/src/options/barrier.rs
+++ b/crates/RustQuant_instruments/src/options/barrier.rs
@@ -38,6 +38,9 @@ impl Payoff for BarrierOption {
         let b = self.barrier;
         let k = self.strike;
 
+        // Paid when the option is knocked out, or never knocked in.
+        let rebate = self.rebate.unwrap_or(0.0);
+
         let terminal = s.last().unwrap();
 
         let above = s.iter().any(|&x| x >= b);
@@ -49,20 +52,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
@@ -71,20 +74,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
-- 
2.43.0


From 5481a5a1f2301d20a85e1129865c751581f3991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 44/74] fix: finite difference pricer never exercised American
 options early

---
 .../src/options/finite_difference_pricer.rs       | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index fdd6f14..1ccb1b7 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -275,10 +275,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
+            if let ExerciseFlag::American { .. } = self.exercise_flag
             {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
@@ -313,10 +310,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
+            if let ExerciseFlag::American { .. } = self.exercise_flag
             {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
@@ -357,10 +351,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
+            if let ExerciseFlag::American { .. } = self.exercise_flag
             {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
-- 
2.43.0


From 0112cab05888379125cc7899adcc500cc770a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 45/74] fix: finite difference boundaries were not compounded
 with the grid values

---
 .../src/options/finite_difference_pricer.rs         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index 1ccb1b7..4b38960 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -207,11 +207,20 @@ impl FiniteDifferencePricer {
     }
 
     fn call_boundary(&self, tau: f64, x_max: f64) -> f64 {
-        f64::exp(x_max) - self.strike_price * f64::exp(-self.risk_free_rate * tau)
+        // The grid holds values compounded to the time to maturity.
+        (f64::exp(x_max + self.risk_free_rate * tau) - self.strike_price).max(0.0)
     }
 
     fn put_boundary(&self, tau: f64, x_min: f64) -> f64 {
-        self.strike_price * f64::exp(-self.risk_free_rate * tau) - f64::exp(x_min)
+        let european = self.strike_price - f64::exp(x_min + self.risk_free_rate * tau);
+
+        match self.exercise_flag {
+            ExerciseFlag::American { .. } => {
+                f64::exp(self.risk_free_rate * tau) * (self.strike_price - f64::exp(x_min))
+            }
+            _ => european,
+        }
+        .max(0.0)
     }
 
     fn year_fraction(&self) -> f64 {
-- 
2.43.0


From cd1daccba83ad1f91e1e450798e231949fa8e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 46/74] fix: finite difference implicit schemes overflowed on
 fine grids

---
 .../src/options/finite_difference_pricer.rs   | 93 ++++---------------
 1 file changed, 17 insertions(+), 76 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index 4b38960..1a98085 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -8,7 +8,6 @@
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
 use super::option_flags::*;
-use std::cmp::Ordering;
 use time::Date;
 use RustQuant_time::{today, DayCountConvention};
 
@@ -103,83 +102,31 @@ impl FiniteDifferencePricer {
         Av
     }
 
-    fn general_matrix_multiply_vector(&self, A: &[Vec<f64>], v: Vec<f64>) -> Vec<f64> {
-        let mut Av: Vec<f64> = Vec::new();
-        let mut value: f64;
-
-        for row in A {
-            value = 0.0;
-            for (a, b) in row.iter().zip(&v) {
-                value += a * b;
-            }
-            Av.push(value);
-        }
-
-        Av
-    }
-
-    fn invert_tridiagonal_matrix(
+    /// Solve the tridiagonal system `A x = v`, where `A` has constant diagonals.
+    fn solve_tridiagonal_system(
         &self,
         sub_diagonal: f64,
         diagonal: f64,
         super_diagonal: f64,
-    ) -> Vec<Vec<f64>> {
-        let mut theta: Vec<f64> = Vec::new();
-        let system_size: usize = (self.price_steps - 1) as usize;
-
-        theta.push(1.0);
-        theta.push(diagonal);
-        theta.push(diagonal * diagonal - super_diagonal * sub_diagonal);
-
-        for i in 2..system_size {
-            theta.push(diagonal * theta[i] - super_diagonal * sub_diagonal * theta[i - 1])
-        }
+        v: Vec<f64>,
+    ) -> Vec<f64> {
+        let mut x = v;
+        let mut ratios: Vec<f64> = Vec::with_capacity(x.len());
 
-        let mut phi: Vec<f64> = Vec::new();
-        phi.push(1.0);
-        phi.push(diagonal);
+        ratios.push(super_diagonal / diagonal);
+        x[0] /= diagonal;
 
-        for i in 1..(system_size) {
-            phi.push(diagonal * phi[i] - super_diagonal * sub_diagonal * phi[i - 1])
+        for i in 1..x.len() {
+            let pivot = diagonal - sub_diagonal * ratios[i - 1];
+            ratios.push(super_diagonal / pivot);
+            x[i] = (x[i] - sub_diagonal * x[i - 1]) / pivot;
         }
 
-        let theta_n = theta.pop().unwrap();
-        phi.pop();
-        phi.reverse();
-
-        let mut value: f64;
-        let mut inverse_matrix: Vec<Vec<f64>> = Vec::new();
-        let mut matrix_row: Vec<f64> = Vec::new();
-
-        for i in 0..system_size {
-            for j in 0..system_size {
-                value = (-1.0_f64).powi((i + j) as i32);
-
-                match i.cmp(&j) {
-                    Ordering::Less => {
-                        for k in i..j {
-                            value *= match k {
-                                k if k == system_size - 1 => diagonal,
-                                _ => super_diagonal,
-                            }
-                        }
-                        value *= theta[i] * phi[j] / theta_n;
-                    }
-                    Ordering::Equal => value *= theta[i] * phi[i] / theta_n,
-                    Ordering::Greater => {
-                        for _k in (j + 1)..(i + 1) {
-                            value *= sub_diagonal
-                        }
-                        value *= theta[j] * phi[i] / theta_n
-                    }
-                }
-                matrix_row.push(value);
-            }
-            inverse_matrix.push(matrix_row.clone());
-            matrix_row.clear()
+        for i in (0..(x.len() - 1)).rev() {
+            x[i] -= ratios[i] * x[i + 1];
         }
 
-        inverse_matrix
+        x
     }
 
     fn payoff(&self, s: f64) -> f64 {
@@ -298,9 +245,6 @@ impl FiniteDifferencePricer {
         let (T, delta_t, delta_x, x_min) = self.grid();
         let (x, y) = self.coefficients(delta_t, delta_x);
 
-        let inverse_matrix: Vec<Vec<f64>> =
-            self.invert_tridiagonal_matrix(-x + y, 1.0 + 2.0 * x, -x - y);
-
         let mut v: Vec<f64> = self.initial_condition(x_min, delta_x);
 
         for t in 1..(self.time_steps + 1) {
@@ -317,7 +261,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            v = self.general_matrix_multiply_vector(&inverse_matrix, v);
+            v = self.solve_tridiagonal_system(-x + y, 1.0 + 2.0 * x, -x - y, v);
 
             if let ExerciseFlag::American { .. } = self.exercise_flag
             {
@@ -336,9 +280,6 @@ impl FiniteDifferencePricer {
         let diagonal: f64 = 1.0 - x;
         let super_diagonal: f64 = 0.5 * (x + y);
 
-        let inverse_future_matrix =
-            self.invert_tridiagonal_matrix(-sub_diagonal, 1.0 + x, -super_diagonal);
-
         let mut v: Vec<f64> = self.initial_condition(x_min, delta_x);
 
         for t in 1..(self.time_steps + 1) {
@@ -358,7 +299,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
+            v = self.solve_tridiagonal_system(-sub_diagonal, 1.0 + x, -super_diagonal, v);
 
             if let ExerciseFlag::American { .. } = self.exercise_flag
             {
-- 
2.43.0


From 17b92f7b479ff9f7368b5c95e29a4c35d1ca6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 47/74] fix: Longstaff-Schwartz price was not discounted over
 the first time step

---
 crates/RustQuant_instruments/src/options/longstaff_schwartz.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index a09ed89..0ef9633 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -136,7 +136,8 @@ impl LongstaffScwhartzPricer {
                 }
             }
         }
-        payoffs.iter().sum::<f64>() / self.num_simulations as f64
+        // The payoffs are held at the first exercise date.
+        self.discount(delta_t) * payoffs.iter().sum::<f64>() / self.num_simulations as f64
     }
 
     fn create_laguerre_matrix(&self, in_the_money_assets: &[f64]) -> DMatrix<f64> {
-- 
2.43.0


From e6879b6cb6c9abcd5248181042084b029170d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 48/74] fix: setting a quote to None or to zero had no effect

---
 crates/RustQuant_cashflows/src/quotes.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..26b1aef 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,11 +54,9 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
-        if diff != 0.0 {
-            self.value = value;
-            // Assuming notify_observers() function exists and does what it's supposed to
-            // self.notify_observers();
-        }
+        self.value = value;
+        // Assuming notify_observers() function exists and does what it's supposed to
+        // self.notify_observers();
 
         diff
     }
-- 
2.43.0


From f5ca5c07315bbd5a17b1e97d0cfc995e5037ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 49/74] fix: Milstein and Strang steps did not scale their
 noise with the time step

---
 crates/RustQuant_stochastics/src/simulation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..f365ae4 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -83,7 +83,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
                     path.push(
@@ -94,8 +94,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -124,7 +123,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
-- 
2.43.0


From 55fa5f0fadff804427223441ff1a74e04f8312ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 50/74] fix: Euler scheme scaled fractional noise by the time
 step twice

---
 crates/RustQuant_stochastics/src/simulation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index f365ae4..15cbc31 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -59,8 +59,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From e8a384ce7c186ffec8af6b3779181ef8d5bde6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 51/74] fix: fractional noise was scaled to the end time
 instead of the simulated interval

---
 crates/RustQuant_stochastics/src/simulation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 15cbc31..3afffcc 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -50,7 +50,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -75,7 +75,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -110,7 +110,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
-- 
2.43.0


From dcde97825dd073ca80ce243b0471f159f8954551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 52/74] fix: all paths of a seeded fractional simulation were
 identical

---
 .../RustQuant_stochastics/src/simulation.rs   | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 3afffcc..fc2b1de 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -46,11 +46,11 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, seed: u64| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -69,13 +69,13 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, u64) + Send + Sync>,
         StochasticScheme::Milstein => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, seed: u64| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -103,14 +103,14 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, u64) + Send + Sync>,
         StochasticScheme::StrangSplitting => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, seed: u64| {
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -133,7 +133,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, u64) + Send + Sync>,
     };
 
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
@@ -141,19 +141,21 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let base_seed: u64 = config.seed.unwrap_or_else(rand::random);
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
+            let seed = base_seed.wrapping_add(i as u64);
             let noise_gen = match fractional_config {
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
-                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
+                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(seed)),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, seed);
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
+            let seed = base_seed.wrapping_add(i as u64);
             let noise_gen = match fractional_config {
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
-                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
+                None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(seed)),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, seed);
         });
     }
 
-- 
2.43.0


From 76895c23bed9cd805bca234b956e09efd86c30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 53/74] fix: fractional noise by the FFT method ignored its
 seed

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..e206bc7 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,14 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy(),
+    };
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
-- 
2.43.0


From 559dcaf450c37c17a3bfe28236a3f3170f617a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 54/74] fix: jumps were shared by all paths, unseeded and at
 most one per step

---
 .../src/merton_jump_diffusion.rs              |  8 +++
 crates/RustQuant_stochastics/src/process.rs   |  7 ++-
 .../RustQuant_stochastics/src/simulation.rs   | 52 +++++++++----------
 3 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
index 57ac66f..f60efa6 100644
--- a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
+++ b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
@@ -10,6 +10,8 @@
 use crate::model_parameter::ModelParameter;
 use crate::process::{StochasticProcess, StochasticProcessConfig};
 use crate::simulation::simulate_stochatic_process;
+use rand::rngs::StdRng;
+use rand_distr::{Distribution, Normal};
 use RustQuant_math::Gaussian;
 use RustQuant_math::Distribution as LocalDistribution;
 
@@ -68,6 +70,12 @@ impl StochasticProcess for MertonJumpDiffusion {
         self.gaussian.sample(1).unwrap().first().copied()
     }
 
+    fn sample_jump(&self, _x: f64, _t: f64, rng: &mut StdRng) -> Option<f64> {
+        let jump_size = Normal::new(self.gaussian.mean(), self.gaussian.variance().sqrt()).unwrap();
+
+        Some(jump_size.sample(rng))
+    }
+
     fn parameters(&self) -> Vec<f64> {
         vec![self.mu.0(0.0), self.sigma.0(0.0), self.lambda.0(0.0)]
     }
diff --git a/crates/RustQuant_stochastics/src/process.rs b/crates/RustQuant_stochastics/src/process.rs
index a951621..ffdd309 100644
--- a/crates/RustQuant_stochastics/src/process.rs
+++ b/crates/RustQuant_stochastics/src/process.rs
@@ -14,7 +14,7 @@
 //! Autonomous refers to processes where the drift and diffusion
 //! do not explicitly depend on the time `t`.
 
-use rand::prelude::Distribution;
+use rand::{prelude::Distribution, rngs::StdRng};
 use rayon::prelude::*;
 
 use crate::simulation::simulate_stochatic_process;
@@ -216,6 +216,11 @@ pub trait StochasticProcess: Sync {
     /// Base method for the process' jump term (if applicable).
     fn jump(&self, x: f64, t: f64) -> Option<f64>;
 
+    /// Draw one jump using the given random number generator.
+    fn sample_jump(&self, x: f64, t: f64, _rng: &mut StdRng) -> Option<f64> {
+        self.jump(x, t)
+    }
+
     /// Return the model's parameters as a `Vec<f64>`.
     fn parameters(&self) -> Vec<f64> {
         vec![]
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index fc2b1de..a912271 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -11,7 +11,6 @@ use rayon::prelude::*;
 use rand::prelude::Distribution;
 use rand::{rngs::StdRng, SeedableRng};
 use crate::process::{StochasticProcess, Trajectories, StochasticProcessConfig, StochasticScheme};
-use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 
 enum NoiseGenerator {
@@ -37,13 +36,6 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
-        }
-        None => &vec![],
-    };
-
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, seed: u64| {
@@ -62,9 +54,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
-                        } + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        } + match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => calculate_jump(stochastic_process, path[t], times_ref[t], dt, jump_config, rng),
+                            NoiseGenerator::Fractional(_) => 0.0,
                         }
                     );
                 }
@@ -96,9 +88,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
                                     / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => calculate_jump(stochastic_process, path[t], times_ref[t], dt, jump_config, rng),
+                            NoiseGenerator::Fractional(_) => 0.0,
                         }
                     );
                 }
@@ -126,9 +118,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => calculate_jump(stochastic_process, path[t], times_ref[t], dt, jump_config, rng),
+                            NoiseGenerator::Fractional(_) => 0.0,
                         }
                     );
                 }
@@ -169,18 +161,24 @@ fn calculate_jump<T: StochasticProcess>(
     stochastic_process: &T,
     x: f64,
     time_ref: f64,
-    jump: f64,
+    dt: f64,
+    jump_config: Option<f64>,
+    rng: &mut StdRng,
 ) -> f64 {
-    match stochastic_process.jump(x, time_ref) {
-        Some(jump_size) => {
-            if jump > 0.0 {
-                jump_size
-            } else {
-                0.0
-            }
-        },
-        None => 0.0,
+    let rate = match jump_config {
+        Some(lambda) => lambda * dt,
+        None => return 0.0,
+    };
+
+    if rate <= 0.0 {
+        return 0.0;
     }
+
+    let n_jumps = rand_distr::Poisson::new(rate).unwrap().sample(rng) as usize;
+
+    (0..n_jumps)
+        .filter_map(|_| stochastic_process.sample_jump(x, time_ref, rng))
+        .sum()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0772ce41702737bec9734f5f0c583b45493e5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 55/74] fix: time-dependent jump intensities were frozen at
 time zero

---
 crates/RustQuant_stochastics/src/merton_jump_diffusion.rs | 4 ++++
 crates/RustQuant_stochastics/src/process.rs               | 5 +++++
 crates/RustQuant_stochastics/src/simulation.rs            | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
index f60efa6..7a876aa 100644
--- a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
+++ b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
@@ -70,6 +70,10 @@ impl StochasticProcess for MertonJumpDiffusion {
         self.gaussian.sample(1).unwrap().first().copied()
     }
 
+    fn jump_intensity(&self, t: f64) -> Option<f64> {
+        Some(self.lambda.0(t))
+    }
+
     fn sample_jump(&self, _x: f64, _t: f64, rng: &mut StdRng) -> Option<f64> {
         let jump_size = Normal::new(self.gaussian.mean(), self.gaussian.variance().sqrt()).unwrap();
 
diff --git a/crates/RustQuant_stochastics/src/process.rs b/crates/RustQuant_stochastics/src/process.rs
index ffdd309..42b0876 100644
--- a/crates/RustQuant_stochastics/src/process.rs
+++ b/crates/RustQuant_stochastics/src/process.rs
@@ -216,6 +216,11 @@ pub trait StochasticProcess: Sync {
     /// Base method for the process' jump term (if applicable).
     fn jump(&self, x: f64, t: f64) -> Option<f64>;
 
+    /// Jump intensity at time `t` (if it is part of the process).
+    fn jump_intensity(&self, _t: f64) -> Option<f64> {
+        None
+    }
+
     /// Draw one jump using the given random number generator.
     fn sample_jump(&self, x: f64, t: f64, _rng: &mut StdRng) -> Option<f64> {
         self.jump(x, t)
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index a912271..a25d44a 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -165,7 +165,7 @@ fn calculate_jump<T: StochasticProcess>(
     jump_config: Option<f64>,
     rng: &mut StdRng,
 ) -> f64 {
-    let rate = match jump_config {
+    let rate = match stochastic_process.jump_intensity(time_ref).or(jump_config) {
         Some(lambda) => lambda * dt,
         None => return 0.0,
     };
-- 
2.43.0


From 65616055f50ee21d8c5f1c75e8e5533862084e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 56/74] fix: Black-Derman-Toy drift lost the volatility slope
 just after time zero

---
 crates/RustQuant_stochastics/src/black_derman_toy.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/black_derman_toy.rs b/crates/RustQuant_stochastics/src/black_derman_toy.rs
index 71a3de9..530d7c4 100644
--- a/crates/RustQuant_stochastics/src/black_derman_toy.rs
+++ b/crates/RustQuant_stochastics/src/black_derman_toy.rs
@@ -50,11 +50,7 @@ impl StochasticProcess for BlackDermanToy {
 /// Central different differentiation
 pub(crate) fn diff(f: &(dyn Fn(f64) -> f64 + Send + Sync), t: f64) -> f64 {
     // Arbitrary choice here...
-    let eps = match t == 0. {
-        // pretty arbitrary choice here
-        true => f64::EPSILON.powf(1.0 / 3.0),
-        false => f64::EPSILON.powf(1.0 / 3.0) * t,
-    };
+    let eps = f64::EPSILON.powf(1.0 / 3.0) * t.abs().max(1.0);
     (f(t + eps) - f(t - eps)) / (2.0 * eps)
 }
 
-- 
2.43.0


From 96eef15d505596381dbf3272cc65bbe207ed3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 57/74] fix: refuse logistic regression responses other than 0
 and 1

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e4ba950..e456f6d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -93,7 +93,7 @@ impl LogisticRegressionInput<f64> {
         if self
             .y
             .iter()
-            .any(|&x| x.abs() < f64::EPSILON && (x - 1.0).abs() < f64::EPSILON)
+            .any(|&x| x.abs() >= f64::EPSILON && (x - 1.0).abs() >= f64::EPSILON)
         {
             return Err("The elements of the response vector should be either 0 or 1.");
         }
-- 
2.43.0


From e7d26ec0aa71b8c4cea6520e79f90cff42c15b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 58/74] fix: stop logistic regression only when every response
 is fitted

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e456f6d..0ab7947 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -201,7 +201,7 @@ impl LogisticRegressionInput<f64> {
                     let diag_entries = &mu.component_mul(&(&ones_samples - &mu));
 
                     // Break if data turns out to be linearly separable.
-                    if (&y - &mu).max() < tolerance {
+                    if (&y - &mu).amax() < tolerance {
                         break;
                     }
 
-- 
2.43.0


From b39b4647bae57bba1c10da0f1ea04dbb6aa1626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 59/74] fix: sign of the logistic regression cross-entropy

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 0ab7947..bbb073d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -278,7 +278,7 @@ impl LogisticRegressionOutput<f64> {
         let log_p_complement = p_complement.map(f64::ln);
 
         // Cross-entropy
-        (y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
+        -(y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
     }
 }
 
-- 
2.43.0


From 15927187b1cdb7c0f297fadbddcc99b4e151c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 60/74] fix: start logistic regression where a Newton step is
 defined and keep it from overshooting

---
 .../RustQuant_ml/src/logistic_regression.rs   | 66 +++++++++----------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index bbb073d..d83baf9 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -119,38 +119,14 @@ impl LogisticRegressionInput<f64> {
 
     /// Function to validate and prepare the output data.
     fn prepare_output(&self) -> LogisticRegressionOutput<f64> {
-        // Initial guess for the coefficients.
-        // hyperplane orthogonal to line between  means of class 0 and 1; plane goes through the location of (weighted) mean of both clusters
-
+        // Initial guess for the coefficients: every response equally likely.
+        // The log-likelihood is well scaled there whatever the features, so that
+        // the first Newton step is always defined.
         let (_n_sample, n_feat) = self.x.shape();
-        let ones = DVector::from_element(n_feat, 1.).transpose();
-
-        // Calculate mean of features of samples of class 0
-        let mask0 = &self.y * &ones;
-        let x0_mean = self.x.component_mul(&mask0).row_mean();
-
-        // Calculate mean of features of samples of class 1
-        let mask1 = (-&mask0).add_scalar(1.);
-        let x1_mean = self.x.component_mul(&mask1).row_mean();
-
-        //vector from x0_mean to x1_mean
-        let delta = &x1_mean - &x0_mean;
-
-        //fraction of samples in class 1 , used as weight
-        let y_mean = self.y.mean();
-        let mid = x1_mean * y_mean + x0_mean * (1. - y_mean);
-
-        //compute projection of weighted mean of class on direction delta
-        let scaler = mid.dot(&delta) / delta.magnitude_squared();
-        let dir = delta * scaler;
-
-        // <dir,x>=|dir|^2 is the plane orthogonal to dir with distance |dir| from the origin
-        let bias = -dir.magnitude_squared();
-        let coef = dir.insert_column(0, bias);
 
         // Return the output struct, with the initial guess for the coefficients.
         LogisticRegressionOutput {
-            coefficients: coef.transpose(),
+            coefficients: DVector::zeros(n_feat + 1),
             iterations: 0,
         }
     }
@@ -172,9 +148,6 @@ impl LogisticRegressionInput<f64> {
         let ones_samples = DVector::from_element(n_rows, 1.);
         let ones_features = DVector::from_element(n_cols, 1.);
 
-        // Vector of coefficients that we update each iteration.
-        let mut coefs = DVector::zeros(n_cols);
-
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
             // Using Algorithmic Adjoint Differentiation (AAD)
@@ -189,10 +162,19 @@ impl LogisticRegressionInput<f64> {
                 let mut eta: DVector<f64>;
                 let mut mu: DVector<f64>;
 
+                // Log-likelihood of a vector of coefficients.
+                let log_likelihood = |coefs: &DVector<f64>| -> f64 {
+                    (&X * coefs)
+                        .iter()
+                        .zip(y.iter())
+                        .map(|(&eta, &y)| y * eta - eta.max(0.0) - (-eta.abs()).exp().ln_1p())
+                        .sum()
+                };
+
                 // While not converged.
                 // Convergence is defined as the norm of the change in
                 // the weights being less than the tolerance.
-                while (&coefs - &output.coefficients).norm() >= tolerance {
+                loop {
                     eta = &X * &output.coefficients;
                     mu = ActivationFunction::logistic(&eta);
                     //multiplication of matrix  with diagonal matrix equals elementwise multiplication of each row / col  with diagonal entries
@@ -210,16 +192,30 @@ impl LogisticRegressionInput<f64> {
                     let X_T_W = X_T.component_mul(&diag_repeated);
                     let hessian = &X_T_W * &X;
                     let z = &X_T * (&y - &mu);
-                    let delta_coefs = hessian
+                    let mut delta_coefs = hessian
                         .lu()
                         .solve(&z)
                         .unwrap_or_else(|| panic!("IRLS[{}]:", output.iterations));
 
-                    coefs = &output.coefficients + delta_coefs;
+                    // Newton's method can overshoot: halve the step until
+                    // the likelihood does not decrease (beyond rounding).
+                    let current = log_likelihood(&output.coefficients);
+                    let slack = f64::EPSILON.sqrt() * current.abs();
+                    let mut coefs = &output.coefficients + &delta_coefs;
+
+                    while log_likelihood(&coefs) < current - slack && delta_coefs.norm() >= tolerance
+                    {
+                        delta_coefs *= 0.5;
+                        coefs = &output.coefficients + &delta_coefs;
+                    }
 
                     output.iterations += 1;
+                    output.coefficients = coefs;
 
-                    std::mem::swap(&mut output.coefficients, &mut coefs);
+                    let change = delta_coefs.norm();
+                    if change < tolerance || change.is_nan() {
+                        break;
+                    }
                 }
             }
         }
-- 
2.43.0


From fb70984a5c4281cc0c90091d9e888bd477fdac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 61/74] fix: sign in the exponent of the gaussian activation

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 9b3d8da..65aaa24 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -127,7 +127,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn gaussian(&self) -> Self {
-        (f64::powi(-self, 2)).exp()
+        (-f64::powi(*self, 2)).exp()
     }
 }
 
-- 
2.43.0


From 12490d90cad5a2807dbba3c13865683f56909659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 62/74] fix: overflow of the softplus activation

---
 crates/RustQuant_ml/src/activations.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 65aaa24..65d48bc 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -76,7 +76,12 @@ impl ActivationFunction for Variable<'_> {
 
     #[inline]
     fn softplus(&self) -> Self {
-        (1.0 + self.exp()).ln()
+        // ln(1 + e^x) = x + ln(1 + e^-x), which does not overflow for large x.
+        if self.value() > 0.0 {
+            *self + (1.0 + (-(*self)).exp()).ln()
+        } else {
+            (1.0 + self.exp()).ln()
+        }
     }
 
     #[inline]
@@ -122,7 +127,8 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn softplus(&self) -> Self {
-        (1.0 + self.exp()).ln()
+        // ln(1 + e^x) = x + ln(1 + e^-x), which does not overflow for large x.
+        self.max(0.0) + (-self.abs()).exp().ln_1p()
     }
 
     #[inline]
-- 
2.43.0


From 64d648a92af6cc7cf74229aa48475ccb35fc509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 63/74] fix: count nearest-neighbour votes per label instead of
 per integer part

---
 crates/RustQuant_ml/src/k_nearest_neighbors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/k_nearest_neighbors.rs b/crates/RustQuant_ml/src/k_nearest_neighbors.rs
index 8cb4420..d00a0d5 100644
--- a/crates/RustQuant_ml/src/k_nearest_neighbors.rs
+++ b/crates/RustQuant_ml/src/k_nearest_neighbors.rs
@@ -85,7 +85,7 @@ impl KNearestClassifier<f64> {
             .iter()
             .copied()
             .max_by_key(|&val| {
-                let count = counts.entry(val as i64).or_insert(0);
+                let count = counts.entry((val + 0.0).to_bits()).or_insert(0);
                 *count += 1;
                 *count
             })
-- 
2.43.0


From 1b76213d375f1a847bf69827b9e3b7ffb22f4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 64/74] fix: register the convention and schedule classes with
 the Python time module

---
 bindings/rust/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/rust/lib.rs b/bindings/rust/lib.rs
index b6e4725..5e44de7 100644
--- a/bindings/rust/lib.rs
+++ b/bindings/rust/lib.rs
@@ -65,6 +65,9 @@ fn register_time_module(py: Python, parent_module: &Bound<'_, PyModule>) -> PyRe
     // Add:
     module.add_class::<::RustQuant::time::Calendar>()?;
     module.add_class::<::RustQuant::time::Market>()?;
+    module.add_class::<::RustQuant::time::DateRollingConvention>()?;
+    module.add_class::<::RustQuant::time::DayCountConvention>()?;
+    module.add_class::<::RustQuant::time::Schedule>()?;
     //
 
     parent_module.add_submodule(&module)?;
-- 
2.43.0


From a02a350301f89748f6673b3cc08216b0af856e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 65/74] fix: refuse quantiles of numbers that are not
 probabilities in the exponential law

---
 crates/RustQuant_math/src/distributions/exponential.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/exponential.rs b/crates/RustQuant_math/src/distributions/exponential.rs
index 6935ea5..5014d5b 100644
--- a/crates/RustQuant_math/src/distributions/exponential.rs
+++ b/crates/RustQuant_math/src/distributions/exponential.rs
@@ -102,6 +102,8 @@ impl Distribution for Exponential {
     /// assert_approx_equal!(exp.inv_cdf(0.5), 0.6931472, 1e-7);
     /// ```
     fn inv_cdf(&self, p: f64) -> f64 {
+        assert!((0.0..=1.0).contains(&p));
+
         -(1. - p).ln() / self.lambda
     }
 
-- 
2.43.0


From f0dfdd34010d066522ae40dd513e57af7a5230fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 66/74] fix: leave vertices the output does not depend on out
 of the reverse sweep

---
 crates/RustQuant_autodiff/src/accumulate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/accumulate.rs b/crates/RustQuant_autodiff/src/accumulate.rs
index 2cf1a1c..928d04e 100644
--- a/crates/RustQuant_autodiff/src/accumulate.rs
+++ b/crates/RustQuant_autodiff/src/accumulate.rs
@@ -43,6 +43,11 @@ impl Accumulate<Vec<f64>> for Variable<'_> {
         for (index, vertex) in self.graph.vertices.borrow().iter().enumerate().rev() {
             let deriv = adjoints[index];
 
+            // The output does not depend on this vertex, whose partials may be infinite.
+            if deriv == 0.0 {
+                continue;
+            }
+
             adjoints[vertex.parents[0]] += vertex.partials[0] * deriv;
             adjoints[vertex.parents[1]] += vertex.partials[1] * deriv;
         }
-- 
2.43.0


From fc45495cbe2bfec8b788c013eb78f0644a21b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 67/74] fix: resolve small probabilities in the Gaussian
 quantile

---
 crates/RustQuant_math/src/distributions/gaussian.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/gaussian.rs b/crates/RustQuant_math/src/distributions/gaussian.rs
index 68e7d53..b12ab17 100644
--- a/crates/RustQuant_math/src/distributions/gaussian.rs
+++ b/crates/RustQuant_math/src/distributions/gaussian.rs
@@ -157,7 +157,9 @@ impl Distribution for Gaussian {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!(self.variance > 0.0);
 
-        self.mean + SQRT_2 * self.variance.sqrt() * erf::erf_inv(2.0 * p - 1.0)
+        // `erfc_inv` is used instead of `erf_inv(2p - 1)`, which
+        // loses the digits of a small probability in the lower tail.
+        self.mean - SQRT_2 * self.variance.sqrt() * erf::erfc_inv(2.0 * p)
     }
 
     /// Returns the mean of the Gaussian distribution.
-- 
2.43.0


From 99631a016042484128c710c124de118f740871eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 68/74] fix: use the second derivative of the Black price in
 the middle implied volatility branch

---
 crates/RustQuant_instruments/src/options/implied_volatility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/implied_volatility.rs b/crates/RustQuant_instruments/src/options/implied_volatility.rs
index d69ead7..2399eb7 100644
--- a/crates/RustQuant_instruments/src/options/implied_volatility.rs
+++ b/crates/RustQuant_instruments/src/options/implied_volatility.rs
@@ -998,7 +998,7 @@ pub(crate) fn unchecked_normalised_implied_volatility_from_a_transformed_rationa
             s_left = s; // Tighten the bracket if applicable.
         }
         let newton = (beta - b) / bp;
-        let halley = f64::powi(x / s, 2) - s / 4.0;
+        let halley = f64::powi(x / s, 2) / s - s / 4.0;
         let hh3 = halley * halley - 3.0 * f64::powi(x / (s * s), 2) - 0.25;
 
         ds = newton * householder_factor(newton, halley, hh3);
-- 
2.43.0


From f57877eb5c17fa6be0cdf8afd26aaebb3073a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 69/74] fix: shift the parents of the vertices Graph::join
 appends

---
 crates/RustQuant_autodiff/src/graph.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/graph.rs b/crates/RustQuant_autodiff/src/graph.rs
index b161f09..e2c93b4 100644
--- a/crates/RustQuant_autodiff/src/graph.rs
+++ b/crates/RustQuant_autodiff/src/graph.rs
@@ -66,8 +66,18 @@ impl Graph {
     #[inline]
     pub fn join(&self, other: &Self) -> Self {
         let graph = self.clone();
-        let other = other.vertices.borrow_mut().clone();
-        graph.vertices.borrow_mut().extend(other);
+        let other = other.vertices.borrow().clone();
+        {
+            // The parents of the appended vertices are indices into `other`.
+            let mut vertices = graph.vertices.borrow_mut();
+            let offset = vertices.len();
+            vertices.extend(other.into_iter().map(|mut vertex| {
+                for parent in &mut vertex.parents {
+                    *parent += offset;
+                }
+                vertex
+            }));
+        }
         graph
     }
 
-- 
2.43.0


From 3f52b6175f0e498273701fd6e103427fe04b7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 70/74] fix: bound the SABR calibration by the scale of its
 parameters

---
 .../src/options/option_models.rs              | 52 ++++++++++++-------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index bcb598a..8a2484f 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1293,6 +1293,7 @@ mod sabr {
         (f * k).powf((1.0 - beta) / 2.0)
     }
 
+    #[derive(Clone)]
     pub(crate) struct Sabr02Calibrator {
         pub(crate) beta: f64,
         pub(crate) f: f64,
@@ -1355,33 +1356,46 @@ impl Sabr02 {
 
         let zero = f64::EPSILON;
 
-        let bounds = [
-            (zero, f32::MAX as f64), // Alpha
-            (-1.0, 1.0),             // Rho (correlation)
-            (-1.0, f32::MAX as f64), // Nu
+        // The swarm starts spread uniformly over the bounds, so they have to be of
+        // the scale of the solution: the at-the-money volatility is roughly
+        // alpha / f^(1 - beta).
+        let max_volatility = volatilities.iter().copied().fold(zero, f64::max);
+        let max_alpha = 2.0 * max_volatility * self.f.powf(1.0 - self.beta);
+
+        let bounds: (Vec<f64>, Vec<f64>) = [
+            (zero, max_alpha),        // Alpha
+            (zero - 1.0, 1.0 - zero), // Rho (correlation)
+            (zero, 5.0),              // Nu
         ]
-        .to_vec()
         .into_iter()
-        .map(|(a, b)| (a, b))
-        .collect();
+        .unzip();
+
+        // A swarm may get stuck at nu = 0, where rho has no effect:
+        // keep the best of several.
+        let mut best_cost = f64::INFINITY;
 
-        let model = calibrator;
+        for _ in 0..10 {
+            let solver = ParticleSwarm::new(bounds.clone(), 100);
 
-        let solver = ParticleSwarm::new(bounds, 100); //-0.3593 -0.7238 2.0289
-                                                      // .with_inertia_factor(0.1)? // Inertia factor (w)
-                                                      // .with_cognitive_factor(2.)? // Cognitive (personal) factor
-                                                      // .with_social_factor(2.)?; // Social (global) factor
+            let executor = Executor::new(calibrator.clone(), solver)
+                .configure(|state| state.max_iters(1000).target_cost(1e-14));
 
-        let executor = Executor::new(model, solver).configure(|state| state.max_iters(1000));
+            let result = executor.run()?;
 
-        let result = executor.run()?;
-        let params = result.state().get_best_param().unwrap().position.to_vec();
+            if let Some(best) = result.state().get_best_param() {
+                if best.cost < best_cost {
+                    best_cost = best.cost;
 
-        self.alpha = params[0];
-        self.rho = params[1];
-        self.nu = params[2];
+                    self.alpha = best.position[0];
+                    self.rho = best.position[1];
+                    self.nu = best.position[2];
+                }
+            }
 
-        println!("TIME: {:?}", result.state().get_time());
+            if best_cost < 1e-12 {
+                break;
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From c80a7e40faf9a2d1cd3d548094f9f254890eb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:17 +0000
Subject: [PATCH 71/74] fix: refuse a negative count in the binomial mass
 function

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 27f4533..31719e8 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -111,7 +111,7 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(pmf, 0.2304000, 1e-7);
     /// ```
     fn pmf(&self, k: f64) -> f64 {
-        assert!(k as usize <= self.n);
+        assert!(k >= 0.0 && k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
         let k = k as usize;
-- 
2.43.0


From f6dcaaf0a25063ba77ef1151ccc8a828081f5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:17 +0000
Subject: [PATCH 72/74] fix: give a negative count no mass under the Poisson
 distribution

---
 crates/RustQuant_math/src/distributions/poisson.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 4a87530..e0dec2e 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -97,6 +97,10 @@ impl Distribution for Poisson {
         // Work in logs: neither x! nor lambda^x is representable for large x.
         let k = x.floor();
 
+        if k < 0.0 {
+            return 0.0;
+        }
+
         (k * self.lambda.ln() - self.lambda - ln_factorial(k as u64)).exp()
     }
 
-- 
2.43.0


From a709e83b87eb150d92499b1e282b24b937db21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 73/74] fix: Fractional noise with a Hurst exponent of one is
 not NaN

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index e206bc7..7050388 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -123,7 +123,7 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
 
     ndfft_par(&data, &mut sqrt_eigenvalues, &r_fft, 0);
 
-    sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
+    sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re.max(0.0) / (2.0 * n as f64)).sqrt(), x.im));
 
     let mut rng = match seed {
         Some(seed) => StdRng::seed_from_u64(seed),
-- 
2.43.0


From 84f9366767a23415c32230f61998add6096328d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:20 +0000
Subject: [PATCH 74/74] fix: Poisson quantiles next to one end their search

---
 crates/RustQuant_math/src/distributions/poisson.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index e0dec2e..6815506 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -144,7 +144,15 @@ impl Distribution for Poisson {
         let mut sum = self.pmf(0.0);
         while sum < p {
             k += 1;
-            sum += self.pmf(f64::from(k));
+            let mass = self.pmf(f64::from(k));
+
+            // Beyond the mean, a mass too small to change the sum ends the search:
+            // rounding may keep the sum below `p` for ever.
+            if f64::from(k) > self.lambda && sum + mass <= sum {
+                break;
+            }
+
+            sum += mass;
         }
         f64::from(k)
     }
-- 
2.43.0

