From 91ed5ebe7082d15a95c0118cd38bd26fa35f0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 01/17] fix: date_from_float panicked for 1 January of every
 year

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..0a9119f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,12 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    // Half a day back, so that 1 January stays in its year and 31 December does not spill over
+    let y = (yr - 0.00137).floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    let days = days_in_year(yp);
+    let dy = ((yr - y) * days as f64).round() as u32;
+    NDt::from_yo_opt(yp, dy.min(days as u32)).unwrap()
 }
 
 /**
-- 
2.43.0


From b31e9fddff4a03db5602763b91ef760c2a2c0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 02/17] fix: annuity value and payment were NaN at a zero rate

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0a9119f..b3bbae7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -263,6 +263,9 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 - m   = number of payments per period (say, monthly where `m = 12`)
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -pmt * n * m - fv;
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
@@ -274,6 +277,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 - m  = number of payments per period (say, monthly where m = 12)
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
+    if r == 0.0 {
+        return -(pv + fv) / (n * m);
+    }
     let rn = (1.0 + r / m).powf(n * m);
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
-- 
2.43.0


From 972754d50c0ee3df9859a70f508b67ac2e9bd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 03/17] fix: irr reported rates below -100% or nothing for
 loss-making investments

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b3bbae7..e3497a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -381,7 +381,10 @@ pub fn xnpv(r: f64, dt: &Vec<NDt>, d0: NDt, cf: &Vec<f64>) -> f64 {
 - cf  = vector of corresponding cash flows
 */
 pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
-    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)
+    // Newton may jump below -100% from a start above the root; retry from lower starts
+    [0.1, 0.0, -0.1, -0.2, -0.3, -0.4, -0.5, -0.6, -0.7, -0.8, -0.9]
+        .into_iter()
+        .find_map(|x| newt_raph(|r| npv_t0(r, tim, cf), x, 1e-6).filter(|&r| r > -1.0))
 }
 
 /** XIRR of cash flow against time given as NaiveDate
-- 
2.43.0


From 04ff6398a18d94b9f9a8707f51217864b954a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 04/17] fix: generate_cashflow lost the last period when freq *
 t_life rounds below a whole number

---
 src/fixedincomes/bonds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..5d1b34d 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,7 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        let sz = (self.freq * self.t_life + 1e-9) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


From b502cbcfa1490edf7fa94f0004b9f94420b9cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 05/17] fix: split_periods dropped periods of exactly 120 days

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..3586c3b 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1386,7 +1386,7 @@ impl Accounts {
         (
             dts.clone()
                 .filter_map(|&(d0, d1)| {
-                    if d0 + Duration::days(120) < d1 {
+                    if d0 + Duration::days(120) <= d1 {
                         Some((d0, d1))
                     } else {
                         None
-- 
2.43.0


From dd84b65eaf7ae8d4845844e04424dba88ab680f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 06/17] fix: check_dates compared the second period with the
 start of the first, not its end

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 3586c3b..5c9763f 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From 236b18f7ed39c4766a45f492e449f36ea6e1e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 07/17] fix: check_dates panicked on an empty sequence of
 periods

---
 src/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statements.rs b/src/statements.rs
index 5c9763f..29e9f9c 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,6 +1301,9 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
+    if dts.is_empty() {
+        return true;
+    }
     let (dt, mut dp) = dts[0];
     if dt > dp {
         return false;
-- 
2.43.0


From b2e28727f76ff58ac3311fbea1db7e5101975c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 08/17] fix: recalculating a report discarded its cash flow
 when a balance sheet was missing

---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 29e9f9c..1fe7d62 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1200,7 +1200,7 @@ impl FinancialReport {
                 .calc_elements()
                 .clone(),
             ),
-            (_, _) => None,
+            (_, _) => get_hm(&self.cash_flow),
         };
 
         self.balance_sheet_beg = b_beg;
-- 
2.43.0


From eca26b86d5781ff54ace7f5b3101e994b0fbc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 09/17] fix: consecutive_periods panicked or found nothing for
 periods ending on the 29th to 31st

---
 src/statements.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 1fe7d62..47002bc 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -13,7 +13,7 @@ Income Statements and Cash Flow Statements and their utiities.
 You may see the github repository at <https://github.com/n-kishaloy/financelib>
 */
 
-use chrono::{naive::NaiveDate as NDt, Datelike, Duration};
+use chrono::{naive::NaiveDate as NDt, Datelike, Duration, Months};
 use lazy_static::lazy_static;
 use serde::{Deserialize, Serialize};
 
@@ -1327,21 +1327,27 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
             dt_1 = d1;
         }
     }
-    let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
+    let month_end = |d: NDt| d.with_day(1).unwrap() + Months::new(1) - Duration::days(1);
 
     let dt = dt_1.day();
+    let at_month_end = dt_1 == month_end(dt_1);
     let mut bt = BTreeSet::new();
 
     for _ in 0..100 {
-        let (y1, m1) = (dt_1.year(), dt_1.month());
-        let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
-
-        if prd.contains(&(dt_q, dt_1)) {
-            bt.insert((dt_q, dt_1));
-            dt_1 = dt_q;
-        } else if prd.contains(&(dt_0, dt_1)) {
+        // Same day of the month (or the last one of a shorter month), or from month end to month end
+        let begin = |months: u32| {
+            let last = month_end(dt_1.with_day(1).unwrap() - Months::new(months));
+            let same = last.with_day(dt.min(last.day())).unwrap();
+            if prd.contains(&(same, dt_1)) {
+                Some(same)
+            } else if at_month_end && prd.contains(&(last, dt_1)) {
+                Some(last)
+            } else {
+                None
+            }
+        };
+
+        if let Some(dt_0) = begin(3).or_else(|| begin(12)) {
             bt.insert((dt_0, dt_1));
             dt_1 = dt_0;
         } else {
-- 
2.43.0


From 647ea0ee3f639f06b0f955cd96a8c326c78aa669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 10/17] fix: displaying accounts panicked when empty and
 divided by zero when assets and revenue were zero

---
 src/statements.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 47002bc..22d8307 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1811,13 +1811,14 @@ impl fmt::Display for Accounts {
                     .iter()
                     .map(|(_, x)| x.value(Assets).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(0),
                 self.profit_loss
                     .iter()
                     .map(|(_, x)| x.value(Revenue).floor() as i64)
                     .max()
-                    .unwrap(),
-            ) as f64)
+                    .unwrap_or(0),
+            )
+            .max(1) as f64)
                 .log10()
                 .ceil() as i32)
                 / 3
-- 
2.43.0


From 72fb6eaa3017bd3cf6ed3220fa7462353dbcc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 11/17] fix: newt_raph reported a root where the slope
 overflowed

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e3497a4..c5fcc5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -400,7 +400,7 @@ pub fn newt_raph(f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
     for _ in 0..100 {
         let fx = f(x);
         let df = (f(x + dx) - fx) / dx;
-        if is_zero(df) {
+        if is_zero(df) || df.is_infinite() {
             return None;
         }
         let del_x = fx / df;
-- 
2.43.0


From 766d926cee301b61b1b6a7c235381a7dea1270aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 12/17] fix: annuity value and payment lost their digits, or
 became 0 or infinite, at tiny rates

---
 src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c5fcc5d..9acc62a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -256,6 +256,15 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
     pv * (r * n).exp()
 }
 
+/** 1 - 1/(1+r)^n, also where 1+r would lose the digits of a tiny rate */
+fn discount(r: f64, n: f64) -> f64 {
+    if r.abs() < 1e-6 {
+        -(-n * r.ln_1p()).exp_m1()
+    } else {
+        1.0 - 1.0 / (1.0 + r).powf(n)
+    }
+}
+
 /** PV of an annuity with multiple payments per period
 - pmt = payment made in each transaction
 - r   = rate of return
@@ -267,7 +276,7 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
         return -pmt * n * m - fv;
     }
     let rn = (1.0 + r / m).powf(n * m);
-    -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
+    -pmt / (r / m) * discount(r / m, n * m) - fv / rn
 }
 
 /** Payment to cover the PV of an Annuity
@@ -281,7 +290,7 @@ pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
         return -(pv + fv) / (n * m);
     }
     let rn = (1.0 + r / m).powf(n * m);
-    -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
+    -(pv + fv / rn) * (r / m) / discount(r / m, n * m)
 }
 
 /** Effective rate of return for multiple compounding per period
-- 
2.43.0


From 15b7ae9d34049ed03dd39c0c7bff8e104068f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 13/17] fix: rate_estim panicked at the first point of a curve
 where (1/freq)*freq rounds below 1

---
 src/fixedincomes/bonds/rates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds/rates.rs b/src/fixedincomes/bonds/rates.rs
index e95c404..1048819 100644
--- a/src/fixedincomes/bonds/rates.rs
+++ b/src/fixedincomes/bonds/rates.rs
@@ -42,7 +42,8 @@ impl RateCurve {
     pub fn rate_estim(&self, y: f64) -> f64 {
         fn estima(rx: &Vec<f64>, fq: f64, y: f64) -> f64 {
             let proper = |x: f64| -> (usize, f64) {
-                let sl = x.floor();
+                // a point's own time may round to just below it
+                let sl = (x + 1e-9).floor();
                 (sl as usize, x - sl)
             };
             let (fl, pf) = proper(y * fq);
-- 
2.43.0


From 49c144f11cda00bec249ffc3ecb77b58db0231c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 14/17] fix: a refused transaction left its debit posted

---
 src/statements.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statements.rs b/src/statements.rs
index 22d8307..2321150 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -892,6 +892,12 @@ pub trait BsMapTrait {
 
     /** Debit and Credit amount `val` from BsMap for a complete transaction */
     fn transact(&mut self, (deb, crd, val): (BsType, BsType, f64)) -> &mut Self {
+        // checked before posting: a refused transaction must not leave its debit behind
+        for k in [deb, crd] {
+            if k.is_calc() {
+                panic!("Entering a calc item {:?}", k)
+            }
+        }
         self.debit(deb, val).credit(crd, val)
     }
 
-- 
2.43.0


From dc6c8ddc8a7c81cde1a5eb8a348ca51b0dad2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 15/17] fix: date_from_float gave 31 December for moments
 nearer to 1 January of a leap year

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9acc62a..f914e27 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,12 +52,12 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    // Half a day back, so that 1 January stays in its year and 31 December does not spill over
-    let y = (yr - 0.00137).floor();
-    let yp = y as i32;
-    let days = days_in_year(yp);
-    let dy = ((yr - y) * days as f64).round() as u32;
-    NDt::from_yo_opt(yp, dy.min(days as u32)).unwrap()
+    let y = yr.floor() as i32;
+    match ((yr - yr.floor()) * days_in_year(y) as f64).round() as u32 {
+        // nearer to the year's start, which is the value of the previous 31 December
+        0 => NDt::from_ymd_opt(y - 1, 12, 31).unwrap(),
+        dy => NDt::from_yo_opt(y, dy).unwrap(),
+    }
 }
 
 /**
-- 
2.43.0


From 0bf9469588a899dea6542960b49b91e85a19228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 16/17] fix: split_periods panicked for periods starting within
 120 days of the last date there is

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 2321150..74b58d7 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1401,7 +1401,7 @@ impl Accounts {
         (
             dts.clone()
                 .filter_map(|&(d0, d1)| {
-                    if d0 + Duration::days(120) <= d1 {
+                    if (d1 - d0).num_days() >= 120 {
                         Some((d0, d1))
                     } else {
                         None
@@ -1409,7 +1409,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if (d1 - d0).num_days() < 120 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From 8aa289241cb04cdb52b103e2c4ab709c635b678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 17/17] fix: consecutive_periods panicked for a chain ending in
 the last month there is

---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 74b58d7..d2a7f1f 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -13,7 +13,7 @@ Income Statements and Cash Flow Statements and their utiities.
 You may see the github repository at <https://github.com/n-kishaloy/financelib>
 */
 
-use chrono::{naive::NaiveDate as NDt, Datelike, Duration, Months};
+use chrono::{naive::NaiveDate as NDt, Datelike, Months};
 use lazy_static::lazy_static;
 use serde::{Deserialize, Serialize};
 
@@ -1333,7 +1333,7 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
             dt_1 = d1;
         }
     }
-    let month_end = |d: NDt| d.with_day(1).unwrap() + Months::new(1) - Duration::days(1);
+    let month_end = |d: NDt| d.with_day(d.num_days_in_month() as u32).unwrap();
 
     let dt = dt_1.day();
     let at_month_end = dt_1 == month_end(dt_1);
-- 
2.43.0

