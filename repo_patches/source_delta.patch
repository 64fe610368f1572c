From b874a5eb8c0b547985684adba0fb9d621fdf6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:12 +0000
Subject: [PATCH 01/31] fix: honour dtstart, dtmax and the direction of
 integration in the initial step

---
 src/ode/integrator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..394f07d 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
@@ -207,6 +208,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        // The initial step points towards `tfinal` and obeys `dtmax`.
+        let tdir = 1f64.copysign(self.tfinal - self.t);
+        self.dt = tdir * self.dt.abs().min(self.opts.dtmax);
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
@@ -224,7 +228,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             uprev: self.u,
             tprev: self.t,
             dtprev: self.dt,
-            tdir: 1f64.copysign(self.tfinal - self.t),
+            tdir,
             tfinal: self.tfinal,
             opts: self.opts,
             stats: OdeStatistics::new(),
-- 
2.43.0


From dde85fae83e0df90f38d9092b40c054faad5ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:36 +0000
Subject: [PATCH 02/31] fix: stop DormandPrince5 when the step size becomes too
 small

---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..fc8929e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -71,6 +71,7 @@ impl OdeAlgorithm for DormandPrince5 {
             }
             if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
             }
         }
 
-- 
2.43.0


From 82ddf7805cd1dc2a19604419d1fc5a42c3ca1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:37 +0000
Subject: [PATCH 03/31] fix: use the documented exponent in the DormandPrince5
 step size controller

---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From 12dd5a9be9c5a66fe8c95b8ba10e4021260d79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:38 +0000
Subject: [PATCH 04/31] fix: do not divide by a max_stiff of zero

---
 src/dorm_prince/dp5/prepare.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index c5d154c..b6bdab4 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -30,7 +30,8 @@ impl DormandPrince5 {
             integrator.stats.accepts += 1;
 
             /* stiffness detection */
-            if integrator.stats.accepts % integrator.opts.max_stiff == 0
+            let max_stiff = integrator.opts.max_stiff;
+            if (max_stiff > 0 && integrator.stats.accepts % max_stiff == 0)
                 || integrator.cache.n_stiff > 0
             {
                 let mut stnum = 0.0;
-- 
2.43.0


From bff180f77b45740ea5267aef942df91a2e4f6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:39 +0000
Subject: [PATCH 05/31] fix: do not let DormandPrince5 exceed max_steps

---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index fc8929e..074b0d9 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -79,7 +79,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
-- 
2.43.0


From 74eb32a0feae3112c216aea7b304e97b20bdb50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:40 +0000
Subject: [PATCH 06/31] fix: detect the last Radau5 step in both directions of
 integration

---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From 69d7817d2a1be9609de4e45bcd8023c752ba109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:41 +0000
Subject: [PATCH 07/31] fix: refactor the Radau5 matrices whenever the step
 size changed

---
 src/radau/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..a01e9dc 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -103,7 +103,8 @@ impl OdeAlgorithm for Radau5 {
             integrator.cache.last = true;
         }
         loop {
-            if integrator.cache.decompose {
+            // The matrices are only valid for the step size they were built with.
+            if integrator.cache.decompose || integrator.cache.fac1 != Radau5::U1 / integrator.dt {
                 // Perform needed decompositions until we succeed.
                 loop {
                     let success = Self::perform_decompositions(integrator);
-- 
2.43.0


From 36f03945edbbb6c29d3d186d2166db88066394b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:41 +0000
Subject: [PATCH 08/31] fix: keep uprev up to date in Radau5

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..d09a925 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -38,6 +38,7 @@ impl Radau5 {
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
             integrator.tprev = integrator.t;
+            integrator.uprev.assign(&integrator.u);
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
 
-- 
2.43.0


From 6602d1fda041f80c54a46c2d245bb2092ad56b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:43 +0000
Subject: [PATCH 09/31] fix: leave a finished integration alone

---
 src/ode/integrator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 394f07d..9f2f6fc 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -244,6 +244,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From 299081a8b16028800e5c17a0a1d0ca8e289f0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:44 +0000
Subject: [PATCH 10/31] fix: yield the final point from the integrator
 iterators

---
 src/ode/integrator.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 9f2f6fc..2114cc9 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -307,10 +307,13 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        // A step may record a point and end the integration.
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -358,10 +361,13 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        // A step may record a point and end the integration.
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From 9d21870ea6c529b5fedc67caea2ff6f48a5780c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:22 +0000
Subject: [PATCH 11/31] fix: choose a usable increment for negative states in
 the difference Jacobian

---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From d8006de106a4a094a5b39645019e63ab766f0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:23 +0000
Subject: [PATCH 12/31] fix: evaluate the right-hand side at two times in the
 difference time derivative

---
 src/ode/jacobian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index e93af89..5746837 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -49,8 +49,8 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         None => {
             let mut du = Array::zeros(u.raw_dim());
             dudt(du.view_mut(), u.view(), t, p);
-            dudt(df.view_mut(), u.view(), t, p);
-            let dt = f64::EPSILON * t.max(1e-5);
+            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
+            dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
     }
-- 
2.43.0


From 02d1cee3e06e4bd7c90889d629589e8e49900645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:23 +0000
Subject: [PATCH 13/31] fix: count Jacobian evaluations in the statistics

---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index d09a925..9270b33 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From f42302bf2e823e0be6682da5cd78f079f98e9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:24 +0000
Subject: [PATCH 14/31] fix: use the state left by the callback in the next
 DormandPrince5 step

---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 074b0d9..4646a15 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        if integrator.callback.is_some() {
+            // The callback may have changed the state or the parameters.
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From b3ec56ff350263493e761c204abda9d4cbd39fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:25 +0000
Subject: [PATCH 15/31] fix: use the state left by the callback in the next
 Radau5 step

---
 src/radau/algorithm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index a01e9dc..64f5bce 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,20 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        if integrator.callback.is_some() {
+            // The callback may have changed the state or the parameters.
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From 2a4aed8da2667271f29537f5e607a4140f4a173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:26 +0000
Subject: [PATCH 16/31] fix: evaluate the Radau5 collocation polynomial in the
 dense output

---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From 4e5c5b705d39688a2cffcacc1dcf9ed1d2d4e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:27 +0000
Subject: [PATCH 17/31] fix: report a singular first column with a non-zero
 code

---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From 309804a156fbdf343dcadeb6dbe3d1506e8e699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:28 +0000
Subject: [PATCH 18/31] fix: complete the back substitution for complex
 Hessenberg systems

---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From e76afe301106fc4882dcb12bfc04739320fa009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:29 +0000
Subject: [PATCH 19/31] fix: eliminate all rows of the band in the banded
 decompositions

---
 src/linalg/dec.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 8e3944f..1539460 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -328,7 +328,7 @@ pub(crate) fn decb(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if a[[i, k]].abs() > a[[m, k]].abs() {
                     m = i;
                 }
@@ -350,11 +350,11 @@ pub(crate) fn decb(
                 a[[i, k]] *= -t;
             }
             ju = ju.max(ub + ip[k] as usize + 1).min(n);
-            let mm = md;
+            let mut mm = md;
             if ju >= kp1 {
                 for j in kp1..ju {
                     m = m - 1;
-                    let mm = mm - 1;
+                    mm = mm - 1;
                     t = a[[m, j]];
                     if m != mm {
                         a[[m, j]] = a[[mm, j]];
@@ -362,7 +362,7 @@ pub(crate) fn decb(
                     }
                     if t != 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             a[[ijk, j]] += a[[i, k]] * t;
                         }
@@ -413,7 +413,7 @@ pub(crate) fn decbc(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if ar[[i, k]].abs() + ai[[i, k]].abs() > ar[[m, k]].abs() + ai[[m, k]].abs() {
                     m = i;
                 }
@@ -421,7 +421,7 @@ pub(crate) fn decbc(
             ip[k] = (m + k - md) as i32;
             let mut tr = ar[[m, k]];
             let mut ti = ai[[m, k]];
-            if m != k {
+            if m != md {
                 ip[n - 1] = -ip[n - 1];
                 ar[[m, k]] = ar[[md, k]];
                 ai[[m, k]] = ai[[md, k]];
@@ -436,7 +436,7 @@ pub(crate) fn decbc(
             let den = tr * tr + ti * ti;
             tr = tr / den;
             ti = -ti / den;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                 let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
                 ar[[i, k]] = -prodr;
@@ -459,7 +459,7 @@ pub(crate) fn decbc(
                     if tr.abs() + ti.abs() == 0.0 {
                     } else if ti == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr;
                             let prodi = ai[[i, k]] * tr;
@@ -468,7 +468,7 @@ pub(crate) fn decbc(
                         }
                     } else if tr == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = -ai[[i, k]] * ti;
                             let prodi = ar[[i, k]] * ti;
@@ -477,7 +477,7 @@ pub(crate) fn decbc(
                         }
                     } else {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                             let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
-- 
2.43.0


From 84d70d6b833c6c3a9363a1bbd6a70e2cf23f3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:30 +0000
Subject: [PATCH 20/31] fix: avoid index underflow in the banded solvers

---
 src/linalg/sol.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1111545..1637d09 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -176,7 +176,6 @@ pub(crate) fn solb(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -196,10 +195,9 @@ pub(crate) fn solb(
             let kb = n - k - 1;
             b[kb] = b[kb] / a[[md, kb]];
             let t = -b[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 b[imd] += a[[i, kb]] * t;
             }
         }
@@ -219,7 +217,6 @@ pub(crate) fn solbc(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -250,10 +247,9 @@ pub(crate) fn solbc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[imd] += prodr;
-- 
2.43.0


From b053b4a8d187d7a52801b10668cdf1d8032dd9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:31 +0000
Subject: [PATCH 21/31] fix: solve complex banded systems of size one

---
 src/linalg/sol.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1637d09..eb39811 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -256,12 +256,12 @@ pub(crate) fn solbc(
                 bi[imd] += prodi;
             }
         }
-        let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
-        let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
-        let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
-        br[0] = prodr / den;
-        bi[0] = prodi / den;
     }
+    let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
+    let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
+    let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
+    br[0] = prodr / den;
+    bi[0] = prodi / den;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 02b80d5794a9f29edc7474175e4d2ad7bdbc3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:32 +0000
Subject: [PATCH 22/31] fix: report singular matrices without subdiagonals

---
 src/linalg/dec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 1539460..24106fe 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -221,7 +221,7 @@ pub(crate) fn dechc(
 ) -> usize {
     let mut ier = 0;
     ip[n - 1] = 1;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         let nm1 = n - 1;
         for k in (0)..(nm1) {
             let kp1 = k + 1;
@@ -315,7 +315,7 @@ pub(crate) fn decb(
     let md = ub + lb;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in 0..lb {
@@ -399,7 +399,7 @@ pub(crate) fn decbc(
     let md = lb + ub;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in (0)..(lb) {
-- 
2.43.0


From f10dc91cdd99b1dc651e3ce48b95115ccdb36d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:33 +0000
Subject: [PATCH 23/31] fix: make the reduction to Hessenberg form a similarity
 transformation

---
 src/linalg/dec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 24106fe..f8cdae9 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -504,11 +504,11 @@ pub(crate) fn elmhes(
     mut a: ArrayViewMut2<f64>,
     mut inter: ArrayViewMut1<i32>,
 ) {
-    let la = igh - 2;
     let kp1 = low + 1;
-    if la < kp1 {
+    if igh < kp1 + 2 {
         return;
     }
+    let la = igh - 2;
     for m in kp1..(la + 1) {
         let mm1 = m - 1;
         let mut x: f64 = 0.0;
@@ -538,7 +538,7 @@ pub(crate) fn elmhes(
             for i in mp1..igh {
                 let mut y = a[[i, mm1]];
                 if y == 0.0 {
-                    return;
+                    continue;
                 }
                 y = y / x;
                 a[[i, mm1]] = y;
@@ -546,7 +546,7 @@ pub(crate) fn elmhes(
                     a[[i, j]] -= y * a[[m, j]];
                 }
                 for j in 0..igh {
-                    a[[i, m]] += y * a[[j, i]];
+                    a[[j, m]] += y * a[[j, i]];
                 }
             }
         }
-- 
2.43.0


From 785d58ca19d5439f4de7a4973bcf016325aa9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:01 +0000
Subject: [PATCH 24/31] fix: reject a Radau5 step whose error estimate is NaN

The lower bound on the error norm was applied with f64::max, which
replaces a NaN by the bound. A step taken from a point where the
right-hand side is NaN was therefore accepted without error control.
---
 src/radau/error_estimate.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..10912f5 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -30,7 +30,11 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        // A NaN has to stay a NaN (and the step be rejected), so no `max` here.
+        integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+        if integrator.cache.err < 1.0e-10 {
+            integrator.cache.err = 1.0e-10;
+        }
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +66,10 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = (integrator.cache.err / n as f64).sqrt();
+            if integrator.cache.err < 1.0e-10 {
+                integrator.cache.err = 1.0e-10;
+            }
         }
     }
 }
-- 
2.43.0


From 15101dab47cbcdcd28d979556642fbea598a8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:18:49 +0000
Subject: [PATCH 25/31] fix: check the DormandPrince5 step size before every
 attempt

The step size can also become too small through accepted steps, and then
the time no longer advances.
---
 src/dorm_prince/dp5/algorithm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 4646a15..baf11d6 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -73,16 +73,17 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            // Check that the step size isn't too small
+            if 0.1 * integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-                return;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0


From e1902c40b7bea2974e5241c13685b4b63552111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:55 +0000
Subject: [PATCH 26/31] Add test harness entry points behind cfg(cyphus_verif)

---
 src/dorm_prince/dp5.rs | 11 ++++++
 src/lib.rs             | 81 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 92 insertions(+)

diff --git a/src/dorm_prince/dp5.rs b/src/dorm_prince/dp5.rs
index 4aaed1f..60d9e90 100644
--- a/src/dorm_prince/dp5.rs
+++ b/src/dorm_prince/dp5.rs
@@ -8,6 +8,17 @@ pub(crate) mod stages;
 
 pub struct DormandPrince5;
 
+/// Interpolated state at `t` inside the last accepted step, for external test
+/// harnesses only.
+#[cfg(cyphus_verif)]
+pub fn verif_dense<T>(
+    integrator: &mut crate::ode::OdeIntegrator<T, DormandPrince5>,
+    t: f64,
+) -> ndarray::Array1<f64> {
+    let dt = integrator.dtprev;
+    DormandPrince5::dense_output(integrator, t, dt)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..8674fe9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,84 @@ pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+
+/// Entry points to crate-private routines, for external test harnesses only.
+#[cfg(cyphus_verif)]
+pub mod verif {
+    use crate::linalg::{dec, sol};
+    use crate::ode::OdeIntegrator;
+    use crate::radau::Radau5;
+    use ndarray::prelude::*;
+
+    type M<'a> = ArrayViewMut2<'a, f64>;
+    type A<'a> = ArrayView2<'a, f64>;
+    type V<'a> = ArrayViewMut1<'a, f64>;
+    type P<'a> = ArrayView1<'a, i32>;
+    type Q<'a> = ArrayViewMut1<'a, i32>;
+    type Rhs<'a, T> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &T);
+    type Jac<'a, T> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &T);
+
+    pub fn dec(n: usize, a: M, ip: Q) -> usize {
+        dec::dec(n, a, ip)
+    }
+    pub fn sol(n: usize, a: A, b: V, ip: P) {
+        sol::sol(n, a, b, ip)
+    }
+    pub fn decc(n: usize, ar: M, ai: M, ip: Q) -> usize {
+        dec::decc(n, ar, ai, ip)
+    }
+    pub fn solc(n: usize, ar: A, ai: A, br: V, bi: V, ip: P) {
+        sol::solc(n, ar, ai, br, bi, ip)
+    }
+    pub fn dech(n: usize, a: M, lb: usize, ip: Q) -> usize {
+        dec::dech(n, a, lb, ip)
+    }
+    pub fn solh(n: usize, a: A, lb: usize, b: V, ip: P) {
+        sol::solh(n, a, lb, b, ip)
+    }
+    pub fn dechc(n: usize, ar: M, ai: M, lb: usize, ip: Q) -> usize {
+        dec::dechc(n, ar, ai, lb, ip)
+    }
+    pub fn solhc(n: usize, ar: A, ai: A, lb: usize, br: V, bi: V, ip: P) {
+        sol::solhc(n, ar, ai, lb, br, bi, ip)
+    }
+    pub fn decb(n: usize, a: M, lb: usize, ub: usize, ip: Q) -> usize {
+        dec::decb(n, a, lb, ub, ip)
+    }
+    pub fn solb(n: usize, a: A, lb: usize, ub: usize, b: V, ip: P) {
+        sol::solb(n, a, lb, ub, b, ip)
+    }
+    pub fn decbc(n: usize, ar: M, ai: M, lb: usize, ub: usize, ip: Q) -> usize {
+        dec::decbc(n, ar, ai, lb, ub, ip)
+    }
+    pub fn solbc(n: usize, ar: A, ai: A, lb: usize, ub: usize, br: V, bi: V, ip: P) {
+        sol::solbc(n, ar, ai, lb, ub, br, bi, ip)
+    }
+    pub fn elmhes(n: usize, low: usize, igh: usize, a: M, inter: Q) {
+        dec::elmhes(n, low, igh, a, inter)
+    }
+    pub fn jacobian_u<T>(
+        dudt: Rhs<T>,
+        dfdu: Option<Jac<T>>,
+        df: ArrayViewMut2<f64>,
+        u: ArrayView1<f64>,
+        t: f64,
+        p: &T,
+    ) {
+        crate::ode::jacobian_u(dudt, dfdu, df, u, t, p)
+    }
+    pub fn jacobian_t<T>(
+        dudt: Rhs<T>,
+        dfdt: Option<Rhs<T>>,
+        df: ArrayViewMut1<f64>,
+        u: ArrayView1<f64>,
+        t: f64,
+        p: &T,
+    ) {
+        crate::ode::jacobian_t(dudt, dfdt, df, u, t, p)
+    }
+    /// Interpolated state at `t` inside the last accepted step.
+    pub fn radau_dense<T>(integrator: &mut OdeIntegrator<T, Radau5>, t: f64) -> Array1<f64> {
+        Radau5.dense_output(t, integrator)
+    }
+}
-- 
2.43.0


From 12cb89f8421bc5a51487fd2568e42c8d52e72583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:23 +0000
Subject: [PATCH 27/31] fix: start the DormandPrince5 controller from a
 non-zero previous error

With a previous error of zero the stabilization term was infinite, so the
second step was always the smallest one allowed, however small the error of
the first. Far from t = 0 that was enough to end the run with
DtLessThanMin.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index baf11d6..f6ef068 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // error of the previous step (at least 1e-4)
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From 09b0812bbd11085b779c5fc551ec109beb2d2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:37:20 +0000
Subject: [PATCH 28/31] fix: honour a step size or end changed by the callback
 in the next Radau5 step

---
 src/radau/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 64f5bce..20f39ba 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -99,7 +99,9 @@ impl OdeAlgorithm for Radau5 {
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
         if integrator.callback.is_some() {
-            // The callback may have changed the state or the parameters.
+            // The callback may have changed the state, the parameters, the
+            // step size or the end.
+            integrator.cache.last = false;
             (integrator.dudt)(
                 integrator.cache.u0.view_mut(),
                 integrator.u.view(),
-- 
2.43.0


From 668ffb6200c191d5ce497cc964825ebb533e3ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:42 +0000
Subject: [PATCH 29/31] fix: refresh the Jacobian before retrying a slowly
 converging Radau5 step

---
 src/radau/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 9117650..4c28ec1 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -168,7 +168,7 @@ impl Radau5 {
                         integrator.dt *= integrator.cache.dtfac;
                         integrator.cache.reject = true;
                         integrator.cache.last = false;
-                        if integrator.cache.caljac {
+                        if !integrator.cache.caljac {
                             jacobian_u(
                                 integrator.dudt,
                                 integrator.dfdu,
-- 
2.43.0


From 7ab080fec4b2e0edbebeec66c8460fc7c85cd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:47 +0000
Subject: [PATCH 30/31] fix: keep the smaller step size in both directions
 after the last Radau5 step

---
 src/radau/step_size_control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 9270b33..38260ce 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -85,7 +85,7 @@ impl Radau5 {
             integrator.stats.function_evals += 1;
 
             dtnew = integrator.tdir * dtnew.abs().min(integrator.opts.dtmax);
-            integrator.cache.dtopt = integrator.dt.min(dtnew);
+            integrator.cache.dtopt = integrator.tdir * integrator.dt.abs().min(dtnew.abs());
             if integrator.cache.reject {
                 dtnew = integrator.tdir * dtnew.abs().min(integrator.dt.abs());
             }
-- 
2.43.0


From de6712f525a46496bd92aef9c5d45d9c2ff4ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:43 +0000
Subject: [PATCH 31/31] fix: stop DormandPrince5 when the step size reaches the
 subnormal range

Dividing a subnormal step by a factor close to one can give the same step
again, so a run that rejected every step from t = 0 never ended.
---
 src/dorm_prince/dp5/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index f6ef068..eb54915 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -74,7 +74,9 @@ impl OdeAlgorithm for DormandPrince5 {
         }
         loop {
             // Check that the step size isn't too small
-            if 0.1 * integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+            if 0.1 * integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+                || integrator.dt.abs() < f64::MIN_POSITIVE
+            {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
             }
-- 
2.43.0

