From 45690855c87b770ef5b195c2557834a40d4f977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:17 +0000
Subject: [PATCH 1/5] fix: interpolate of Dubins and Reeds-Shepp returned
 uninitialised curvature and direction for t <= 0

---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 8184cd587049ba89da31466500d1ab8f4d4ae1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:53 +0000
Subject: [PATCH 2/5] fix: subtract_control keeps the sharpness along the path
 when the driving direction flips

---
 src/hc_cc_state_space/paths.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..b4c2a25 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,7 +284,7 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  control.sigma = sgn(control.delta_s) * sgn(control1.delta_s) * control1.sigma;
   return control;
 }
 
-- 
2.43.0


From fd48eb56d318db2f3372ff9d92d19efd79f38bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 3/5] fix: keep both boundary clothoids when the predicted
 states coincide but the clothoids differ

---
 .../cc_dubins_state_space.cpp                 | 26 ++++++++++++++++---
 .../hc_reeds_shepp_state_space.cpp            | 26 ++++++++++++++++---
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..77468e0 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,16 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // the controls do not lie on the same clothoid
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -166,8 +174,18 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          cc_dubins_controls.push_back(control);
+        }
+        // the controls do not lie on the same clothoid
+        else
+        {
+          reverse_control(end_control);
+          cc_dubins_controls.push_back(start_control);
+          cc_dubins_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..b07cf98 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,16 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // the controls do not lie on the same clothoid
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -161,8 +169,18 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          hc_rs_controls.push_back(control);
+        }
+        // the controls do not lie on the same clothoid
+        else
+        {
+          reverse_control(end_control);
+          hc_rs_controls.push_back(start_control);
+          hc_rs_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
-- 
2.43.0


From 15014f56fd3903a1055a18d4aa6914212158ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:37 +0000
Subject: [PATCH 4/5] fix: configurations of different curvature are not equal

---
 src/hc_cc_state_space/configuration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..8dfcaa1 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -68,6 +68,8 @@ bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
+  if (fabs(q2.kappa - q1.kappa) > get_epsilon())
+    return false;
   if (fabs(q2.theta - q1.theta) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
-- 
2.43.0


From a13a4e1ec8a38258a8942ddcd408489a9bafec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:41 +0000
Subject: [PATCH 5/5] fix: a single turn needs start and end circle of the same
 orientation

---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..0309443 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..6b192f3 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..9e613a7 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -503,7 +503,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..411fb53 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..a4089f5 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1565,7 +1565,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..7ca07db 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1599,7 +1599,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0

