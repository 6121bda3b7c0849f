From 4344b22c152367643008442f93bf0bce7a19c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 01/13] fix: give each thread its own scratch of the HC/CC path
 families

The const queries of the HC/CC state spaces stored the distance and angle
between the current pair of circles in members of the shared helper
object, so that two threads querying the same state space overwrote each
other's values and got wrong paths.
---
 src/hc_cc_state_space/cc00_dubins_state_space.cpp        | 8 ++++++--
 src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 8 ++++++--
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 8 ++++++--
 src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp   | 8 ++++++--
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 8 ++++++--
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 8 ++++++--
 9 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/src/hc_cc_state_space/cc00_dubins_state_space.cpp b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
index 0b23902..64084ef 100644
--- a/src/hc_cc_state_space/cc00_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -309,6 +310,9 @@ public:
   }
 };
 
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::distance = 0.0;
+thread_local double CC00_Dubins_State_Space::CC00_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC00_Dubins_State_Space::CC00_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..909f9eb 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1405,6 +1406,9 @@ public:
   }
 };
 
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::distance = 0.0;
+thread_local double CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 CC00_Reeds_Shepp_State_Space::CC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..8206ead 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::distance = 0.0;
+thread_local double CC0pm_Dubins_State_Space::CC0pm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CC0pm_Dubins_State_Space::CC0pm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..0346f9b 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -331,6 +332,9 @@ public:
   }
 };
 
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::distance = 0.0;
+thread_local double CCpm0_Dubins_State_Space::CCpm0_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpm0_Dubins_State_Space::CCpm0_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..b8d73e0 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -46,8 +46,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -453,6 +454,9 @@ public:
   }
 };
 
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::distance = 0.0;
+thread_local double CCpmpm_Dubins_State_Space::CCpmpm_Dubins::angle = 0.0;
+
 // ############################################################################
 
 CCpmpm_Dubins_State_Space::CCpmpm_Dubins_State_Space(double kappa, double sigma, double discretization, bool forwards)
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..c4f3d2c 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -48,8 +48,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1489,6 +1490,9 @@ public:
   }
 };
 
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::distance = 0.0;
+thread_local double HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC00_Reeds_Shepp_State_Space::HC00_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..0fa84f9 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::distance = 0.0;
+thread_local double HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HC0pm_Reeds_Shepp_State_Space::HC0pm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..f723916 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1518,6 +1519,9 @@ public:
   }
 };
 
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::distance = 0.0;
+thread_local double HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpm0_Reeds_Shepp_State_Space::HCpm0_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..b6a141d 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -49,8 +49,9 @@ public:
     parent_ = parent;
   }
 
-  double distance = 0.0;
-  double angle = 0.0;
+  // per-call scratch of the const queries: one copy per thread, so that a state space can be shared
+  static thread_local double distance;
+  static thread_local double angle;
 
   // ##### TT ###################################################################
   bool TT_exists(const HC_CC_Circle &c1, const HC_CC_Circle &c2) const
@@ -1550,6 +1551,9 @@ public:
   }
 };
 
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::distance = 0.0;
+thread_local double HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp::angle = 0.0;
+
 // ############################################################################
 
 HCpmpm_Reeds_Shepp_State_Space::HCpmpm_Reeds_Shepp_State_Space(double kappa, double sigma, double discretization)
-- 
2.43.0


From 674ad458ee78a80f51b92a7f776ee0b5dad1c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 02/13] fix: connect predicted states of CC_Dubins and
 HC_Reeds_Shepp that lie on different clothoids

If the predicted start and end states coincide, the two controls were
subtracted even when they do not belong to the same clothoid, or when
the difference points in the other direction. The resulting path missed
the goal state and violated the curvature bound.
---
 .../hc_cc_state_space/paths.hpp               |  3 +++
 .../cc_dubins_state_space.cpp                 | 11 ++++++----
 .../hc_reeds_shepp_state_space.cpp            | 11 ++++++----
 src/hc_cc_state_space/paths.cpp               | 22 ++++++++++++++++++-
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/include/steering_functions/hc_cc_state_space/paths.hpp b/include/steering_functions/hc_cc_state_space/paths.hpp
index be2daec..292a846 100644
--- a/include/steering_functions/hc_cc_state_space/paths.hpp
+++ b/include/steering_functions/hc_cc_state_space/paths.hpp
@@ -156,6 +156,9 @@ void reverse_control(Control &control);
 /** \brief Subtracts control2 from control1 */
 Control subtract_control(const Control &control1, const Control &control2);
 
+/** \brief Appends the controls that connect the start of control1 with the start of control2 via their common end */
+void connect_controls(const Control &control1, const Control &control2, std::vector<Control> &controls);
+
 /** \brief Appends controls with 0 input */
 void empty_controls(std::vector<Control> &controls);
 
diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..915ed5d 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,12 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        vector<Control> controls;
+        connect_controls(start_control, end_control, controls);
+        double distance = 0.0;
+        for (const auto &control : controls)
+          distance += fabs(control.delta_s);
+        distances.push_back(distance);
       }
       // call appropriate state space
       else
@@ -166,8 +170,7 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        connect_controls(start_control, end_control, cc_dubins_controls);
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..20fb15e 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,12 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        vector<Control> controls;
+        connect_controls(start_control, end_control, controls);
+        double distance = 0.0;
+        for (const auto &control : controls)
+          distance += fabs(control.delta_s);
+        distances.push_back(distance);
       }
       // call appropriate state space
       else
@@ -161,8 +165,7 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        connect_controls(start_control, end_control, hc_rs_controls);
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..251d7cf 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,10 +284,30 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  control.sigma = sgn(control.delta_s) * sgn(control1.delta_s) * control1.sigma;
   return control;
 }
 
+void connect_controls(const Control &control1, const Control &control2, vector<Control> &controls)
+{
+  // both controls lie on the same clothoid
+  if (sgn(control1.delta_s) * control1.sigma == sgn(control2.delta_s) * control2.sigma)
+  {
+    controls.push_back(subtract_control(control1, control2));
+    return;
+  }
+  // different clothoids (or only one): drive the first to the common state and the second backwards from there
+  if (fabs(control1.delta_s) > get_epsilon())
+    controls.push_back(control1);
+  if (fabs(control2.delta_s) > get_epsilon())
+  {
+    controls.push_back(control2);
+    reverse_control(controls.back());
+  }
+  if (controls.empty())
+    controls.push_back(control1);
+}
+
 void empty_controls(vector<Control> &controls)
 {
   Control control;
-- 
2.43.0


From 9a7c4a4f61ffd3cabf43b77f05c6c8aac30d8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:45 +0000
Subject: [PATCH 03/13] fix: CC state spaces must not connect different
 curvatures by a path of length zero

If start and goal have the same pose, CC0pm, CCpm0, and CCpmpm Dubins
returned an empty path even if start and goal differ in curvature, so
that the curvature of the goal state (also that of CC_Dubins paths) was
not reached.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp  | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp  | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 8206ead..826d25c 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -373,7 +373,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
   cc0pm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case E
-  if (configuration_equal(c1.start, c2.start))
+  if (configuration_equal(c1.start, c2.start) && fabs(c1.start.kappa - c2.start.kappa) < get_epsilon())
   {
     length[cc_dubins::E] = 0;
     goto label_end;
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 0346f9b..7a05773 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -373,7 +373,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
   ccpm0_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case E
-  if (configuration_equal(c1.start, c2.start))
+  if (configuration_equal(c1.start, c2.start) && fabs(c1.start.kappa - c2.start.kappa) < get_epsilon())
   {
     length[cc_dubins::E] = 0;
     goto label_end;
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index b8d73e0..bfb94c4 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -501,7 +501,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
   ccpmpm_dubins_->angle = atan2(c2.yc - c1.yc, c2.xc - c1.xc);
 
   // case E
-  if (configuration_equal(c1.start, c2.start))
+  if (configuration_equal(c1.start, c2.start) && fabs(c1.start.kappa - c2.start.kappa) < get_epsilon())
   {
     length[cc_dubins::E] = 0;
     goto label_end;
-- 
2.43.0


From fa53538adae7c67ee25dd84da71f59e52ce49d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:44 +0000
Subject: [PATCH 04/13] fix: connect two configurations by a single turn only
 if they turn in the same direction

The single turn (case T) was chosen whenever the circles of start and
goal have the same center, respectively whenever the goal position lies
on the start circle, even if one circle is traversed to the left and the
other one to the right. Goals on the turning circle of the start, but in
the opposite driving sense or with the opposite curvature, were missed.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp       | 2 +-
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp  | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 826d25c..6e15b9a 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -379,7 +379,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 7a05773..4814f24 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -379,7 +379,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index bfb94c4..1dbe360 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -507,7 +507,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 0fa84f9..bf4b0b5 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1569,7 +1569,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index f723916..4f3a4b1 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1569,7 +1569,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index b6a141d..7de7185 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1603,7 +1603,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0


From 39026c655a79d3725919db5cd134a5aec1d16b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 05/13] fix: interpolate of Dubins and Reeds-Shepp returns a
 complete state at t <= 0

The curvature and the driving direction of the returned state were not
initialized.
---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From d72aeb9a5dcd395d83e53389f02082be89450126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 06/13] fix: node stops waiting for subscribers on shutdown

---
 src/steering_functions_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/steering_functions_node.cpp b/src/steering_functions_node.cpp
index 5eae8b7..221efb8 100644
--- a/src/steering_functions_node.cpp
+++ b/src/steering_functions_node.cpp
@@ -121,8 +121,8 @@ public:
     pub_poses_ = pnh.advertise<geometry_msgs::PoseArray>("visualization_poses", 10);
     pub_text_ = pnh.advertise<visualization_msgs::MarkerArray>("visualization_text", 10);
     pub_covariances_ = pnh.advertise<visualization_msgs::MarkerArray>("visualization_covariances", 10);
-    while (pub_path_.getNumSubscribers() == 0 || pub_poses_.getNumSubscribers() == 0 ||
-           pub_text_.getNumSubscribers() == 0 || pub_covariances_.getNumSubscribers() == 0)
+    while (ros::ok() && (pub_path_.getNumSubscribers() == 0 || pub_poses_.getNumSubscribers() == 0 ||
+                         pub_text_.getNumSubscribers() == 0 || pub_covariances_.getNumSubscribers() == 0))
       ros::Duration(0.001).sleep();
 
     // path
@@ -389,7 +389,7 @@ public:
 
     // publisher
     pub_swath_ = pnh.advertise<visualization_msgs::MarkerArray>("visualization_swath", 10);
-    while (pub_swath_.getNumSubscribers() == 0)
+    while (ros::ok() && pub_swath_.getNumSubscribers() == 0)
       ros::Duration(0.001).sleep();
 
     // robot kinematic
-- 
2.43.0


From 45d61b5d619456349d7181ae90e58bacbf9521ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:40 +0000
Subject: [PATCH 07/13] fix: virtual destructor for HC_CC_State_Space

The class is polymorphic, deleting a state space via a pointer to it was
undefined behavior and leaked the members of the derived class.
---
 .../steering_functions/hc_cc_state_space/hc_cc_state_space.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
index 78c938c..ad16b7e 100644
--- a/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
+++ b/include/steering_functions/hc_cc_state_space/hc_cc_state_space.hpp
@@ -33,6 +33,9 @@ public:
   /** \brief Constructor */
   HC_CC_State_Space(double kappa, double sigma, double discretization);
 
+  /** \brief Virtual destructor: state spaces may be destroyed via a pointer to this class */
+  virtual ~HC_CC_State_Space() = default;
+
   /** \brief Sets the parameters required by the filter */
   void set_filter_parameters(const Motion_Noise& motion_noise, const Measurement_Noise& measurement_noise,
                              const Controller& controller);
-- 
2.43.0


From 0f894908ccf0edce11313d1b04a186515d10f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:14 +0000
Subject: [PATCH 08/13] fix: inclined tangent of TiSTcT, TcTiST and TcTiSTcT
 paths follows the sense of rotation

The three families rotate the inner tangent of the straight segment by an
angle whose sign depends on whether the first circle is traversed counter-
clockwise (left and forward, or right and backward). The offset was applied
with one sign only, so half of these paths were built from circles that do
not admit the straight segment and were longer than their mirror images by
up to 60 %.
---
 .../cc00_reeds_shepp_state_space.cpp              | 15 +++++++++++++++
 .../hc00_reeds_shepp_state_space.cpp              | 15 +++++++++++++++
 .../hc0pm_reeds_shepp_state_space.cpp             | 15 +++++++++++++++
 .../hcpm0_reeds_shepp_state_space.cpp             | 15 +++++++++++++++
 .../hcpmpm_reeds_shepp_state_space.cpp            | 15 +++++++++++++++
 5 files changed, 75 insertions(+)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 909f9eb..92285c6 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -547,6 +547,11 @@ public:
     double r = c2.radius * c2.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -634,6 +639,11 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -721,6 +731,11 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c4f3d2c..7c85b63 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -569,6 +569,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -660,6 +665,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -752,6 +762,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index bf4b0b5..39ade0b 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -578,6 +578,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -670,6 +675,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -766,6 +776,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 4f3a4b1..07060b2 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -579,6 +579,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -674,6 +679,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -766,6 +776,11 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (distance * fabs(c2.kappa));
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 7de7185..e30dc60 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -590,6 +590,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -686,6 +691,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -782,6 +792,11 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    // the inner tangent is inclined according to the sense of rotation of c1
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
-- 
2.43.0


From e5e6eeec308faf68e8f1eb34028be5c7bb0168d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:18 +0000
Subject: [PATCH 09/13] fix: headings are compared modulo 2 pi

Headings of zero and of 2 pi minus rounding were taken for different.
Start and goal that are equal, or in line along the x-axis, were then
connected by a manoeuvre of many metres (e.g. 14.2 m for a goal 0.5 m
ahead and a heading of -1e-12), unlike in any turned map frame.
---
 src/hc_cc_state_space/configuration.cpp | 8 ++++----
 src/hc_cc_state_space/hc_cc_circle.cpp  | 3 +--
 src/hc_cc_state_space/paths.cpp         | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..c8ee44d 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,17 +58,17 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
-  double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  double angle = atan2(q2.y - q1.y, q2.x - q1.x);
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..74afbe9 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -333,8 +333,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
   {
     angle = angle - HALF_PI - c.mu;
   }
-  angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 251d7cf..27024a5 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From 0ce42e2cc8c6e6291d57d530af7819d245eb551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:18 +0000
Subject: [PATCH 10/13] fix: no full turn in place of a turn by zero due to
 rounding

The deflection of a turn by zero that comes out as 2 pi minus rounding
led to a full turn, or was discarded in favour of a longer path. Paths
that begin or end with a straight line were missed now and then,
depending on the position and orientation in the map.
---
 src/hc_cc_state_space/hc_cc_circle.cpp | 21 ++++++++++++++++-----
 src/hc_cc_state_space/paths.cpp        |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 74afbe9..d3f07b4 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -113,6 +113,17 @@ HC_CC_Circle::HC_CC_Circle(double _xc, double _yc, bool _left, bool _forward, bo
   delta_min = _param.delta_min;
 }
 
+namespace /* helper */
+{
+const double DELTA_ZERO = 1e-9;
+
+// circular deflection of a regular turn, a full turn is the result of numerical noise
+inline double regular_deflection(double delta)
+{
+  return (TWO_PI - delta < DELTA_ZERO) ? 0.0 : delta;
+}
+}  // namespace
+
 double HC_CC_Circle::deflection(const Configuration &q) const
 {
   double alpha_c = this->start.theta;
@@ -139,7 +150,7 @@ double HC_CC_Circle::rs_circular_deflection(double delta) const
 {
   // regular rs-turn
   if (this->regular)
-    return delta;
+    return regular_deflection(delta);
   // irregular rs-turn
   else
     return (delta <= PI) ? delta : delta - TWO_PI;
@@ -160,7 +171,7 @@ double HC_CC_Circle::hc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < delta_min_twopified)
-      return TWO_PI + delta - delta_min_twopified;
+      return regular_deflection(TWO_PI + delta - delta_min_twopified);
     else
       return delta - delta_min_twopified;
   }
@@ -213,7 +224,7 @@ double HC_CC_Circle::cc_circular_deflection(double delta) const
   if (this->regular)
   {
     if (delta < two_delta_min_twopified)
-      return TWO_PI + delta - two_delta_min_twopified;
+      return regular_deflection(TWO_PI + delta - two_delta_min_twopified);
     else
       return delta - two_delta_min_twopified;
   }
@@ -239,8 +250,8 @@ double HC_CC_Circle::cc_turn_length(const Configuration &q) const
 {
   assert(fabs(q.kappa) < get_epsilon());
   double delta = this->deflection(q);
-  // delta = 0
-  if (delta < get_epsilon())
+  // delta = 0 (or 2 * pi, reached from below)
+  if (delta < get_epsilon() || TWO_PI - delta < get_epsilon())
   {
     return 2 * this->radius * this->sin_mu;
   }
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 27024a5..d471af9 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -438,8 +438,8 @@ void cc_turn_controls(const HC_CC_Circle &c, const Configuration &q, bool order,
 {
   assert(fabs(q.kappa) < get_epsilon());
   double delta = c.deflection(q);
-  // delta = 0
-  if (delta < get_epsilon())
+  // delta = 0 (or 2 * pi, reached from below)
+  if (delta < get_epsilon() || TWO_PI - delta < get_epsilon())
   {
     if (order)
       straight_controls(c.start, q, controls);
-- 
2.43.0


From a188274a5f46cc4a33dc38f7d1488ec3c35a4e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 11/13] fix: Dubins paths do not contain full turns due to
 rounding

If the last (first) turn of a path has the angle zero, rounding made it
a full turn for about one in a thousand such goals, and equal start and
goal headings on both sides of zero were not recognized.
---
 src/dubins_state_space/dubins_state_space.cpp | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 89b0848..3c72c4d 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -73,6 +73,13 @@ namespace /* helper */
 const double DUBINS_EPS = 1e-6;
 const double DUBINS_ZERO = -1e-9;
 
+// angle of a turn in [0, 2*pi), a full turn is the result of numerical noise
+inline double turn(double alpha)
+{
+  alpha = twopify(alpha);
+  return (TWO_PI - alpha < -DUBINS_ZERO) ? 0. : alpha;
+}
+
 Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
 {
   double ca = cos(alpha), sa = sin(alpha), cb = cos(beta), sb = sin(beta);
@@ -80,9 +87,9 @@ Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(cb - ca, d + sa - sb);
-    double t = twopify(-alpha + theta);
+    double t = turn(-alpha + theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(beta - theta);
+    double q = turn(beta - theta);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -98,9 +105,9 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta);
+    double t = turn(alpha - theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(-beta + theta);
+    double q = turn(-beta + theta);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -117,8 +124,8 @@ Dubins_State_Space::Dubins_Path dubinsRSL(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(ca + cb, d - sa - sb) - atan2(2., p);
-    double t = twopify(alpha - theta);
-    double q = twopify(beta - theta);
+    double t = turn(alpha - theta);
+    double q = turn(beta - theta);
     assert(fabs(p * cos(alpha - t) - 2. * sin(alpha - t) + sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) + 2. * cos(alpha - t) - ca - cb) < DUBINS_EPS);
     assert(twopify(alpha - t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -135,8 +142,8 @@ Dubins_State_Space::Dubins_Path dubinsLSR(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(-ca - cb, d + sa + sb) - atan2(-2., p);
-    double t = twopify(-alpha + theta);
-    double q = twopify(-beta + theta);
+    double t = turn(-alpha + theta);
+    double q = turn(-beta + theta);
     assert(fabs(p * cos(alpha + t) + 2. * sin(alpha + t) - sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) - 2. * cos(alpha + t) + ca + cb) < DUBINS_EPS);
     assert(twopify(alpha + t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -153,8 +160,8 @@ Dubins_State_Space::Dubins_Path dubinsRLR(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta + .5 * p);
-    double q = twopify(alpha - beta - t + p);
+    double t = turn(alpha - theta + .5 * p);
+    double q = turn(alpha - beta - t + p);
     assert(fabs(2. * sin(alpha - t + p) - 2. * sin(alpha - t) - d + sa - sb) < DUBINS_EPS);
     assert(fabs(-2. * cos(alpha - t + p) + 2. * cos(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t + p - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -171,8 +178,8 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(-ca + cb, d + sa - sb);
-    double t = twopify(-alpha + theta + .5 * p);
-    double q = twopify(beta - alpha - t + p);
+    double t = turn(-alpha + theta + .5 * p);
+    double q = turn(beta - alpha - t + p);
     assert(fabs(-2. * sin(alpha + t - p) + 2. * sin(alpha + t) - d - sa + sb) < DUBINS_EPS);
     assert(fabs(2. * cos(alpha + t - p) - 2. * cos(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t - p + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -183,7 +190,7 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
 
 Dubins_State_Space::Dubins_Path dubins(double d, double alpha, double beta)
 {
-  if (d < DUBINS_EPS && fabs(alpha - beta) < DUBINS_EPS)
+  if (d < DUBINS_EPS && fabs(pify(alpha - beta)) < DUBINS_EPS)
     return Dubins_State_Space::Dubins_Path(Dubins_State_Space::dubins_path_type[0], 0, d, 0);
 
   Dubins_State_Space::Dubins_Path path(dubinsLSL(d, alpha, beta)), tmp(dubinsRSR(d, alpha, beta));
-- 
2.43.0


From d87f9b8ae0aa3951e6d7138e1d5c487827ea694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 12/13] fix: Reeds-Shepp paths are not discarded due to
 rounding

Segments of length zero that come out negative by more than 10 ulp made
the shortest path be discarded, e.g. if headings exceed a few turns.
---
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index b08e79d..7f83b8b 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -71,7 +71,7 @@ namespace /* helper */
 {
 // The comments, variable names, etc. use the nomenclature from the Reeds & Shepp paper.
 const double RS_EPS = 1e-6;
-const double RS_ZERO = 10 * numeric_limits<double>::epsilon();
+const double RS_ZERO = 1e-9;
 
 inline void tauOmega(double u, double v, double xi, double eta, double phi, double &tau, double &omega)
 {
-- 
2.43.0


From df7712fad441b7c7f37fe8dc119ea4dcbe39b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 13/13] fix: elementary paths respect the sharpness limit

Goals that are on the turning circle only up to the resolution, a few
millimetres from the start after a turn by more than 260 degrees, were
reached by elementary paths of up to 22 % too large sharpness and 10 %
too large curvature.
---
 src/hc_cc_state_space/hc_cc_circle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index d3f07b4..34aa20b 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -212,7 +212,8 @@ bool HC_CC_Circle::cc_elementary_sharpness(const Configuration &q, double delta,
     {
       sigma0 = -sigma0;
     }
-    return true;
+    // q is only close to the circle and cannot be reached within the limits
+    return fabs(sigma0) <= (1 + get_epsilon()) * fabs(this->sigma);
   }
   return false;
 }
-- 
2.43.0

