From d362a1634d5aa317a45da672b29b783653bba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 01/47] fix: include attachment verdicts in structure
 validation

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 9afe278a2e4ec37d7b9455a60e194229f75a9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 02/47] fix: include component verdicts in cable validation

---
 src/transmissionline/cable.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/cable.cc b/src/transmissionline/cable.cc
index 496c348..9ae244d 100644
--- a/src/transmissionline/cable.cc
+++ b/src/transmissionline/cable.cc
@@ -62,10 +62,14 @@ bool Cable::Validate(const bool& is_included_warnings,
   }
 
   // validates component-core
-  component_core.Validate(is_included_warnings, messages);
+  if (component_core.Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates component-shell
-  component_shell.Validate(is_included_warnings, messages);
+  if (component_shell.Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates diameter
   if (diameter <= 0) {
-- 
2.43.0


From 87a774dcab56b93e52e6d30790235ce4691d6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 03/47] fix: include base component verdict in sag-tension
 component validation

---
 src/sagtension/sag_tension_cable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..aca87ce 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -31,7 +31,9 @@ bool SagTensionCableComponent::Validate(
     }
     return is_valid;
   } else {
-    component_base_->Validate(is_included_warnings, messages);
+    if (component_base_->Validate(is_included_warnings, messages) == false) {
+      is_valid = false;
+    }
   }
 
   // validates coefficient-expansion-thermal-linear
-- 
2.43.0


From a234a75466a3e2e67cbeae63bb8f226bbcf7e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 04/47] fix: include parent verdict in cable stretch state
 validation

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From 4c16ae4085f474d8feb9ef8eaf865083809040e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 05/47] fix: fail line cable validation when connection
 problems are reported

---
 src/transmissionline/line_cable.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..292e04a 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
@@ -267,6 +269,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +279,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 1c7f1b36fc4e3ef5b8c6472386f35372e472c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 06/47] fix: report invalid point sorting in alignment
 validation

---
 src/transmissionline/alignment.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..acd45b9 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -169,7 +169,11 @@ bool Alignment::Validate(const bool& is_included_warnings,
 
     if ((point_prev != nullptr)
          && (point.station < point_prev->station)) {
-      message.description = "Invalid point sorting";
+      is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid point sorting";
+        messages->push_back(message);
+      }
     }
 
     point_prev = &point;
-- 
2.43.0


From 169abd882bf31300d26df5dea1674ff335079380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 07/47] fix: report invalid attachment points in sag corrector
 validation

---
 src/sagging/cable_sag_position_corrector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..c870506 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,6 +135,10 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid attachment points";
+        messages->push_back(message);
+      }
     }
   }
 
-- 
2.43.0


From 8d5d331ade62ed4959e3b1fa647f6fd16cc075dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 08/47] fix: initialize enabled flag of new
 SagTensionCableComponent

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index aca87ce..2a84474 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From 82c621e91fe63777f12e3189618e9e7512bd9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 09/47] fix: initialize coefficients pointer of new Polynomial

---
 src/base/polynomial.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..bcb586e 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
-- 
2.43.0


From d288f55ceaa707f7438dceabb124106a5877f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 10/47] fix: initialize members of new temperature and
 resistance points

---
 .../models/thermalrating/transient_cable_temperature_solver.h | 4 ++--
 include/models/transmissionline/cable.h                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/models/thermalrating/transient_cable_temperature_solver.h b/include/models/thermalrating/transient_cable_temperature_solver.h
index 4c16c49..7fcf4cf 100644
--- a/include/models/thermalrating/transient_cable_temperature_solver.h
+++ b/include/models/thermalrating/transient_cable_temperature_solver.h
@@ -19,11 +19,11 @@
 struct TemperaturePoint {
   /// \var time
   ///   The time, in seconds.
-  int time;
+  int time = -9999;
 
   /// \var temperature
   ///   The cable temperature.
-  double temperature;
+  double temperature = -999999;
 };
 
 /// \par OVERVIEW
diff --git a/include/models/transmissionline/cable.h b/include/models/transmissionline/cable.h
index 4fdd783..1e9da72 100644
--- a/include/models/transmissionline/cable.h
+++ b/include/models/transmissionline/cable.h
@@ -97,11 +97,11 @@ struct Cable {
   struct ResistancePoint {
     /// \var resistance
     ///   The difficulty to pass electric current through the cable.
-    double resistance;
+    double resistance = -999999;
 
     /// \var temperature
     ///   The reference temperature.
-    double temperature;
+    double temperature = -999999;
   };
 
   /// \brief Default constructor.
-- 
2.43.0


From e64f402ee298a55e253474b43d1d9b1e5851b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 11/47] fix: return the error value for a tangent angle without
 direction

---
 src/transmissionline/catenary.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transmissionline/catenary.cc b/src/transmissionline/catenary.cc
index 2ee729a..ad8e1f7 100644
--- a/src/transmissionline/catenary.cc
+++ b/src/transmissionline/catenary.cc
@@ -177,6 +177,8 @@ double Catenary2d::TangentAngle(const double& position_fraction,
   // adjusts if direction is negative
   if (direction == AxisDirectionType::kNegative) {
     tangent_angle = tangent_angle * -1;
+  } else if (direction != AxisDirectionType::kPositive) {
+    return -999999;
   }
 
   return tangent_angle;
-- 
2.43.0


From 358c6dbf310d0c7077d334d00676707af893a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 12/47] fix: return the error value for 3D catenaries without
 transverse direction

---
 src/transmissionline/catenary.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transmissionline/catenary.cc b/src/transmissionline/catenary.cc
index ad8e1f7..33360b3 100644
--- a/src/transmissionline/catenary.cc
+++ b/src/transmissionline/catenary.cc
@@ -523,6 +523,11 @@ Point3d<double> Catenary3d::Coordinate(const double& position_fraction) const {
     return coordinate;
   }
 
+  // checks transverse direction
+  if (direction_transverse_ == AxisDirectionType::kNull) {
+    return coordinate;
+  }
+
   // initializes
   double angle = -999999;
 
@@ -707,6 +712,11 @@ Vector3d Catenary3d::TangentVector(const double& position_fraction,
     return tangent_vector;
   }
 
+  // checks transverse direction
+  if (direction_transverse_ == AxisDirectionType::kNull) {
+    return tangent_vector;
+  }
+
   // gets 2D tangent vector
   Vector2d tangent_vector_2d = catenary_2d_.TangentVector(position_fraction,
                                                           direction);
-- 
2.43.0


From 96b964490432f215be828e4eb85abf7686c11c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 13/47] fix: fail cable attachment equilibrium without catenary
 direction

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..8f3f130 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -166,6 +166,11 @@ bool CableAttachmentEquilibriumSolver::IsUpdated() const {
 }
 
 bool CableAttachmentEquilibriumSolver::Update() const {
+  // checks direction
+  if (direction_catenaries_ == AxisDirectionType::kNull) {
+    return false;
+  }
+
   // initializes
   Vector3d tension(0, 0, 0);
   tension_cable_ = Vector3d(0, 0, 0);
-- 
2.43.0


From b9ef71bd356e1cca42b80312b2b56c321c2049c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 14/47] fix: return the error value for heat transfer without
 unit system

---
 src/thermalrating/cable_heat_transfer_solver.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..1d7f284 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -31,7 +31,7 @@ double CableHeatTransferSolver::HeatConvection(
         + 7.477 * std::pow(10, -5) * temperature_film
         - 4.407 * std::pow(10, -9) * std::pow(temperature_film, 2);
   } else {
-    return false;
+    return -999999;
   }
 
   // calculates the corrected air density
@@ -45,7 +45,7 @@ double CableHeatTransferSolver::HeatConvection(
         + 6.379 * std::pow(10, -9) * std::pow(weather_->elevation, 2))
         / (1 + 0.00367 * temperature_film);
   } else {
-    return false;
+    return -999999;
   }
 
   // calculates the dynamic viscosity of air
@@ -61,7 +61,7 @@ double CableHeatTransferSolver::HeatConvection(
         * std::pow(temperature_film + 273, 1.5))
         / (temperature_film + 383.4);
   } else {
-    return false;
+    return -999999;
   }
 
   // gets forced convection
@@ -93,6 +93,8 @@ double CableHeatTransferSolver::HeatRadiation(
     k = 1.656;
   } else if (units_ == units::UnitSystem::kMetric) {
     k = 17.8;
+  } else {
+    return -999999;
   }
 
   // breaks down radiation equation into smaller chunks
-- 
2.43.0


From 6d05e6d068cb90610f1dd3c3bbc7c6099a28de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:25 +0000
Subject: [PATCH 15/47] fix: fail line cable sagging for unsupported constraint
 limit types

---
 src/sagtension/line_cable_sagger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..39f0e7b 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -277,6 +277,8 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
   } else if (constraint.type_limit
       == CableConstraint::LimitType::kSupportTension) {
     constraint.limit = catenary.TensionMax();
+  } else {
+    return false;
   }
   line_cable_->set_constraint(constraint);
 
-- 
2.43.0


From 0510981422c7fdd84ba1ee3fea24b1362355bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:47 +0000
Subject: [PATCH 16/47] fix: fail component state update without polynomial
 type

---
 src/sagtension/cable_component_elongation_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..23a759f 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -619,6 +619,8 @@ bool CableComponentElongationModel::UpdateState(const CableState& state) const {
   } else if (state_->type_polynomial ==
       SagTensionCableComponent::PolynomialType::kLoadStrain) {
     polynomial = &polynomial_loadstrain_;
+  } else {
+    return false;
   }
 
   // updates points
-- 
2.43.0


From e77cdfcf48af9773a51270347aaab348bb067a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 17/47] fix: fail line cable loading when its models cannot be
 initialized

---
 src/sagtension/line_cable_loader_base.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..1d9be64 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -193,7 +193,10 @@ bool LineCableLoaderBase::Update() const {
     return false;
   }
 
-  InitializeLineCableModels();
+  is_updated_catenary_constraint_ = InitializeLineCableModels();
+  if (is_updated_catenary_constraint_ == false) {
+    return false;
+  }
 
   is_updated_catenary_constraint_ = UpdateConstraintCableModel();
   if (is_updated_catenary_constraint_ == false) {
-- 
2.43.0


From f5b7f6f8f62b9f4f29d14073162f7fb347c9930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:29 +0000
Subject: [PATCH 18/47] fix: count the iterations of the transit sagger low
 point search

---
 src/sagging/transit_sagger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..0dfbb3c 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -271,6 +271,8 @@ bool TransitSagger::UpdatePointCatenaryLow() const {
     if (1 < position_ahead) {
       position_ahead = 1;
     }
+
+    i++;
   }
 
   // returns success status
-- 
2.43.0


From e92a458adc46c12917a388c15bc057c6fbdc87a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:21 +0000
Subject: [PATCH 19/47] fix: return the error value when Polynomial::X finds no
 solution

---
 src/base/polynomial.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index bcb586e..5e9a1cd 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -119,6 +119,11 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
     iter++;
   }
 
+  // returns error if solution was not found within the iteration limit
+  if (precision_y < std::abs(point_function.y)) {
+    return -999999;
+  }
+
   return point_function.x;
 }
 
-- 
2.43.0


From 5bca87635fe255f268fb9eed9bb69db25b4ba072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 20/47] fix: do not remember a catenary solution that is not
 valid

---
 src/transmissionline/catenary_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..44409e9 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -484,7 +484,8 @@ bool CatenarySolver::Update() const {
   }
 
   // validates catenary to make sure that H/w is valid
-  if (catenary_.Validate(false, nullptr) == false) {
+  is_updated_ = catenary_.Validate(false, nullptr);
+  if (is_updated_ == false) {
     return false;
   }
 
-- 
2.43.0


From 85c2fc556ab10b619c436eab08a1d43efdd69ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 21/47] fix: update component stretch when the state is
 replaced

---
 src/sagtension/cable_component_elongation_model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 23a759f..a64c2a6 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,7 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From 55eca9ab07161bcf7d6a56f074e57b4e95330818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 22/47] fix: update steady cable current when units or weather
 are replaced

---
 src/thermalrating/steady_cable_current_solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
-- 
2.43.0


From 2980bcdf786009fec186875e065a14a0725eccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 23/47] fix: update steady cable temperature when units or
 weather are replaced

---
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From eba6d3b05c142da6fffc433f83c8560c72b1023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 24/47] fix: copy the xyz points of a transmission line with
 their update status

---
 src/transmissionline/transmission_line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..9cb3c1c 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -23,6 +23,8 @@ TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
+  this->points_xyz_alignment_ = that.points_xyz_alignment_;
+  this->points_xyz_structures_ = that.points_xyz_structures_;
 
   // adjusts the new line cable connections to reference the new line structures
   for (auto iter_cable = line_cables_.begin(); iter_cable != line_cables_.end();
-- 
2.43.0


From 0965db9d578705c50f8017d474c6a05c3865b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 25/47] fix: update transmission line when only one kind of xyz
 points is up to date

---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9cb3c1c..e076c21 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -621,7 +621,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From 4a48ce0cd59ff34c763c3898533849f0ee1a212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 26/47] fix: restore component stretch states after validating
 a cable elongation model

---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..72396df 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -657,10 +657,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From 60eaa6bddf414691f917d37e32973bba29c00668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 27/47] fix: compare unloaded component strains only when both
 components are enabled

---
 src/sagtension/cable_elongation_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 72396df..c7cc3b5 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -611,7 +611,7 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
-- 
2.43.0


From f7f777650cd005f6f84e58adb3fa10e7b526751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 28/47] fix: do not update cable attachment equilibrium solver
 when validation fails

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 8f3f130..f18d275 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From f7df4e320622e1bcb217b5c51e99c3a77320fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 29/47] fix: do not update cable sag position corrector when
 validation fails

---
 src/sagging/cable_sag_position_corrector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index c870506..4a4478d 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -142,6 +142,11 @@ bool CableSagPositionCorrector::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 54d50484d78ced61f38cc34214532236c5c7f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 30/47] fix: do not update steady cable temperature solver when
 validation fails

---
 src/thermalrating/steady_cable_temperature_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..64686a0 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -93,6 +93,11 @@ bool SteadyCableTemperatureSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From d9c28afa1151f44ad8c3ed24eb8afd1c30557241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 31/47] fix: do not update cable position locator when
 validation fails

---
 src/transmissionline/cable_position_locator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..5e708e3 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -174,6 +174,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 986d371f43827919593289f8cda984edc3b91260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 32/47] fix: report unset design constraints in line cable
 sagger validation

---
 src/sagtension/line_cable_sagger.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 39f0e7b..3c015f2 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,19 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if (constraints_design_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 51f3538ad152a8b6384502df596b677b58edf54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 33/47] fix: report unset elongation models in cable strainer
 validation

---
 src/sagtension/cable_strainer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..d1e461c 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates model-elongation-finish
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates model-elongation-start
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From cb0f5ae8de103f81fce11bd3d2f92b6206646d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 34/47] fix: fail line cable reloader update without a reloaded
 weathercase

---
 src/sagtension/line_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..094729f 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // checks that the reloaded weathercase is set
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
-- 
2.43.0


From 073fdbfc181a6ffe3d1acc681fefd1b725d45bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 35/47] fix: report line cable connections without structure or
 hardware

---
 src/transmissionline/line_cable.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 292e04a..e659241 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -262,9 +262,28 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
     for (auto iter = connections_.cbegin(); iter != connections_.cend();
          iter++) {
       const LineCableConnection* connection = &(*iter);
+
+      // gets hardware, checking that the connection refers to an attachment
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+      const Hardware* hardware = nullptr;
+      if (structure != nullptr) {
+        const int kSizeHardwares = structure->hardwares()->size();
+        if ((0 <= connection->index_attachment)
+            && (connection->index_attachment < kSizeHardwares)) {
+          hardware = structure->hardwares()->at(connection->index_attachment);
+        }
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not refer to "
+                              "hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+        continue;
+      }
+
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
-- 
2.43.0


From aa57b3d719977106982908604e4566d17d318c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 36/47] fix: copies of a polynomial do not share the owned
 derivative

---
 include/models/base/polynomial.h | 13 +++++++++++++
 src/base/polynomial.cc           | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..b561d25 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,22 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, the new object solves
+  ///   them when they are needed.
+  Polynomial(const Polynomial& that);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Copy assignment.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, this object solves
+  ///   them again when they are needed.
+  /// \return This object.
+  Polynomial& operator=(const Polynomial& that);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 5e9a1cd..b39cec3 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -19,10 +19,23 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& that) {
+  coefficients_ = that.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+Polynomial& Polynomial::operator=(const Polynomial& that) {
+  coefficients_ = that.coefficients_;
+  is_updated_derivative_ = false;
+
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
-- 
2.43.0


From eb2147fc8dd572bbf3da5a4e844d0e1879f3d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 37/47] fix: copies of a cable elongation model use their own
 states

---
 .../sagtension/cable_elongation_model.h       | 13 +++++++++
 src/sagtension/cable_elongation_model.cc      | 28 +++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..57f82ad 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,22 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, the new object solves
+  ///   them when they are needed.
+  CableElongationModel(const CableElongationModel& that);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Copy assignment.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, this object solves
+  ///   them again when they are needed.
+  /// \return This object.
+  CableElongationModel& operator=(const CableElongationModel& that);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index c7cc3b5..475390e 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,37 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(
+    const CableElongationModel& that) {
+  cable_ = that.cable_;
+  model_core_ = that.model_core_;
+  model_shell_ = that.model_shell_;
+  state_ = that.state_;
+  state_stretch_ = that.state_stretch_;
+
+  // component models refer to states in the other model until they are updated
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& that) {
+  cable_ = that.cable_;
+  model_core_ = that.model_core_;
+  model_shell_ = that.model_shell_;
+  state_ = that.state_;
+  state_stretch_ = that.state_stretch_;
+
+  // component models refer to states in the other model until they are updated
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
-- 
2.43.0


From 60711c625c3619c455972417b31b1ca8ac4dcda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:28 +0000
Subject: [PATCH 38/47] fix: copies of a line cable loader use their own cable

---
 .../sagtension/line_cable_loader_base.h       | 13 +++++++++
 .../models/sagtension/line_cable_reloader.h   | 13 +++++++++
 .../models/sagtension/line_cable_unloader.h   | 13 +++++++++
 src/sagtension/line_cable_loader_base.cc      | 19 +++++++++++++
 src/sagtension/line_cable_reloader.cc         | 21 +++++++++++++++
 src/sagtension/line_cable_unloader.cc         | 27 +++++++++++++++++++
 6 files changed, 106 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..8a5d780 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,22 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, the new object solves
+  ///   them when they are needed.
+  LineCableLoaderBase(const LineCableLoaderBase& that);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Copy assignment.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, this object solves
+  ///   them again when they are needed.
+  /// \return This object.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& that);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/include/models/sagtension/line_cable_reloader.h b/include/models/sagtension/line_cable_reloader.h
index d6b454a..e13920c 100644
--- a/include/models/sagtension/line_cable_reloader.h
+++ b/include/models/sagtension/line_cable_reloader.h
@@ -23,9 +23,22 @@ class LineCableReloader : public LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableReloader();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, the new object solves
+  ///   them when they are needed.
+  LineCableReloader(const LineCableReloader& that);
+
   /// \brief Destructor.
   ~LineCableReloader();
 
+  /// \brief Copy assignment.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, this object solves
+  ///   them again when they are needed.
+  /// \return This object.
+  LineCableReloader& operator=(const LineCableReloader& that);
+
   /// \brief Gets a reloaded catenary.
   /// \return A catenary at the reloaded load case.
   Catenary3d CatenaryReloaded() const;
diff --git a/include/models/sagtension/line_cable_unloader.h b/include/models/sagtension/line_cable_unloader.h
index 1d4b58c..783dafb 100644
--- a/include/models/sagtension/line_cable_unloader.h
+++ b/include/models/sagtension/line_cable_unloader.h
@@ -22,9 +22,22 @@ class LineCableUnloader : public LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableUnloader();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, the new object solves
+  ///   them when they are needed.
+  LineCableUnloader(const LineCableUnloader& that);
+
   /// \brief Destructor.
   ~LineCableUnloader();
 
+  /// \brief Copy assignment.
+  /// \param[in] that
+  ///   The object to copy. Cached results are not copied, this object solves
+  ///   them again when they are needed.
+  /// \return This object.
+  LineCableUnloader& operator=(const LineCableUnloader& that);
+
   /// \brief Gets the unloaded length.
   /// \return The unloaded length.
   double LengthUnloaded() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 1d9be64..84ad4d6 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,28 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& that) {
+  cable_sagtension_ = that.cable_sagtension_;
+  line_cable_ = that.line_cable_;
+
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& that) {
+  cable_sagtension_ = that.cable_sagtension_;
+  line_cable_ = that.line_cable_;
+
+  is_updated_catenary_constraint_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 094729f..eed8d40 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -13,9 +13,30 @@ LineCableReloader::LineCableReloader() {
   is_updated_model_reloaded_ = false;
 }
 
+LineCableReloader::LineCableReloader(const LineCableReloader& that)
+    : LineCableLoaderBase(that) {
+  condition_reloaded_ = that.condition_reloaded_;
+  weathercase_reloaded_ = that.weathercase_reloaded_;
+
+  is_updated_catenary_reloaded_ = false;
+  is_updated_model_reloaded_ = false;
+}
+
 LineCableReloader::~LineCableReloader() {
 }
 
+LineCableReloader& LineCableReloader::operator=(const LineCableReloader& that) {
+  LineCableLoaderBase::operator=(that);
+
+  condition_reloaded_ = that.condition_reloaded_;
+  weathercase_reloaded_ = that.weathercase_reloaded_;
+
+  is_updated_catenary_reloaded_ = false;
+  is_updated_model_reloaded_ = false;
+
+  return *this;
+}
+
 Catenary3d LineCableReloader::CatenaryReloaded() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
diff --git a/src/sagtension/line_cable_unloader.cc b/src/sagtension/line_cable_unloader.cc
index e4c62dc..b0e7ec1 100644
--- a/src/sagtension/line_cable_unloader.cc
+++ b/src/sagtension/line_cable_unloader.cc
@@ -18,9 +18,36 @@ LineCableUnloader::LineCableUnloader() {
   is_updated_model_unloaded_ = false;
 }
 
+LineCableUnloader::LineCableUnloader(const LineCableUnloader& that)
+    : LineCableLoaderBase(that) {
+  condition_unloaded_ = that.condition_unloaded_;
+  spacing_attachments_ = that.spacing_attachments_;
+  temperature_unloaded_ = that.temperature_unloaded_;
+
+  length_unloaded_ = -999999;
+
+  is_updated_length_unloaded_ = false;
+  is_updated_model_unloaded_ = false;
+}
+
 LineCableUnloader::~LineCableUnloader() {
 }
 
+LineCableUnloader& LineCableUnloader::operator=(const LineCableUnloader& that) {
+  LineCableLoaderBase::operator=(that);
+
+  condition_unloaded_ = that.condition_unloaded_;
+  spacing_attachments_ = that.spacing_attachments_;
+  temperature_unloaded_ = that.temperature_unloaded_;
+
+  length_unloaded_ = -999999;
+
+  is_updated_length_unloaded_ = false;
+  is_updated_model_unloaded_ = false;
+
+  return *this;
+}
+
 double LineCableUnloader::LengthUnloaded() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
-- 
2.43.0


From db1592d67da4a3a9c389fa4ca88efa4c98dd5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:48 +0000
Subject: [PATCH 39/47] fix: restore the line cable in place when its
 modification is refused

---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index e076c21..a613058 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -294,8 +294,9 @@ int TransmissionLine::ModifyLineCable(const int& index,
 
   const int index_new = AddLineCable(line_cable);
   if (index_new == -1) {
-    // adds back original line cable
-    AddLineCable(line_cable_cache);
+    // puts back original line cable at the same position
+    line_cables_.insert(std::next(line_cables_.cbegin(), index),
+                        line_cable_cache);
   }
 
   return index_new;
-- 
2.43.0


From 43c2792c3ea3528f5b23c0a1df7768e6a82ad4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 40/47] fix: answer station queries on an alignment without
 points

---
 src/transmissionline/alignment.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index acd45b9..c0b6b37 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // an alignment without points has no valid stations
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
-- 
2.43.0


From a1b4c10e18bacb0d0032fc739d3aab7346053fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 41/47] fix: delete line structures when the last alignment
 point is deleted

---
 src/transmissionline/transmission_line.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index a613058..145d2a5 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -600,15 +600,12 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
     const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(station) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From ccd01da6f4edec8cc767af17943be4c4aaa7d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 42/47] fix: check the structure index before searching for a
 connection

---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 145d2a5..69e1b2a 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -204,6 +204,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks if index is valid
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 4c31c3bdabc08f0a5500e8a08f6f3dcfd3ed0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 43/47] fix: reject a span index past the last span of the
 cable

---
 src/transmissionline/cable_position_locator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 5e708e3..992e014 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 2 < index_span)) {
     return points;
   }
 
-- 
2.43.0


From 809ab1922c4114415f19b5948996abe074c04a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 44/47] fix: check the line cable index before sizing the
 containers

---
 src/transmissionline/cable_position_locator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 992e014..f3902f4 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -287,6 +287,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From bbe68876b7d4995a8d2976e111d13479d5e4f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 45/47] fix: check the constraint index before reading the
 catenaries

---
 src/sagtension/line_cable_sagger.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3c015f2..49dea43 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -22,6 +22,12 @@ double LineCableSagger::CapacityAllowable(const int& index) const {
     return -999999;
   }
 
+  // checks if index is valid
+  const int kSize = catenaries_constraints_actual_.size();
+  if ((index < 0) || (kSize <= index)) {
+    return -999999;
+  }
+
   const CableConstraint& constraint = constraints_design_->at(index);
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
 
@@ -46,6 +52,12 @@ double LineCableSagger::CatenaryConstantActual(const int& index) const {
     return -999999;
   }
 
+  // checks if index is valid
+  const int kSize = catenaries_constraints_actual_.size();
+  if ((index < 0) || (kSize <= index)) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.Constant();
 }
@@ -74,6 +86,12 @@ double LineCableSagger::TensionHorizontalActual(const int& index) const {
     return -999999;
   }
 
+  // checks if index is valid
+  const int kSize = catenaries_constraints_actual_.size();
+  if ((index < 0) || (kSize <= index)) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.tension_horizontal();
 }
@@ -84,6 +102,12 @@ double LineCableSagger::TensionSupportActual(const int& index) const {
     return -999999;
   }
 
+  // checks if index is valid
+  const int kSize = catenaries_constraints_actual_.size();
+  if ((index < 0) || (kSize <= index)) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.TensionMax();
 }
-- 
2.43.0


From 5301d6fe3cf4ee7a01c17b09051009494be73dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 46/47] fix: fail the update when no design constraint controls

---
 src/sagtension/line_cable_sagger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 49dea43..ab2d599 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -279,6 +279,11 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
     return false;
   }
 
+  // checks that a controlling constraint was found
+  if (index_constraint_controlling_ == -9999) {
+    return false;
+  }
+
   // reloads controlling constraint at the line cable constraint weathercase and
   // condition
   LineCableReloader reloader;
-- 
2.43.0


From e7792a7af8254359bead2681e822014d65f4e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 47/47] fix: answer an x query on a polynomial without
 coefficients

---
 src/base/polynomial.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index b39cec3..8ae16f7 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -101,6 +101,11 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
     return -999999;
   }
 
+  // checks if there are any coefficients to solve
+  if (coefficients_->empty() == true) {
+    return -999999;
+  }
+
   // converts to decimal precision
   const double precision_y = 1 / std::pow(10, decimal_precision_y);
 
-- 
2.43.0

