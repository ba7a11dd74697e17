From 9c0e996804aabf96e2f989425fa3c9d81eea85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:40 +0000
Subject: [PATCH 1/7] fix: neighbour search radius must cover the collision
 radius

SylinderNearEP::getRSearch used lengthCollision + 2 * lengthCollision; a particle whose
collision length is short compared with its collision radius (e.g. a sphere with
diameterColRatio > 1) got a search radius below its own extent and its contacts were missed.
---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From a6150c96d397d0a9ac47458c625e13624a8de46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 2/7] fix: keep particle Brownian velocity in-plane in
 monolayer mode

calcVelocityNonCon() drops the out-of-plane Brownian velocity from the vector
that the constraints are solved with, but sumForceVelocity() adds the particle
members, which kept it.
---
 Sylinder/SylinderSystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..aaa7b47 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,11 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                // keep the particle members in sync, they are summed up in sumForceVelocity()
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 021a8a5e9508df495fd88ab7d3ef3df489a1361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 3/7] fix: report sphere-boundary overlaps up to the effective
 collision radius

A particle treated as a sphere has collision radius radiusCollision +
lengthCollision/2, which delta0 uses, but the proximity test compared the
distance with radiusCollision only, so overlapping spheres were not collected.
---
 Sylinder/SylinderSystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index aaa7b47..bc335ae 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1127,8 +1127,7 @@ void SylinderSystem::collectBoundaryCollision() {
                         que.emplace_back(-deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-                    } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                    } else if (deltanorm < (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 2d8609a08d7289307154ef666b61cf3cd0103c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 4/7] fix: constraint forces and velocities must be those of
 the returned solution

---
 Constraint/ConstraintSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..68ade35 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -97,9 +97,12 @@ void ConstraintSolver::solveConstraints() {
     gammaBiRcp->elementWiseMultiply(1.0, *gammaRcp, *biFlagRcp, 0.0);
     DMatRcp->apply(*gammaBiRcp, *forcebRcp);
     mobOpRcp->apply(*forcebRcp, *velbRcp);
-    // unilateral second
+    // unilateral second. the total force and velocity must be those of the solution gamma,
+    // which is not always the vector the solver applied the operator to last
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
+    DMatRcp->apply(*gammaRcp, *forceRcp);
+    mobOpRcp->apply(*forceRcp, *velRcp);
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
     veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
 }
-- 
2.43.0


From 81e86c9a4f5adb1f16cfedf0be0a7ddee5a9af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 5/7] fix: projected gradient at a bound too large for the
 tolerance to change

---
 Constraint/BCQPSolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..711a190 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -474,9 +474,10 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        // equality matters: lb + eps == lb for large |lb|
+        if (xPtr(i, c) <= lbPtr(i, c) + eps) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (xPtr(i, c) >= ubPtr(i, c) - eps) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From 62ab8c9895d555ab311704f262538770dda163a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 6/7] fix: APGD step size when the initial guess equals xhat

---
 Constraint/BCQPSolver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 711a190..b90702c 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -280,7 +280,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
-    double Lk = (tempNorm2 / xkdiffNorm2);
+    // no estimate if the initial guess is xhat itself or A(x-xhat)=0. Lk is adjusted in every iteration anyway
+    double Lk = (tempNorm2 > 0 && xkdiffNorm2 > 0) ? (tempNorm2 / xkdiffNorm2) : 1.0;
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 623c46456b8224de3d7f58d3d640b7f6eb158649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:42 +0000
Subject: [PATCH 7/7] fix: BBPGD returns its latest iterate at the iteration
 limit

---
 Constraint/BCQPSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index b90702c..bbf103d 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -232,6 +232,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // return the latest iterate, not the one before
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0

