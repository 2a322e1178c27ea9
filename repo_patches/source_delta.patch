From 1de1eaac8728a8552f954ebab756bfe04d0f3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 01/27] fix: findPBCImage result stays in the half open box
 when x + L rounds up to ub

---
 Util/GeoUtil.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Util/GeoUtil.hpp b/Util/GeoUtil.hpp
index 6247f85..f0ee68c 100644
--- a/Util/GeoUtil.hpp
+++ b/Util/GeoUtil.hpp
@@ -32,6 +32,9 @@ inline void findPBCImage(const Real &lb, const Real &ub, Real &x) {
     while (x < lb) {
         x += L;
     }
+    if (x >= ub) { // x + L may round up to ub
+        x = lb;
+    }
 }
 
 /**
-- 
2.43.0


From ed7ecc425b289d6400defe5f51dd8283d59e17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 02/27] fix: boundary projection is defined for a query at a
 sphere center or on a tube axis

---
 Boundary/Boundary.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Boundary/Boundary.cpp b/Boundary/Boundary.cpp
index 4a6fc87..e704d5a 100644
--- a/Boundary/Boundary.cpp
+++ b/Boundary/Boundary.cpp
@@ -24,7 +24,8 @@ void SphereShell::initialize(const YAML::Node &config) {
 void SphereShell::project(const double query[3], double project[3], double delta[3]) const {
     Evec3 Query = ECmap3(query) - ECmap3(center); // center to query
     double QueryR = Query.norm();
-    Evec3 Proj = radius * (1 / QueryR) * Query; // radius * norm direction of Query
+    // radius * norm direction of Query. every direction is nearest at the center
+    Evec3 Proj = QueryR > 0 ? Evec3(radius * (1 / QueryR) * Query) : Evec3(0, 0, radius);
     Evec3 PQ = Query - Proj;
     bool out = QueryR > radius;
     if ((inside && out) || (!inside && !out)) {
@@ -178,7 +179,12 @@ void Tube::project(const double query[3], double project[3], double delta_[3]) c
     double t = (Query - ECmap3(center)).dot(ECmap3(axis));
     Evec3 ProjAxis = ECmap3(center) + t * ECmap3(axis);
     Evec3 ProjAxisQ = Query - ProjAxis;
-    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());
+    ProjAxisQ -= ProjAxisQ.dot(ECmap3(axis)) * ECmap3(axis); // remove the round-off along the axis
+    // on the axis (up to round-off) ProjAxisQ has no usable direction, and every radial direction is nearest
+    const double roundoff =
+        16 * std::numeric_limits<double>::epsilon() * (Query.norm() + ECmap3(center).norm() + radius);
+    const Evec3 radial = ProjAxisQ.norm() > roundoff ? ProjAxisQ.normalized() : ECmap3(axis).unitOrthogonal();
+    Evec3 Proj = ProjAxis + radius * radial;
     Evec3 delta = Query - Proj;
     if (ProjAxisQ.norm() > radius) { // Q is outside the tube
         if (inside) {
-- 
2.43.0


From cf5e2b748944b4502c17db66243e0795e7e4bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 03/27] fix: neighbour search radius covers the collision
 radius

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From cc74fbf0b5e437ad88506c51e6c7130040422b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 04/27] fix: APGD solvers terminate when the initial step size
 estimate is undefined

The Lipschitz estimate |A(x0-1)|/|x0-1| is NaN for an empty problem or an all-ones guess and zero
when A(x0-1)=0; the backtracking loop then never ends.
---
 Collision/CPSolver.cpp    | 3 +++
 Constraint/BCQPSolver.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..b359e94 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -438,6 +438,9 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0)) {
+        Lk = 1; // no estimate available: empty problem, initial guess equals xhat, or A*xkdiff is zero
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..ea6a59d 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -281,6 +281,9 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0)) {
+        Lk = 1; // no estimate available: empty problem, initial guess equals xhat, or A*xkdiff is zero
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 0bcb5298f9d709b0832b7fcf3522eb430111360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 05/27] fix: projected residual handles bounds larger than 1e2
 and fixed variables

lb + eps equals lb when |lb| is large, a value at its bound was then reported as a projection error and the
process ended; a variable with lb = ub could never satisfy the residual.
---
 Constraint/BCQPSolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index ea6a59d..277fafe 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -477,9 +477,13 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        const bool atLower = xPtr(i, c) <= lbPtr(i, c) + eps; // also true if eps is below the resolution of lb
+        const bool atUpper = xPtr(i, c) >= ubPtr(i, c) - eps;
+        if (atLower && atUpper) {
+            qPtr(i, c) = 0; // lb = ub, no freedom
+        } else if (atLower) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (atUpper) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From 469debfbc05eae019fbb5286caeead90415eceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 06/27] fix: BBPGD returns its last, feasible iterate

An infeasible initial guess with a small residual was returned unprojected; on reaching the iteration limit the
iterate before the last one was returned because of the pointer swap (also in CPSolver).
---
 Collision/CPSolver.cpp    | 4 ++++
 Constraint/BCQPSolver.cpp | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index b359e94..3534d68 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -387,6 +387,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // xk is the last iterate
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 277fafe..19cd2ee 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -141,8 +141,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     spdlog::debug("solving APGD");
     spdlog::debug("Constraint operator ARcp is "+ ARcp->description());
 
-    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy));   // deep copy, xk=x0
-    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xkm1=x0
+    Teuchos::RCP<TV> xkRcp = Teuchos::rcp(new TV(*xsolRcp, Teuchos::Copy)); // deep copy, xk=x0
+    boundProjection(xkRcp);                                                 // x0 may be infeasible
+    Teuchos::RCP<TV> xkm1Rcp = Teuchos::rcp(new TV(*xkRcp, Teuchos::Copy)); // deep copy, xkm1=x0
 
     Teuchos::RCP<TV> gradkRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // the grad vector
     Teuchos::RCP<TV> gradkm1Rcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // the grad vector
@@ -232,6 +233,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // xk is the last iterate
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From de7036f95d1ef5ed2e4281f5f24df22a90eaae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:18 +0000
Subject: [PATCH 07/27] fix: constraint matrix on a rank without objects

The minimum and maximum global index of an empty map make mobMax - mobMin overflow; the column map of that
rank was filled with garbage and the solver crashed.
---
 Constraint/ConstraintCollector.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 47b234b..544a607 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -346,10 +346,12 @@ int ConstraintCollector::buildConstraintMatrixVector(const Teuchos::RCP<const TM
     // 3.1 column map has to cover the contiguous range of the mobility map locally owned
     const int mobMin = mobMapRcp->getMinGlobalIndex();
     const int mobMax = mobMapRcp->getMaxGlobalIndex();
-    std::vector<int> colMapIndex(mobMax - mobMin + 1);
+    // mobMin > mobMax on a rank without objects, mobMax - mobMin overflows
+    const int mobLocalSize = mobMapRcp->getNodeNumElements();
+    std::vector<int> colMapIndex(mobLocalSize);
 #pragma omp parallel for
-    for (int i = mobMin; i <= mobMax; i++) {
-        colMapIndex[i - mobMin] = i;
+    for (int i = 0; i < mobLocalSize; i++) {
+        colMapIndex[i] = mobMin + i;
     }
     // this is the list of the columns that have nnz entries
     // if the column index is out of [mobMinLID, mobMaxLID], add it to the map
-- 
2.43.0


From 23b9151ac4da2e657bae705aac5729d48793e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 08/27] fix: constraint forces and velocities are computed from
 the returned magnitudes

When the solver stops at its iteration limit the last operator application need not be on the returned gamma.
---
 Constraint/ConstraintSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..d89c8bf 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -98,8 +98,11 @@ void ConstraintSolver::solveConstraints() {
     DMatRcp->apply(*gammaBiRcp, *forcebRcp);
     mobOpRcp->apply(*forcebRcp, *velbRcp);
     // unilateral second
+    // the last operator application of the solver is not always on the returned gamma
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
+    DMatRcp->apply(*gammaRcp, *forceRcp);
+    mobOpRcp->apply(*forceRcp, *velRcp);
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
     veluRcp->update(1.0, *velRcp, -1.0, *velbRcp, 0.0);       // vel_u = vel - vel_b
 }
-- 
2.43.0


From a809d08168aab74f6cd00b442d9abee2ad8cef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 09/27] fix: particles wrapped into the periodic root domain
 stay inside after rounding

Subtracting the period can land an ulp below the lower face, and the
following exchange then aborts with a particle out of the root domain.
---
 FDPS/particle_system.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 8c54951..2deb50a 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -815,7 +815,7 @@ namespace ParticleSimulator{
                     while(pos_new.x >= pos_root.high_.x){
                         pos_new.x -= len_root.x;
                     }
-                    if(pos_new.x == pos_root.high_.x){
+                    if(pos_new.x < pos_root.low_.x){ // rounding of the subtraction
                         pos_new.x = pos_root.low_.x;
                     }
                     while(pos_new.y < pos_root.low_.y){
@@ -824,7 +824,7 @@ namespace ParticleSimulator{
                     while(pos_new.y >= pos_root.high_.y){
                         pos_new.y -= len_root.y;
                     }
-                    if(pos_new.y == pos_root.high_.y){
+                    if(pos_new.y < pos_root.low_.y){ // rounding of the subtraction
                         pos_new.y = pos_root.low_.y;
                     }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
@@ -834,7 +834,7 @@ namespace ParticleSimulator{
                     while(pos_new.z >= pos_root.high_.z){
                         pos_new.z -= len_root.z;
                     }
-                    if(pos_new.z == pos_root.high_.z){
+                    if(pos_new.z < pos_root.low_.z){ // rounding of the subtraction
                         pos_new.z = pos_root.low_.z;
                     }
 #endif
-- 
2.43.0


From 422f57e63e2fa50deeec8a8caa7b67f25231d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 10/27] fix: domain decomposition with fewer sample particles
 than ranks

Slabs without a sample read positions outside the sample array, which gave
overlapping or garbage domains and, in periodic systems, endless image loops.
---
 FDPS/domain_info.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/FDPS/domain_info.hpp b/FDPS/domain_info.hpp
index 8092f87..77acf71 100644
--- a/FDPS/domain_info.hpp
+++ b/FDPS/domain_info.hpp
@@ -104,9 +104,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.x;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.x;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.x; // no sample left for this domain
 	    else xlow  = 0.5 * (pos_sample[istart-1].x + pos_sample[istart].x);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.x;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.x;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.x; // no sample up to this domain
 	    else xhigh = 0.5 * (pos_sample[iend].x + pos_sample[iend+1].x);
         }
         void calculateBoundaryOfDomainY(const S32 np,
@@ -115,9 +117,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.y;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.y;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.y; // no sample left for this domain
 	    else xlow  = 0.5 * (pos_sample[istart-1].y + pos_sample[istart].y);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.y;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.y;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.y; // no sample up to this domain
 	    else xhigh = 0.5 * (pos_sample[iend].y + pos_sample[iend+1].y);
         }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION	
@@ -127,9 +131,11 @@ namespace ParticleSimulator{
 					const S32 iend,
 					F64 & xlow,
 					F64 & xhigh) {
-            if(istart == 0) xlow  = pos_root_domain_.low_.z;
+            if(istart <= 0) xlow  = pos_root_domain_.low_.z;
+	    else if(istart >= np) xlow  = pos_root_domain_.high_.z; // no sample left for this domain
 	    else xlow  = 0.5 * (pos_sample[istart-1].z + pos_sample[istart].z);
-            if(iend == np - 1) xhigh = pos_root_domain_.high_.z;
+            if(iend >= np - 1) xhigh = pos_root_domain_.high_.z;
+	    else if(iend < 0) xhigh = pos_root_domain_.low_.z; // no sample up to this domain
 	    else xhigh = 0.5 * (pos_sample[iend].z + pos_sample[iend+1].z);
         }	
 #endif
-- 
2.43.0


From 28e4198dfe4ca64c858ca6b4c3c00b8083e0ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:55 +0000
Subject: [PATCH 11/27] fix: boundary collisions of points on the boundary and
 of sphere like particles

A query exactly on the boundary got a NaN normal, and the proximity test of a
sphere like particle ignored the enclosing radius used for its gap.
---
 Sylinder/SylinderSystem.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..68be77e 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1115,7 +1115,18 @@ void SylinderSystem::collectBoundaryCollision() {
                     // if inside boundary, delta = Q-Proj
                     // if outside boundary, delta = Proj-Q
                     double deltanorm = Emap3(delta).norm();
-                    Evec3 norm = Emap3(delta) * (1 / deltanorm);
+                    Evec3 norm = Emap3(delta);
+                    if (deltanorm == 0) {
+                        // Query is exactly on the boundary, take the normal from the projection of displaced points
+                        for (int k = 0; k < 6; k++) {
+                            Evec3 displaced = Query;
+                            displaced[k / 2] += (k % 2 ? 1e-6 : -1e-6) * radius;
+                            double projDisplaced[3], deltaDisplaced[3];
+                            bPtr->project(displaced.data(), projDisplaced, deltaDisplaced);
+                            norm += Emap3(deltaDisplaced);
+                        }
+                    }
+                    norm.normalize();
                     Evec3 posI = Query - center;
 
                     if ((Query - ECmap3(Proj)).dot(ECmap3(delta)) < 0) { // outside boundary
@@ -1123,7 +1134,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From 547a2ede36f9586825534b5ba914d633b0daa0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 12/27] fix: rotateEquatn does not skip slow rotations

The cut-off was on the rate alone, so with a large time step a finite
rotation angle was dropped.
---
 Util/EquatnHelper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/EquatnHelper.hpp b/Util/EquatnHelper.hpp
index b967b96..56d16e6 100644
--- a/Util/EquatnHelper.hpp
+++ b/Util/EquatnHelper.hpp
@@ -73,7 +73,7 @@ class EquatnHelper {
      */
     static void rotateEquatn(Equatn &q, const Evec3 &omega, const double &dt) {
         const double w = omega.norm();
-        if (w < std::numeric_limits<float>::epsilon()) {
+        if (w < std::numeric_limits<double>::min()) { // no rotation
             return;
         }
         const double winv = 1 / w;
-- 
2.43.0


From 7cd48cd492795ca79830ab0d963024a3331a77da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 13/27] fix: image domain of a position whose shifted image
 rounds out of the root domain

The search over shifted positions never ended for a particle on a periodic
face, so the neighbour search hung.
---
 FDPS/tree_for_force_utils.hpp | 46 ++++++-----------------------------
 1 file changed, 7 insertions(+), 39 deletions(-)

diff --git a/FDPS/tree_for_force_utils.hpp b/FDPS/tree_for_force_utils.hpp
index 522024c..aa5f374 100644
--- a/FDPS/tree_for_force_utils.hpp
+++ b/FDPS/tree_for_force_utils.hpp
@@ -143,47 +143,15 @@ namespace ParticleSimulator{
         if( pos_root_domain.contained(pos_target) ){
             return S32vec(0.0);
         }
+        // a search over shifted positions would never end where pos_target + shift rounds out of the domain
         const F64vec size_root_domain = pos_root_domain.getFullLength();
-#ifdef PARTICLE_SIMULATOR_TWO_DIMENSION
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                        && (std::abs(iy) != lev_y  || periodic_axis[1] == false) ) continue;
-                    const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y);
-                    if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                        return S32vec(-ix, -iy);
-                    }
-                }
-            }
-        }
-#else
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            S32 lev_z = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            if(periodic_axis[2] == true) lev_z = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    for(S32 iz=-lev_z; iz<=lev_z; iz++){
-                        if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                            && (std::abs(iy) != lev_y  || periodic_axis[1] == false) 
-                            && (std::abs(iz) != lev_z || periodic_axis[2] == false) ) continue;
-                        const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y, iz*size_root_domain.z);
-                        if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                            return S32vec(-ix, -iy, -iz);
-                        }
-                    }
-                }
-            }
-        }
+        S32vec id(0);
+        if(periodic_axis[0]) id.x = (S32)std::floor((pos_target.x - pos_root_domain.low_.x) / size_root_domain.x);
+        if(periodic_axis[1]) id.y = (S32)std::floor((pos_target.y - pos_root_domain.low_.y) / size_root_domain.y);
+#ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
+        if(periodic_axis[2]) id.z = (S32)std::floor((pos_target.z - pos_root_domain.low_.z) / size_root_domain.z);
 #endif
+        return id;
     }
 
     template<class Tptcl>
-- 
2.43.0


From ca868cbe60607d8aea472f44c3ab6cc8533dcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 14/27] fix: monolayer Brownian velocity stays in the layer

sumForceVelocity() uses the particle members, which kept the out of plane
components that were zeroed in the vector only.
---
 Sylinder/SylinderSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 68be77e..0b86479 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,10 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                auto &sy = sylinderContainer[i]; // sumForceVelocity() uses the particle members
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From 207c74c4d93419ac3dd62bf894b6b89d345ed056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 15/27] fix: monolayer projection of an orientation
 perpendicular to the layer

setFromTwoVectors with a zero vector gave a quaternion that is not unit.
---
 Sylinder/SylinderSystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 0b86479..a663fb4 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -916,7 +916,11 @@ void SylinderSystem::prepareStep() {
             sy.pos[2] = monoZ;
             Evec3 drt = Emapq(sy.orientation) * Evec3(0, 0, 1);
             drt[2] = 0;
-            drt.normalize();
+            if (drt.norm() > 0) {
+                drt.normalize();
+            } else { // perpendicular to the layer, setFromTwoVectors needs a direction
+                drt = Evec3(1, 0, 0);
+            }
             Emapq(sy.orientation).setFromTwoVectors(Evec3(0, 0, 1), drt);
         }
     }
-- 
2.43.0


From e85553ea66625b1cf49905fa68a228122c09010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 16/27] fix: wrapped positions stay off the periodic faces by a
 rounding margin

A particle an ulp below the upper face had an image that rounds into the
next image domain; the search then crashed building its tree or lost pairs.
---
 FDPS/particle_system.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 2deb50a..8372b21 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -795,6 +795,15 @@ namespace ParticleSimulator{
         bool checkExchangeParticleSumOfNumberOfParticle(DomainInfo & dinfo,
                                                         S32 ntot_init);
 
+        // a position within rounding of a face could leave the domain, or its image the image domain,
+        // when a multiple of the period is added
+        static F64 keepOffFaces(const F64 pos, const F64 low, const F64 high){
+            const F64 margin = 8.0 * std::numeric_limits<F64>::epsilon() * std::max(std::abs(low), std::abs(high));
+            if(pos < low + margin) return low + margin;
+            if(pos > high - margin) return high - margin;
+            return pos;
+        }
+
         void adjustPositionIntoRootDomain(const DomainInfo & dinfo){
             const F64ort pos_root = dinfo.getPosRootDomain();
             const F64vec len_root = pos_root.getFullLength();
@@ -815,18 +824,14 @@ namespace ParticleSimulator{
                     while(pos_new.x >= pos_root.high_.x){
                         pos_new.x -= len_root.x;
                     }
-                    if(pos_new.x < pos_root.low_.x){ // rounding of the subtraction
-                        pos_new.x = pos_root.low_.x;
-                    }
+                    pos_new.x = keepOffFaces(pos_new.x, pos_root.low_.x, pos_root.high_.x);
                     while(pos_new.y < pos_root.low_.y){
                         pos_new.y += len_root.y;
                     }
                     while(pos_new.y >= pos_root.high_.y){
                         pos_new.y -= len_root.y;
                     }
-                    if(pos_new.y < pos_root.low_.y){ // rounding of the subtraction
-                        pos_new.y = pos_root.low_.y;
-                    }
+                    pos_new.y = keepOffFaces(pos_new.y, pos_root.low_.y, pos_root.high_.y);
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
                     while(pos_new.z < pos_root.low_.z){
                         pos_new.z += len_root.z;
@@ -834,9 +839,7 @@ namespace ParticleSimulator{
                     while(pos_new.z >= pos_root.high_.z){
                         pos_new.z -= len_root.z;
                     }
-                    if(pos_new.z < pos_root.low_.z){ // rounding of the subtraction
-                        pos_new.z = pos_root.low_.z;
-                    }
+                    pos_new.z = keepOffFaces(pos_new.z, pos_root.low_.z, pos_root.high_.z);
 #endif
                     //}
                 ptcl_[i].setPos(pos_new);
-- 
2.43.0


From f86cb123515093ba1a06876a2f4968fd9e9d5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:56 +0000
Subject: [PATCH 17/27] fix: upper corner of the bounding box of a system at
 negative coordinates

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a663fb4..763eeb1 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1197,7 +1197,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From 9db6a8070162f2bf3b877ba4432bb67b6a5d00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:56 +0000
Subject: [PATCH 18/27] fix: addNewLink removes duplicated links, as documented

---
 Sylinder/SylinderSystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 763eeb1..5ff1231 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -6,6 +6,7 @@
 #include "Util/IOHelper.hpp"
 #include "Util/Logger.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdio>
 #include <fstream>
@@ -1381,6 +1382,11 @@ void SylinderSystem::addNewLink(const std::vector<Link> &newLink) {
 
     // put newLinks into the map, same op on all mpi ranks
     for (const auto &ll : newLinkRecv) {
+        const auto range = linkMap.equal_range(ll.prev);
+        if (std::any_of(range.first, range.second,
+                        [&](const std::pair<const int, int> &link) { return link.second == ll.next; })) {
+            continue; // remove duplication
+        }
         linkMap.emplace(ll.prev, ll.next);
         linkReverseMap.emplace(ll.next, ll.prev);
     }
-- 
2.43.0


From 6435e124c581e07a3eeccce3bdf834c003a95b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:13 +0000
Subject: [PATCH 19/27] fix: write snapshots every round(timeSnap/dt) steps, at
 least one

The quotient was truncated, so 0.3/0.1 wrote every 2 steps, and a snapshot
interval shorter than a step divided by zero.
---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 5ff1231..297e112 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -885,7 +885,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // the nearest number of steps, at least one
+    const double snapSteps = std::max(std::round(runConfig.timeSnap / runConfig.dt), 1.0);
+    return std::fmod(stepCount, snapSteps) == 0;
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 00aa1335284e9e3e001778b2f294399b386e6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:13 +0000
Subject: [PATCH 20/27] fix: MemoryPool::freeMem of an array that holds no
 segment read and wrote outside its tables

---
 FDPS/memory_pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FDPS/memory_pool.hpp b/FDPS/memory_pool.hpp
index a081ee2..89bc80f 100644
--- a/FDPS/memory_pool.hpp
+++ b/FDPS/memory_pool.hpp
@@ -240,6 +240,7 @@ namespace ParticleSimulator{
         }
 
         static void freeMem(const int id_seg){
+            if(id_seg < 0) return; // this array holds no segment of the pool
             if(getInstance().cap_per_seg_[id_seg] <= 0) return;
             if (id_seg < N_SEGMENT_LIMIT) {
                 getInstance().used_per_seg_[id_seg] = false;
-- 
2.43.0


From 92cd111e2dcd7e7d6e48550f43c28bb2ab11bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:39 +0000
Subject: [PATCH 21/27] fix: data races of the neighbour tree (order array,
 timers)

---
 FDPS/tree_for_force_impl.hpp       |  2 +-
 FDPS/tree_for_force_impl_force.hpp | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index 785672e..eb465b1 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -457,7 +457,7 @@ namespace ParticleSimulator{
 #endif
 
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel 
+#pragma omp parallel for
 #endif
             for(S32 i=0; i<n_glb_tot_; i++){
                 adr_org_from_adr_sorted_glb_[i] = tp_glb_[i].adr_ptcl_;
diff --git a/FDPS/tree_for_force_impl_force.hpp b/FDPS/tree_for_force_impl_force.hpp
index 869659b..4fae253 100644
--- a/FDPS/tree_for_force_impl_force.hpp
+++ b/FDPS/tree_for_force_impl_force.hpp
@@ -1308,26 +1308,29 @@ namespace ParticleSimulator{
         S64 nj_tmp = 0;
         S64 n_interaction_ep_ep_tmp = 0;
         for(S32 i=0; i<Comm::getNumberOfThread(); i++) n_cell_open_[i] = 0;
-        F64 offset_walk_tree,offset_dispatch;
+        F64 walk_tree_tmp = 0;
+        F64 dispatch_tmp = 0;
 
         if(n_ipg > 0){
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp)
+#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp, walk_tree_tmp, dispatch_tmp)
 #endif
             for(S32 i=0; i<n_ipg; i++){
-                offset_walk_tree = GetWtime();
+                const F64 offset_walk_tree = GetWtime();
                 const S32 ith = Comm::getThreadNum();
                 epj_for_force_[ith].clearSize();
                 adr_epj_for_force_[ith].clearSize();
                 makeInteractionList(i);
-                time_profile_.calc_force__core__walk_tree += GetWtime() - offset_walk_tree;
+                walk_tree_tmp += GetWtime() - offset_walk_tree;
                 ni_tmp += ipg_[i].n_ptcl_;
                 nj_tmp += epj_for_force_[Comm::getThreadNum()].size();
                 n_interaction_ep_ep_tmp += ipg_[i].n_ptcl_ * epj_for_force_[Comm::getThreadNum()].size();
-                offset_dispatch = GetWtime();
+                const F64 offset_dispatch = GetWtime();
                 calcForceOnly( pfunc_ep_ep, i, clear);
-                time_profile_.calc_force__core__dispatch += GetWtime() - offset_dispatch;
+                dispatch_tmp += GetWtime() - offset_dispatch;
             }
+            time_profile_.calc_force__core__walk_tree += walk_tree_tmp;
+            time_profile_.calc_force__core__dispatch += dispatch_tmp;
             ni_ave_ = ni_tmp / n_ipg;
             nj_ave_ = nj_tmp / n_ipg;
             n_interaction_ep_ep_ += n_interaction_ep_ep_tmp;
-- 
2.43.0


From 5589dfbf94cec18f277394113f22e3b25cbfb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:42 +0000
Subject: [PATCH 22/27] fix: a run killed while it writes a snapshot could not
 be restarted

TimeStepInfo.txt was truncated and rewritten in place, and rank 0 could name a
snapshot before the other ranks had finished their files.
---
 Sylinder/SylinderSystem.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 297e112..37298e0 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -507,17 +507,21 @@ void SylinderSystem::writeAscii(const std::string &baseFolder) {
 }
 
 void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
+    commRcp->barrier(); // the snapshot must be complete on all ranks before it is named
     if (commRcp->getRank() == 0) {
         // write a single txt file containing timestep and most recent pvtp file names
         std::string name = baseFolder + std::string("../../TimeStepInfo.txt");
         std::string pvtpFileName = std::string("Sylinder_") + std::to_string(snapID) + std::string(".pvtp");
 
-        FILE *restartFile = fopen(name.c_str(), "w");
+        // a run may be killed at any time: this file must never be found incomplete
+        std::string tmpName = name + ".tmp";
+        FILE *restartFile = fopen(tmpName.c_str(), "w");
         fprintf(restartFile, "%u\n", restartRngSeed);
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
-        fclose(restartFile);
+        if (fclose(restartFile) == 0)
+            rename(tmpName.c_str(), name.c_str());
     }
 }
 
-- 
2.43.0


From 173cf271854a58b32e5274f9c61b864e05b1cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:35 +0000
Subject: [PATCH 23/27] fix: links between rods half a box apart

Rounding of the periodic image made the distance exceed half a box, and the
program ended.
---
 Sylinder/SylinderSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 37298e0..dcbdf96 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1470,8 +1470,8 @@ void SylinderSystem::collectLinkBilateral() {
                     double xk = centerJ[k];
                     findPBCImage(runConfig.simBoxLow[k], runConfig.simBoxHigh[k], xk, trg);
                     centerJ[k] = xk;
-                    // error check
-                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
+                    // error check, half a box apart is allowed up to rounding
+                    if (fabs(trg - xk) > (0.5 + 1e-6) * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
                         spdlog::critical("pbc image error in bilateral links");
                         std::exit(1);
                     }
-- 
2.43.0


From 56aeb604fc272083d505279274fc6c08e854d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:35 +0000
Subject: [PATCH 24/27] fix: Brownian drift term has the units of a velocity

The displacement of the random finite difference is an angle but was set to a
tenth of the time step, and the drift lacked a length.
---
 Sylinder/SylinderSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index dcbdf96..aa9ad80 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1036,7 +1036,7 @@ void SylinderSystem::calcVelocityBrown() {
     const double Pi = 3.1415926535897932384626433;
     const double mu = runConfig.viscosity;
     const double dt = runConfig.dt;
-    const double delta = dt * 0.1; // a small parameter used in RFD algorithm
+    const double delta = 1e-4; // a small angle used in RFD algorithm
     const double kBT = runConfig.KBT;
     const double kBTfactor = sqrt(2 * kBT / dt);
 
@@ -1077,7 +1077,9 @@ void SylinderSystem::calcVelocityBrown() {
             Emat3 Nmatrfd = (dragParaInv - dragPerpInv) * (q * q.transpose()) + (dragPerpInv)*Emat3::Identity();
 
             Evec3 vel = kBTfactor * (Nmatsqrt * Wpos);           // Gaussian noise
-            vel += (kBT / delta) * ((Nmatrfd - Nmat) * Wrfdpos); // rfd drift. seems no effect in this case
+            // rfd drift. seems no effect in this case
+            // the displacement is an angle, so the conjugate random number is one over a length
+            vel += (kBT / (delta * (sy.length + 2 * sy.radius))) * ((Nmatrfd - Nmat) * Wrfdpos);
             Evec3 omega = sqrt(dragRotInv) * kBTfactor * Wrot;   // regularized identity rotation drag
 
             Emap3(sy.velBrown) = vel;
-- 
2.43.0


From 6662ae17fcea337caa352d1fbc99d3ddeb752782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:35 +0000
Subject: [PATCH 25/27] fix: bilateral forces are unbounded

The bound of 1e8 cut off the forces of links in units where they are larger.
---
 Constraint/ConstraintSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d89c8bf..dd1fe66 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -1,6 +1,8 @@
 #include "ConstraintSolver.hpp"
 #include "Util/Logger.hpp"
 
+#include <limits>
+
 void ConstraintSolver::setup(ConstraintCollector &conCollector_, Teuchos::RCP<TOP> &mobOpRcp_,
                              Teuchos::RCP<TV> &velncRcp_, double dt_) {
     reset();
@@ -65,7 +67,8 @@ void ConstraintSolver::solveConstraints() {
 
     // the bound of BCQP. 0 for gammau, unbound for gammab.
     Teuchos::RCP<TV> lbRcp = solver.getLowerBound();
-    lbRcp->scale(-1e8, *biFlagRcp); // 0 if biFlag=0, -1e8 if biFlag=1
+    // 0 if biFlag=0, no bound if biFlag=1
+    lbRcp->scale(-std::numeric_limits<double>::max() / 10, *biFlagRcp);
     spdlog::debug("bound constructed");
 
     // solve
-- 
2.43.0


From 4a8110f14af720f6b8add9e844191aea17801803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:18 +0000
Subject: [PATCH 26/27] fix: orientation of rods that point almost along -z

Quaternion::FromTwoVectors loses half of the digits when the two directions are almost opposite: initial positions and
reloaded snapshots of such rods got orientations that are not of unit norm.
---
 Sylinder/SylinderSystem.cpp |  6 +++---
 Util/EquatnHelper.hpp       | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index aa9ad80..b739673 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -212,7 +212,7 @@ void SylinderSystem::getOrient(Equatn &orient, const double px, const double py,
                                           rngPoolPtr->getU01(threadId));
         return;
     } else {
-        orient = Equatn::FromTwoVectors(Evec3(0, 0, 1), pvec);
+        orient = EquatnHelper::fromDirection(pvec);
     }
 }
 
@@ -338,7 +338,7 @@ void SylinderSystem::setInitialFromFile(const std::string &filename) {
         sy.lengthCollision = sy.length;
         if (sy.length > 1e-7) {
             Evec3 direction(px - mx, py - my, pz - mz);
-            Emapq(sy.orientation) = Equatn::FromTwoVectors(Evec3(0, 0, 1), direction);
+            Emapq(sy.orientation) = EquatnHelper::fromDirection(direction);
         } else {
             Emapq(sy.orientation) = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(0, 0, 1));
         }
@@ -460,7 +460,7 @@ void SylinderSystem::setInitialFromVTKFile(const std::string &pvtpFileName) {
             sy.radiusCollision = radiusCollisionData->GetComponent(i, 0);
             const Evec3 direction(znormData->GetComponent(i, 0), znormData->GetComponent(i, 1),
                                   znormData->GetComponent(i, 2));
-            Emapq(sy.orientation) = Equatn::FromTwoVectors(Evec3(0, 0, 1), direction);
+            Emapq(sy.orientation) = EquatnHelper::fromDirection(direction);
             sy.vel[0] = velData->GetComponent(i, 0);
             sy.vel[1] = velData->GetComponent(i, 1);
             sy.vel[2] = velData->GetComponent(i, 2);
diff --git a/Util/EquatnHelper.hpp b/Util/EquatnHelper.hpp
index 56d16e6..b382a54 100644
--- a/Util/EquatnHelper.hpp
+++ b/Util/EquatnHelper.hpp
@@ -63,6 +63,22 @@ class EquatnHelper {
         q.z() = b * cu3;
     }
 
+    /**
+     * @brief the rotation of the z axis to a direction, accurate for directions close to -z too
+     *
+     * @param dir the direction, not necessarily of unit length
+     * @return Equatn
+     */
+    static Equatn fromDirection(const Evec3 &dir) {
+        const double perp = std::hypot(dir[0], dir[1]);
+        if (perp == 0) { // along z, half a turn about x takes z to -z
+            return dir[2] < 0 ? Equatn(0, 1, 0, 0) : Equatn(1, 0, 0, 0);
+        }
+        const double half = 0.5 * std::atan2(perp, dir[2]);
+        const double s = sin(half);
+        return Equatn(cos(half), -s * (dir[1] / perp), s * (dir[0] / perp), 0);
+    }
+
     /**
      * @brief rotate a quaternion by \f$\omega \delta t\f$
      *
-- 
2.43.0


From f7c8b5ed6cdc7d239e518814780f2b15d49c7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:18 +0000
Subject: [PATCH 27/27] fix: segment distance of very short segments

GetClampedRoot compared squared lengths with an absolute epsilon and took the middle of segments shorter than 1e-8 in
whatever unit; ComputeMinimumParameters compared the derivative times a tiny interval with an epsilon that does not shrink
with the interval, and took the middle for segments of very different lengths.
---
 Collision/DCPQuery.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Collision/DCPQuery.hpp b/Collision/DCPQuery.hpp
index 316ec95..508419c 100644
--- a/Collision/DCPQuery.hpp
+++ b/Collision/DCPQuery.hpp
@@ -322,8 +322,8 @@ inline Real DCPQuery<N, Real, Vector>::GetClampedRoot(Real slope, Real h0, Real
 
     Real r;
 
-    if (std::abs(h0) < eps && std::abs(h1) < eps) {
-        // tiny slope, h0 \approx h1, distance almost a constant, choose mid point
+    if (h0 == 0 && h1 == 0) {
+        // no slope, distance is a constant, choose mid point
         r = 0.5;
     } else if (h0 < 0) {
         if (h1 > 0) {
@@ -431,7 +431,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeMinimumParameters(int const edge[2
     Real h0 = delta * ((-mB * end[0][0] - mE) + mC * end[0][1]); // source of rounding error
     Real h1 = delta * ((-mB * end[1][0] - mE) + mC * end[1][1]);
 
-    if (std::abs(h0) < std::abs(mC) * eps && std::abs(h1) < std::abs(mC) * eps) {
+    if (std::abs(h0) < std::abs(delta * mC) * eps && std::abs(h1) < std::abs(delta * mC) * eps) {
         Real z = 0.5;
         Real omz = (Real)1 - z;
         parameter[0] = omz * end[0][0] + z * end[1][0];
-- 
2.43.0

