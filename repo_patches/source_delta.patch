From 333ce46fbed62190b315d6a1ae94af3b6312ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 01/28] fix: consider the first valid decomposition when
 minimising the cost

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index 8c0f2a3..bda1f02 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -71,7 +71,7 @@ CubeDecomp::computeOptimalDecomp() {
     // find the optimal decomp
     std::vector<size_t> bestDecomp = validDecomps[0];
     double minCost = std::numeric_limits<double>::max();
-    for (size_t i = 1; i < validDecomps.size(); ++i) {
+    for (size_t i = 0; i < validDecomps.size(); ++i) {
       double cost = this->computeCost(validDecomps[i]);
       if (cost < minCost) {
         minCost = cost;
-- 
2.43.0


From 8171e0ecfecd226d322722017b57ef0cdb8af13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 02/28] fix: do not truncate the number of sub-domains to int

---
 cxx/CubeDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/CubeDecomp.cpp b/cxx/CubeDecomp.cpp
index bda1f02..7067dc8 100644
--- a/cxx/CubeDecomp.cpp
+++ b/cxx/CubeDecomp.cpp
@@ -55,7 +55,7 @@ CubeDecomp::computeOptimalDecomp() {
       for (size_t j = 0; j < this->ndims; ++j) {
         decomp[j] = primeNumbers[j][ decompInds[j] ];
       }
-      size_t n = std::accumulate(decomp.begin(), decomp.end(), 1, std::multiplies<size_t>());
+      size_t n = std::accumulate(decomp.begin(), decomp.end(), size_t(1), std::multiplies<size_t>());
       if (n == this->nprocs) {
         validDecomps.push_back(decomp);
       }
-- 
2.43.0


From 4ad14d493437b6139b5cf1aa05149e122d973b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 03/28] fix: wrap negative indices correctly in
 Filter::applyFilter

---
 cxx/Filter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 005b23e..a449e0c 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -236,8 +236,9 @@ Filter::applyFilter() {
         bool insideLocalDomain = true;
         for (size_t j = 0; j < this->ndims; ++j) {
           indOffset[j] = (int) inds[j] + offset[j];
-          // periodic boundary conditions
-          indOffset[j] %= this->globalDims[j];
+          // periodic boundary conditions, the index can be negative
+          indOffset[j] += (int) this->globalDims[j];
+          indOffset[j] %= (int) this->globalDims[j];
 
           // check if inside local MPI domain
           insideLocalDomain &= (indOffset[j] >= (int) this->lo[j]);
-- 
2.43.0


From cd91c78ed89151f75191aee4919aedce250c654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 04/28] fix: support stencils with offsets larger than one in
 Filter

---
 cxx/Filter.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index a449e0c..b45896b 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -70,10 +70,15 @@ Filter::Filter(const std::vector<size_t>& globalDims,
       const std::vector<int> side = this->getSideFromOffset(offset);
       const size_t numGhosts = this->getNumberOfGhostsFromOffset(offset);
 
-      std::pair< std::vector<int>, size_t > pSNG(side, numGhosts);
-      this->winNumGhosts.insert(pSNG);
+      // several offsets can share a side, the window must fit the largest
+      size_t& sideGhosts = this->winNumGhosts[side];
+      sideGhosts = (numGhosts > sideGhosts? numGhosts: sideGhosts);
+    }
 
-      this->newWindow(side);
+    // one window per side
+    for (std::map< std::vector<int>, size_t >::const_iterator it = this->winNumGhosts.begin();
+      it != this->winNumGhosts.end(); ++it) {
+      this->newWindow(it->first);
     }
 }
 
@@ -210,7 +215,11 @@ Filter::applyFilter() {
       const std::vector<int>& side = this->getSideFromOffset(offset);
 
       // apply periodic BCs, sub-domains wrap around to find the neighbor rank
-      int neighborRk = this->dcmp.getNeighborRank(this->rk, offset);
+      std::vector<int> dir(this->ndims);
+      for (size_t j = 0; j < this->ndims; ++j) {
+        dir[j] = -side[j];
+      }
+      int neighborRk = this->dcmp.getNeighborRank(this->rk, dir);
 
       MultiArrayIter wit = this->getWindowIter(neighborRk, side);
 
-- 
2.43.0


From 6e2345690cbb6d0474bcef933c92016b720f9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 05/28] fix: free the MPI window before the memory attached to
 it

---
 cxx/Filter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index b45896b..981980e 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -352,16 +352,17 @@ Filter::newWindow(const std::vector<int>& side) {
 void 
 Filter::deleteWindow(const std::vector<int>& side) {
 
+    // the window must be freed before the memory it exposes
+    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
+    if (winIt != this->windows.end()) {
+      MPI_Win_free(&winIt->second);
+    }
+
     std::map< std::vector<int>, std::pair<double*, double*> >::iterator dataIt = this->winData.find(side);
     if (dataIt != this->winData.end()) {
       MPI_Free_mem(dataIt->second.first);
       MPI_Free_mem(dataIt->second.second);
     }
-    
-    std::map< std::vector<int>, MPI_Win >::iterator winIt = this->windows.find(side);
-    if (winIt != this->windows.end()) {
-      MPI_Win_free(&winIt->second);
-    }
 
 }
 
-- 
2.43.0


From 5da2096086ea2434443971c57b6a31436bb2795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 06/28] fix: a default constructed MultiArrayIter has no terms

---
 cxx/MultiArrayIter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/MultiArrayIter.h b/cxx/MultiArrayIter.h
index 071dcac..23c2d87 100644
--- a/cxx/MultiArrayIter.h
+++ b/cxx/MultiArrayIter.h
@@ -21,7 +21,7 @@ public:
 /**
  * No argument constructor
  */
-	MultiArrayIter() {}
+	MultiArrayIter(): rowMajor(true), ntot(0), ndims(0), bigIndex(0) {}
 
 /**
  * Constructor
-- 
2.43.0


From 7108f0a5a534048bfed96cf157cc7c9625d18157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 07/28] fix: do not take the front of an empty vector in
 Filter::saveVTK

---
 cxx/Filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index 981980e..c5f9993 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -511,8 +511,8 @@ Filter::saveVTK(const std::string& filename) {
     }
 
     // gather the data
-    MPI_Gather(&this->outData.front(), nLocal, MPI_DOUBLE,
-               &recvBuffer.front(), nLocal, MPI_DOUBLE,
+    MPI_Gather(this->outData.data(), nLocal, MPI_DOUBLE,
+               recvBuffer.data(), nLocal, MPI_DOUBLE,
                0, MPI_COMM_WORLD);
 
     std::vector<double> globalField;
-- 
2.43.0


From 895b3b932a22b815950de6e98ee38008f904ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 08/28] fix: separate the field values in the Python VTK writer

---
 upwind/python/saveVTK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/saveVTK.py b/upwind/python/saveVTK.py
index 8ca5095..94cab6a 100644
--- a/upwind/python/saveVTK.py
+++ b/upwind/python/saveVTK.py
@@ -57,6 +57,6 @@ def rectilinear(fname, xAxis, yAxis, zAxis, data):
     f.write("LOOKUP_TABLE default\n")
       
     for i in range(len(flatData)):
-      f.write(f'{flatData[i]}')
+      f.write(f'{flatData[i]} ')
       if (i + 1) % 10 == 0:
           f.write('\n')
-- 
2.43.0


From db57064d4207fd0410a7e640e4e8f2f4a6f1332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 09/28] fix: gather plain arrays, the distributed array cannot
 be pickled

---
 upwind/python/upwindMPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 8cfdce2..95e51b0 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -115,7 +115,7 @@ class Upwind:
     if self.rk == 0:
       res = numpy.zeros(self.numCells, numpy.float64)
 
-    fRoot = MPI.COMM_WORLD.gather(self.f, root=0)
+    fRoot = MPI.COMM_WORLD.gather(numpy.array(self.f), root=0)
 
     if self.rk == 0:
       for rk in range(self.sz):
-- 
2.43.0


From 79da74e261320d169de3081c5c4d39a2b8cefbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 10/28] fix: update from the upwind side when a velocity is
 negative in upwindMPI.py

---
 upwind/python/upwindMPI.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/upwind/python/upwindMPI.py b/upwind/python/upwindMPI.py
index 95e51b0..c78c34a 100644
--- a/upwind/python/upwindMPI.py
+++ b/upwind/python/upwindMPI.py
@@ -83,16 +83,24 @@ class Upwind:
     # handle all local computations first
     self.f += c*self.fOld
 
-    self.f[1:, :, :] -= deltaTime*self.coeff[0]*self.fOld[:-1, :, :]
-    self.f[:, 1:, :] -= deltaTime*self.coeff[1]*self.fOld[:, :-1, :]
-    self.f[:, :, 1:] -= deltaTime*self.coeff[2]*self.fOld[:, :, :-1]
+    # cells whose upwind neighbor is local, the upwind neighbors, and the cells
+    # whose upwind neighbor is remote
+    local, up, remote = [], [], []
+    for d in self.upDirection:
+      local.append(slice(1, None) if d < 0 else slice(None, -1))
+      up.append(slice(None, -1) if d < 0 else slice(1, None))
+      remote.append(slice(None, 1) if d < 0 else slice(-1, None))
+
+    self.f[local[0], :, :] -= deltaTime*self.coeff[0]*self.fOld[up[0], :, :]
+    self.f[:, local[1], :] -= deltaTime*self.coeff[1]*self.fOld[:, up[1], :]
+    self.f[:, :, local[2]] -= deltaTime*self.coeff[2]*self.fOld[:, :, up[2]]
 
     # fetch neighboring data. This is where communication takes place
-    self.f[:1, :, :] -= deltaTime*self.coeff[0]* \
+    self.f[remote[0], :, :] -= deltaTime*self.coeff[0]* \
                         self.fOld.getData(self.neighbRk[0], self.neighbSide[0])
-    self.f[:, :1, :] -= deltaTime*self.coeff[1]* \
+    self.f[:, remote[1], :] -= deltaTime*self.coeff[1]* \
                         self.fOld.getData(self.neighbRk[1], self.neighbSide[1])
-    self.f[:, :, :1] -= deltaTime*self.coeff[2]* \
+    self.f[:, :, remote[2]] -= deltaTime*self.coeff[2]* \
                         self.fOld.getData(self.neighbRk[2], self.neighbSide[2])
 
   def checksum(self):
-- 
2.43.0


From 286e35ce5605e77808ea3cb96c752018d7020899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 11/28] fix: set ier when converting matmult's arguments to
 integers

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index fb507ee..9794f11 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -97,7 +97,7 @@ program test
         if (len_trim(argv) == 0) exit
 
         ! covnert string to integer
-        read(argv, *) val
+        read(argv, *, iostat=ier) val
 
         if (ier == 0) then
 
-- 
2.43.0


From 4cb9c96380996d316a4cb6bf3212e31cb48961b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 12/28] fix: write the VTK coordinates in the order of the
 declared dimensions (Fortran)

---
 upwind/fortran/upwind.F90       | 26 +++++++++++++-------------
 upwind/fortran/upwindF03.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08.F90    | 26 +++++++++++++-------------
 upwind/fortran/upwindF08Gpu.F90 | 26 +++++++++++++-------------
 4 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 0e2d7bc..6f4c631 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -182,10 +182,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(1) + 1, ' double'
-        do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
-        enddo
+        if (obj % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
+            do i = 1, obj % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (obj % ndims > 1) then
@@ -199,15 +204,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (obj % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(3) + 1, ' double'
-            do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
+        do i = 1, obj % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index a6ce65f..3848947 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -190,10 +190,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -207,15 +212,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index de381bc..4ab4c0b 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -194,10 +194,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -211,15 +216,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 17d9dd0..21f5db8 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -287,10 +287,15 @@ contains
             endif 
         endif 
         
-        write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(1) + 1, ' double'
-        do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
-        enddo
+        if (this % ndims > 2) then
+            write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
+            do i = 1, this % numCells(3) + 1
+                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+            enddo
+        else
+            write(iunit, '(a)') 'X_COORDINATES 1 double'
+            write(iunit, '(a)') '0.0'
+        endif
 
         write(iunit, *) 
         if (this % ndims > 1) then
@@ -304,15 +309,10 @@ contains
         endif
 
         write(iunit, *) 
-        if (this % ndims > 2) then
-            write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(3) + 1, ' double'
-            do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
-            enddo      
-        else
-            write(iunit, '(a)') 'Z_COORDINATES 1 double'
-            write(iunit, '(a)') '0.0'
-        endif
+        write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
+        do i = 1, this % numCells(1) + 1
+            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+        enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
         write(iunit, '(a)') 'SCALARS f double 1'
-- 
2.43.0


From 0c52df59731fb5c6ad816b25b1edf7719fb08b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 13/28] fix: keep the exponent letter of tiny values in the
 Fortran VTK files

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 6f4c631..d204e09 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -213,7 +213,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, obj % ntot
-            write(iunit, '(e20.7)') obj % f(i)
+            write(iunit, '(e20.7e3)') obj % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 3848947..97d92a3 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -221,7 +221,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index 4ab4c0b..e95953c 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -225,7 +225,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 21f5db8..6e7ab89 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -318,7 +318,7 @@ contains
         write(iunit, '(a)') 'SCALARS f double 1'
         write(iunit, '(a)') 'LOOKUP_TABLE default'
         do i = 1, this % ntot
-            write(iunit, '(e20.7)') this % f(i)
+            write(iunit, '(e20.7e3)') this % f(i)
         enddo
     
         close(iunit)
-- 
2.43.0


From 6b515b38fb7bb56d613faa510d6f4f021372b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:51 +0000
Subject: [PATCH 14/28] fix: start preprocessor directives in column one in
 upwindF08Gpu.F90

---
 upwind/fortran/upwindF08Gpu.F90 | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index 6e7ab89..e4a02a8 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -168,12 +168,12 @@ contains
         enddo
 
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
-        #warning "Using OpenACC kernels directive"
+#if defined(HAVE_OPENACC_KERNELS)
+#warning "Using OpenACC kernels directive"
         !$acc kernels
-    #else
+#else
         !$acc parallel loop 
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp target
         !$omp teams distribute parallel do thread_limit(_THREADS_PER_TEAM)
@@ -184,11 +184,11 @@ contains
             oldF(i) = fptr(i)
         enddo
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
+#if defined(HAVE_OPENACC_KERNELS)
         !$acc end kernels
-    #else
+#else
         !$acc end parallel loop
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp end teams distribute parallel do
         !$omp end target
@@ -198,13 +198,13 @@ contains
 
         ! iterate over the cells
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
-        #warning "Using OpenACC kernels directive"
+#if defined(HAVE_OPENACC_KERNELS)
+#warning "Using OpenACC kernels directive"
         !$acc kernels
         !$acc loop independent, private(inds, oldIndex, upI, i, j)
-    #else
+#else
         !$acc parallel loop private(inds, j, oldIndex, upI)
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)
         !$omp target
         !$omp teams distribute parallel do private(inds, j, oldIndex, upI) thread_limit(_THREADS_PER_TEAM)
@@ -242,11 +242,11 @@ contains
             enddo
         enddo
 #if defined(HAVE_OPENACC)
-    #if defined(HAVE_OPENACC_KERNELS)
+#if defined(HAVE_OPENACC_KERNELS)
         !$acc end kernels
-    #else
+#else
         !$acc end parallel loop
-    #endif
+#endif
 #elif defined(HAVE_OPENMP_OFFLOAD)  
         !$omp end teams distribute parallel do
         !$omp end target
-- 
2.43.0


From d67e27fe9afd1fc861b12baf9b6f3e51e8f3d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:03 +0000
Subject: [PATCH 15/28] fix: data race on the thread counters of the Fortran
 main programs

---
 upwind/fortran/upwind.F90       | 2 +-
 upwind/fortran/upwindF03.F90    | 2 +-
 upwind/fortran/upwindF08Gpu.F90 | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index d204e09..a5ac221 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -284,7 +284,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 97d92a3..8b457f1 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -291,7 +291,7 @@ program main
     real(r8) :: courant, dt, dx, val, chksum
     type(upwind_type) :: up
     
-!$OMP PARALLEL
+!$OMP PARALLEL PRIVATE(numThreads, maxNumThreads, threadId)
     numThreads = 1
     maxNumThreads = 1
     threadId = 0
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index e4a02a8..a3f5894 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -377,7 +377,9 @@ program main
     type(upwind_type) :: up
 #ifdef HAVE_OPENMP
     !$omp parallel
+    !$omp single
     numThreads = omp_get_num_threads()
+    !$omp end single
     !$omp end parallel
     maxNumThreads = omp_get_max_threads()
     write(*, '(A,I4,A,I4)') 'Number of OpenMP threads: ', numThreads, ' out of a max number: ', maxNumThreads
-- 
2.43.0


From 4e6a98084170dd85ca1ccbd433561c2342a254a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:06 +0000
Subject: [PATCH 16/28] fix: keep the exponent letter of tiny and huge
 coordinates in the Fortran VTK files

---
 upwind/fortran/upwind.F90       | 6 +++---
 upwind/fortran/upwindF03.F90    | 6 +++---
 upwind/fortran/upwindF08.F90    | 6 +++---
 upwind/fortran/upwindF08Gpu.F90 | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index a5ac221..bc99414 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -185,7 +185,7 @@ contains
         if (obj % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', obj % numCells(3) + 1, ' double'
             do i = 1, obj % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -196,7 +196,7 @@ contains
         if (obj % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', obj % numCells(2) + 1, ' double'
             do i = 1, obj % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + obj % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + obj % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -206,7 +206,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', obj % numCells(1) + 1, ' double'
         do i = 1, obj % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + obj % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + obj % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', obj % ntot
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 8b457f1..5b2b7f0 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -193,7 +193,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -204,7 +204,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -214,7 +214,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index e95953c..28261e1 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -197,7 +197,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -208,7 +208,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -218,7 +218,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index a3f5894..a75a483 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -290,7 +290,7 @@ contains
         if (this % ndims > 2) then
             write(iunit, '(a, i10, a)') 'X_COORDINATES ', this % numCells(3) + 1, ' double'
             do i = 1, this % numCells(3) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(3) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(3) * (i - 1)
             enddo
         else
             write(iunit, '(a)') 'X_COORDINATES 1 double'
@@ -301,7 +301,7 @@ contains
         if (this % ndims > 1) then
             write(iunit, '(a, i10, a)') 'Y_COORDINATES ', this % numCells(2) + 1, ' double'
             do i = 1, this % numCells(2) + 1
-                write(iunit, '(e20.7)') 0.0 + this % deltas(2) * (i - 1)
+                write(iunit, '(e20.7e3)') 0.0 + this % deltas(2) * (i - 1)
             enddo      
         else
             write(iunit, '(a)') 'Y_COORDINATES 1 double'
@@ -311,7 +311,7 @@ contains
         write(iunit, *) 
         write(iunit, '(a, i10, a)') 'Z_COORDINATES ', this % numCells(1) + 1, ' double'
         do i = 1, this % numCells(1) + 1
-            write(iunit, '(e20.7)') 0.0 + this % deltas(1) * (i - 1)
+            write(iunit, '(e20.7e3)') 0.0 + this % deltas(1) * (i - 1)
         enddo
 
         write(iunit, '(a, i20)') 'CELL_DATA ', this % ntot
-- 
2.43.0


From 73b6551ce9bf95226ba5c7e740675e25c0a4922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:36 +0000
Subject: [PATCH 17/28] fix: do not run on an undefined number of cells when
 the argument is not an integer (Fortran)

---
 upwind/fortran/upwind.F90       | 11 +++++++----
 upwind/fortran/upwindF03.F90    | 11 +++++++----
 upwind/fortran/upwindF08.F90    | 11 +++++++----
 upwind/fortran/upwindF08Gpu.F90 | 11 +++++++----
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index bc99414..6126e10 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -261,7 +261,10 @@ subroutine str2int(str, i, stat)
     integer, intent(out)         :: i
     integer, intent(out)         :: stat
 
-    read(str,*,iostat=stat) i
+    i = -1
+    stat = 1
+    ! list directed input also accepts separators and leaves i as it is
+    if (verify(trim(str), '+-0123456789') == 0) read(str,*,iostat=stat) i
 end subroutine str2int
 
 program main
@@ -312,9 +315,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
-        if (argc == 1) then
+        if (argc == 1 .and. ier == 0) then
             numCells = n
-        else if (argc == 2) then
+        else if (argc == 2 .and. ier == 0) then
             numTimeSteps = n
         else if (argc == 3 .and. argv == 'vtk') then
             doVtk = .TRUE.
@@ -322,7 +325,7 @@ program main
         argc = argc + 1
     enddo
 
-    if (argc < 2) then
+    if (any(numCells < 1)) then
         stop 'must specify number of cells in each direction.'
     endif
 
diff --git a/upwind/fortran/upwindF03.F90 b/upwind/fortran/upwindF03.F90
index 5b2b7f0..60318ef 100644
--- a/upwind/fortran/upwindF03.F90
+++ b/upwind/fortran/upwindF03.F90
@@ -268,7 +268,10 @@ subroutine str2int(str, i, stat)
     integer, intent(out)         :: i
     integer, intent(out)         :: stat
 
-    read(str,*,iostat=stat) i
+    i = -1
+    stat = 1
+    ! list directed input also accepts separators and leaves i as it is
+    if (verify(trim(str), '+-0123456789') == 0) read(str,*,iostat=stat) i
 end subroutine str2int
 
 program main
@@ -319,9 +322,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
-        if (argc == 1) then
+        if (argc == 1 .and. ier == 0) then
             numCells = n
-        else if (argc == 2) then
+        else if (argc == 2 .and. ier == 0) then
             numTimeSteps = n
         else if (argc == 3 .and. argv == 'vtk') then
             doVtk = .TRUE.
@@ -329,7 +332,7 @@ program main
         argc = argc + 1
     enddo
 
-    if (argc < 2) then
+    if (any(numCells < 1)) then
         stop 'must specify number of cells in each direction.'
     endif
 
diff --git a/upwind/fortran/upwindF08.F90 b/upwind/fortran/upwindF08.F90
index 28261e1..4a70835 100644
--- a/upwind/fortran/upwindF08.F90
+++ b/upwind/fortran/upwindF08.F90
@@ -273,7 +273,10 @@ subroutine str2int(str, i, stat)
     integer, intent(out)         :: i
     integer, intent(out)         :: stat
 
-    read(str,*,iostat=stat) i
+    i = -1
+    stat = 1
+    ! list directed input also accepts separators and leaves i as it is
+    if (verify(trim(str), '+-0123456789') == 0) read(str,*,iostat=stat) i
 end subroutine str2int
 
 program main
@@ -303,9 +306,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
-        if (argc == 1) then
+        if (argc == 1 .and. ier == 0) then
             numCells = n
-        else if (argc == 2) then
+        else if (argc == 2 .and. ier == 0) then
             numTimeSteps = n
         else if (argc == 3 .and. argv == 'vtk') then
             doVtk = .TRUE.
@@ -313,7 +316,7 @@ program main
         argc = argc + 1
     enddo
 
-    if (argc < 2) then
+    if (any(numCells < 1)) then
         stop 'must specify number of cells in each direction.'
     endif
 
diff --git a/upwind/fortran/upwindF08Gpu.F90 b/upwind/fortran/upwindF08Gpu.F90
index a75a483..59c6173 100644
--- a/upwind/fortran/upwindF08Gpu.F90
+++ b/upwind/fortran/upwindF08Gpu.F90
@@ -354,7 +354,10 @@ subroutine str2int(str, i, stat)
     integer, intent(out)         :: i
     integer, intent(out)         :: stat
 
-    read(str,*,iostat=stat) i
+    i = -1
+    stat = 1
+    ! list directed input also accepts separators and leaves i as it is
+    if (verify(trim(str), '+-0123456789') == 0) read(str,*,iostat=stat) i
 end subroutine str2int
 
 program main
@@ -395,9 +398,9 @@ program main
         call get_command_argument(argc, argv)
         if (len_trim(argv) == 0) exit
         call str2int(argv, n, ier)
-        if (argc == 1) then
+        if (argc == 1 .and. ier == 0) then
             numCells = n
-        else if (argc == 2) then
+        else if (argc == 2 .and. ier == 0) then
             numTimeSteps = n
         else if (argc == 3 .and. argv == 'vtk') then
             doVtk = .TRUE.
@@ -405,7 +408,7 @@ program main
         argc = argc + 1
     enddo
 
-    if (argc < 2) then
+    if (any(numCells < 1)) then
         stop 'must specify number of cells in each direction.'
     endif
 
-- 
2.43.0


From 22a382742b056abb5d25c7f0709ec8c854cae377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:36 +0000
Subject: [PATCH 18/28] fix: matmult took separators for integers and used
 undefined sizes

---
 matmult/fortran/matmult.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matmult/fortran/matmult.F90 b/matmult/fortran/matmult.F90
index 9794f11..85b03a2 100644
--- a/matmult/fortran/matmult.F90
+++ b/matmult/fortran/matmult.F90
@@ -99,7 +99,7 @@ program test
         ! covnert string to integer
         read(argv, *, iostat=ier) val
 
-        if (ier == 0) then
+        if (ier == 0 .and. verify(trim(argv), '+-0123456789') == 0) then
 
             ! is an integer
             if (argc == 1) then 
-- 
2.43.0


From ed8e53ed67aaea1a4c9fe745b6966c070c0752d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:12 +0000
Subject: [PATCH 19/28] fix: run the time steps of upwindOMP5 one after the
 other

The steps were distributed over the teams of a target region, so that with more
than one team they ran concurrently on the same arrays. The cells are
distributed instead.
---
 upwind/cxx/upwindOMP5.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/upwind/cxx/upwindOMP5.cxx b/upwind/cxx/upwindOMP5.cxx
index 685bc0c..f02ef5a 100644
--- a/upwind/cxx/upwindOMP5.cxx
+++ b/upwind/cxx/upwindOMP5.cxx
@@ -65,15 +65,14 @@ void advect(int numTimeSteps, double deltaTime) {
             map(alloc:fOldPtr[0:ntot]) map(tofrom: fPtr[0:ntot])
     {
 	
-       #pragma omp target teams distribute
 	   for (int istep = 0; istep < numTimeSteps; ++istep) {
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
                 fOldPtr[i] = fPtr[i];
             }
 
-            #pragma omp parallel for
+            #pragma omp target teams distribute parallel for
             for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From 89f3c000f322e9279b5d163498e8c4127b08eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 20/28] fix: laplacian refuses a number of dimensions below one

The library read outside its empty arrays.
---
 laplacian/cxx/laplacian.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/laplacian/cxx/laplacian.cxx b/laplacian/cxx/laplacian.cxx
index 23de62e..185fdc8 100644
--- a/laplacian/cxx/laplacian.cxx
+++ b/laplacian/cxx/laplacian.cxx
@@ -45,7 +45,12 @@ int main(int argc, char** argv) {
   bool success = args.parse(argc, argv);
   bool help = args.get<bool>("-h");
 
-  if (success && !help) {
+  if (success && !help && args.get<int>("-numDims") < 1) {
+    if (rk == 0) {
+      std::cerr << "ERROR: the number of dimensions must be at least one\n";
+    }
+  }
+  else if (success && !help) {
 
     size_t numCells = (size_t) args.get<int>("-numCells");
     size_t numDims = (size_t) args.get<int>("-numDims");
-- 
2.43.0


From 9a6c22bb3d96f89f95c6480e9909fcaa73692411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:17 +0000
Subject: [PATCH 21/28] fix: upwindAcc.cxx did not compile with GNU and OpenACC

GNU does not accept an array section in a private clause; name the array
as upwindAcc2.cxx does.
---
 upwind/cxx/upwindAcc.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upwind/cxx/upwindAcc.cxx b/upwind/cxx/upwindAcc.cxx
index adb77b6..a6b0c4a 100644
--- a/upwind/cxx/upwindAcc.cxx
+++ b/upwind/cxx/upwindAcc.cxx
@@ -67,7 +67,7 @@ public:
   copyin(fOldPtr[0:ntot]) \
   present_or_copyin(coeffPtr[0:NDIMS], dimProdPtr[0:NDIMS],	\
   upDirectionPtr[0:NDIMS], numCellsPtr[0:NDIMS], deltaTime) \
-  private(inds[0:NDIMS], upI)
+  private(inds, upI)
     for (int i = 0; i < ntot; ++i) {
 
 
-- 
2.43.0


From d3456c458cf596ca7dc2b0141d00ee20fd69bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:23 +0000
Subject: [PATCH 22/28] fix: data and private clauses for the OpenACC loop of
 upwind.F90

---
 upwind/fortran/upwind.F90 | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/upwind/fortran/upwind.F90 b/upwind/fortran/upwind.F90
index 6126e10..a70c379 100644
--- a/upwind/fortran/upwind.F90
+++ b/upwind/fortran/upwind.F90
@@ -120,7 +120,10 @@ contains
 
         ! iterate over the cells
         !$OMP PARALLEL DO PRIVATE(i, j, inds, oldIndex, upI)
-        !$acc parallel loop
+        !$acc data copyin(obj, oldF)
+        !$acc parallel loop private(i, j, inds, oldIndex, upI) &
+        !$acc copyin(obj % numCells, obj % dimProd, obj % upDirection, obj % v, obj % deltas) &
+        !$acc copy(obj % f)
         do i = 1, obj % ntot
 
             ! compute the index set of this cell
@@ -148,6 +151,7 @@ contains
                 inds(j) = oldIndex
            enddo
         enddo
+        !$acc end data
         !$OMP END PARALLEL DO
 
     end subroutine
@@ -235,6 +239,7 @@ contains
         type(upwind_type) :: obj
         integer, intent(in) :: flatIndex
         integer, intent(out) :: res(:)
+        !$acc routine seq
     
         integer :: i
         do i = 1, obj % ndims
@@ -246,6 +251,7 @@ contains
         type(upwind_type) :: obj
         integer, intent(in) :: inds(:)
         integer, intent(out) :: res
+        !$acc routine seq
         
         res = dot_product(obj % dimProd, inds - 1) + 1
         
-- 
2.43.0


From 276f7f685ee91f8de120c3fb215313e92609cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 23/28] fix: Julia advect! indexes with the instance it is
 given

It used the index functions of the global variable 'up', so that advecting
any other instance than the main program's fails or uses the wrong grid.
---
 upwind/julia/upwind.jl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/upwind/julia/upwind.jl b/upwind/julia/upwind.jl
index 6d46f63..b0b498f 100644
--- a/upwind/julia/upwind.jl
+++ b/upwind/julia/upwind.jl
@@ -84,12 +84,12 @@ function advect!(this::Upwind, deltaTime::Float64)
     for j = 1:this.ndims
         c = deltaTime * this.velocity[j] * this.upDirection[j] / this.deltas[j]
         for i = 1:this.ntot
-            inds = getIndexSet(up, i)
+            inds = getIndexSet(this, i)
             oldIndex = inds[j]
             #periodic BCs
             inds[j] += this.upDirection[j]
             inds[j] = mod1(inds[j], this.numCells[j])
-            upI = getFlatIndex(up, inds)
+            upI = getFlatIndex(this, inds)
             this.f[i] -= c * (oldF[upI] - oldF[i])
             inds[j] = oldIndex
         end
-- 
2.43.0


From 4f80ee0f8f046454d0511b6c748514d4b52dbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 24/28] fix: Julia programs write the VTK file they are asked
 for

linspace was removed in Julia 1.0 and saveVTK.jl is included, not a module,
so the vtk argument ended both programs with an UndefVarError.
---
 upwind/julia/upwind.jl  | 8 ++++----
 upwind/julia/upwind3.jl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/upwind/julia/upwind.jl b/upwind/julia/upwind.jl
index b0b498f..94ba123 100644
--- a/upwind/julia/upwind.jl
+++ b/upwind/julia/upwind.jl
@@ -126,10 +126,10 @@ function save2VTK(this::Upwind, fname::AbstractString)
     @param this instance
     @param fname file name
     """
-    xAxis = linspace(0.0, this.lengths[1], this.numCells[1] + 1)
-    yAxis = linspace(0.0, this.lengths[2], this.numCells[2] + 1)
-    zAxis = linspace(0.0, this.lengths[3], this.numCells[3] + 1)
-    saveVTK.rectilinear(fname, xAxis, yAxis, zAxis, this.f)
+    xAxis = collect(range(0.0, stop=this.lengths[1], length=this.numCells[1] + 1))
+    yAxis = collect(range(0.0, stop=this.lengths[2], length=this.numCells[2] + 1))
+    zAxis = collect(range(0.0, stop=this.lengths[3], length=this.numCells[3] + 1))
+    rectilinear(fname, xAxis, yAxis, zAxis, this.f)
 
 end
 
diff --git a/upwind/julia/upwind3.jl b/upwind/julia/upwind3.jl
index 58526c6..86b6c47 100644
--- a/upwind/julia/upwind3.jl
+++ b/upwind/julia/upwind3.jl
@@ -127,10 +127,10 @@ function save2VTK(this::Upwind, fname::AbstractString)
     @param this instance
     @param fname file name
     """
-    xAxis = linspace(0.0, this.lengths[1], this.numCells[1] + 1)
-    yAxis = linspace(0.0, this.lengths[2], this.numCells[2] + 1)
-    zAxis = linspace(0.0, this.lengths[3], this.numCells[3] + 1)
-    saveVTK.rectilinear(fname, xAxis, yAxis, zAxis, this.f)
+    xAxis = collect(range(0.0, stop=this.lengths[1], length=this.numCells[1] + 1))
+    yAxis = collect(range(0.0, stop=this.lengths[2], length=this.numCells[2] + 1))
+    zAxis = collect(range(0.0, stop=this.lengths[3], length=this.numCells[3] + 1))
+    rectilinear(fname, xAxis, yAxis, zAxis, this.f)
 
 end
 
-- 
2.43.0


From e744c9ba18d7ee33585a41f78cd3cfbdc291bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:18 +0000
Subject: [PATCH 25/28] fix: the Cython solver builds with current Cython and
 NumPy

It used np.int and print statements, which are gone; an index array was
offset with floating point numbers; saveVTK could not be called and wrote
a wrong header line and rounded coordinates.
---
 upwind/cython/upwind5.pyx | 77 ++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/upwind/cython/upwind5.pyx b/upwind/cython/upwind5.pyx
index 7bea522..3fd6bc8 100644
--- a/upwind/cython/upwind5.pyx
+++ b/upwind/cython/upwind5.pyx
@@ -1,16 +1,17 @@
 #/usr/bin/env python
 
+from __future__ import print_function
 import numpy
 cimport numpy as np
 cimport cython
 
-ITYPE = numpy.int
+ITYPE = numpy.int64
 DTYPE = numpy.double
 # "ctypedef" assigns a corresponding compile-time type to DTYPE_t. For
 # every type in the numpy module there's a corresponding compile-time
 # type with a _t-suffix.
 ctypedef np.double_t DTYPE_t
-ctypedef np.int_t ITYPE_t
+ctypedef np.int64_t ITYPE_t
 
 cdef class Upwind: 
 
@@ -37,12 +38,12 @@ cdef class Upwind:
     self.numCells = numCells
     self.ndims = len(velocity)
     self.deltas = numpy.zeros( (self.ndims,), numpy.float64 )
-    self.upDirection = numpy.zeros( (self.ndims,), numpy.float64 )
+    self.upDirection = numpy.zeros( (self.ndims,), numpy.int64 )
     self.v = velocity
     self.lengths = lengths
     self.ntot = 1
-    self.offsetMat = numpy.identity(self.ndims, numpy.int)
-    self.numCellsExt = numpy.outer(self.numCells, numpy.ones((self.ndims,), numpy.int))
+    self.offsetMat = numpy.identity(self.ndims, numpy.int64)
+    self.numCellsExt = numpy.outer(self.numCells, numpy.ones((self.ndims,), numpy.int64))
     for j in range(self.ndims):
       self.upDirection[j] = -1
       if velocity[j] < 0.: self.upDirection[j] = +1
@@ -50,7 +51,7 @@ cdef class Upwind:
       self.offsetMat[j, j] = self.upDirection[j]
       self.ntot *= numCells[j]
 
-    self.dimProd = numpy.ones( (self.ndims,), numpy.int )
+    self.dimProd = numpy.ones( (self.ndims,), numpy.int64 )
     for i in range(self.ndims - 2, -1, -1):
         # last index varies fastest
         self.dimProd[i] =  self.dimProd[i + 1] * self.numCells[i + 1]
@@ -64,17 +65,17 @@ cdef class Upwind:
     self.f[0] = 1
 
     # array of index sets for each cell
-    self.inds = numpy.zeros( (self.ndims, self.ntot), numpy.int )
+    self.inds = numpy.zeros( (self.ndims, self.ntot), numpy.int64 )
     for j in range(self.ndims):
       self.inds[j, :] = numpy.arange(self.ntot)
-      self.inds[j, :] /= self.dimProd[j]
+      self.inds[j, :] //= self.dimProd[j]
       self.inds[j, :] %= self.numCells[j]
 
     # array of index sets with offsets
     self.indsUp = self.inds.copy()
 
     # flat indices
-    self.flatIndsUp = numpy.zeros( (self.ntot,), numpy.int )
+    self.flatIndsUp = numpy.zeros( (self.ntot,), numpy.int64 )
 
   @cython.boundscheck(False)
   cpdef advect(self, double deltaTime):
@@ -99,49 +100,49 @@ cdef class Upwind:
       self.indsUp[j, :] = self.inds[j, :]
 
 
-  cdef saveVTK(self, fname):
+  cpdef saveVTK(self, fname):
     f = open(fname, 'w')
-    print >> f, "# vtk Data Version 2.0"
-    print >> f, "upwind.cxx"
-    print >> f, "ASCII"
-    print >> f, "DATASET RECTILINEAR_GRID"
-    print >> f, "DIMENSIONS"
+    print("# vtk DataFile Version 2.0", file=f)
+    print("upwind.cxx", file=f)
+    print("ASCII", file=f)
+    print("DATASET RECTILINEAR_GRID", file=f)
+    print("DIMENSIONS", file=f)
     # in VTK the first dimension varies fastest so need 
     # to invert the order of the dimensions
     if self.ndims > 2:
-      print >> f, ' %d' % (self.numCells[2] + 1),
+      print(' %d' % (self.numCells[2] + 1), end='', file=f)
     else:
-      print >> f, " 1",
+      print(" 1", end='', file=f)
     if self.ndims > 1:
-      print >> f, ' %d' % (self.numCells[1] + 1),
+      print(' %d' % (self.numCells[1] + 1), end='', file=f)
     else:
-      print >> f, " 1",
-    print >> f, ' %d\n' % (self.numCells[0] + 1)
-    print >> f, "X_COORDINATES "
+      print(" 1", end='', file=f)
+    print(' %d\n' % (self.numCells[0] + 1), file=f)
+    print("X_COORDINATES ", file=f)
     if self.ndims > 2:
-      print >> f, self.numCells[2] + 1,  " double"
+      print(self.numCells[2] + 1,  " double", file=f)
       for i in range(self.numCells[2] + 1):
-        print >> f, ' %f' % (0.0 + self.deltas[2] * i)    
+        print(0.0 + self.deltas[2] * i, file=f)
     else:
-      print >> f, "1 double"
-      print >> f, "0.0"
-    print >> f, "Y_COORDINATES "
+      print("1 double", file=f)
+      print("0.0", file=f)
+    print("Y_COORDINATES ", file=f)
     if self.ndims > 1:
-      print >> f, self.numCells[1] + 1,  " double"
+      print(self.numCells[1] + 1,  " double", file=f)
       for i in range(self.numCells[1] + 1): 
-        print >> f, ' %f' % (0.0 + self.deltas[1] * i)  
+        print(0.0 + self.deltas[1] * i, file=f)
     else:
-      print >> f, "1 double"
-      print >> f, "0.0"
-    print >> f, "Z_COORDINATES "
-    print >> f, self.numCells[0] + 1, " double"
+      print("1 double", file=f)
+      print("0.0", file=f)
+    print("Z_COORDINATES ", file=f)
+    print(self.numCells[0] + 1, " double", file=f)
     for i in range(self.numCells[0] + 1):
-      print >> f, ' %f' % (0.0 + self.deltas[0] * i)
-    print >> f, "CELL_DATA %d" % self.ntot
-    print >> f, "SCALARS f double 1"
-    print >> f, "LOOKUP_TABLE default"
+      print(0.0 + self.deltas[0] * i, file=f)
+    print("CELL_DATA %d" % self.ntot, file=f)
+    print("SCALARS f double 1", file=f)
+    print("LOOKUP_TABLE default", file=f)
     for i in range(self.ntot):
-      print >> f, self.f[i]
+      print(self.f[i], file=f)
     f.close()
 
   cpdef checksum(self):
@@ -149,4 +150,4 @@ cdef class Upwind:
 
   cpdef printOut(self):
     for i in range(self.ntot):
-      print i, ' ', self.f[i]
+      print(i, ' ', self.f[i])
-- 
2.43.0


From 0ecda7e2892e7b27c10d30e9ac1e5b18e4f7eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 26/28] fix: Filter::saveVTK does nothing when there is no
 valid decomposition

The domain decomposition is empty in that case and gathering the field
dereferenced it (testStencil2d -vtk on 3 processes crashed).
---
 cxx/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/Filter.cpp b/cxx/Filter.cpp
index c5f9993..7e511b5 100644
--- a/cxx/Filter.cpp
+++ b/cxx/Filter.cpp
@@ -498,6 +498,11 @@ Filter::computeCheckSum(const std::string& inOrOut) {
 void 
 Filter::saveVTK(const std::string& filename) {
 
+    if (!this->validDecomp) {
+      // there are no data to save
+      return;
+    }
+
     size_t ntot = 1;
     for (size_t i = 0; i < this->ndims; ++i) {
       ntot *= globalDims[i];
-- 
2.43.0


From 7f7fb2e113f2acb9b80318e7de37f116e39b672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:51 +0000
Subject: [PATCH 27/28] fix: analyse.py dropped the days from the time of jobs
 longer than one day

---
 cylc-src/julia_vs_cxx/analyse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cylc-src/julia_vs_cxx/analyse.py b/cylc-src/julia_vs_cxx/analyse.py
index 8577b65..174810f 100644
--- a/cylc-src/julia_vs_cxx/analyse.py
+++ b/cylc-src/julia_vs_cxx/analyse.py
@@ -51,7 +51,7 @@ for sf in status_files:
   job_names.append(name)
   ncells.append(nc)
   try:
-    exec_times.append( (exit_time - init_time).seconds )
+    exec_times.append( int((exit_time - init_time).total_seconds()) )
   except:
     exec_times.append(-1)
 
-- 
2.43.0


From 0586c1a450dc8819c81d4abafa095f7c183160b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 28/28] fix: fdi_plot.py runs with Python 3

---
 scripts/fdi_plot.py.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/fdi_plot.py.in b/scripts/fdi_plot.py.in
index 55c3ee0..e36082c 100644
--- a/scripts/fdi_plot.py.in
+++ b/scripts/fdi_plot.py.in
@@ -4,6 +4,7 @@
 Plot solution
 """
 
+from __future__ import print_function
 import argparse
 import vtk
 from numpy import linspace
@@ -30,7 +31,7 @@ reader.Update()
 pdata = reader.GetOutput()
 cellData = pdata.GetCellData()
 fmin, fmax = cellData.GetArray(0).GetRange()
-print 'min/max field values: {0} {1}'.format(fmin, fmax)
+print('min/max field values: {0} {1}'.format(fmin, fmax))
 lut.SetTableRange(fmin, fmax)
 lut.SetNumberOfTableValues(3)
 lut.SetTableValue(0, ( 0., 0.,  1., 1.))  # blue
@@ -53,7 +54,7 @@ mapper.Update()
 
 numScalars = reader.GetNumberOfScalarsInFile()
 for i in range(numScalars):
-    print 'scalar field: ', reader.GetScalarsNameInFile(i)
+    print('scalar field: ', reader.GetScalarsNameInFile(i))
 
 # Create the renderer, the render window, and the interactor. The
 # renderer draws into the render window, the interactor enables mouse-
-- 
2.43.0

