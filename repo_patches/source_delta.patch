From 5f75861b233b8fd2d734557afaa5c183edcf9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 01/24] Add observation hooks (src/Verif.hh), off unless
 TYCHO2_VERIF is defined

---
 src/CommSides.cc       |  2 ++
 src/Main.cc            |  2 ++
 src/Sweeper.cc         |  4 ++++
 src/SweeperTraverse.cc |  4 ++++
 src/Transport.cc       |  4 ++++
 src/Util.cc            |  3 +++
 src/Verif.hh           | 51 ++++++++++++++++++++++++++++++++++++++++++
 7 files changed, 70 insertions(+)
 create mode 100644 src/Verif.hh

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..04f6d9c 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -38,6 +38,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "CommSides.hh"
 #include "Global.hh"
+#include "Verif.hh"
 #include "Comm.hh"
 #include <vector>
 #include <algorithm>
@@ -242,5 +243,6 @@ void CommSides::commSides(PsiData &psi, PsiBoundData &psiBound)
                                MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
     }
+    VERIF_HOOK(exchanged();)
 }
 
diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..3ebaec4 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -54,6 +54,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "SweeperTraverse.hh"
 #include "SweeperPBJ.hh"
 #include "SweeperSchur.hh"
+#include "Verif.hh"
 #include <signal.h>
 #include <execinfo.h>
 #include <omp.h>
@@ -263,6 +264,7 @@ int main(int argc, char *argv[])
     // Create cross sections for each cell
     Problem::createCrossSections(g_sigmaT, g_sigmaS, sigmaT1, sigmaS1, 
                                  sigmaT2, sigmaS2);
+    VERIF_HOOK(init();)
     
     
     // Setup sweeper
diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..c8c9f41 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -42,6 +42,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "SourceIteration.hh"
 #include "Quadrature.hh"
 #include "Global.hh"
+#include "Verif.hh"
 #include "SweepSchedule.hh"
 #include "Comm.hh"
 #include "Transport.hh"
@@ -347,6 +348,7 @@ Sweeper::Sweeper()
             new SweepSchedule(angles, g_maxCellsPerStep, g_intraAngleP, 
                               g_interAngleP);
     }
+    VERIF_HOOK(schedule();)
 }
 
 
@@ -373,6 +375,7 @@ void Sweeper::solve()
 void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
 {
     UNUSED_VARIABLE(zeroPsiBound);
+    VERIF_HOOK(sweepBegin("full");)
 
 
     // Time the sweep
@@ -512,5 +515,6 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
         printf("     Sweeper Timer (other): %fs\n", totalTime - computationTime);
         printf("     Sweeper Timer (total time): %fs\n", totalTime);
     }
+    VERIF_HOOK(sweepEnd("full");)
 }
 
diff --git a/src/SweeperTraverse.cc b/src/SweeperTraverse.cc
index 21c4a0d..82ba5de 100644
--- a/src/SweeperTraverse.cc
+++ b/src/SweeperTraverse.cc
@@ -42,6 +42,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "Problem.hh"
 #include "SweepData.hh"
 #include "Global.hh"
+#include "Verif.hh"
 #include "GraphTraverser.hh"
 #include "Priorities.hh"
 #include "PsiData.hh"
@@ -56,6 +57,7 @@ SweeperTraverse::SweeperTraverse()
 {
     c_priorities.resize(g_nCells, g_nAngles);
     Priorities::calcPriorities(c_priorities);
+    VERIF_HOOK(priorities(c_priorities);)
 }
 
 
@@ -85,6 +87,8 @@ void SweeperTraverse::sweep(PsiData &psi, const PsiData &source,
     UNUSED_VARIABLE(zeroPsiBound);
     PsiBoundData psiBound;
     SweepData sweepData(psi, source, psiBound, c_priorities);
+    VERIF_HOOK(sweepBegin("full");)
     g_graphTraverserForward->traverse(g_maxCellsPerStep, sweepData);
+    VERIF_HOOK(sweepEnd("full");)
 }
 
diff --git a/src/Transport.cc b/src/Transport.cc
index d41d8b0..f68f190 100644
--- a/src/Transport.cc
+++ b/src/Transport.cc
@@ -40,6 +40,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "Transport.hh"
 #include "Assert.hh"
 #include "Global.hh"
+#include "Verif.hh"
 #include "TychoMesh.hh"
 #include "PsiData.hh"
 #include <iostream>
@@ -730,6 +731,9 @@ void solve(const UINT cell, const UINT angle, const double sigmaTotal,
         for (UINT vertex = 0; vertex < g_nVrtxPerCell; ++vertex)
             localPsi(vertex, group) = solution[vertex];
     }
+    
+    VERIF_HOOK(solved(cell, angle, sigmaTotal, localPsiBound, localSource, 
+                      localPsi);)
 }
 
 /*
diff --git a/src/Util.cc b/src/Util.cc
index 6fe1f20..04d53e3 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -39,6 +39,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "Util.hh"
 #include "Global.hh"
+#include "Verif.hh"
 #include "Comm.hh"
 #include "SweepData.hh"
 #include "CommSides.hh"
@@ -141,7 +142,9 @@ void sweepLocal(PsiData &psi, const PsiData &source, PsiBoundData &psiBound)
     const UINT maxComputePerStep = std::numeric_limits<uint64_t>::max();
     SweepData sweepData(psi, source, psiBound, priorities);
     
+    VERIF_HOOK(sweepBegin("local");)
     g_graphTraverserForward->traverse(maxComputePerStep, sweepData);
+    VERIF_HOOK(sweepEnd("local");)
 }
 
 
diff --git a/src/Verif.hh b/src/Verif.hh
new file mode 100644
index 0000000..1102c45
--- /dev/null
+++ b/src/Verif.hh
@@ -0,0 +1,51 @@
+/*
+    Verif.hh
+
+    Observation hooks for external verification harnesses.
+    They expand to nothing unless TYCHO2_VERIF is defined.
+    With TYCHO2_VERIF defined, the harness supplies the functions.
+*/
+
+#ifndef __VERIF_HH__
+#define __VERIF_HH__
+
+#ifdef TYCHO2_VERIF
+
+#include "Global.hh"
+#include "Mat.hh"
+
+namespace Verif
+{
+    // Mesh, quadrature and cross sections are ready
+    void init();
+
+    // Precomputed schedules (g_sweepSchedule) are ready
+    void schedule();
+
+    // Priorities of (cell, angle) pairs are ready
+    void priorities(const Mat2<UINT> &priorities);
+
+    // A sweep begins or ends.  Kind is "full" or "local".
+    void sweepBegin(const char *kind);
+    void sweepEnd(const char *kind);
+
+    // An exchange of partition boundary data has finished
+    void exchanged();
+
+    // A (cell, angle) pair was solved
+    void solved(const UINT cell, const UINT angle, const double sigmaTotal,
+                const Mat3<double> &localPsiBound, 
+                const Mat2<double> &localSource,
+                const Mat2<double> &localPsi);
+}
+
+#define VERIF_HOOK(x) Verif::x
+
+#else
+
+#define VERIF_HOOK(x) 
+
+#endif
+
+
+#endif
-- 
2.43.0


From 8ee9cbabcc22a1f65819fa97cdfcd0618f543cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 02/24] fix: keep the buffers of pending sends and match sides
 by number when linking partition sides

The non-blocking sends reused one stack buffer, and the receiver assumed that
both ranks go through their common sides in the same order.
---
 src/TychoMeshIO.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..f5e4ec9 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,11 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // Messages carry the global side because the two ranks do not go through
+    // their common sides in the same order.
+    // The send buffers must stay untouched until the sends are complete.
     vector<MPI_Request> mpiRequests;
+    Mat2<UINT> sideCellFace(3, c_nSides);
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,10 +308,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT side = c_side(cell, face);
+            UINT *buffer = &sideCellFace(0, side);
+            buffer[0] = c_lGSides(side);
+            buffer[1] = cell;
+            buffer[2] = face;
+            MPI_Isend(buffer, 3, MPI_UINT64_T, adjProc, 0, 
                       MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
@@ -321,11 +327,12 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT buffer[3];
+            MPI_Recv(buffer, 3, MPI_UINT64_T, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT adjSide = getGLSide(buffer[0]);
+            c_adjCellFromSide(adjSide) = buffer[1];
+            c_adjFaceFromSide(adjSide) = buffer[2];
         }
     }}
     
-- 
2.43.0


From d2d0ee03b555f4df57e63c9cda4b064ddb99eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 03/24] fix: getAdjFace returns the adjacent face instead of
 the adjacent cell

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 9a5266cf06dfb7be252d3ad52dedc21601479e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 04/24] fix: keep the send buffers of the schedule sweepers
 until their sends complete

The sizes were sent from a local variable and the side data was cleared while
the non-blocking sends could still be reading it.
---
 src/Sweeper.cc | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index c8c9f41..d4105c8 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -110,10 +110,14 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
     send
     
     Send side data.
+    The data structures must stay untouched until the sends have completed.
+    Call clearSent after that.
 */
 static
 void send(const UINT step, const UINT angleGroup,
-          Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
+          const Mat2<vector<UINT>> &commSidesAngles, 
+          const Mat2<vector<double>> &commPsi,
+          Mat2<vector<UINT>> &commSizes,
           vector<MPI_Request> &mpiRequests)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
@@ -122,7 +126,8 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
+            vector<UINT> &nSidesData = commSizes(angleGroup, proc);
+            nSidesData = {nSides, nData};
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
@@ -137,7 +142,23 @@ void send(const UINT step, const UINT angleGroup,
                                         tag2, mpiRequest);
                 mpiRequests.push_back(mpiRequest);
             }
-            
+        }
+    }
+}
+
+
+/*
+    clearSent
+    
+    Clears the side data of this step after the sends have completed.
+*/
+static
+void clearSent(const UINT step, const UINT angleGroup,
+               Mat2<vector<UINT>> &commSidesAngles, 
+               Mat2<vector<double>> &commPsi)
+{
+    if (step < g_sweepSchedule[angleGroup]->nSteps()) {
+        for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
             commSidesAngles(angleGroup, proc).clear();
             commPsi(angleGroup, proc).clear();
         }
@@ -393,6 +414,7 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
     // Communication variables
     Mat2<vector<UINT>> commSidesAngles(g_nAngleGroups, Comm::numRanks());
     Mat2<vector<double>> commPsi(g_nAngleGroups, Comm::numRanks());
+    Mat2<vector<UINT>> commSizes(g_nAngleGroups, Comm::numRanks());
     PsiBoundData psiBound;
     
     
@@ -426,7 +448,8 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             vector<MPI_Request> mpiRequests;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, commSizes, 
+                     mpiRequests);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -434,6 +457,10 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             }
             
             MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+            
+            for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
+                clearSent(step, angleGroup, commSidesAngles, commPsi);
+            }
             //Comm::barrier();
         }
     }
@@ -475,10 +502,12 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, commSizes, 
+                     mpiRequests);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
+                clearSent(step, angleGroup, commSidesAngles, commPsi);
                 
                 
                 // Barrier all MPI ranks for thread 'commNumber'
-- 
2.43.0


From d7d7456dac8e4a42043544a8019c7ef306941504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 05/24] fix: do not use blocking sends before the receives when
 building a sweep schedule

All neighbors sent first and received afterwards, which deadlocks when MPI does
not buffer the messages.
---
 src/Comm.cc          | 13 +++++++
 src/Comm.hh          |  2 ++
 src/SweepSchedule.cc | 83 +++++++++++++++++++++++++++++++++++---------
 3 files changed, 81 insertions(+), 17 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 549903b..73794e2 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -198,6 +198,19 @@ void sendUIntVector(const std::vector<UINT> &buffer, int destination)
 }
 
 
+/*
+    iSendUIntVector
+    
+    Asynchronous send of a vector of integer values.
+    Received by recvUInt or recvUIntVector without a tag.
+*/
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request)
+{
+    iSendUIntVector(buffer, destination, INT_TAG, request);
+}
+
+
 /*
     iSendUIntVector
     
diff --git a/src/Comm.hh b/src/Comm.hh
index 3472dbe..19261ca 100644
--- a/src/Comm.hh
+++ b/src/Comm.hh
@@ -60,6 +60,8 @@ void gmax(UINT &x);
 
 void sendUInt(UINT i, int destination);
 void sendUIntVector(const std::vector<UINT> &buffer, int destination);
+void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
+                     MPI_Request &request);
 void iSendUIntVector(const std::vector<UINT> &buffer, int destination, 
                      int tag, MPI_Request &request);
 void iSendDoubleVector(const std::vector<double> &buffer, int destination, 
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..6609f27 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -43,6 +43,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "TychoMesh.hh"
 #include "Mat.hh"
 #include "Priorities.hh"
+#include "Assert.hh"
 
 #include <cmath>
 #include <algorithm>
@@ -235,6 +236,47 @@ UINT glAngle(const vector<UINT> &angles, const UINT gAngle)
 }
 
 
+/*
+    sendVectors
+    
+    Starts sending to each neighbor the number of entries followed by the 
+    entries themselves if there are any.
+    The sends can not be blocking since all neighbors send before they receive.
+    Neither sizes nor data can change before waitVectors is called.
+*/
+static
+void sendVectors(const vector<vector<UINT> > &data, vector<vector<UINT> > &sizes,
+                 const UINT entrySize, const set<UINT> &neighborProcs,
+                 vector<MPI_Request> &mpiRequests)
+{
+    sizes.resize(data.size());
+    
+    for (UINT proc : neighborProcs) {
+        MPI_Request mpiRequest;
+        sizes[proc].assign(1, data[proc].size() / entrySize);
+        Comm::iSendUIntVector(sizes[proc], proc, mpiRequest);
+        mpiRequests.push_back(mpiRequest);
+        if (data[proc].size() > 0) {
+            Comm::iSendUIntVector(data[proc], proc, mpiRequest);
+            mpiRequests.push_back(mpiRequest);
+        }
+    }
+}
+
+
+/*
+    waitVectors
+*/
+static
+void waitVectors(vector<MPI_Request> &mpiRequests)
+{
+    int result = MPI_Waitall(mpiRequests.size(), mpiRequests.data(), 
+                             MPI_STATUSES_IGNORE);
+    Insist(result == MPI_SUCCESS, "SweepSchedule MPI error.\n");
+    mpiRequests.clear();
+}
+
+
 /*
     updateLevels
 */
@@ -268,9 +310,12 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                vector<vector<UINT> > &commSidesAnglesLevels,
+                vector<vector<UINT> > &commSizes,
+                vector<MPI_Request> &mpiRequests)
 {
-    vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
+    commSidesAnglesLevels.assign(Comm::numRanks(), vector<UINT>());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -291,13 +336,7 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
         }
     }
     
-    for(UINT proc : neighborProcs) {
-        UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
-        }
-    }
+    sendVectors(commSidesAnglesLevels, commSizes, 3, neighborProcs, mpiRequests);
 }
 
 
@@ -346,9 +385,12 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                vector<vector<UINT> > &commSidesAngles,
+                vector<vector<UINT> > &commSizes,
+                vector<MPI_Request> &mpiRequests)
 {
-    vector<vector<UINT> > commSidesAngles(Comm::numRanks());
+    commSidesAngles.assign(Comm::numRanks(), vector<UINT>());
     
     for (const SweepSchedule::Work &work : workDone) {
         UINT cell = work.getCell();
@@ -367,12 +409,11 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
         }
     }
 
+    sendVectors(commSidesAngles, commSizes, 2, neighborProcs, mpiRequests);
+
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
-        UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+        if (commSidesAngles[proc].size() > 0) {
             stepSendProcs.push_back(proc);
         }
     }
@@ -446,9 +487,13 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        vector<vector<UINT> > commData, commSizes;
+        vector<MPI_Request> mpiRequests;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, 
+                   commData, commSizes, mpiRequests);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        waitVectors(mpiRequests);
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +538,13 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        vector<vector<UINT> > commData, commSizes;
+        vector<MPI_Request> mpiRequests;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   commData, commSizes, mpiRequests);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        waitVectors(mpiRequests);
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From ec832cd29d0a5a00092b416bf1a4b97c5dbbacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 06/24] fix: allow angle groups without angles and partitions
 without cells in SweepSchedule

The first cell level was read even when there is none, which aborts runs with
more threads than angles and runs with an empty partition.
---
 src/SweepSchedule.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 6609f27..f379ee3 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -547,8 +547,8 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         waitVectors(mpiRequests);
     }
     
-    UINT nlevels = cellLevels[0];
-    for(unsigned i = 1; i < cellLevels.size(); i++) {
+    UINT nlevels = 0;
+    for(unsigned i = 0; i < cellLevels.size(); i++) {
         nlevels = std::max(nlevels, cellLevels[i]);
     }
     Comm::gmax(nlevels);
-- 
2.43.0


From aae42d05fd35e46f60fdd62b827665ff3b2391f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 07/24] fix: depth-first priorities of cells without
 off-partition descendants stay zero

The shift by -1 wrapped around below zero and gave those cells the highest
priorities of all.
---
 src/Priorities.cc    | 4 +++-
 src/SweepSchedule.cc | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 084fc97..6590e68 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -244,8 +244,10 @@ public:
             }
             
             else if (bdryType[face] == BoundaryType_OutInt) {
+                // Priority 0 means that no descendant leaves the partition
                 UINT adjCell = adjCellsSides[face];
-                priority = c_priorities(adjCell, angle) + c_parentShift;
+                UINT adjPriority = c_priorities(adjCell, angle);
+                priority = (adjPriority > 0) ? adjPriority + c_parentShift : 0;
             }
             
             c_priorities(cell, angle) = max(c_priorities(cell, angle), priority);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index f379ee3..a30a8f0 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -603,9 +603,12 @@ void updatePriorities(Mat2<UINT> &priorities,
             if (hasParent(angle, cell, face) &&
                 adjCell != TychoMesh::BOUNDARY_FACE) // on processor
             {
+                // Priority 0 means that no descendant leaves the partition
+                UINT priority = priorities(angle, cell);
+                if (priority > 0)
+                    priority += parentShift;
                 priorities(angle, adjCell) =
-                    max(priorities(angle, adjCell),
-                        priorities(angle, cell) + parentShift);
+                    max(priorities(angle, adjCell), priority);
             }
         }
     }
-- 
2.43.0


From 14130a1422c3486b89a2c3178c2708a75cbadea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 08/24] fix: keep receiving while sends are pending with the
 CapsaicinTwoSided MPI type

Neighbors that wait for their sends before they receive deadlock when MPI does
not buffer the messages.
---
 src/GraphTraverser.cc | 38 +++++++++++++++++++++++++++++---------
 src/GraphTraverser.hh |  5 ++++-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..b207280 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,11 +180,12 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    The sends are only started here.  They are done after waitSend2Sided.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers, 
+    vector<MPI_Request> &mpiSendRequests) const
 {
-    vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
     int mpiError;
 
@@ -206,13 +207,26 @@ void GraphTraverser::sendData2Sided(
             mpiSendRequests.push_back(request);
         }
     }
-    
-    
-    // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
+}
+
+
+/*
+    waitSend2Sided
+
+    Waits until all sends are done.
+    Keeps receiving data since adjacent ranks could be waiting on their sends.
+*/
+void GraphTraverser::waitSend2Sided(vector<MPI_Request> &mpiSendRequests, 
+                                    vector<char> &dataPackets) const
+{
+    int done = (mpiSendRequests.size() == 0);
+    while (!done) {
+        int mpiError = MPI_Testall(mpiSendRequests.size(), 
+                                   mpiSendRequests.data(), &done, 
+                                   MPI_STATUSES_IGNORE);
         Insist(mpiError == MPI_SUCCESS, "");
+        if (!done)
+            recvData2Sided(dataPackets);
     }
 }
 
@@ -668,13 +682,19 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                 sendAndRecvData(sendBuffers1, dataPackets, commDark, killComm);
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
+                vector<MPI_Request> mpiSendRequests;
+                
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, mpiSendRequests);
                 sendTimer.stop();
 
                 recvTimer.start();
                 recvData2Sided(dataPackets);
                 recvTimer.stop();
+                
+                sendTimer.start();
+                waitSend2Sided(mpiSendRequests, dataPackets);
+                sendTimer.stop();
             }
             else {
                 Insist(false, "MPI type not recognized.");
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..c9df388 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,10 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<MPI_Request> &mpiSendRequests) const;
+    void waitSend2Sided(std::vector<MPI_Request> &mpiSendRequests, 
+                        std::vector<char> &dataPackets) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From 162f507e167dfa3c20caf1cf00487782b5b21167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 09/24] fix: RefineSerialMesh divides by zero on meshes with
 fewer than 1000 cells

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..c0d650e 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % (coarseMesh.c_numCells / 1000 + 1) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 03556cf33ec642d784280e9f799c036c356569d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 10/24] fix: the hat source is NaN for a mesh node at the
 center of the domain

---
 src/Problem.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..c3f2ba9 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -69,7 +69,12 @@ void hatSource(PsiData &source)
         double c = sqrt(x*x + y*y + z*z);
         
         for(UINT group = 0; group < g_nGroups; group++) {
-            if(c <= 30.0) {
+            if(c == 0.0) {
+                // The derivative does not exist at the top of the hat
+                source(group, vrtx, angle, cell) = 
+                    g_sigmaT[cell] - g_sigmaS[cell];
+            }
+            else if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
                     - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
-- 
2.43.0


From e091d46805a427318bdb9adf8cbd552dead4c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 11/24] fix: print the line number in deck errors

---
 src/KeyValueReader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..a492f30 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -329,7 +329,7 @@ void KeyValueReader::readFile(const string &filename)
         if (!parseOk) {
             totalParseOk = false;
             string errorString = "Parse error on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
@@ -337,7 +337,7 @@ void KeyValueReader::readFile(const string &filename)
         else if (findKey(c_data->c_keyVector, key) != KEY_NOT_FOUND) {
             totalParseOk = false;
         	string errorString = "Duplicate key on line ";
-            errorString += lineNum;
+            errorString += to_string(lineNum);
             c_data->printMessage(errorString);
         }
         
-- 
2.43.0


From 8024e339ba6e5bfc80811fdc3cba1553a5ed09f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 12/24] fix: refuse deck numbers followed by other characters

For example 3.7 or 3e2 for an integer was read as 3.
---
 src/KeyValueReader.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index a492f30..c0e726f 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -410,7 +410,11 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t pos;
+        int converted = stoi(valueString, &pos);
+        if (pos != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to int");
@@ -438,7 +442,11 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t pos;
+        double converted = stod(valueString, &pos);
+        if (pos != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to double");
@@ -466,7 +474,11 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t pos;
+        float converted = stof(valueString, &pos);
+        if (pos != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to float");
-- 
2.43.0


From 2e2ee4b04f93f194601b6fbc659681cf50969ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 13/24] fix: refuse an unknown GaussElim method in the deck

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index 3ebaec4..d4c5c04 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -175,7 +175,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
-
+    else
+        Insist(false, "Gaussian elimination method not recognized.");
 }
 
 
-- 
2.43.0


From 356fba5831b8eafc35f4b0b6d3b883ab27bfb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 14/24] fix: refuse deck integers outside their range

Unknown priorities were silently ignored, negative numbers were converted to
huge unsigned ones, and a work limit of zero never ended.
---
 src/Main.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index d4c5c04..d395fe4 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -122,6 +122,13 @@ void readInput(const string &inputFileName,
     kvr.getDouble("DD_ErrMax", g_ddErrMax);
     kvr.getBool("SourceIteration", g_useSourceIteration);
        
+    Insist(iterMax >= 0, "iterMax out of range.");
+    Insist(ddIterMax >= 0, "DD_IterMax out of range.");
+    Insist(maxCellsPerStep > 0, "maxCellsPerStep out of range.");
+    Insist(intraAngleP >= 0 && intraAngleP <= 4, "intraAngleP out of range.");
+    Insist(interAngleP >= 0 && interAngleP <= 2, "interAngleP out of range.");
+    Insist(nGroups > 0, "nGroups out of range.");
+       
     g_snOrder = snOrder;
     g_iterMax = iterMax;
     g_maxCellsPerStep = maxCellsPerStep;
-- 
2.43.0


From 3be19d091fc38a80cc634b56dc50606c3de42972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 15/24] fix: a direction parallel to a face is neither incoming
 nor outgoing

Rounding decided the sign of Omega dot N for such faces, so that the two cells
of a face could both be upwind or cells around an edge could depend on each
other in a cycle.  Structured meshes have such faces.
---
 src/CommSides.cc      |  2 +-
 src/GraphTraverser.cc | 10 ++++------
 src/TychoMesh.cc      |  9 +++++++++
 src/TychoMesh.hh      |  2 +-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 04f6d9c..ac3beb1 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -93,7 +93,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index b207280..d2c04de 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -607,12 +607,10 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             bdryType[face] = BoundaryType_InInt;
                         }
                         
-                        if (c_direction == Direction_Forward) {
-                            isOutgoingWrtDirection[face] = false;
-                        }
-                        else {
-                            isOutgoingWrtDirection[face] = true;
-                        }
+                        // A face parallel to the angle is neither
+                        isOutgoingWrtDirection[face] = 
+                            c_direction != Direction_Forward && 
+                            g_tychoMesh->isIncoming(angle, cell, face);
                     }
                 }
                 
diff --git a/src/TychoMesh.cc b/src/TychoMesh.cc
index dc206c4..477d338 100644
--- a/src/TychoMesh.cc
+++ b/src/TychoMesh.cc
@@ -45,6 +45,10 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 
 using namespace std;
 
+// Smaller magnitudes of Omega dot N are treated as zero.
+// Such a face is neither incoming nor outgoing.
+static const double OMEGA_DOT_N_TOL = 1.e-10;
+
 
 /*
     Returns c = a x b
@@ -219,6 +223,11 @@ TychoMesh::TychoMesh(const std::string &filename)
             c_omegaDotN(angle, cell, face) = omega[0] * normal[0] + 
                                              omega[1] * normal[1] + 
                                              omega[2] * normal[2];
+            
+            // The direction lies in the face except for rounding.
+            // No flux crosses the face, and both cells have to agree on that.
+            if (fabs(c_omegaDotN(angle, cell, face)) < OMEGA_DOT_N_TOL)
+                c_omegaDotN(angle, cell, face) = 0.0;
         }}
     }
     
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..e1edc30 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -107,7 +107,7 @@ public:
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
         { return getOmegaDotN(angle, cell, face) > 0; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < 0; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
-- 
2.43.0


From 54d981dea80dff2d960dc1f777a93692fc091a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 16/24] fix: the relative difference between groups uses the
 largest flux of all ranks

It depended on the partition and was NaN with an empty partition.
---
 src/Util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Util.cc b/src/Util.cc
index 04d53e3..a3ef173 100644
--- a/src/Util.cc
+++ b/src/Util.cc
@@ -74,9 +74,9 @@ double diffBetweenGroups(const PsiData &psi)
         }
     }}}
     
-    maxDiff = maxDiff / maxEntry;
     Comm::gmax(maxDiff);
-    return maxDiff;
+    Comm::gmax(maxEntry);
+    return maxDiff / maxEntry;
 }
 
 
-- 
2.43.0


From 2273ba8e8a509ce156cc7b0b79f44f3123563849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 17/24] fix: number the vertices of a face by their
 coordinates, so that both sides agree

---
 src/TychoMeshIO.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index f5e4ec9..3b5e494 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -288,8 +288,8 @@ void TychoMesh::readTychoMesh(const std::string &filename)
             if(partData.faceData[face].boundingNodes[order[fvrtx]] == 
                partData.cellData[cell].boundingNodes[cvrtx])
             {
-                c_faceToCellVrtx(cell, lface, order[fvrtx]) = cvrtx;
-                c_cellToFaceVrtx(cell, lface, cvrtx) = order[fvrtx];
+                c_faceToCellVrtx(cell, lface, fvrtx) = cvrtx;
+                c_cellToFaceVrtx(cell, lface, cvrtx) = fvrtx;
             }
         }}
     }}
-- 
2.43.0


From c2a4b18b0561a0ca66bff66dd1601525dd841f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 18/24] fix: b-levels for the priorities are those of the
 entire graph

---
 src/Priorities.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 6590e68..99ae365 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -397,15 +397,17 @@ namespace Priorities
 */
 void calcPriorities(Mat2<UINT> &priorities)
 {
-    const bool doComm = false;
-    GraphTraverser graphTraverser(Direction_Backward, doComm, sizeof(UINT));
+    // B-levels are those of the entire graph
+    // Neighbor priorities only propagate within the partition
+    GraphTraverser globalTraverser(Direction_Backward, true, sizeof(UINT));
+    GraphTraverser localTraverser(Direction_Backward, false, sizeof(UINT));
     
     UINT numAngles = g_nAngles;
     Mat2<UINT> bLevels(g_nCells, numAngles);
     Mat2<UINT> sideBLevels(g_tychoMesh->getNSides(), numAngles);
     
     UINT maxBLevel = calcBLevels(bLevels, sideBLevels, 
-                                 &graphTraverser);
+                                 &globalTraverser);
     
     
     // Calculate intra-angle priorities
@@ -419,15 +421,15 @@ void calcPriorities(Mat2<UINT> &priorities)
         break;
       case 2:  // breadth-first dependent seeking
         neighborPriorities(sideBLevels, 1, 0, 0, 
-                           priorities, &graphTraverser);
+                           priorities, &localTraverser);
         break;
       case 3:  // depth-first dependent seeking
         neighborPriorities(sideBLevels, 1, maxBLevel, -1, 
-                           priorities, &graphTraverser);
+                           priorities, &localTraverser);
         break;
       case 4:  // strict depth-first dependent seeking
         neighborPriorities(sideBLevels, maxBLevel, maxBLevel, -1, 
-                           priorities, &graphTraverser);
+                           priorities, &localTraverser);
         break;
     }
     
-- 
2.43.0


From 035a26071ce6869da9b7dd28ad376069124fd028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 19/24] fix: RefineSerialMesh compares node coordinates exactly

The comparison with a tolerance is not transitive: in meshes with nodes that
are nearly in a plane the map misses existing nodes, and the refined mesh
falls apart along the faces of the coarse cells.
---
 util/RefineSerialMesh.cc | 38 +++++++++-----------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index c0d650e..b89d0d1 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -63,28 +63,28 @@ using namespace std;
 struct NodeCoords
 {
     double coords[3];
-    static double graphDiameter;
     
     // Implement n1 < n2 needed for map structure.
+    // The comparison is exact.  A node shared by several cells gets the same 
+    // coordinates in each of them.  A comparison with a tolerance is not 
+    // transitive and makes the map miss nodes.
     bool operator()(const NodeCoords &n1, const NodeCoords &n2) const
     {
-        double TOL = 1e-14 * graphDiameter;
-        if (n1.coords[0] < n2.coords[0] - TOL)
+        if (n1.coords[0] < n2.coords[0])
             return true;
-        if (n1.coords[0] > n2.coords[0] + TOL)
+        if (n1.coords[0] > n2.coords[0])
             return false;
-        if (n1.coords[1] < n2.coords[1] - TOL)
+        if (n1.coords[1] < n2.coords[1])
             return true;
-        if (n1.coords[1] > n2.coords[1] + TOL)
+        if (n1.coords[1] > n2.coords[1])
             return false;
-        if (n1.coords[2] < n2.coords[2] - TOL)
+        if (n1.coords[2] < n2.coords[2])
             return true;
-        if (n1.coords[2] > n2.coords[2] + TOL)
+        if (n1.coords[2] > n2.coords[2])
             return false;
         return false;
     }
 };
-double NodeCoords::graphDiameter;
 
 
 /*
@@ -354,26 +354,6 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     std::map<FaceNodes, uint64_t, FaceNodes> faceMap;
     
     
-    // Get graph diameter per coordinate
-    // Used for a relative tolerance in implementing < for NodeCoords
-    const double DOUBLE_MAX = numeric_limits<double>::max();
-    double minCoords[3] = {DOUBLE_MAX, DOUBLE_MAX, DOUBLE_MAX};
-    double maxCoords[3] = {-DOUBLE_MAX, -DOUBLE_MAX, -DOUBLE_MAX};
-    for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
-        
-        for (int lnode = 0; lnode < 4; lnode++) {
-            uint64_t node = coarseMesh.c_cellData[coarseCell].boundingNodes[lnode];
-            for (int i = 0; i < 3; i++) {
-                double coord = coarseMesh.c_nodeData[node].coords[i];
-                minCoords[i] = (coord < minCoords[i]) ? coord : minCoords[i];
-                maxCoords[i] = (coord > maxCoords[i]) ? coord : maxCoords[i];
-            }
-        }
-    }
-    NodeCoords::graphDiameter = max(maxCoords[0] - minCoords[0], 
-        max(maxCoords[1] - minCoords[1], maxCoords[2] - minCoords[2]));
-        
-    
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-- 
2.43.0


From 2138ca5983baa50966b3523397f3f5b4751efea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 20/24] fix: ask MPI for serialized threads, as OriginalTycho2
 communicates from every thread

---
 src/Main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Main.cc b/src/Main.cc
index d395fe4..8e45183 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -203,7 +203,8 @@ int main(int argc, char *argv[])
     
     
     // Init MPI
-    int required = MPI_THREAD_SINGLE;
+    // (OriginalTycho2 communicates from every thread, one thread at a time)
+    int required = MPI_THREAD_SERIALIZED;
     int provided = MPI_THREAD_SINGLE;
     int mpiResult = MPI_Init_thread(&argc, &argv, required, &provided);
     Insist (mpiResult == MPI_SUCCESS, "MPI_Init failed.");
-- 
2.43.0


From 8cb6cfaf614ccba5e771965e38a5a779b28f6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 21/24] fix: the collective mesh reader accepts a file that
 ends early

---
 src/Comm.cc | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 73794e2..f33891f 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -376,6 +376,26 @@ void seek(const MPI_File &file, uint64_t position)
 }
 
 
+/*
+    readBytes
+    
+    Read numBytes bytes from file.
+    A read past the end of the file is no error for MPI, but gives fewer bytes.
+*/
+static
+void readBytes(const MPI_File &file, void *data, int numBytes)
+{
+    MPI_Status status;
+    int numRead = 0;
+    int result = MPI_File_read(file, data, numBytes, MPI_BYTE, &status);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+    
+    result = MPI_Get_count(&status, MPI_BYTE, &numRead);
+    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error (count).\n");
+    Insist(numRead == numBytes, "Comm::readBytes unexpected end of file.\n");
+}
+
+
 /*
     readUint64
     
@@ -383,9 +403,7 @@ void seek(const MPI_File &file, uint64_t position)
 */
 void readUint64(const MPI_File &file, uint64_t &data)
 {
-    int result = MPI_File_read(file, &data, sizeof(uint64_t), MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT MPI error.\n");
+    readBytes(file, &data, sizeof(uint64_t));
 }
 
 
@@ -396,9 +414,7 @@ void readUint64(const MPI_File &file, uint64_t &data)
 */
 void readUint64(const MPI_File &file, uint64_t *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(uint64_t) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(uint64_t) * numData);
 }
 
 
@@ -409,9 +425,7 @@ void readUint64(const MPI_File &file, uint64_t *data, int numData)
 */
 void readChars(const MPI_File &file, char *data, int numData)
 {
-    int result = MPI_File_read(file, data, sizeof(char) * numData, MPI_BYTE, 
-                               MPI_STATUS_IGNORE);
-    Insist(result == MPI_SUCCESS, "Comm::readSizeT[] MPI error.\n");
+    readBytes(file, data, sizeof(char) * numData);
 }
 
 
-- 
2.43.0


From 503aaf175516544ac7a7245b7f4d2be51e6a516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 22/24] fix: mesh writers ignore a failure to write the last
 buffered data

---
 src/ParallelMesh.cc | 4 +++-
 src/SerialMesh.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ParallelMesh.cc b/src/ParallelMesh.cc
index aac98f2..59e11b2 100644
--- a/src/ParallelMesh.cc
+++ b/src/ParallelMesh.cc
@@ -260,7 +260,9 @@ void ParallelMesh::write(const std::string &filename)
     
     
     // Close file
-    fclose(file);
+    // What is still buffered is written here
+    int result = fclose(file);
+    assert(result == 0);
 }
 
 
diff --git a/src/SerialMesh.cc b/src/SerialMesh.cc
index aa5ad9a..004a8af 100644
--- a/src/SerialMesh.cc
+++ b/src/SerialMesh.cc
@@ -197,7 +197,9 @@ void SerialMesh::write(const std::string &filename)
 
     
     // Close file
-    fclose(file);
+    // What is still buffered is written here
+    int result = fclose(file);
+    assert(result == 0);
 }
 
 
-- 
2.43.0


From 09b1288e09a73eed6161d546ba245ee0d980f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 23/24] fix: the collective mesh reader fails on parts of 2 GB
 and more

---
 src/Comm.cc | 28 +++++++++++++++++++---------
 src/Comm.hh |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index f33891f..3ec7d4b 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -380,19 +380,29 @@ void seek(const MPI_File &file, uint64_t position)
     readBytes
     
     Read numBytes bytes from file.
+    MPI counts are ints, so large amounts of data are read in several pieces.
     A read past the end of the file is no error for MPI, but gives fewer bytes.
 */
 static
-void readBytes(const MPI_File &file, void *data, int numBytes)
+void readBytes(const MPI_File &file, void *data, uint64_t numBytes)
 {
-    MPI_Status status;
-    int numRead = 0;
-    int result = MPI_File_read(file, data, numBytes, MPI_BYTE, &status);
-    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+    const uint64_t maxPiece = 1 << 30;
+    char *position = (char*)data;
     
-    result = MPI_Get_count(&status, MPI_BYTE, &numRead);
-    Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error (count).\n");
-    Insist(numRead == numBytes, "Comm::readBytes unexpected end of file.\n");
+    while (numBytes > 0) {
+        MPI_Status status;
+        int numRead = 0;
+        int piece = (numBytes < maxPiece) ? numBytes : maxPiece;
+        int result = MPI_File_read(file, position, piece, MPI_BYTE, &status);
+        Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error.\n");
+        
+        result = MPI_Get_count(&status, MPI_BYTE, &numRead);
+        Insist(result == MPI_SUCCESS, "Comm::readBytes MPI error (count).\n");
+        Insist(numRead == piece, "Comm::readBytes unexpected end of file.\n");
+        
+        position += piece;
+        numBytes -= piece;
+    }
 }
 
 
@@ -412,7 +422,7 @@ void readUint64(const MPI_File &file, uint64_t &data)
     
     Read an array of uint64_t elements.
 */
-void readUint64(const MPI_File &file, uint64_t *data, int numData)
+void readUint64(const MPI_File &file, uint64_t *data, uint64_t numData)
 {
     readBytes(file, data, sizeof(uint64_t) * numData);
 }
diff --git a/src/Comm.hh b/src/Comm.hh
index 19261ca..b8eefad 100644
--- a/src/Comm.hh
+++ b/src/Comm.hh
@@ -79,7 +79,7 @@ void openFileForWrite(const std::string &filename, MPI_File &file);
 void closeFile(MPI_File &file);
 void seek(const MPI_File &file, uint64_t position);
 void readUint64(const MPI_File &file, uint64_t &data);
-void readUint64(const MPI_File &file, uint64_t *data, int numData);
+void readUint64(const MPI_File &file, uint64_t *data, uint64_t numData);
 void readChars(const MPI_File &file, char *data, int numData);
 void writeDoublesAt(const MPI_File &file, UINT offset, double *data, 
                     UINT numData);
-- 
2.43.0


From f518725c036a17955cacaf65e88b180d1097c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 24/24] fix: short writes to the output file were taken for
 whole ones

A full disk shows as a short write with MPI_SUCCESS (Open MPI), so the sweep
ended successfully with an incomplete output file.
---
 src/Comm.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Comm.cc b/src/Comm.cc
index 3ec7d4b..0e4e57c 100644
--- a/src/Comm.cc
+++ b/src/Comm.cc
@@ -447,9 +447,16 @@ void readChars(const MPI_File &file, char *data, int numData)
 void writeDoublesAt(const MPI_File &file, UINT offset, double *data, 
                     UINT numData)
 {
+    MPI_Status status;
+    int numWritten = 0;
     int result = MPI_File_write_at(file, offset * 8, data, numData, MPI_DOUBLE, 
-                                   MPI_STATUS_IGNORE);
+                                   &status);
     Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error.\n");
+    
+    // A full disk may show as a short write only
+    result = MPI_Get_count(&status, MPI_DOUBLE, &numWritten);
+    Insist(result == MPI_SUCCESS, "Comm::writeDoublesAt MPI error (count).\n");
+    Insist(numWritten == (int)numData, "Comm::writeDoublesAt short write.\n");
 }
 
 
-- 
2.43.0

