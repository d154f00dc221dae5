From a82e3b225b2bc61338b4be45bedce6981dbb4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:35 +0000
Subject: [PATCH 01/28] fix: cosine similarity with one zero vector is 0, not
 NaN

---
 pkg/mathutils/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index f618267..75ed629 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -40,7 +40,7 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
-	if norm1 == 0 && norm2 == 0 {
+	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
 	var dot float64
-- 
2.43.0


From cc6cef9eb3c5fc880137f1fd893d83c1cf5a0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:09 +0000
Subject: [PATCH 02/28] fix: EuclideanDistance is the Euclidean, not the
 Manhattan distance

---
 pkg/mathutils/distance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 75ed629..82a903b 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -19,9 +19,9 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	}
 	var r float64
 	for i := 0; i < len(v1); i++ {
-		r += math.Sqrt((v1[i] - v2[i]) * (v1[i] - v2[i]))
+		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return r, nil
+	return math.Sqrt(r), nil
 }
 
 // norm computes the norm (math) of a vec.
-- 
2.43.0


From bff7dbaaa2824a09468fdcc94e8984211eba5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:13 +0000
Subject: [PATCH 03/28] fix: asking for zero or fewer datapoints takes none

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index d37fe8b..c8a3aaf 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -127,6 +127,9 @@ func (cm *CentroidManager) newCentroid(vec []float64) *centroid.Centroid {
 // of common.DataPoint contained in each centroid is uncertain.
 func (cm *CentroidManager) centroidDataPointPortions(n int) map[int]int {
 	portions := make(map[int]int)
+	if n <= 0 {
+		return portions
+	}
 	// This is essentially the total sum of all v in portions.
 	assigned := 0
 	for {
-- 
2.43.0


From 5055d0796f0e82815a399a6556dbc14d4c13daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:17 +0000
Subject: [PATCH 04/28] fix: Centroid.MemTrim keeps the vector the mean of the
 datapoints, and cap=len

---
 pkg/kmeans/centroid/centroid.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 98819de..6e314a2 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -182,14 +182,10 @@ func (c *Centroid) LenDP() int { return len(c.DataPoints) }
 
 // MemTrim creates a new internal DataPoint slice where capacity equals len.
 func (c *Centroid) MemTrim() {
-	dps := make([]common.DataPoint, 0)
-	// Using DrainUnordered because it removes expired dps with c.rmDataPoint,
-	// which adjusts c.vec as well. Also, not using len(c.DataPoints) as arg
-	// to c.DrainUnordered(...) because that would create a slice of that cap,
-	// which would make this method (MemTrim) pointless, as it reduces cap.
-	for len(c.DataPoints) > 0 {
-		dps = append(dps, c.DrainUnordered(1)...)
-	}
+	// Removes expired dps with c.rmDataPoint, which adjusts c.vec as well.
+	c.Expire()
+	dps := make([]common.DataPoint, len(c.DataPoints))
+	copy(dps, c.DataPoints)
 	c.DataPoints = dps
 }
 
-- 
2.43.0


From f5a6405947e62c298be46ad1d2730d00c57b8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:21 +0000
Subject: [PATCH 05/28] fix: CentroidManager.MemTrim keeps its vector the mean
 of the remaining centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index c8a3aaf..890322b 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -221,6 +221,14 @@ func (cm *CentroidManager) prepVecUpdate(v1 []float64) func([]float64) {
 	}
 }
 
+// syncVec sets cm.vec to the mean of the vectors of all internal Centroids.
+// Does nothing if there are no Centroids.
+func (cm *CentroidManager) syncVec() {
+	if vec, ok := mathutils.VecMean(cm.centroidVecGenerator()); ok {
+		cm.vec = vec
+	}
+}
+
 // Vec exposes the internal vector of a CentroidManager.
 func (km *CentroidManager) Vec() []float64 { return km.vec }
 
@@ -347,25 +355,13 @@ func (cm *CentroidManager) LenDP() int {
 func (cm *CentroidManager) MemTrim() {
 	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
 	for _, centroid := range cm.Centroids {
-		// Prep for internal vec update.
-		updateVec := cm.prepVecUpdate(centroid.Vec())
 		centroid.MemTrim()
-		// Finalize internal vec update.
-		updateVec(centroid.Vec())
 		if centroid.LenDP() != 0 {
 			centroids = append(centroids, centroid)
 		}
-
-		// Will not be included in new centroids slice, so effectively deleted.
-		// In this case, the internal vec must be updated a bit differently
-		// than what cm.prepVecUpdate does. Note bounds check.
-		if centroid.LenDP() == 1 && len(cm.Centroids) > 1 {
-			cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-			cm.vec, _ = mathutils.VecSub(cm.vec, centroid.Vec())
-			cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-		}
 	}
 	cm.Centroids = centroids
+	cm.syncVec()
 }
 
 // MoveVector sets the internal vector to the average of all internal Centroids.
-- 
2.43.0


From 0b01df9c1a1668230fd9e91aa228b1ec6b4310d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:25 +0000
Subject: [PATCH 06/28] fix: update the vector of a CentroidManager when
 centroids are split

---
 pkg/kmeans/centroidmanager/cmanager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 890322b..2f016a1 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -277,6 +277,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)
 		if splitOK {
 			cm.Centroids = append(cm.Centroids, newCentroid)
+			cm.syncVec()
 		}
 	}
 	return true
@@ -511,6 +512,7 @@ func (cm *CentroidManager) SplitCentroids(split func(*centroid.Centroid) bool) {
 		}
 	}
 	cm.Centroids = append(cm.Centroids, newCentroids...)
+	cm.syncVec()
 }
 
 // MergeCentroids iterates through all internal Centroids and passes them to
-- 
2.43.0


From cdbd07b08c3f25a5f4db59f1cb6578500e679881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:29 +0000
Subject: [PATCH 07/28] fix: MergeCentroids keeps the manager vector the mean
 of the remaining centroids

---
 pkg/kmeans/centroidmanager/cmanager.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 2f016a1..9baf8f1 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -543,9 +543,6 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 		gen := cm.centroidVecGenerator()
 		k := len(cm.Centroids)
 
-		// Prep for internal vec update for 'candidate' centroid.
-		updateVecCandidate := cm.prepVecUpdate(vec)
-
 		// Merge nearest centroids into 'candidate' until merge()=true.
 		for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
 			// Guard identity or double merge.
@@ -562,25 +559,15 @@ func (cm *CentroidManager) MergeCentroids(merge func(*centroid.Centroid) bool) {
 				break
 			}
 		}
-		// Finalize internal vec update for 'candidate' centroid.
-		updateVecCandidate(candidate.Vec())
 	}
 	// Filter out centroids marked for deletion from cm.Centroids.
 	// Note, the reason for backwards looping is to prevent index
 	// shifting issues.
 	for i := len(cm.Centroids) - 1; i > -1; i-- {
 		if delMarks[i] {
-			// This should always be true, due to how this func works at the
-			// time of writing, but doing a bounds check juuust in case:
-			if len(cm.Centroids) > 0 {
-				// Need this, it changes the internal vector appropriately
-				// when deleting a centroid:
-				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
-				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[i].Vec())
-				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-			}
 			// Delete.
 			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
 		}
 	}
+	cm.syncVec()
 }
-- 
2.43.0


From d84ed9431756a8527b1bb407bd34fd1f439773d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:33 +0000
Subject: [PATCH 08/28] fix: draining the last centroid does not turn the
 manager vector into NaN

---
 pkg/kmeans/centroidmanager/cmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 9baf8f1..7271960 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -480,8 +480,8 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 		sort.Ints(indexes)
 		for i := len(indexes) - 1; i > -1; i-- {
 			j := indexes[i] // Abbreviation for actual centroid index.
-			// Auto-adjust internal vec.
-			if len(cm.Centroids) > 0 {
+			// Auto-adjust internal vec (guard 0 div error).
+			if len(cm.Centroids) > 1 {
 				cm.vec = mathutils.VecMulScalar(cm.vec, float64(len(cm.Centroids)))
 				cm.vec, _ = mathutils.VecSub(cm.vec, cm.Centroids[j].Vec())
 				cm.vec = mathutils.VecDivScalar(cm.vec, float64(len(cm.Centroids)-1))
-- 
2.43.0


From 3eabbe6529270ae1e0799e79167aece0edbdd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:37 +0000
Subject: [PATCH 09/28] fix: KNNLookup finds k datapoints even if the nearest
 centroids are empty

---
 pkg/kmeans/centroidmanager/cmanager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 7271960..fbf984e 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -425,7 +425,8 @@ func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.
 	res := make([]common.DataPoint, 0, k)
 
 	gen := cm.centroidVecGenerator() // Brevity.
-	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, k) {
+	// All centroids are candidates since any number of them might be empty.
+	for _, centroidIndex := range cm.knnSearchFunc(vec, gen, len(cm.Centroids)) {
 		if len(res) >= k {
 			break
 		}
-- 
2.43.0


From 3b6a45035bb4687034eb62acc5ddee0ed13e509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 10/28] fix: concurrent first inserts/steals no longer replace
 each other's namespace; AddDataPoint reports refusals

---
 pkg/kmeans/rpc/rpc.go    | 16 ++++++++++++++++
 pkg/kmeans/rpc/server.go | 21 +++++++++++----------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index 179228b..bd52baa 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -181,6 +181,22 @@ func (t *CManagerTable) AddSlot(namespace string, cms *CManagerSlot) bool {
 	return true
 }
 
+// addSlotIfAbsent is the same as AddSlot, but will also abort and return false
+// if the namespace is already in use (i.e a slot is never replaced).
+func (t *CManagerTable) addSlotIfAbsent(namespace string, cms *CManagerSlot) bool {
+	if cms == nil || cms.cManager == nil {
+		return false
+	}
+
+	t.Lock()
+	defer t.Unlock()
+	if _, ok := t.slots[namespace]; ok {
+		return false
+	}
+	t.slots[namespace] = cms
+	return true
+}
+
 // CentroidManagerFactoryF is whatever creates a CentroidManager.
 type CentroidManagerFactoryF = func(vec []float64) *CentroidManager
 
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 0a045cd..33e7671 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -50,20 +50,21 @@ type AddDataPointArgs struct {
 // (pkg kmeans/CentroidManager). Will createa a new CentroidManager instance if
 // the namespace is not currently in use.
 func (s *KMeansServer) AddDataPoint(args AddDataPointArgs, resp *bool) error {
-	lookupOK := s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
-		*resp = cm.AddDataPoint(args.DP)
-	})
+	add := func(cm *CentroidManager) { *resp = cm.AddDataPoint(args.DP) }
 	// Namespace doesn't exist, create one + add dp there.
-	if !lookupOK {
+	if !s.Table.Access(args.NameSpace, add) {
 		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)
-		centroidManager.AddDataPoint(args.DP)
+		ok := centroidManager.AddDataPoint(args.DP)
 		slot := CManagerSlot{cManager: centroidManager}
-		// Returns a false if a slot is the containec CentroidManager is
-		// nil, but it is assumed that it works here.
-		s.Table.AddSlot(args.NameSpace, &slot)
+		// Can be false if the namespace was created by someone else in the
+		// meantime, in which case that one has to be used.
+		if s.Table.addSlotIfAbsent(args.NameSpace, &slot) {
+			*resp = ok
+		} else {
+			s.Table.Access(args.NameSpace, add)
+		}
 	}
 
-	*resp = true
 	return nil
 }
 
@@ -370,7 +371,7 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 			return nil
 		}
 		cm := s.CentroidManagerFactoryFunc(localVec)
-		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})
+		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
 	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
-- 
2.43.0


From cb17dffb708e4540897f09f68ca3ca66ae0bc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 11/28] fix: redistributing to no addresses does not discard
 the drained datapoints

---
 pkg/kmeans/rpc/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 33e7671..28105a0 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -158,10 +158,14 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nothing can be drained if there is nowhere to put it.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
@@ -200,10 +204,14 @@ func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
+		// Nothing can be drained if there is nowhere to put it.
+		if len(args.AddrOptions) == 0 {
+			return
+		}
 		dps = append(dps, cm.DrainOrdered(args.N)...)
 	})
 
-	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
+	if nsErr != nil || len(dps) == 0 {
 		return nsErr
 	}
 
-- 
2.43.0


From ba92a8a88d6702045c45e3ce4aadcf23f1040991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 12/28] fix: client NearestCentroids handles consecutive empty
 centroids

---
 pkg/kmeans/rpc/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index b680383..69e2806 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -218,6 +218,7 @@ func (c *kmeansClient) NearestCentroids(vec []float64, n int, drain bool) (
 	for i := 0; i < len(resp); i++ {
 		if resp[i] == nil || resp[i].LenDP() == 0 {
 			resp = append(resp[:i], resp[i+1:]...)
+			i-- // The next one is at this index now.
 		}
 	}
 
-- 
2.43.0


From 58b014982777caf0b78452c6b1e35bffd764b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:36 +0000
Subject: [PATCH 13/28] fix: data race between encoding a NearestCentroids
 response and changing the centroids

---
 pkg/kmeans/rpc/server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 28105a0..6f80e5b 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -280,7 +280,15 @@ type NearestCentroidArgs struct {
 // lead to an instance.
 func (s *KMeansServer) NearestCentroids(args NearestCentroidArgs, r *[]*Centroid) error {
 	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
-		*r, _ = cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		centroids, _ := cm.NearestCentroids(args.Vec, args.N, args.Drain)
+		// The response is encoded after this access, so Centroids which are
+		// still in use have to be copied.
+		for i := 0; i < len(centroids) && !args.Drain; i++ {
+			centroid := *centroids[i]
+			centroid.DataPoints = append([]DataPoint{}, centroid.DataPoints...)
+			centroids[i] = &centroid
+		}
+		*r = centroids
 	})
 }
 
-- 
2.43.0


From cfb17d5163f2148937aedb23d5ab3145acc90f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:39 +0000
Subject: [PATCH 14/28] fix: stopping a KMeansServer closes all its
 connections, without a data race

---
 pkg/kmeans/rpc/rpc.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index bd52baa..fd7093d 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -237,22 +237,43 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 		return nil, err
 	}
 
-	var conn net.Conn
+	// Guards the vars below, which track all open connections.
+	var mu sync.Mutex
+	conns := make(map[net.Conn]struct{})
+	stopped := false
+
 	stop = func() {
+		mu.Lock()
+		defer mu.Unlock()
+
+		stopped = true
 		ln.Close()
-		if conn != nil {
+		for conn := range conns {
 			conn.Close()
 		}
 	}
 
 	go func() {
 		for {
-			cxn, err := ln.Accept()
-			conn = cxn
+			conn, err := ln.Accept()
 			if err != nil {
 				break
 			}
-			go handler.ServeConn(cxn)
+
+			mu.Lock()
+			if stopped {
+				conn.Close()
+			}
+			conns[conn] = struct{}{}
+			mu.Unlock()
+
+			go func() {
+				handler.ServeConn(conn)
+
+				mu.Lock()
+				delete(conns, conn)
+				mu.Unlock()
+			}()
 		}
 	}()
 	return stop, nil
-- 
2.43.0


From 8272ac216c608c46539a30150fe35ce7a8d6c689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 15/28] fix: event loop with an unset Meta interval does not
 crash

---
 core/eventloop/cfg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index d4f421f..1da55c7 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -67,6 +67,7 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 		&cfg.SplitCentroids,
 		&cfg.MergeCentroids,
 		&cfg.LoadBalancing,
+		&cfg.Meta,
 	}
 	for _, v := range items {
 		if *v < min {
-- 
2.43.0


From 78381ff67b40acd96d804da4cfb997dec2301bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:46 +0000
Subject: [PATCH 16/28] fix: event loop tasks with an interval over 1000 are
 never ran, as documented

---
 core/eventloop/cfg.go    | 5 ++++-
 core/eventloop/eltask.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 1da55c7..9dcff40 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -2,6 +2,9 @@ package eventloop
 
 import "time"
 
+// Tasks with a higher value in EventLoopTaskSkipConfig are never ran.
+const taskSkipMax = 1000
+
 // Each task in the event loop will be skippable such that not everything has
 // to run in each loop iteration. This is useful when some tasks are recource
 // and/or time intensive (more than others) and should run infrequently.
@@ -165,5 +168,5 @@ func (cfg *EventLoopConfig) validate() {
 		}
 	}
 
-	cfg.TaskSkip.clamp(1, 1000)
+	cfg.TaskSkip.clamp(1, taskSkipMax+1)
 }
diff --git a/core/eventloop/eltask.go b/core/eventloop/eltask.go
index db3712f..8e82f73 100644
--- a/core/eventloop/eltask.go
+++ b/core/eventloop/eltask.go
@@ -7,7 +7,7 @@ import (
 
 // Wrapper for handing event-loop-task skipping.
 func withSkip(cfg *EventLoopConfig, interval int, task func()) {
-	if cfg.internal.iter%interval == 0 {
+	if interval <= taskSkipMax && cfg.internal.iter%interval == 0 {
 		task()
 	}
 }
-- 
2.43.0


From b1fcaea90c51ae32ee81cd2f4b49b5532e51822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:49 +0000
Subject: [PATCH 17/28] fix: event loop keeps task intervals beyond 1000
 iterations

---
 core/eventloop/el.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index 6ea71e5..dc7caf9 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -44,11 +44,8 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 			elStep(cfg, eltLoadBalancing)
 
-			// Tick & wraparound.
+			// Tick. No wraparound, as that would break task intervals.
 			cfg.internal.iter++
-			if cfg.internal.iter > 1000 {
-				cfg.internal.iter = 0
-			}
 		}
 	}()
 
-- 
2.43.0


From cccc75bc613a305d58f8747712424ed50d07cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:52 +0000
Subject: [PATCH 18/28] fix: data race when stopping the event loop

---
 core/eventloop/cfg.go | 10 ++++++++--
 core/eventloop/el.go  |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/eventloop/cfg.go b/core/eventloop/cfg.go
index 9dcff40..d8ec26a 100644
--- a/core/eventloop/cfg.go
+++ b/core/eventloop/cfg.go
@@ -1,6 +1,9 @@
 package eventloop
 
-import "time"
+import (
+	"sync/atomic"
+	"time"
+)
 
 // Tasks with a higher value in EventLoopTaskSkipConfig are never ran.
 const taskSkipMax = 1000
@@ -83,10 +86,13 @@ func (cfg *EventLoopTaskSkipConfig) clamp(min, max int) {
 }
 
 type eventLoopInternal struct {
-	stopped bool
+	stopped int32 // Accessed atomically (bool: not 0).
 	iter    int
 }
 
+func (i *eventLoopInternal) stop()           { atomic.StoreInt32(&i.stopped, 1) }
+func (i *eventLoopInternal) isStopped() bool { return atomic.LoadInt32(&i.stopped) != 0 }
+
 // EventLoopConfig is a config type for the event loop in this pkg.
 type EventLoopConfig struct {
 	LocalAddr Addr
diff --git a/core/eventloop/el.go b/core/eventloop/el.go
index dc7caf9..19bdc81 100644
--- a/core/eventloop/el.go
+++ b/core/eventloop/el.go
@@ -10,13 +10,13 @@ type Addr = arbiter.Addr
 // Intended to be used for each event loop task in the event loop.
 func elStep(cfg *EventLoopConfig, task func(*EventLoopConfig)) {
 	// For quickly aborting all steps in eventloop.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	time.Sleep(cfg.TimeoutStep)
 
 	// Neat in case timeout is long.
-	if cfg.internal.stopped {
+	if cfg.internal.isStopped() {
 		return
 	}
 	task(cfg)
@@ -27,7 +27,7 @@ func EventLoop(cfg *EventLoopConfig) func() {
 
 	go func() {
 		// Note: tasks are _not_ arbitrarily ordered.
-		for cfg.internal.stopped == false {
+		for !cfg.internal.isStopped() {
 			time.Sleep(cfg.TimeoutLoop)
 
 			elStep(cfg, eltMeta)
@@ -50,6 +50,6 @@ func EventLoop(cfg *EventLoopConfig) func() {
 	}()
 
 	return func() {
-		cfg.internal.stopped = true
+		cfg.internal.stop()
 	}
 }
-- 
2.43.0


From ab79bf63474c8028049bbf1958c10f6607049857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:16 +0000
Subject: [PATCH 19/28] fix: negative or huge counts in a request no longer
 crash the process

---
 core/dps/getdps.go                     |  2 +-
 pkg/kmeans/centroid/centroid.go        |  6 +++---
 pkg/kmeans/centroidmanager/cmanager.go |  8 ++++----
 pkg/kmeans/rpc/client.go               |  2 +-
 pkg/kmeans/rpc/server.go               |  4 ++--
 pkg/searchutils/knn.go                 | 12 +++++++-----
 6 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index 81dd8a4..a10ed7e 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -17,7 +17,7 @@ type getDataPointsArgs struct {
 }
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
-	res := make([]DataPoint, 0, args.n)
+	res := make([]DataPoint, 0)
 	for _, addr := range args.addrOpts {
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index 6e314a2..a6b59e5 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -131,7 +131,7 @@ func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
 // DrainUnordered drains n internal datapoints in a manner that has no particylar.
 // significance, specifically by how they are stored internally -- in no order.
 func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for len(c.DataPoints) != 0 && len(res) < n {
 		if !c.DataPoints[0].Expired() {
 			res = append(res, c.DataPoints[0])
@@ -148,7 +148,7 @@ func (c *Centroid) DrainUnordered(n int) []common.DataPoint {
 // net-means/searchutils.KNFCos, then drain away data that has lowest cosine
 // similarity to this Centroid.
 func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	// Furthest neigh.
 	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
 	for _, index := range indexes {
@@ -239,7 +239,7 @@ func (c *Centroid) DistributeDataPoints(n int, receivers []common.DataPointRecei
 // crating a new Centroid with 'NewCentroid'. If that field is for instance
 // net-means/searchutils.KNNCos, then best fit equals best cosine similarity.
 func (c *Centroid) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	indexes := c.knnSearchFunc(vec, c.dataPointVecGenerator(), k)
 	for _, i := range indexes {
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index fbf984e..48500fa 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -289,7 +289,7 @@ func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
 // centroids, i.e if n=2 and there are 2 centroids with at least 1 dp each, then
 // both of them will drain 1 dp. Note, will update CentroidManager vector.
 func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -312,7 +312,7 @@ func (cm *CentroidManager) DrainUnordered(n int) []common.DataPoint {
 // least 1 dp each, then both of them will drain 1 dp. Note, will update
 // CentroidManager vector.
 func (cm *CentroidManager) DrainOrdered(n int) []common.DataPoint {
-	res := make([]common.DataPoint, 0, n)
+	res := make([]common.DataPoint, 0)
 	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
 		centroid := cm.Centroids[centroidIndex]
 		// Prep for internal vec update.
@@ -422,7 +422,7 @@ func (cm *CentroidManager) DistributeDataPointsInternal(n int) {
 // with the same name (KNNLookup) will be called on those Centroids.
 // Note, will update internal CentroidManager vector.
 func (cm *CentroidManager) KNNLookup(vec []float64, k int, drain bool) []common.DataPoint {
-	res := make([]common.DataPoint, 0, k)
+	res := make([]common.DataPoint, 0)
 
 	gen := cm.centroidVecGenerator() // Brevity.
 	// All centroids are candidates since any number of them might be empty.
@@ -473,7 +473,7 @@ func (cm *CentroidManager) NearestCentroids(vec []float64, n int, drain bool) (
 	if len(indexes) == 0 {
 		return nil, false
 	}
-	centroids := make([]*centroid.Centroid, 0, n)
+	centroids := make([]*centroid.Centroid, 0, len(indexes))
 	for _, index := range indexes {
 		centroids = append(centroids, cm.Centroids[index])
 	}
diff --git a/pkg/kmeans/rpc/client.go b/pkg/kmeans/rpc/client.go
index 69e2806..a13a318 100644
--- a/pkg/kmeans/rpc/client.go
+++ b/pkg/kmeans/rpc/client.go
@@ -181,7 +181,7 @@ func (c *kmeansClient) DistributeDataPointsInternal(n int) {
 // (T of pkg/kmeans/centroidmanager, se that method name for more documentation),
 // using the addr and namespace specified while setting up this client.
 func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
-	resp := make([]DataPoint, 0, k)
+	resp := make([]DataPoint, 0)
 
 	c.client(func(rc *rpc.Client) {
 		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 6f80e5b..8f2ed0c 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -154,7 +154,7 @@ func distributeDP(dp DataPoint, gen vecGenerator, addrs []string, namespace stri
 // method called, then those dps will be sent to remote nodes that are most
 // similar to those dps (similarity is caluclated by remote CentroidManager.Vec()).
 func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
@@ -200,7 +200,7 @@ func (s *KMeansServer) DistributeDataPointsFast(args DistribDPArgs, _ *int) erro
 // This is _a_lot_ slower due to many network calls, but has the benefit of
 // placing distribute dps precisely.
 func (s *KMeansServer) DistributeDataPointsAccurate(args DistribDPArgs, _ *int) error {
-	dps := make([]DataPoint, 0, args.N)
+	dps := make([]DataPoint, 0)
 
 	// Not wrapping the code below with this because it locks the CentroidManager.
 	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index be9bc50..baf3e2d 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -86,7 +86,9 @@ type KNNBruteArgs struct {
 // (or furthest) neighs of a vector, and then returning their index.
 // See KNNBruteArgs (accepted argument) for more info.
 func KNNBrute(args KNNBruteArgs) []int {
-	res := make([]resultItem, args.K)
+	// Grows up to length args.K; not pre-allocated since args.K can be much
+	// higher than the amount of vectors.
+	res := make([]resultItem, 0)
 	// This represents the lowest/highest score found so far.
 	// Defining a cap of highest/lowest number representing similarity
 	// is done here by simply using the (near) min/max allowed float.
@@ -94,10 +96,6 @@ func KNNBrute(args KNNBruteArgs) []int {
 	if !args.Ascending {
 		similarity *= -1
 	}
-	// Apply worst score to all resultItems.
-	for i := 0; i < args.K; i++ {
-		res[i].score = similarity
-	}
 	i := 0
 	for {
 		// Next vector.
@@ -111,6 +109,10 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		// Make room, with the worst score.
+		if len(res) < args.K {
+			res = append(res, resultItem{score: similarity})
+		}
 		// Evaluate inclusion of current vector.
 		newSlot := &resultItem{i, score, true}
 		if args.Ascending && score < similarity {
-- 
2.43.0


From fed24b4feb037be0865f5328661c12ebe0c3b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:08 +0000
Subject: [PATCH 20/28] fix: StealCentroid does not stop at an empty remote
 centroid

---
 pkg/kmeans/rpc/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 8f2ed0c..2c98f8a 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -394,9 +394,13 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-		if !cOK || len(centroids) == 0 {
+		if !cOK {
 			break
 		}
+		// Got an empty Centroid (removed by the client), others might not be.
+		if len(centroids) == 0 {
+			continue
+		}
 
 		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
 			// @ unsafe, this is assuming cm has similar properties as centroids
-- 
2.43.0


From b2e3fd170204f22bb6cdc236210e051b1103a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 21/28] fix: a temporary accept error does not stop a
 KMeansServer from listening

---
 pkg/kmeans/rpc/rpc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/rpc.go b/pkg/kmeans/rpc/rpc.go
index fd7093d..b6bf55d 100644
--- a/pkg/kmeans/rpc/rpc.go
+++ b/pkg/kmeans/rpc/rpc.go
@@ -6,10 +6,12 @@ interface.
 package rpc
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"net/rpc"
 	"sync"
+	"time"
 	"trypo/pkg/kmeans/centroid"
 	"trypo/pkg/kmeans/centroidmanager"
 	"trypo/pkg/kmeans/common"
@@ -256,9 +258,14 @@ func StartListen(s *KMeansServer) (stop func(), err error) {
 	go func() {
 		for {
 			conn, err := ln.Accept()
-			if err != nil {
+			if errors.Is(err, net.ErrClosed) {
 				break
 			}
+			if err != nil {
+				// Might be temporary (for instance too many open files).
+				time.Sleep(time.Millisecond * 10)
+				continue
+			}
 
 			mu.Lock()
 			if stopped {
-- 
2.43.0


From ecceb8a654a39a7ef85bbc212c3d891f65c70f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:26 +0000
Subject: [PATCH 22/28] fix: getting datapoints with repeated addresses does
 not return them twice

---
 core/dps/getdps.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/dps/getdps.go b/core/dps/getdps.go
index a10ed7e..60c1006 100644
--- a/core/dps/getdps.go
+++ b/core/dps/getdps.go
@@ -18,7 +18,14 @@ type getDataPointsArgs struct {
 
 func getDataPoints(args getDataPointsArgs) []DataPoint {
 	res := make([]DataPoint, 0)
+	visited := make(map[Addr]bool, len(args.addrOpts))
 	for _, addr := range args.addrOpts {
+		// Prevents getting the same datapoints twice.
+		if visited[addr] {
+			continue
+		}
+		visited[addr] = true
+
 		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
 		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
 		res = append(res, dps...)
-- 
2.43.0


From 1c9652299a1cd1c62366f70b1e9906ea5960db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:16 +0000
Subject: [PATCH 23/28] fix: a steal with a huge limit from the node itself
 does not run forever

---
 pkg/kmeans/rpc/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/kmeans/rpc/server.go b/pkg/kmeans/rpc/server.go
index 2c98f8a..239913a 100644
--- a/pkg/kmeans/rpc/server.go
+++ b/pkg/kmeans/rpc/server.go
@@ -390,7 +390,14 @@ func (s *KMeansServer) StealCentroid(args StealCentroidArgs, r *StealCentroidsRe
 		s.Table.addSlotIfAbsent(args.NameSpace, &CManagerSlot{cManager: cm})
 	}
 
-	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
+	// There is nothing to gain from asking for more than what the remote has, while
+	// it would never end if the remote is this node.
+	limit := args.TransferDPLimit
+	if n := client.LenDP(); n < limit {
+		limit = n
+	}
+
+	for r.TransferredN < limit && clientErr == nil {
 		// Can be improved. One at a time for convenience + readability.
 		centroids, cOK := client.NearestCentroids(localVec, 1, true)
 
-- 
2.43.0


From 69cf99f935ced6e1f5c229ba2cefe5618645ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:29 +0000
Subject: [PATCH 24/28] fix: a search does not drop vectors whose score
 overflows

---
 pkg/searchutils/knn.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pkg/searchutils/knn.go b/pkg/searchutils/knn.go
index baf3e2d..7ad5502 100644
--- a/pkg/searchutils/knn.go
+++ b/pkg/searchutils/knn.go
@@ -89,12 +89,12 @@ func KNNBrute(args KNNBruteArgs) []int {
 	// Grows up to length args.K; not pre-allocated since args.K can be much
 	// higher than the amount of vectors.
 	res := make([]resultItem, 0)
-	// This represents the lowest/highest score found so far.
-	// Defining a cap of highest/lowest number representing similarity
-	// is done here by simply using the (near) min/max allowed float.
-	similarity := math.MaxFloat64
+	// The worst possible score, also used for scores that are not comparable
+	// with others (NaN; vectors with huge values can overflow), such that those
+	// vectors come last in the result instead of never being found.
+	worst := math.Inf(1)
 	if !args.Ascending {
-		similarity *= -1
+		worst = math.Inf(-1)
 	}
 	i := 0
 	for {
@@ -109,18 +109,15 @@ func KNNBrute(args KNNBruteArgs) []int {
 			i++
 			continue
 		}
+		if math.IsNaN(score) {
+			score = worst
+		}
 		// Make room, with the worst score.
 		if len(res) < args.K {
-			res = append(res, resultItem{score: similarity})
+			res = append(res, resultItem{score: worst})
 		}
 		// Evaluate inclusion of current vector.
-		newSlot := &resultItem{i, score, true}
-		if args.Ascending && score < similarity {
-			bubble(newSlot, res, true)
-		}
-		if !args.Ascending && score > similarity {
-			bubble(newSlot, res, false)
-		}
+		bubble(&resultItem{i, score, true}, res, args.Ascending)
 		i++
 	}
 	return resItems2Indexes(res)
-- 
2.43.0


From c97c7ce1f2f6fb81cc595f1de1e0cb640089df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 25/28] fix: similarity and distance of vectors with extreme
 values do not over- or underflow

---
 pkg/mathutils/distance.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/pkg/mathutils/distance.go b/pkg/mathutils/distance.go
index 82a903b..469a488 100644
--- a/pkg/mathutils/distance.go
+++ b/pkg/mathutils/distance.go
@@ -21,7 +21,35 @@ func EuclideanDistance(v1, v2 []float64) (float64, error) {
 	for i := 0; i < len(v1); i++ {
 		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
 	}
-	return math.Sqrt(r), nil
+	if !extreme(math.Sqrt(r)) {
+		return math.Sqrt(r), nil
+	}
+	// Squares might not have been representable, so use scaled differences.
+	diff, _ := VecSub(v1, v2)
+	return maxAbs(diff) * norm(scaled(diff)), nil
+}
+
+// maxAbs finds the largest absolute value in a vec.
+func maxAbs(vec []float64) float64 {
+	var x float64
+	for i := 0; i < len(vec); i++ {
+		x = math.Max(x, math.Abs(vec[i]))
+	}
+	return x
+}
+
+// extreme is true if the norm of a vec is so small or big that the squares
+// of its elements are not representable (or not precise).
+func extreme(norm float64) bool { return !(norm > 1e-140 && norm < 1e140) }
+
+// scaled scales a vec such that its biggest absolute value is 1. Does nothing
+// with vecs where that is not possible (only zeros, or has infinities).
+func scaled(vec []float64) []float64 {
+	x := maxAbs(vec)
+	if x == 0 || math.IsInf(x, 0) {
+		return vec
+	}
+	return VecDivScalar(vec, x)
 }
 
 // norm computes the norm (math) of a vec.
@@ -40,6 +68,11 @@ func CosineSimilarity(vec1, vec2 []float64) (float64, error) {
 		return 0, errors.New("similarity measurement attempt failed: vectors are of different lengths")
 	}
 	norm1, norm2 := norm(vec1), norm(vec2)
+	if extreme(norm1) || extreme(norm2) {
+		// Doesn't change the angle.
+		vec1, vec2 = scaled(vec1), scaled(vec2)
+		norm1, norm2 = norm(vec1), norm(vec2)
+	}
 	if norm1 == 0 || norm2 == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From 4b1a4193e02b283bcfb167adde01c8aa21c354e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:25 +0000
Subject: [PATCH 26/28] fix: datapoints with non-finite vectors are refused as
 they spoil a namespace

---
 pkg/kmeans/centroid/centroid.go        |  5 +++--
 pkg/kmeans/centroidmanager/cmanager.go |  3 ++-
 pkg/mathutils/vectools.go              | 12 ++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/kmeans/centroid/centroid.go b/pkg/kmeans/centroid/centroid.go
index a6b59e5..d68549a 100644
--- a/pkg/kmeans/centroid/centroid.go
+++ b/pkg/kmeans/centroid/centroid.go
@@ -87,9 +87,10 @@ func (c *Centroid) addDataPoint(dp common.DataPoint) {
 }
 
 // AddDataPoint adds a DataPoint the relevant centroid. Returns false if the vector
-// contained in dp is of different length that the vector of the centroid.
+// contained in dp is of different length that the vector of the centroid, or if
+// it isn't finite (which would spoil the vector of the centroid).
 func (c *Centroid) AddDataPoint(dp common.DataPoint) bool {
-	if len(dp.Vec) != len(c.vec) || dp.Expired() {
+	if len(dp.Vec) != len(c.vec) || dp.Expired() || !mathutils.VecFinite(dp.Vec) {
 		return false
 	}
 	c.addDataPoint(dp)
diff --git a/pkg/kmeans/centroidmanager/cmanager.go b/pkg/kmeans/centroidmanager/cmanager.go
index 48500fa..72aa496 100644
--- a/pkg/kmeans/centroidmanager/cmanager.go
+++ b/pkg/kmeans/centroidmanager/cmanager.go
@@ -238,12 +238,13 @@ func (km *CentroidManager) Vec() []float64 { return km.vec }
 // NewCentroidManagerArgs.KNNSearchFunc while calling NewCentroidManager(...).
 // Faild (return false) conditions:
 // - dp expired.
+// - Vector of dp isn't finite.
 // - Implementation issue of the aforementioned search func.
 // - Vector of dp doesn't match any internal Centroid vec (unequal dimension).
 // Note, this method auto-handles expired auto-splitting of internal
 // Centroid slice, as well as auto-updating the internal vec of CentroidManager.
 func (cm *CentroidManager) AddDataPoint(dp common.DataPoint) bool {
-	if dp.Expired() {
+	if dp.Expired() || !mathutils.VecFinite(dp.Vec) {
 		return false
 	}
 
diff --git a/pkg/mathutils/vectools.go b/pkg/mathutils/vectools.go
index 7e8026f..e7bf5a3 100644
--- a/pkg/mathutils/vectools.go
+++ b/pkg/mathutils/vectools.go
@@ -1,5 +1,17 @@
 package mathutils
 
+import "math"
+
+// VecFinite checks that a vector has no NaN and no infinity.
+func VecFinite(vec []float64) bool {
+	for _, v := range vec {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 // VecMean creates a mean/average vec from a vector generator.
 func VecMean(generator func() ([]float64, bool)) ([]float64, bool) {
 	vec, cont := generator()
-- 
2.43.0


From 8970022b889e2eb1e9f8f5672f76c52cdd7e3ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:38 +0000
Subject: [PATCH 27/28] fix: answer queries for points with expiry times that
 JSON can not hold

json.Marshal fails for years outside of 0-9999 and for time zones of a
day or more; the error was ignored, so the query was answered 200 with
an empty body (and with drain, all the points were lost). Offsets with
seconds were truncated, which shifted the instant.
---
 core/api/conv.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/api/conv.go b/core/api/conv.go
index 179657c..6e007eb 100644
--- a/core/api/conv.go
+++ b/core/api/conv.go
@@ -23,6 +23,23 @@ func (dp *DP) toDataPoint() common.DataPoint {
 	}
 }
 
+// jsonTime converts times that can not be written as JSON (which has years from 0
+// to 9999 and time zones of whole minutes within a day) to the nearest that can.
+func jsonTime(t time.Time) time.Time {
+	_, offset := t.Zone()
+	if _, err := t.MarshalJSON(); err == nil && offset%60 == 0 {
+		return t
+	}
+	t = t.UTC()
+	if t.Year() > 9999 {
+		return time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)
+	}
+	if t.Year() < 0 {
+		return time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC)
+	}
+	return t
+}
+
 // conv []common.DataPoint (pkg/kmeans/common/datapoint.go) -> []DP.
 func DataPointsToDPs(dps []common.DataPoint) []DP {
 	r := make([]DP, len(dps))
@@ -30,7 +47,7 @@ func DataPointsToDPs(dps []common.DataPoint) []DP {
 		r[i] = DP{
 			Vec:           dp.Vec,
 			Payload:       dp.Payload,
-			Expires:       dp.Expires,
+			Expires:       jsonTime(dp.Expires),
 			ExpireEnabled: dp.ExpireEnabled,
 		}
 	}
-- 
2.43.0


From 96b8c85509aeaa11771a88966915d1f6c7c07798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:01 +0000
Subject: [PATCH 28/28] fix: do not carry out API requests whose body was cut
 short

The error of reading the body was ignored on the assumption that the
JSON would not work then. It does if the part that arrived is a valid
value, so a request which the client never finished (it went away, or
the read timeout passed) was carried out.
---
 core/api/handler.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/api/handler.go b/core/api/handler.go
index 532eadd..dc41bc3 100644
--- a/core/api/handler.go
+++ b/core/api/handler.go
@@ -35,10 +35,12 @@ func (h *handler) setRoutes() {
 // nothing is written to the requester and the return is true.
 func (h *handler) tryUnpackRequestOptions(
 	w http.ResponseWriter, r *http.Request, targetOpt interface{}) bool {
-	// Error is not necessary to check, if it's not nil then
-	// the body with JSON request isn't going to work anyway.
-	body, _ := ioutil.ReadAll(r.Body)
-	err := json.Unmarshal(body, targetOpt)
+	body, err := ioutil.ReadAll(r.Body)
+	// A body which is cut short isn't a request, even if the
+	// part that arrived happens to be valid JSON.
+	if err == nil {
+		err = json.Unmarshal(body, targetOpt)
+	}
 	if err != nil {
 		w.WriteHeader(http.StatusBadRequest)
 		return false
-- 
2.43.0

