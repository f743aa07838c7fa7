From e60c1e83e950a474482a5acc3dfb6a203dd25e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 01/25] fix: linkedlist_node_unhook cleared the links before
 using them

---
 modules/collections/src/linkedlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..28f89a8 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -271,7 +270,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
         if(list->tail != NULL)
@@ -279,6 +277,10 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+
+    // The links are only cleared once both neighbours have been updated
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From a25c4299e32c9b9913974679a79bb4f734474b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:20 +0000
Subject: [PATCH 02/25] fix: array_list_clear shrank the storage but kept the
 old capacity

---
 modules/collections/src/list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..4e79a7e 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -281,6 +281,7 @@ void array_list_clear(ArrayList* list, int32_t resize)
 	list->size = 0;
 	if(resize) {
 		list->data = realloc(list->data, list->step);
+		list->max_size = 1;
 	}
 }
 
-- 
2.43.0


From c2c73146a6adc018f45fd24a29396f479efd1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 03/25] fix: hashtable_remove cleared the back link before
 handing it to the next entry

---
 modules/collections/src/hashtable.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..8f29e87 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,7 +297,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
         if(htbl->table[bucket] != NULL)
@@ -309,7 +308,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
     } else {
         if(entry->prev != NULL)
         {
-- 
2.43.0


From e25e4d4bc50c6bc48ecae9afc41744743aedb627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 04/25] fix: hashtable_remove copied the value with the size of
 the key

---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 8f29e87..4c535e7 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -316,7 +316,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 514f37a2f576267128e92118f4236d446fcc5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 05/25] fix: hashtable_clear passed one key of a bucket to
 key_destroy for every colliding entry

---
 modules/collections/src/hashtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 4c535e7..22f0ead 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -334,7 +334,8 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
  */
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
-    void* key = malloc(get_htype_size(htbl->ktype));
+    size_t ksize = get_htype_size(htbl->ktype);
+    void* key = malloc(ksize);
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
     hashtable_entry* entry = NULL;
@@ -358,6 +359,7 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, ksize); /// colliding entries have keys of their own
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From 1084a1d720b7381ce1b93b56b5ec269a662492f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:42 +0000
Subject: [PATCH 06/25] fix: find_prime_less_than returned 0 for most primes of
 the table

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..fa19e00 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -83,7 +83,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From 42d061140634ecad533009c7e373dd189c8c8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 07/25] fix: the prime table has 198 entries, not 200; the zero
 entries broke the search near its end

---
 modules/collections/include/collections/primes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
-- 
2.43.0


From 0f908b266c2c925802cd82f78c4b6f094cd33e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:23 +0000
Subject: [PATCH 08/25] fix: core distances were wrong when distances tie

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 66d82c59dd356ea434734b1373ea2de5613b27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:51 +0000
Subject: [PATCH 09/25] fix: the index of a distance overflowed 32 bits from
 65536 points on

---
 modules/utils/include/hdbscan/utils.h | 2 +-
 src/distance.c                        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..0226ccd 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -162,7 +162,7 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @param n 
  * @return uint 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..e0ce0b9 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t) (((size_t)dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)(((size_t)dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
-- 
2.43.0


From 50e52ec960605aa51dab2ddd8d3ed614e28f1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:51 +0000
Subject: [PATCH 10/25] fix: distances of int and long data overflowed in the
 subtraction

---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index e0ce0b9..e112aec 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,11 +170,11 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)dt[i * dis->cols + k] - (distance_t)dt[j * dis->cols + k];
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From 04d1df7dade7f2dea9d554418cdc41301e412bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 11/25] fix: hdbscan_init left the graph and distance pointers
 uninitialised

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..4dfafa6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From ff03948aa3eb1e12d9fa70f024fbe4145ffe2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 12/25] fix: hdbscan_run aborted on data sets of fewer than
 five points

---
 src/hdbscan.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 4dfafa6..66ca593 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -326,6 +326,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	{
 		csize = (index_t)(csize * 4);
 	}
+	if(csize == 0)
+	{
+		csize = 1;
+	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
 	
-- 
2.43.0


From 3f3e489872fec1d7f8f26d828ea892cc0572cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 13/25] fix: hdbscan_run with rowwise off computed the
 distances of the rows, not of the cells

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 66ca593..88df0ca 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -319,7 +319,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From 5ad0a95b72c9417d62c9973882d840f36964955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 14/25] fix: hdbscan_construct_mst wrote past the edge lists
 when self edges are off

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 88df0ca..5bf006e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -952,7 +952,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		others[nearestMRDPoint] = (index_t)nearestMRDPoint;
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
-- 
2.43.0


From b7be48af52e12a5a0bbf08a9508678859a3b0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 15/25] fix: the parallel loop assigning cluster offsets shared
 its loop variable

---
 src/hdbscan.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5bf006e..5df700b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -674,14 +674,13 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
 		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From b6b1bb9ee5866420d7566adc8b1ff4c016094682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 16/25] fix: hdbscan_propagate_tree never recognised an
 infinite stability

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5df700b..ad4a251 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1039,7 +1039,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(currentCluster->stability >= D_MAX){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 8e2dfbb68fe99e6495e0d651540811ed1de92ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 17/25] fix: hdbscan_create_cluster_map aborted on ranges of
 fewer than three labels

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ad4a251..d891cd0 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1229,7 +1229,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init(size < 3 ? 1 : size/3, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From bc370e48d155eb0a1cde8a4e984cbbfaea544968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 18/25] fix: the cluster sorts aborted on an empty list of
 clusters and on an empty map

---
 src/hdbscan.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d891cd0..296bddd 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1636,7 +1636,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_empty(distanceMap) ? 1 : hashtable_size(distanceMap), sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1646,10 +1646,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+		distances = array_list_init(hashtable_empty(distanceMap) ? 1 : hashtable_size(distanceMap), sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size > 0 ? clusters->size : 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1725,7 +1725,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 	assert(clusterTable != NULL && clusters != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_empty(clusterTable) ? 1 : hashtable_size(clusterTable), sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1735,9 +1735,9 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			clusters->compare = short_compare;
 		}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+		lengths = array_list_init(hashtable_empty(clusterTable) ? 1 : hashtable_size(clusterTable), sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size > 0 ? clusters->size : 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
-- 
2.43.0


From 45491521706548d3e7a3b89ec13a2c0062492096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 19/25] fix: hdbscan_sort_by_similarity sorted the given
 clusters by the confidences of other clusters

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 296bddd..0b36911 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1694,7 +1694,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];			
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 5a57ce066b46414d58d80cf8f214a2682a004064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 20/25] fix: hdbscan_sort_by_length could not collect the
 clusters of the whole table

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 0b36911..7fb2686 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1722,7 +1722,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_empty(clusterTable) ? 1 : hashtable_size(clusterTable), sizeof(label_t), NULL);
@@ -1753,7 +1753,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From caf76d896ff1a70c231e3064abe714da896a855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:10 +0000
Subject: [PATCH 21/25] fix: hdbscan_calculate_stats_helper accumulated
 variances on top of the previous contents

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7fb2686..ba66a33 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1418,9 +1418,11 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_stats* stats){
 	
 	stats->coreDistanceValues.mean = cr[0];
+	stats->coreDistanceValues.variance = 0;
 	stats->coreDistanceValues.max = cr[0];
 
 	stats->intraDistanceValues.mean = dr[0];
+	stats->intraDistanceValues.variance = 0;
 	stats->intraDistanceValues.max = dr[0];
 
 	for(index_t i = 1; i < stats->count; i++)
-- 
2.43.0


From c0605f6ed854dfb583e83d107786296f5bcbdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 22/25] fix: hdbscan_print_hierarchies appended the file names
 to uninitialised buffers

---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ba66a33..6758a60 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1863,16 +1863,16 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + sizeof("_visualization.vis")];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From d03bc2647926841592fe59664b8c617c4c264e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 23/25] fix: large values overflowed the buffers of the print
 functions

---
 src/distance.c         | 2 +-
 src/hdbscan.c          | 6 +++---
 src/undirected_graph.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index e112aec..b7d7231 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -277,7 +277,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[400];
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6758a60..3656fd8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1919,7 +1919,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[1000];
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1938,7 +1938,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[4096];
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1965,7 +1965,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[8192];
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..33a9f38 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[400];
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From b92f0302acaa63c297d2037ad4f41258c48004b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:07 +0000
Subject: [PATCH 24/25] fix: points further than D_MAX from the tree were all
 attached to point 0, itself included

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3656fd8..1b09326 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -892,7 +892,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(index_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		neighbours[i] = (index_t)(size - 1);
 		others[i] = 0;
 	}
 
-- 
2.43.0


From 61bcfb4db9cb29e6166bb517641975538e9fd387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:07 +0000
Subject: [PATCH 25/25] fix: the cluster sorts never ended when a confidence
 was not a number

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1b09326..dd477cf 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1573,7 +1573,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 			up++;
 		}
 
-		while((up < down) && (d_data[down] > x)){
+		while((up < down) && !(d_data[down] <= x)){
 			down--;
 		}
 
@@ -1590,7 +1590,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 		c_data[down] = tmp2;
 
 	}
-	if(d_data[up] > x){
+	if(!(d_data[up] <= x)){
 		up--;
 	}
 
-- 
2.43.0

