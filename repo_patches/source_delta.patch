From e8ea6f2b5373b05e293e122a0ec02336638fdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 01/72] fix: array_list_grow keeps the old storage when
 reallocation fails

---
 modules/collections/src/list.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..0338a26 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* grown = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
-		return -1;
+	if(grown == NULL){
+		return -1;	// The list keeps its old storage and capacity
 	}
 
+	list->data = grown;
 	list->max_size = newmax;
 
 	return 1;
-- 
2.43.0


From a7c007a6f83085b3453b6e903d0e241019cc3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 02/72] fix: array_list_clear records the capacity of the
 storage it shrinks to

---
 modules/collections/src/list.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 0338a26..f090560 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -281,7 +281,11 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
+		void* shrunk = realloc(list->data, list->step);
+		if(shrunk != NULL) {
+			list->data = shrunk;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From a92c0f74c464b523e3f1c65e37f7d3e856039d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 03/72] fix: array_list_insert_at refuses positions past the
 end and failed growth

---
 modules/collections/src/list.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index f090560..f0f4b4d 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -208,8 +208,14 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
+	if(pos > list->size) {
+		return 0;
+	}
+
 	if(list->size == list->max_size) {
-       array_list_grow(list);
+       if(array_list_grow(list) < 0) {
+           return 0;
+       }
     }
 
     size_t t1 = pos * list->step;					// Beginning of the source
-- 
2.43.0


From b443a8907c5abd2cf0e44fcb9499c1b00e02b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 04/72] fix: linkedlist_node_unhook joins the neighbours before
 clearing the node's links

---
 modules/collections/src/linkedlist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..ab7c9fd 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -271,7 +270,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
         if(list->tail != NULL)
@@ -279,6 +277,9 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From 0b82a5ff20c9a10beca39ca2be59570183089022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 05/72] fix: hashtable_remove joins the chain neighbours before
 clearing the entry's links

---
 modules/collections/src/hashtable.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..8f29e87 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,7 +297,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
         if(htbl->table[bucket] != NULL)
@@ -309,7 +308,6 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
     } else {
         if(entry->prev != NULL)
         {
-- 
2.43.0


From ed8b4f6fbc3d565b45b693030754ab4274f07eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 06/72] fix: hashtable_remove hands back a value of the value
 type's size

---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 8f29e87..4c535e7 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -316,7 +316,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 324f55c436a7261a09a20865eda804e14ce79a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 07/72] fix: a linked list node whose data cannot be allocated
 is not added

---
 modules/collections/src/linkedlist.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ab7c9fd..9ce8399 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -80,7 +80,11 @@ linkedlist *linkedlist_init(size_t step)
 void node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
-    memcpy(nd->data, data, step);
+
+    if(nd->data != NULL)
+    {
+        memcpy(nd->data, data, step);
+    }
 }
 
 /**
@@ -103,6 +107,12 @@ node* node_creator(void* data, enum HTYPES type)
     nd->next = NULL;
 
     node_set_data(nd, data, type);
+
+    if(nd->data == NULL)
+    {
+        free(nd);
+        return NULL;
+    }
     
     return nd;
 }
-- 
2.43.0


From 402712c1a1cb861156bd92d14aa85a742ab296c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 08/72] fix: linkedlist_lookup releases the node it unhooks

---
 modules/collections/src/linkedlist.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 9ce8399..ba6af52 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -301,9 +301,14 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
     // Unhook the node from the list
-    if(remove == 1)
+    if(remove == 1 && tmp != NULL)
     {
+        void* found = tmp->data;    // The caller takes over the data
+
         linkedlist_node_unhook(list, tmp);
+        free(tmp);
+
+        return found;
     }
 
     return tmp ? tmp->data : tmp;
-- 
2.43.0


From 0cd67cb0ec29e2851331ac3d0e740446b05218c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:27 +0000
Subject: [PATCH 09/72] fix: hashtable_clear hands every entry's own key to
 key_destroy

---
 modules/collections/src/hashtable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 4c535e7..c999936 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -334,7 +334,8 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
  */
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
-    void* key = malloc(get_htype_size(htbl->ktype));
+    size_t ksize = get_htype_size(htbl->ktype);
+    void* key = malloc(ksize);
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
     hashtable_entry* entry = NULL;
@@ -358,6 +359,7 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         {
             tmp = entry;
             entry = entry->next;
+            memcpy(key, tmp->key, ksize);   // The key of this entry, not of the one that led to the bucket
             hashtable_entry_destroy(tmp, data, dsize);
 
             if(key_destroy != NULL && *(void **)key != NULL)
-- 
2.43.0


From c9b3b174f6fe417efec29398240ea040738d40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 10/72] fix: hash table insertion and creation report
 allocation failure

---
 modules/collections/src/hashtable.c | 38 ++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index c999936..bebb07c 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -145,6 +145,13 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->collisions = 0;
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table key set memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
 
     /**
      * @brief Determine the function to use for key hashing
@@ -188,6 +195,20 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
     if(entry == NULL) /// The key is not in the table
     {
         entry = hashtable_set_entry(htbl, entry, key, value);
+        if(entry == NULL)
+        {
+            logger_write(FATAL, "Hash table entry memory allocation failed\n");
+            return 0;
+        }
+
+        // The key set has to know about every entry
+        if(set_insert(htbl->keys, key) == 0)
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return 0;
+        }
 
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
@@ -201,12 +222,16 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
 
         htbl->table[bucket] = entry;
         htbl->size++;        
-        set_insert(htbl->keys, key);
     } else { /// The key is in the table 
         // In case the value memory is externally managed, we have to get the data
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+        if(tmp == NULL)
+        {
+            return 0;
+        }
+
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -415,12 +440,23 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     if(entry == NULL)
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
+        if(entry == NULL)
+        {
+            return NULL;
+        }
 
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return NULL;
+        }
 
         // Make sure next and prev are NULL
         entry->next = NULL;
-- 
2.43.0


From 0075a25f9dd466c6eb6a67c25df0c89f309821f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 11/72] fix: hashtable_clear reports that it has no memory to
 work with

---
 modules/collections/src/hashtable.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index bebb07c..729e0b8 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -363,6 +363,13 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
     void* key = malloc(ksize);
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
+    if(key == NULL || data == NULL)
+    {
+        free(key);
+        free(data);
+        return 0;
+    }
+
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
-- 
2.43.0


From 83889d85c0b19d1300b0a538b915e8b7795bdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 12/72] fix: index the distance table in size_t arithmetic

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 src/distance.c                        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..178853b 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -160,9 +160,9 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @brief Calculate the triangular number of n
  * 
  * @param n 
- * @return uint 
+ * @return size_t 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..fbd932d 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t)dis->rows * row + col - TRIANGULAR_H((size_t)row + 1);
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)dis->rows * col + row - TRIANGULAR_H((size_t)col + 1);
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -192,7 +192,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - TRIANGULAR_H(i + 1);		
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From 77c98e26215fe5ebe67613aeeba5debd6440db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 13/72] fix: insert tied distances at the tied position so the
 buffer stays sorted

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index fbd932d..af12bf2 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 48fbcdc71a4d1ea694084f4b29f06d7013ce69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:20 +0000
Subject: [PATCH 14/72] fix: integer coordinate differences cannot overflow

---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index af12bf2..4bcae35 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,11 +170,11 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From 171b6957922bef24169e8b4b66717ff5bd7b4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:40 +0000
Subject: [PATCH 15/72] fix: distance_clean and distance_destroy accept NULL

---
 src/distance.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index 4bcae35..e9391b2 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -90,6 +90,9 @@ void distance_destroy(distance* d) {
  * @param d 
  */
 void distance_clean(distance* d){
+	if(d == NULL)
+		return;
+
 	if(d->distances != NULL){
 		free(d->distances);
 		d->distances = NULL;
-- 
2.43.0


From 57dfcc6f9532a1154e82f10c79a65f21cdc4a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 16/72] fix: distance_init initialises the table dimensions

---
 src/distance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index e9391b2..753715c 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -67,6 +67,10 @@ distance* distance_init(distance* dis, calculator cal, enum HTYPES datatype) {
 		dis->numNeighbors = 2; /// set the distance to minimum possible neighbors
 		dis->coreDistances = NULL;
 		dis->distances = NULL;
+		dis->rows = 0;
+		dis->cols = 0;
+		dis->internalRows = 0;
+		dis->internalCols = 0;
 		dis->datatype = datatype;
 
 	}
-- 
2.43.0


From 616f52ac07df7b9f8094bc1d0a300d44c143f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 17/72] fix: a distance table that cannot be allocated is
 reported

---
 src/distance.c | 6 ++++++
 src/hdbscan.c  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index 753715c..6b09745 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -151,6 +151,12 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
 
+	if((sub > 0 && dis->distances == NULL) || (rows > 0 && dis->coreDistances == NULL)) {
+		logger_write(FATAL, "distance_compute - Could not allocate memory for the distances.\n");
+		distance_clean(dis);
+		return;
+	}
+
 #ifdef _OPENMP
 #pragma omp parallel for private(sum, diff)   /// Use omp to speed up calculations
 #endif
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..1cb6eb2 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -318,6 +318,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
 	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
 
+	if(sc->distanceFunction.coreDistances == NULL){
+		return HDBSCAN_ERROR;
+	}
+
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-- 
2.43.0


From 33c9d3b92dec607cef0c476cd5c679126c953be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 18/72] fix: distances_print has room for every distance

---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 6b09745..7918260 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -290,12 +290,12 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[350];	// DBL_MAX prints as 309 digits
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
 		for (index_t j = (index_t)(i + 1); j < dis->rows; j++) {
-			sprintf(s, "%f ", distance_get(dis, i, j));
+			snprintf(s, sizeof(s), "%f ", distance_get(dis, i, j));
 			logger_write(NONE, s);
 		}
 
-- 
2.43.0


From 01a821dd3600bd857fa607bb17f530483a446299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 19/72] fix: hdbscan_init initialises every member

---
 src/hdbscan.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1cb6eb2..8bab80c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -117,8 +117,12 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		logger_write(FATAL, "hdbscan_init - Could not allocate memory for HDBSCAN.\n");
 		
 	} else{
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 		sc->minPoints = minPoints;
+		sc->minClusterSize = minPoints;
+		sc->numPoints = 0;
 		sc->selfEdges = TRUE;
+		sc->mst = NULL;
 		sc->hierarchy = NULL;
 		sc->clusterStabilities = NULL;
 
-- 
2.43.0


From 13e4a37311cd8d31a26953b84bb27ad4dfe5b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 20/72] fix: hdbscan_clean and hdbscan_destroy accept NULL

---
 src/hdbscan.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8bab80c..458cc7f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -142,6 +142,8 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
  * @param sc 
  */
 void hdbscan_minimal_clean(hdbscan* sc){
+	if(sc == NULL)
+		return;
 
 	if(sc->clusterLabels != NULL){
 		free(sc->clusterLabels);
@@ -200,6 +202,8 @@ void hdbscan_minimal_clean(hdbscan* sc){
  * @param sc 
  */
 void hdbscan_clean(hdbscan* sc){
+	if(sc == NULL)
+		return;
 
 	distance_clean(&sc->distanceFunction);
 	hdbscan_minimal_clean(sc);
-- 
2.43.0


From 91c77e4233e6308bd823af86c272b6541c951196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 21/72] fix: hdbscan_run releases the results of an earlier run

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 458cc7f..48b8396 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -321,6 +321,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// release what an earlier run left behind
+	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From 8aac10c3a5470b25d27be353eaf4682cbc4933a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 22/72] fix: data sets of fewer than five points can be
 clustered

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 48b8396..562eb56 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -245,7 +245,7 @@ int hdbscan_do_run(hdbscan* sc){
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = (index_t)(csize == 0 ? 4 : csize * 4);
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
@@ -335,7 +335,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = (index_t)(csize == 0 ? 4 : csize * 4);
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-- 
2.43.0


From e3a362e04cd98d66dcaba48743e177a99b6dfc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:39 +0000
Subject: [PATCH 23/72] fix: elementwise runs compute the distances of every
 element

---
 src/hdbscan.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 562eb56..51b0228 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -326,7 +326,12 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	if(rowwise == 1){
+		distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	} else {
+		// every element is a point of its own
+		distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, 1, (index_t)(sc->minPoints-1));
+	}
 
 	if(sc->distanceFunction.coreDistances == NULL){
 		return HDBSCAN_ERROR;
-- 
2.43.0


From 534b9c09f8b58dbb8d3622bb54ce63a0c57a5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 24/72] fix: hdbscan_run and hdbscan_rerun refuse arguments
 they cannot use

---
 src/hdbscan.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 51b0228..fe6e644 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -283,6 +283,16 @@ int hdbscan_do_run(hdbscan* sc){
  * @return int 
  */
 int hdbscan_rerun(hdbscan* sc, index_t minPts){
+	if(sc == NULL || minPts < 2 || sc->distanceFunction.coreDistances == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_rerun - sc has not been run or minPts is too small.\n");
+	#else
+		printf("FATAL: hdbscan_rerun - sc has not been run or minPts is too small.\n");
+	#endif
+
+		return HDBSCAN_ERROR;
+	}
+
 	// clean the hdbscan
 	hdbscan_minimal_clean(sc);
 	
@@ -321,6 +331,17 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	size_t numPoints = rowwise == 1 ? (size_t)rows : (size_t)rows * cols;
+	if(dataset == NULL || rows == 0 || cols == 0 || numPoints != hdbscan_get_dataset_size(rows, cols, rowwise)){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_run - the dataset is empty or too large.\n");
+	#else
+		printf("FATAL: hdbscan_run - the dataset is empty or too large.\n");
+	#endif
+
+		return HDBSCAN_ERROR;
+	}
+
 	// release what an earlier run left behind
 	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
-- 
2.43.0


From 42183b74fa5570462678724461cb5630d6c6e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 25/72] fix: the parallel offset assignment does not share its
 cluster pointer

---
 src/hdbscan.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index fe6e644..b5a5279 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -707,14 +707,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From 64ce490688f3b598a2fdbec3dd92429bcdf59b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:51 +0000
Subject: [PATCH 26/72] fix: skewness and kurtosis are computed once, not by
 every thread

---
 src/hdbscan.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b5a5279..192347a 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1377,19 +1377,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1406,10 +1399,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1438,9 +1427,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From 4c0bcb96444f43db7118bdfca9d6a8b28dd597d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 27/72] fix: infinite stability is recognised

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 192347a..1bcdba5 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1071,7 +1071,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 23dd2b5533b39746b0ce641adf1a03656df113e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 28/72] fix: the spanning tree without self edges stays inside
 its edge lists

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1bcdba5..af3e5e6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -983,7 +983,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		others[numAttachedPoints - 1] = (index_t)(numAttachedPoints - 1);
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
-- 
2.43.0


From 7b65976595892bd89b2104a1e19a75c20adbf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:27 +0000
Subject: [PATCH 29/72] fix: edge list positions do not fit the vertex index
 type

---
 src/hdbscan.c          | 12 ++++++------
 src/undirected_graph.c | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index af3e5e6..47b0ca4 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -848,7 +848,7 @@ void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVert
 int hdbscan_construct_mst(hdbscan* sc){
 	distance_t*  coreDistances = sc->distanceFunction.coreDistances;
 
-	index_t selfEdgeCapacity = 0;
+	size_t selfEdgeCapacity = 0;
 	index_t size = sc->numPoints;
 	if (sc->selfEdges == TRUE){
 		selfEdgeCapacity = size;
@@ -868,7 +868,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	attachedPoints[(size_t)(size - 1)] = TRUE;
 
 	//Each point has a current neighbor point in the tree, and a current nearest distance:
-	index_t ssize =(index_t)(size - 1 + selfEdgeCapacity);
+	size_t ssize = (size_t)size - 1 + selfEdgeCapacity;
 	ArrayList* nearestMRDNeighbors = array_list_init(ssize, sizeof(index_t), NULL);
 	
 	//Create an array for vertices in the tree that each point attached to:
@@ -921,7 +921,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
-	for(index_t i = 0; i < ssize; i++) {
+	for(size_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
 		neighbours[i] = 0;
@@ -989,12 +989,12 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 	//If necessary, attach self edges:
 	if (sc->selfEdges == TRUE) {
-		index_t end = (index_t)(size * 2 - 1);
-		index_t begin = (index_t)(size - 1);
+		size_t end = (size_t)size * 2 - 1;
+		size_t begin = (size_t)size - 1;
 		#ifdef _OPENMP
 		#pragma omp parallel for shared(begin, end)
 		#endif
-		for (index_t i = begin; i < end; i++) {
+		for (size_t i = begin; i < end; i++) {
 			index_t vertex = (index_t)(i - begin);
 			neighbours[i] = vertex;
 			others[i] = vertex;
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..7a80d53 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -86,7 +86,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 		}
 	}
 	index_t vertexOne, vertexTwo;
-	for (index_t i = 0; i < g->verticesA->size; i++) {
+	for (size_t i = 0; i < g->verticesA->size; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
@@ -142,11 +142,11 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 	if (esize <= 1)
 		return;
 
-	index_t startIndexStack[esize/2];
-	index_t endIndexStack[esize/2];
+	int64_t startIndexStack[esize/2];
+	int64_t endIndexStack[esize/2];
 
 	(startIndexStack)[0] = 0;
-	(endIndexStack)[0] = (index_t)(esize - 1);
+	(endIndexStack)[0] = (int64_t)(esize - 1);
 	int stackTop = 0;
 
 	while (stackTop >= 0) {
@@ -158,14 +158,14 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 		pivotIndex = graph_partition(g, startIndex, endIndex, pivotIndex);
 
 		if (pivotIndex > startIndex + 1) {
-			(startIndexStack)[stackTop + 1] = (index_t)startIndex;
-			(endIndexStack)[stackTop + 1] = (index_t)(pivotIndex - 1);
+			(startIndexStack)[stackTop + 1] = startIndex;
+			(endIndexStack)[stackTop + 1] = pivotIndex - 1;
 			stackTop++;
 		}
 
 		if (pivotIndex < endIndex - 1) {
-			(startIndexStack)[stackTop + 1] = (index_t)(pivotIndex + 1);
-			(endIndexStack)[stackTop + 1] = (index_t)endIndex;
+			(startIndexStack)[stackTop + 1] = pivotIndex + 1;
+			(endIndexStack)[stackTop + 1] = endIndex;
 			stackTop++;
 		}
 	}
-- 
2.43.0


From 9f5122d36277bb13e2ed60d0360d59f3438df21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:29 +0000
Subject: [PATCH 30/72] fix: the spanning tree construction checks and releases
 its edge lists

---
 src/hdbscan.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 47b0ca4..6435c5c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -874,23 +874,18 @@ int hdbscan_construct_mst(hdbscan* sc){
 	//Create an array for vertices in the tree that each point attached to:
 	ArrayList* otherVertexIndices = array_list_init(ssize, sizeof(index_t), NULL);
 
-	if(nearestMRDNeighbors == NULL){
-#ifdef DEBUG
-	logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDNeighbors\n");
-#else
-	printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDNeighbors\n");
-#endif
-		
-		return HDBSCAN_ERROR;
-	}
+	ArrayList* nearestMRDDistances = array_list_init(ssize, sizeof(distance_t), NULL);
 
-	if(otherVertexIndices == NULL){
+	if(nearestMRDNeighbors == NULL || otherVertexIndices == NULL || nearestMRDDistances == NULL){
 	#ifdef DEBUG
-		logger_write(FATAL, "hdbscan_construct_mst - Could not construct otherVertexIndices\n");
+		logger_write(FATAL, "hdbscan_construct_mst - Could not construct the edge lists\n");
 	#else
-		printf("FATAL: hdbscan_construct_mst - Could not construct otherVertexIndices\n");
+		printf("FATAL: hdbscan_construct_mst - Could not construct the edge lists\n");
 	#endif
-		
+
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
 		return HDBSCAN_ERROR;
 	}
 
@@ -905,7 +900,6 @@ int hdbscan_construct_mst(hdbscan* sc){
 		otherVertexIndices->compare = short_compare;
 	}
 
-	ArrayList* nearestMRDDistances = array_list_init(ssize, sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double))
 	{
 		nearestMRDDistances->compare = double_compare;
@@ -932,16 +926,6 @@ int hdbscan_construct_mst(hdbscan* sc){
 	nearestMRDNeighbors->size = ssize;
 	otherVertexIndices->size = ssize;
 
-	if(nearestMRDDistances == NULL){
-	#ifdef DEBUG
-		logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#else
-		printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#endif
-		
-		return HDBSCAN_ERROR;
-	}
-
 	//Continue attaching points to the MST until all points are attached:
 	for (index_t numAttachedPoints = 1; numAttachedPoints < size; numAttachedPoints++) {
 		int32_t nearestMRDPoint = -1;
@@ -1011,6 +995,9 @@ int hdbscan_construct_mst(hdbscan* sc){
 		printf("FATAL: Could not initialise mst.\n");
 	#endif
 
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
 		return HDBSCAN_ERROR;
 	}
 
-- 
2.43.0


From 993ca3ad324d731e62c52cec8155a836dcb3b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 31/72] fix: graph_init reports and cleans up after allocation
 failure

---
 src/undirected_graph.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 7a80d53..3333f5e 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -44,6 +44,7 @@
 #endif
 
 UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList* verticesA, ArrayList* verticesB, ArrayList* edgeWeights) {
+	UndirectedGraph* given = g;
 	if(g == NULL)
 		g = (UndirectedGraph*)malloc(sizeof(UndirectedGraph));
 
@@ -60,7 +61,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	g->verticesA = verticesA;
 	g->verticesB = verticesB;
 	g->edgeWeights = edgeWeights;
-	g->edges = (ArrayList**) malloc(numVertices * sizeof(ArrayList*));
+	g->edges = (ArrayList**) calloc(numVertices > 0 ? numVertices : 1, sizeof(ArrayList*));
 
 	if(g->edges == NULL){
 
@@ -69,6 +70,8 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	#else
 		printf("FATAL: graph_init - Could not allocate memory for edges.");
 	#endif
+		if(given == NULL)
+			free(g);
 		return NULL;
 	}
 
@@ -77,6 +80,8 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 #endif
 	for(index_t i = 0; i < numVertices; i++){
 		g->edges[i] = array_list_init(16, sizeof(index_t), NULL);
+		if(g->edges[i] == NULL)
+			continue;
 		if(sizeof(index_t) == sizeof(int)) {
 			g->edges[i]->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -85,6 +90,20 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 			g->edges[i]->compare = short_compare;
 		}
 	}
+
+	for(index_t i = 0; i < numVertices; i++){
+		if(g->edges[i] == NULL){
+			// the caller keeps its lists
+			for(index_t j = 0; j < numVertices; j++)
+				array_list_delete(g->edges[j]);
+			free(g->edges);
+			g->edges = NULL;
+			if(given == NULL)
+				free(g);
+			return NULL;
+		}
+	}
+
 	index_t vertexOne, vertexTwo;
 	for (size_t i = 0; i < g->verticesA->size; i++) {
 		
-- 
2.43.0


From b3188671c438908af6de8fba78c6590f8b2d448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:15 +0000
Subject: [PATCH 32/72] fix: cluster_init reports allocation failure

---
 src/cluster.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..b5aa72e 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -53,6 +53,7 @@
  */
 cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t birthLevel, index_t numPoints){
 	
+	cluster* given = cl;
 	if(cl == NULL){
 		cl = (cluster*)malloc(sizeof(cluster));
 	}
@@ -75,6 +76,16 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 			cl->parent->hasChildren = TRUE;
 		cl->hasChildren = FALSE;
 		cl->virtualChildCluster = set_init(sizeof(index_t), NULL);
+		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
+		if(cl->virtualChildCluster == NULL || cl->propagatedDescendants == NULL){
+			logger_write(ERROR, "cluster_init - Could not allocate memory for cluster.");
+			set_delete(cl->virtualChildCluster);
+			array_list_delete(cl->propagatedDescendants);
+			if(given == NULL)
+				free(cl);
+			return NULL;
+		}
+
 		if(sizeof(index_t) == sizeof(int)) {
 			cl->virtualChildCluster->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -82,8 +93,6 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 		} else {
 			cl->virtualChildCluster->compare = short_compare;
 		}
-
-		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
 	}
 
 	return cl;
-- 
2.43.0


From 75f6cbf3e4a87b312beb860642d5c692e16766ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 33/72] fix: detaching more points than a cluster has is
 refused

---
 src/cluster.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index b5aa72e..6812f5c 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -130,19 +130,20 @@ void cluster_destroy(cluster* cl){
  */
 int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 
-	cl->numPoints = (index_t)(cl->numPoints - numPoints);
-	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
+	if(numPoints > cl->numPoints){
 
-	if (cl->numPoints == 0)
-		cl->deathLevel = level;
-	else if (cl->numPoints < 0){
-		
 		char s[100];
-		sprintf(s, "cluster_detach_points - Cluster %d has %d points.\n", cl->label, cl->numPoints);
+		snprintf(s, sizeof(s), "cluster_detach_points - Cluster %ld has only %ld points.\n", (long)cl->label, (long)cl->numPoints);
 		logger_write(FATAL, s);
 		return CLUSTER_ERROR;
 	}
 
+	cl->numPoints = (index_t)(cl->numPoints - numPoints);
+	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
+
+	if (cl->numPoints == 0)
+		cl->deathLevel = level;
+
 	return CLUSTER_SUCCESS;
 }
 
-- 
2.43.0


From 406c8fa2aeb2cac9664ffcaf8538355d8ddec020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 34/72] fix: cluster_release_virtual_child releases the virtual
 child, not the parent

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 6812f5c..abaf253 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -239,8 +239,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From 2efddba30703f87863149ec020f92767f03e2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 35/72] fix: cluster_compare orders the cluster pointers that
 cluster lists hold

---
 src/cluster.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index abaf253..ce191f1 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -247,12 +247,12 @@ void cluster_release_virtual_child(cluster* cl){
 
 int32_t cluster_compare(const void* a, const void* b)
 {
-	const cluster* c1 = (cluster *)a;
-	const cluster* c2 = (cluster *)b;
+	const cluster* c1 = *(cluster * const *)a;
+	const cluster* c2 = *(cluster * const *)b;
 
 	if(c1 == NULL)
 	{
-		return -1;
+		return c2 == NULL ? 0 : -1;
 	}
 
 	if(c2 == NULL)
-- 
2.43.0


From 6ee765c1675285947b45473742c6b99e77965d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 36/72] fix: outlier ids are ordered without overflow

---
 src/outlier_score.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outlier_score.c b/src/outlier_score.c
index b60937b..93f2513 100644
--- a/src/outlier_score.c
+++ b/src/outlier_score.c
@@ -77,7 +77,7 @@ int outlier_score_compare(const void* score1, const void* score2){
 		else if (s1.coreDistance < s2.coreDistance)
 			return -1;
 		else
-			return (int) (s1.id - s2.id);
+			return (s1.id > s2.id) - (s1.id < s2.id);
 	}
 }
 
-- 
2.43.0


From 39eeb54a806961b45ef8bdd903eef6a1a7273262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 37/72] fix: C++ sees the C structs with the layout the C code
 gives them

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From cedc6d56b90ae18bc5ce1af2c14e42dcdfc3f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 38/72] fix: no labels are read from a hierarchy level that
 does not exist

---
 src/hdbscan.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6435c5c..aef2099 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1152,10 +1152,13 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 
 		ArrayList* clusterList = NULL;
 		hashtable_lookup(significant, &key, &clusterList);
-		hierarchy_entry* hpSecond;
+		hierarchy_entry* hpSecond = NULL;
 		int64_t l = key + 1;
 		
 		hashtable_lookup(sc->hierarchy, &l, &hpSecond);
+		if(hpSecond == NULL)
+			continue;
+
 		for(index_t j = 0; j < sc->numPoints; j++){
 			label_t label = (hpSecond->labels)[j];
 			int64_t it = array_list_find(clusterList, &label, 0);
-- 
2.43.0


From 54a879635fe1b42d5b4a228c0f0bc4a7e438ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 39/72] fix: runs report missing labels and outlier scores

---
 src/hdbscan.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index aef2099..eccae93 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -270,9 +270,11 @@ int hdbscan_do_run(hdbscan* sc){
 	int infiniteStability = hdbscan_propagate_tree(sc);
 	hdbscan_find_prominent_clusters(sc, infiniteStability);
 
-	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
+	if(sc->clusterLabels == NULL){
+		return HDBSCAN_ERROR;
+	}
 
-	return HDBSCAN_SUCCESS;
+	return hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 /**
@@ -1142,6 +1144,16 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	}
 	
 	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));
+	if(sc->clusterLabels == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_find_prominent_clusters - Could not allocate memory for the labels.\n");
+	#else
+		printf("FATAL: hdbscan_find_prominent_clusters - Could not allocate memory for the labels.\n");
+	#endif
+
+		hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
+		return;
+	}
 
 	#ifdef _OPENMP
 		#pragma omp parallel for
@@ -1219,7 +1231,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 	//Sort the outlier scores:
 	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);
 
-	return 1;
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 8e052f53fad73d831f3f46dce097376d508447fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 40/72] fix: cluster maps of fewer than three labels can be
 built

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index eccae93..31dd568 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1263,7 +1263,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init((size_t)size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From 1f7e464b444a00f7262a4fc3565afbdd922d9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 41/72] fix: statistics start from zero and cope with no
 clusters

---
 src/hdbscan.c   | 13 +++++++++++--
 src/hdbscan.cpp |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 31dd568..ec81453 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1437,6 +1437,15 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
  */
 void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_stats* stats){
 	
+	if(stats->count == 0){
+		memset(&stats->coreDistanceValues, 0, sizeof(stats_values));
+		memset(&stats->intraDistanceValues, 0, sizeof(stats_values));
+		return;
+	}
+
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
+
 	stats->coreDistanceValues.mean = cr[0];
 	stats->coreDistanceValues.max = cr[0];
 
@@ -1502,8 +1511,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
  */
 void hdbscan_calculate_stats(hashtable* distanceMap, clustering_stats* stats){
 
-	distance_t cr[hashtable_size(distanceMap)];
-	distance_t dr[hashtable_size(distanceMap)];
+	distance_t cr[hashtable_size(distanceMap) + 1];
+	distance_t dr[hashtable_size(distanceMap) + 1];
 	label_t key;
 	distance_values* dl = NULL;
 	
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..c231043 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -156,8 +156,8 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 
 void calculateStats(map<label_t, distance_values>& distanceMap, clustering_stats& stats){
 
-	distance_t cr[distanceMap.size()];
-	distance_t dr[distanceMap.size()];
+	distance_t cr[distanceMap.size() + 1];
+	distance_t dr[distanceMap.size() + 1];
 	index_t c = 0;
 
 	for(map<label_t, distance_values>::iterator it = distanceMap.begin(); it != distanceMap.end(); ++it){
-- 
2.43.0


From c8b15f6e8aa50ab11b61caa136755f1b338ac0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:11 +0000
Subject: [PATCH 42/72] fix: clusters are ranked by their own key and length

---
 src/hdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ec81453..389ecd3 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1723,7 +1723,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];			
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
@@ -1751,7 +1751,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
@@ -1782,7 +1782,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From cfe8831ad6be2b2787d9819e1a12d72ff886fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 43/72] fix: a hierarchy level that cannot be stored fails the
 run

---
 src/hdbscan.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 389ecd3..18969fe 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -266,7 +266,11 @@ int hdbscan_do_run(hdbscan* sc){
 	distance_t pointNoiseLevels[sc->numPoints];
 	label_t pointLastClusters[sc->numPoints];
 
-	hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
+	err = hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
+	if(err == HDBSCAN_ERROR){
+		return HDBSCAN_ERROR;
+	}
+
 	int infiniteStability = hdbscan_propagate_tree(sc);
 	hdbscan_find_prominent_clusters(sc, infiniteStability);
 
@@ -423,6 +427,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	array_list_append(sc->clusters, &c);
 
 	c = cluster_init(NULL, 1, NULL, NAN, numVertices);
+	if(c == NULL)
+		return HDBSCAN_ERROR;
+
 	array_list_append(sc->clusters, &c);
 
 	//Sets for the clusters and vertices that are affected by the edge(s) being removed:
@@ -694,8 +701,18 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		if (compactHierarchy == FALSE || nextLevelSignificant == TRUE || array_list_size(newClusters) > 0) {
 			lineCount++;
 			hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
-			entry->edgeWeight = currentEdgeWeight;
-			entry->labels = (label_t*)malloc(numVertices * sizeof(label_t));
+			if(entry != NULL){
+				entry->edgeWeight = currentEdgeWeight;
+				entry->labels = (label_t*)malloc(numVertices * sizeof(label_t));
+			}
+
+			if(entry == NULL || entry->labels == NULL){
+				hdbscan_destroy_hierarchical_entry(entry);
+				array_list_delete(newClusters);
+				set_delete(affectedClusterLabels);
+				set_delete(affectedVertices);
+				return HDBSCAN_ERROR;
+			}
 
 			#ifdef _OPENMP
 			#pragma omp parallel for
@@ -734,11 +751,18 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		array_list_clear(newClusters, 0);
 	}
 	array_list_delete(newClusters);
+	set_delete(affectedClusterLabels);
+	set_delete(affectedVertices);
 
 	hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
-	entry->edgeWeight = 0.0;
-	entry->labels = (label_t*) malloc(numVertices * sizeof(label_t));
-	
+	if(entry != NULL)
+		entry->labels = (label_t*) malloc(numVertices * sizeof(label_t));
+
+	if(entry == NULL || entry->labels == NULL){
+		hdbscan_destroy_hierarchical_entry(entry);
+		return HDBSCAN_ERROR;
+	}
+
 	#ifdef _OPENMP
 	#pragma omp parallel for
 	#endif
@@ -752,9 +776,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	hashtable_insert(sc->hierarchy, &l, &entry);
 	lineCount++;
 
-	set_delete(affectedClusterLabels);
-	set_delete(affectedVertices);
-
 	return HDBSCAN_SUCCESS;
 }
 
@@ -765,6 +786,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
  */
 hierarchy_entry* hdbscan_create_hierarchy_entry(){
 	hierarchy_entry* entry = (hierarchy_entry *) malloc(sizeof(hierarchy_entry));
+	if(entry == NULL)
+		return NULL;
+
 	entry->labels = NULL;
 	entry->edgeWeight = 0.0;
 	return entry;
-- 
2.43.0


From 3572703574ce50c6db87cd0e295fd986bf4e7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:25 +0000
Subject: [PATCH 44/72] fix: hierarchy file names are built from the given name
 and fit their buffers

---
 src/hdbscan.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 18969fe..23854fe 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1914,16 +1914,18 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + sizeof("_visualization.vis")];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
-		fprintf(visFile, "1\n");
-		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
-		fclose(visFile);
+		if(visFile){
+			fprintf(visFile, "1\n");
+			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fclose(visFile);
+		}
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From 49fc899a00ecf23671a9617ab051ad5a59e911ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:27 +0000
Subject: [PATCH 45/72] fix: printed statistics, distances and scores fit their
 buffers

---
 src/hdbscan.c | 58 +++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 23854fe..6d03b56 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1863,14 +1863,14 @@ void hdbscan_print_cluster_map(hashtable* table){
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
 		
-		sprintf(s, "%d -> [", key);
+		snprintf(s, sizeof(s), "%d -> [", key);
 		logger_write(NONE, s);
 		
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
 			dpointer = ((label_t *)clusterList->data)[j];
-			sprintf(s, "%d ", dpointer);
+			snprintf(s, sizeof(s), "%d ", dpointer);
 			logger_write(NONE, s);
 		}
 		
@@ -1894,7 +1894,7 @@ void hdbscan_print_cluster_sizes(hashtable* table){
 	{	
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
-		sprintf(s, "%d : %ld\n", key, clusterList->size);
+		snprintf(s, sizeof(s), "%d : %ld\n", key, clusterList->size);
 		logger_write(NONE, s);
 	}
 }
@@ -1932,7 +1932,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 	
 	char s[100];
 	logger_write(INFO, "\n////////////////////////////////////////////////////// Printing Hierarchies //////////////////////////////////////////////////////\n");
-	sprintf(s, "hierarchy size = %ld\n", hashtable_size(hierarchy));
+	snprintf(s, sizeof(s), "hierarchy size = %ld\n", hashtable_size(hierarchy));
 	logger_write(INFO, s);
 	
 	for(size_t i = 0; i < set_size(hierarchy->keys); i++){
@@ -1972,12 +1972,12 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[700];	// room for two DBL_MAX
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
 		outlier_score* score = scores + i;
-		sprintf(s, "%ld : (%6f, %6f)\n", (long)score->id, score->coreDistance, score->score);
+		snprintf(s, sizeof(s), "%ld : (%6f, %6f)\n", (long)score->id, score->coreDistance, score->score);
 		logger_write(NONE, s);	
 	}
 
@@ -1991,7 +1991,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[3000];	// room for six DBL_MAX
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -2000,10 +2000,10 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
 		distance_values* dv = NULL;
 		set_value_at(distancesMap->keys, i, &key);
 		hashtable_lookup(distancesMap, &key, &dv);
-		sprintf(s, "%d -> {\n", key);
-		sprintf(s + strlen(s), "\tmin_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
-		sprintf(s + strlen(s), "\tmin_dr : %f, max_dr : %f, dr_confidence : %f\n", dv->min_dr, dv->max_dr, dv->dr_confidence);
-		sprintf(s + strlen(s), "}\n\n");
+		snprintf(s, sizeof(s), "%d -> {\n", key);
+		snprintf(s + strlen(s), sizeof(s) - strlen(s), "\tmin_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
+		snprintf(s + strlen(s), sizeof(s) - strlen(s), "\tmin_dr : %f, max_dr : %f, dr_confidence : %f\n", dv->min_dr, dv->max_dr, dv->dr_confidence);
+		snprintf(s + strlen(s), sizeof(s) - strlen(s), "}\n\n");
 	
 		logger_write(NONE, s);
 	}
@@ -2018,24 +2018,24 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
-	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
-	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
-	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
-	sprintf(s + strlen(s), "Core Distances - Mean 			: %.5f\n", stats->coreDistanceValues.mean);
-	sprintf(s + strlen(s), "Core Distances - Skewness 		: %.5f\n", stats->coreDistanceValues.skewness);
-	sprintf(s + strlen(s), "Core Distances - Kurtosis 		: %.5f\n", stats->coreDistanceValues.kurtosis);
-	sprintf(s + strlen(s), "Core Distances - Variance 		: %.5f\n", stats->coreDistanceValues.variance);
-	sprintf(s + strlen(s), "Core Distances - Standard Dev 	: %.5f\n\n", stats->coreDistanceValues.standardDev);
-
-	sprintf(s + strlen(s), "Intra Distances - Max 			: %.5f\n", stats->intraDistanceValues.max);
-	sprintf(s + strlen(s), "Intra Distances - Mean 			: %.5f\n", stats->intraDistanceValues.mean);
-	sprintf(s + strlen(s), "Intra Distances - Skewness 		: %.5f\n", stats->intraDistanceValues.skewness);
-	sprintf(s + strlen(s), "Intra Distances - Kurtosis 		: %.5f\n", stats->intraDistanceValues.kurtosis);
-	sprintf(s + strlen(s), "Intra Distances - Variance 		: %.5f\n", stats->intraDistanceValues.variance);
-	sprintf(s + strlen(s), "Intra Distances - Standard Dev 	: %.5f\n", stats->intraDistanceValues.standardDev);
-
-	sprintf(s + strlen(s), "//////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////\n\n");
+	char s[6000];	// room for twelve DBL_MAX
+	snprintf(s, sizeof(s), "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Cluster Count 					: %d\n", stats->count);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Mean 			: %.5f\n", stats->coreDistanceValues.mean);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Skewness 		: %.5f\n", stats->coreDistanceValues.skewness);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Kurtosis 		: %.5f\n", stats->coreDistanceValues.kurtosis);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Variance 		: %.5f\n", stats->coreDistanceValues.variance);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Standard Dev 	: %.5f\n\n", stats->coreDistanceValues.standardDev);
+
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Max 			: %.5f\n", stats->intraDistanceValues.max);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Mean 			: %.5f\n", stats->intraDistanceValues.mean);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Skewness 		: %.5f\n", stats->intraDistanceValues.skewness);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Kurtosis 		: %.5f\n", stats->intraDistanceValues.kurtosis);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Variance 		: %.5f\n", stats->intraDistanceValues.variance);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Intra Distances - Standard Dev 	: %.5f\n", stats->intraDistanceValues.standardDev);
+
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "//////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////\n\n");
 
 	logger_write(NONE, s);
 }
-- 
2.43.0


From 4e472830687ef26e2f4508b95e103b09ad6ed8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 46/72] fix: printed edge weights fit their buffer

---
 src/undirected_graph.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 3333f5e..858790f 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -287,18 +287,18 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
-	sprintf(s,
+	char s[350];	// DBL_MAX prints as 309 digits
+	snprintf(s, sizeof(s),
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-	sprintf(s + strlen(s), "\nVertices A\n");
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "\nVertices A\n");
 
 	logger_write(NONE, s);
 
 	for (size_t i = 0; i < g->verticesA->size; i++) {
 		index_t vertex = da[i];
 	#ifdef DEBUG
-		sprintf(s, "%d, ", vertex);
+		snprintf(s, sizeof(s), "%d, ", vertex);
 		logger_write(NONE, s);
 	#else
 		printf("%d, ", vertex);
@@ -306,26 +306,26 @@ void graph_print(UndirectedGraph* g) {
 		
 	}
 
-	sprintf(s, "\n\nVertices B\n");
+	snprintf(s, sizeof(s), "\n\nVertices B\n");
 	logger_write(NONE, s);
 
 	for (size_t i = 0; i < g->verticesB->size; i++) {
 		index_t vertex = db[i];
 	
-		sprintf(s, "%d, ", vertex);
+		snprintf(s, sizeof(s), "%d, ", vertex);
 		logger_write(NONE, s);
 	}
 
-	sprintf(s, "\n\nnedgeWeights\n");
+	snprintf(s, sizeof(s), "\n\nnedgeWeights\n");
 	logger_write(NONE, s);
 
     for (size_t i = 0; i < g->edgeWeights->size; i++) {
 		distance_t weight = dt[i];
-		sprintf(s, "%f, ", weight);
+		snprintf(s, sizeof(s), "%f, ", weight);
 		logger_write(NONE, s);
 	}
 
-	sprintf(s, "\n\nEdges\n");
+	snprintf(s, sizeof(s), "\n\nEdges\n");
 	logger_write(NONE, s);
 
 	for(uint i = 0; i < g->numVertices; i++){
@@ -335,7 +335,7 @@ void graph_print(UndirectedGraph* g) {
 		index_t* ldata = edge->data;
 
 		for(index_t i = 0; i < edge->size; i++){
-			sprintf(s, "%d, ", ldata[i]);
+			snprintf(s, sizeof(s), "%d, ", ldata[i]);
 			logger_write(NONE, s);			
 		}
 	
-- 
2.43.0


From e89ac41200f2d802cd2e70e3974bc453085d1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 47/72] fix: cluster map members are printed as point indices

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6d03b56..967b6ff 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1869,7 +1869,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			snprintf(s, sizeof(s), "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From 41b9601571789837a3c6861f72335fa2832bb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:33 +0000
Subject: [PATCH 48/72] fix: hdbscan::clean leaves the object to its destructor

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index c231043..0f64fa7 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From 29c83465d2d51673d3c4d7232383b8d9f097305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 49/72] fix: hdbscan::calculateOutlierScores calculates the
 scores

---
 src/hdbscan.c   | 1 +
 src/hdbscan.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 967b6ff..9ea993d 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1220,6 +1220,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 
 	distance_t* coreDistances = sc->distanceFunction.coreDistances;
 	index_t numPoints = sc->numPoints;
+	free(sc->outlierScores);
 	sc->outlierScores = (outlier_score*)malloc(numPoints*sizeof(outlier_score));
 
 	if(!sc->outlierScores){
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 0f64fa7..edd8130 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From 94065dc216c2b82c265700364aa698d08031f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 50/72] fix: an empty graph can be created

---
 src/undirected_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 858790f..f1d49ce 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -105,7 +105,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	}
 
 	index_t vertexOne, vertexTwo;
-	for (size_t i = 0; i < g->verticesA->size; i++) {
+	for (size_t i = 0; g->verticesA != NULL && i < g->verticesA->size; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
-- 
2.43.0


From b9e4c0f420c6b4c88802233bf428768cd21b974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 51/72] fix: an empty cluster list is sorted

---
 src/hdbscan.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index edd8130..4f50241 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,9 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	if(clusters.empty())
+		return;
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From f0fa85af0387f3ea1e11c786a12a68060acc8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 52/72] fix: the logger copes without memory for the date

---
 modules/utils/src/logger.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..742cd87 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -54,7 +54,12 @@ static char* getDateString() {
     char* date = (char*)malloc( 100 );
 
     // Format the time correctly
-    strftime(date, 100, "[%F %T]", localtime(&t));
+    if(date != NULL) {
+        struct tm* lt = localtime(&t);
+
+        if(lt == NULL || strftime(date, 100, "[%F %T]", lt) == 0)
+            date[0] = '\0';
+    }
 
     return date;
 }
@@ -102,9 +107,9 @@ void logger_write(enum LOGTYPE type, const char* str) {
     
     /** If the LOGTYPE is none, we do not add the timestamp information to the log */
     if(type != NONE) {
-        size_t sz = strlen(date) + strlen(tp) + strlen(str) + 10;
+        size_t sz = (date == NULL ? 0 : strlen(date)) + strlen(tp) + strlen(str) + 10;
         char buffer[sz];
-        sprintf(buffer, "%s %s: %s", date, tp, str);
+        sprintf(buffer, "%s %s: %s", date == NULL ? "" : date, tp, str);
     #ifdef DEBUG
         fprintf(log_file, "%s", buffer);
     #else
-- 
2.43.0


From 113d28d3c53f199b45d4984a8e3ddc81498253a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 53/72] fix: hash the string of string keys and not the bytes
 of the pointer to it

---
 modules/collections/src/hashtable.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 729e0b8..59deab6 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -91,6 +91,19 @@ int32_t hashtable_entry_compare(const void* a, const void* b)
     return e1->key_compare(e1->key, e2->key);
 }
 
+/**
+ * @brief Hash a string key. String keys are stored as pointers so it is the
+ * string pointed to that has to be hashed.
+ * 
+ * @param key 
+ * @param buckets 
+ * @return size_t 
+ */
+static size_t string_key_hash(void* key, size_t buckets)
+{
+    return str_hash(*(char **)key, buckets);
+}
+
 /**
  * @brief 
  * 
@@ -176,7 +189,7 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     {
         htbl->key_hash = float_hash;
     } else if(htbl->ktype == H_STRING) {
-        htbl->key_hash = str_hash;
+        htbl->key_hash = string_key_hash;
     } else {
         htbl->key_hash = NULL;
     }
-- 
2.43.0


From c6a67eac9cebbc12bad82dbb8616467726f2a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 54/72] fix: hash tables with pointer keys have a hash function

---
 modules/collections/src/hashtable.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 59deab6..35d8c4e 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -91,6 +91,18 @@ int32_t hashtable_entry_compare(const void* a, const void* b)
     return e1->key_compare(e1->key, e2->key);
 }
 
+/**
+ * @brief Hash a pointer key by the address it holds.
+ * 
+ * @param key 
+ * @param buckets 
+ * @return size_t 
+ */
+static size_t ptr_key_hash(void* key, size_t buckets)
+{
+    return (size_t)(*(void **)key) % buckets;
+}
+
 /**
  * @brief Hash a string key. String keys are stored as pointers so it is the
  * string pointed to that has to be hashed.
@@ -191,7 +203,7 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     } else if(htbl->ktype == H_STRING) {
         htbl->key_hash = string_key_hash;
     } else {
-        htbl->key_hash = NULL;
+        htbl->key_hash = ptr_key_hash;
     }
 
     return htbl;
-- 
2.43.0


From fd68e4485e6f1a83cecabc1e28eefbeeb6203db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 55/72] fix: hash the representation of floating point keys,
 converting negative or large ones to an integer is undefined

---
 modules/utils/src/utils.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index bac32c8..763b332 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -40,6 +40,7 @@
  */
 
 #include "hdbscan/utils.h"
+#include <stdint.h>
 #include <stdlib.h>
 
 size_t highestPowerof2(size_t n)
@@ -343,16 +344,20 @@ size_t char_hash(void* key, size_t buckets)
 
 size_t double_hash(void* key, size_t buckets)
 {
-    double *db = (double *)key;
-	size_t tmp = (size_t)(*db);
-    return tmp % buckets;
+    // The conversion of negative and of very large values to an integer type
+    // is undefined, so we use the representation of the value.
+    double db = *(double *)key + 0.0; // 0 and -0 have to hash the same
+	uint64_t tmp;
+	memcpy(&tmp, &db, sizeof(tmp));
+    return (size_t)tmp % buckets;
 }
 
 size_t float_hash(void* key, size_t buckets)
 {
-    float *db = (float *)key;
-	size_t tmp = (size_t)(*db);
-    return tmp % buckets;
+    float db = *(float *)key + 0.0f; // 0 and -0 have to hash the same
+	uint32_t tmp;
+	memcpy(&tmp, &db, sizeof(tmp));
+    return (size_t)tmp % buckets;
 }
 
 size_t str_hash(void *key, size_t buckets)
-- 
2.43.0


From 2ebd23abb10d9ff36ec0fca0ca81b496d8385d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 56/72] fix: the table of primes has 198 elements, the last two
 were 0

---
 modules/collections/include/collections/primes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
-- 
2.43.0


From c0b29a171c0b8edcbc7baefa9e882f82dd6f3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 57/72] fix: find_prime_less_than returned 0 for numbers beyond
 the table of primes

---
 modules/collections/src/primes.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..572b95e 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -102,10 +102,11 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    // The largest prime that we know of when the number is beyond the table
+    if(num > primes[p_sz-1])
+    {
+        return primes[p_sz-1];
+    }
+
     return binary_search_primes(0, p_sz-1, num);
-    //}
 }
\ No newline at end of file
-- 
2.43.0


From 4b48a4a825670b36e73e9f050fbaf3a338da2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:19 +0000
Subject: [PATCH 58/72] fix: get_prime returned min + 1 whether that is a prime
 or not

---
 modules/collections/src/primes.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 572b95e..1928530 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -40,26 +40,24 @@
 
 int32_t get_prime(int32_t min)
 {
-    int32_t prime, n_primes = 0;
+    int64_t prime = (min < 2) ? 2 : (int64_t)min + 1;
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    for(; prime <= INT_MAX; prime++)
     {
-        for (int j = 0; i < n_primes; i++)
+        int64_t divisor = 2;
+        while(divisor * divisor <= prime && prime % divisor != 0)
         {
-            if (i % primes[j] == 0) {
-                goto not_prime;
-            }
+            divisor++;
         }
 
         // Once we have found a prime, then we need to exit the loop
-        prime = i;
-        break;
-        
-        not_prime:
-            ;
+        if(divisor * divisor > prime)
+        {
+            return (int32_t)prime;
+        }
     }
 
-    return prime;
+    return 0; /// There is no larger prime in the range
 }
 
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) 
-- 
2.43.0


From 6d7558069bf8045ec0641d28ee54028108c406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 59/72] fix: the search for a smaller prime missed some of the
 primes of the table

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 1928530..ddb88c4 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -81,7 +81,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From 82ba1f1736fa900ee4a7ef3e150c581acc5dc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:57 +0000
Subject: [PATCH 60/72] fix: smallest core distance of a cluster does not
 depend on the order of its points

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 9ea993d..228d56f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1352,7 +1352,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
-- 
2.43.0


From c5d1a01f1dd4a05252a50050fe4c396aee0e9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:06 +0000
Subject: [PATCH 61/72] fix: printed labels, indices and counts have the
 conversion of their type

---
 src/cluster.c          |  2 +-
 src/hdbscan.c          | 34 +++++++++++++++++-----------------
 src/hdbscan.cpp        |  8 ++++----
 src/undirected_graph.c | 14 +++++++-------
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index ce191f1..380a153 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -133,7 +133,7 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 	if(numPoints > cl->numPoints){
 
 		char s[100];
-		snprintf(s, sizeof(s), "cluster_detach_points - Cluster %ld has only %ld points.\n", (long)cl->label, (long)cl->numPoints);
+		snprintf(s, sizeof(s), "cluster_detach_points - Cluster %lu has only %lu points.\n", (unsigned long)cl->label, (unsigned long)cl->numPoints);
 		logger_write(FATAL, s);
 		return CLUSTER_ERROR;
 	}
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 228d56f..c3ecc79 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -802,7 +802,7 @@ hierarchy_entry* hdbscan_create_hierarchy_entry(){
 void print_distances(hdbscan* sc){
 	for (index_t i = 0; i < sc->numPoints; i++) {
 	#ifdef DEBUG
-		char s[50];
+		char s[400];	// room for DBL_MAX
 		logger_write(INFO, "[");
 	#else
 		printf("[");
@@ -810,7 +810,7 @@ void print_distances(hdbscan* sc){
 		
 		for (index_t j = 0; j < sc->numPoints; j++) {
 		#ifdef DEBUG
-			sprintf(s,"%f\n", distance_get(&sc->distanceFunction, i, j));
+			snprintf(s, sizeof(s), "%f\n", distance_get(&sc->distanceFunction, i, j));
 			logger_write(INFO, s);
 		#else
 			printf("%f ", distance_get(&sc->distanceFunction, i, j));
@@ -839,7 +839,7 @@ void print_distances(hdbscan* sc){
 void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVertexIndices, ArrayList *nearestMRDDistances){
 #ifdef DEBUG
 	logger_write(INFO, ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>");
-	char s[100];
+	char s[400];	// room for DBL_MAX
 #else
 	printf(">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>\n");
 #endif
@@ -851,10 +851,10 @@ void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVert
 		distance_t d = ((distance_t *)nearestMRDDistances->data)[i];
 		
 	#ifdef DEBUG
-		sprintf(s,"%ld --- (%d, %d) : %f\n", i, a, b, d);
-		logger_write(INFO, "[");
+		snprintf(s, sizeof(s), "%lu --- (%lu, %lu) : %f\n", (unsigned long)i, (unsigned long)a, (unsigned long)b, d);
+		logger_write(INFO, s);
 	#else
-		printf("%ld --- (%d, %d) : %f\n", i, a, b, d);
+		printf("%lu --- (%lu, %lu) : %f\n", (unsigned long)i, (unsigned long)a, (unsigned long)b, d);
 	#endif
 	}
 
@@ -1864,14 +1864,14 @@ void hdbscan_print_cluster_map(hashtable* table){
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
 		
-		snprintf(s, sizeof(s), "%d -> [", key);
+		snprintf(s, sizeof(s), "%lu -> [", (unsigned long)key);
 		logger_write(NONE, s);
 		
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
 			dpointer = ((index_t *)clusterList->data)[j];
-			snprintf(s, sizeof(s), "%d ", dpointer);
+			snprintf(s, sizeof(s), "%lu ", (unsigned long)dpointer);
 			logger_write(NONE, s);
 		}
 		
@@ -1895,7 +1895,7 @@ void hdbscan_print_cluster_sizes(hashtable* table){
 	{	
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
-		snprintf(s, sizeof(s), "%d : %ld\n", key, clusterList->size);
+		snprintf(s, sizeof(s), "%lu : %lu\n", (unsigned long)key, (unsigned long)clusterList->size);
 		logger_write(NONE, s);
 	}
 }
@@ -1921,7 +1921,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		visFile = fopen(visFilename, "w");
 		if(visFile){
 			fprintf(visFile, "1\n");
-			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fprintf(visFile, "%lu\n", (unsigned long)hashtable_size(hierarchy));
 			fclose(visFile);
 		}
 
@@ -1933,7 +1933,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 	
 	char s[100];
 	logger_write(INFO, "\n////////////////////////////////////////////////////// Printing Hierarchies //////////////////////////////////////////////////////\n");
-	snprintf(s, sizeof(s), "hierarchy size = %ld\n", hashtable_size(hierarchy));
+	snprintf(s, sizeof(s), "hierarchy size = %lu\n", (unsigned long)hashtable_size(hierarchy));
 	logger_write(INFO, s);
 	
 	for(size_t i = 0; i < set_size(hierarchy->keys); i++){
@@ -1945,14 +1945,14 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		if(hierarchyFile){
 			fprintf(hierarchyFile, "%.15f,", data->edgeWeight);
 		} else {
-			printf("%ld : %.15f -> [", level, data->edgeWeight);
+			printf("%ld : %.15f -> [", (long)level, data->edgeWeight);
 		}
 
 		for(size_t j = 0; j < numPoints; j++){
 			if(hierarchyFile){
-				fprintf(hierarchyFile, "%d,", data->labels[j]);
+				fprintf(hierarchyFile, "%lu,", (unsigned long)data->labels[j]);
 			} else {
-				printf("%d ", data->labels[j]);
+				printf("%lu ", (unsigned long)data->labels[j]);
 			}
 		}
 
@@ -1978,7 +1978,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 
 	for(index_t i = 0; i < numPoints; i++) {
 		outlier_score* score = scores + i;
-		snprintf(s, sizeof(s), "%ld : (%6f, %6f)\n", (long)score->id, score->coreDistance, score->score);
+		snprintf(s, sizeof(s), "%lu : (%6f, %6f)\n", (unsigned long)score->id, score->coreDistance, score->score);
 		logger_write(NONE, s);	
 	}
 
@@ -2001,7 +2001,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
 		distance_values* dv = NULL;
 		set_value_at(distancesMap->keys, i, &key);
 		hashtable_lookup(distancesMap, &key, &dv);
-		snprintf(s, sizeof(s), "%d -> {\n", key);
+		snprintf(s, sizeof(s), "%lu -> {\n", (unsigned long)key);
 		snprintf(s + strlen(s), sizeof(s) - strlen(s), "\tmin_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
 		snprintf(s + strlen(s), sizeof(s) - strlen(s), "\tmin_dr : %f, max_dr : %f, dr_confidence : %f\n", dv->min_dr, dv->max_dr, dv->dr_confidence);
 		snprintf(s + strlen(s), sizeof(s) - strlen(s), "}\n\n");
@@ -2021,7 +2021,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
 void hdbscan_print_stats(clustering_stats* stats){
 	char s[6000];	// room for twelve DBL_MAX
 	snprintf(s, sizeof(s), "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
-	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Cluster Count 					: %d\n", stats->count);
+	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Cluster Count 					: %lu\n", (unsigned long)stats->count);
 	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
 	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Mean 			: %.5f\n", stats->coreDistanceValues.mean);
 	snprintf(s + strlen(s), sizeof(s) - strlen(s), "Core Distances - Skewness 		: %.5f\n", stats->coreDistanceValues.skewness);
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 4f50241..b693ad9 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -194,10 +194,10 @@ void printClusterMap(map_t& table){
 
 		label_t label = it->first;
 		vector<index_t>& clusterList = it->second;
-		printf("%d -> [", label);
+		printf("%lu -> [", (unsigned long)label);
 
 		for(index_t j = 0; j < clusterList.size(); j++){
-			printf("%d ", clusterList[j]);
+			printf("%lu ", (unsigned long)clusterList[j]);
 		}
 		printf("]\n");
 	}
@@ -208,7 +208,7 @@ void printClusterSizes(map_t& table){
 
 		label_t label = it->first;
 		vector<index_t>& clusterList = it->second;
-		printf("%d : %ld\n", label, clusterList.size());
+		printf("%lu : %lu\n", (unsigned long)label, (unsigned long)clusterList.size());
 	}
 }
 
@@ -218,7 +218,7 @@ void printDistanceMap(map<label_t, distance_values>& distancesMap){
 
 	for(map<label_t, distance_values>::iterator it = distancesMap.begin(); it != distancesMap.end(); it++){
 		label_t label = it->first;
-		printf("%d -> {\n", label);
+		printf("%lu -> {\n", (unsigned long)label);
 		distance_values* dv = &(it->second);
 
 		printf("min_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index f1d49ce..0594419 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -289,8 +289,8 @@ void graph_print(UndirectedGraph* g) {
 
 	char s[350];	// DBL_MAX prints as 309 digits
 	snprintf(s, sizeof(s),
-			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
-			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
+			"numVertices: %lu, verticesA.length: %lu,  verticesB.length: %lu, edgeWeights.length: %lu, edges.length: %lu\n",
+			(unsigned long)g->numVertices, (unsigned long)g->verticesA->size, (unsigned long)g->verticesB->size, (unsigned long)g->edgeWeights->size, (unsigned long)g->numVertices);
 	snprintf(s + strlen(s), sizeof(s) - strlen(s), "\nVertices A\n");
 
 	logger_write(NONE, s);
@@ -298,10 +298,10 @@ void graph_print(UndirectedGraph* g) {
 	for (size_t i = 0; i < g->verticesA->size; i++) {
 		index_t vertex = da[i];
 	#ifdef DEBUG
-		snprintf(s, sizeof(s), "%d, ", vertex);
+		snprintf(s, sizeof(s), "%lu, ", (unsigned long)vertex);
 		logger_write(NONE, s);
 	#else
-		printf("%d, ", vertex);
+		printf("%lu, ", (unsigned long)vertex);
 	#endif
 		
 	}
@@ -312,7 +312,7 @@ void graph_print(UndirectedGraph* g) {
 	for (size_t i = 0; i < g->verticesB->size; i++) {
 		index_t vertex = db[i];
 	
-		snprintf(s, sizeof(s), "%d, ", vertex);
+		snprintf(s, sizeof(s), "%lu, ", (unsigned long)vertex);
 		logger_write(NONE, s);
 	}
 
@@ -328,14 +328,14 @@ void graph_print(UndirectedGraph* g) {
 	snprintf(s, sizeof(s), "\n\nEdges\n");
 	logger_write(NONE, s);
 
-	for(uint i = 0; i < g->numVertices; i++){
+	for(index_t i = 0; i < g->numVertices; i++){
 		ArrayList* edge = g->edges[i];
 		logger_write(NONE, "[");
 	
 		index_t* ldata = edge->data;
 
 		for(index_t i = 0; i < edge->size; i++){
-			snprintf(s, sizeof(s), "%d, ", ldata[i]);
+			snprintf(s, sizeof(s), "%lu, ", (unsigned long)ldata[i]);
 			logger_write(NONE, s);			
 		}
 	
-- 
2.43.0


From 5c319b8f1dc958cb6d2ee087399072f60cc58fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:53 +0000
Subject: [PATCH 62/72] fix: the hierarchy construction reports lists and
 clusters it has no memory for

---
 src/hdbscan.c | 57 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c3ecc79..107608b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -434,6 +434,17 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 	//Sets for the clusters and vertices that are affected by the edge(s) being removed:
 	set_t* affectedClusterLabels = set_init(sizeof(label_t), NULL);
+	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
+	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
+	set_t* examinedVertices = NULL;
+	set_t* firstChildCluster = NULL;
+	set_t* unexploredFirstChildClusterPoints = NULL;
+	set_t* constructingSubCluster = NULL;
+	ArrayList* unexploredSubClusterPoints = NULL;
+
+	if(affectedClusterLabels == NULL || affectedVertices == NULL || newClusters == NULL){
+		goto no_memory;
+	}
 
 	if(sizeof(label_t) == sizeof(int)) {
 		affectedClusterLabels->compare = int_compare;
@@ -443,8 +454,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		affectedClusterLabels->compare = short_compare;
 	}
 	
-	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
-
 	if(sizeof(index_t) == sizeof(int)) {
 		affectedVertices->compare = int_compare;
 	} else if(sizeof(index_t) == sizeof(long)) {
@@ -453,7 +462,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		affectedVertices->compare = short_compare;
 	}
 	
-	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
 	index_t i;
 	distance_t currentEdgeWeight, tmp_w;
 
@@ -503,11 +511,16 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		 * do not call realloc a lot
 		 */
 		label_t examinedClusterLabel;
-		set_t* examinedVertices = set_init(sizeof(index_t), NULL);
-		set_t* firstChildCluster = set_init(sizeof(index_t), NULL);
-		set_t* unexploredFirstChildClusterPoints = set_init(sizeof(index_t), NULL);
-		set_t* constructingSubCluster = set_init(sizeof(index_t), NULL);
-		ArrayList* unexploredSubClusterPoints = array_list_init(examinedVertices->max_size, sizeof(index_t), NULL);
+		examinedVertices = set_init(sizeof(index_t), NULL);
+		firstChildCluster = set_init(sizeof(index_t), NULL);
+		unexploredFirstChildClusterPoints = set_init(sizeof(index_t), NULL);
+		constructingSubCluster = set_init(sizeof(index_t), NULL);
+		unexploredSubClusterPoints = array_list_init(examinedVertices == NULL ? 1 : examinedVertices->max_size, sizeof(index_t), NULL);
+
+		if(examinedVertices == NULL || firstChildCluster == NULL || unexploredFirstChildClusterPoints == NULL || 
+			constructingSubCluster == NULL || unexploredSubClusterPoints == NULL){
+			goto no_memory;
+		}
 
 		if(sizeof(index_t) == sizeof(int)) {
 			examinedVertices->compare = int_compare;
@@ -627,6 +640,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 						examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 						cluster* newCluster = hdbscan_create_new_cluster(sc, constructingSubCluster, currentClusterLabels, 
 																			examinedCluster, nextClusterLabel, currentEdgeWeight);
+						if(newCluster == NULL)
+							goto no_memory;
+
 						array_list_append(newClusters, &newCluster);
 						nextClusterLabel++;
 						array_list_append(sc->clusters, &newCluster);
@@ -683,6 +699,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 				
 				cluster* newCluster = hdbscan_create_new_cluster(sc, firstChildCluster, currentClusterLabels, examinedCluster, nextClusterLabel, currentEdgeWeight);
+				if(newCluster == NULL)
+					goto no_memory;
+
 				array_list_append(newClusters, &newCluster);
 				nextClusterLabel++;
 				array_list_append(sc->clusters, &newCluster);
@@ -697,6 +716,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		set_delete(examinedVertices);
 		set_delete(firstChildCluster);
 		set_delete(unexploredFirstChildClusterPoints);
+		constructingSubCluster = NULL;
+		unexploredSubClusterPoints = NULL;
+		examinedVertices = NULL;
+		firstChildCluster = NULL;
+		unexploredFirstChildClusterPoints = NULL;
 
 		if (compactHierarchy == FALSE || nextLevelSignificant == TRUE || array_list_size(newClusters) > 0) {
 			lineCount++;
@@ -708,10 +732,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 			if(entry == NULL || entry->labels == NULL){
 				hdbscan_destroy_hierarchical_entry(entry);
-				array_list_delete(newClusters);
-				set_delete(affectedClusterLabels);
-				set_delete(affectedVertices);
-				return HDBSCAN_ERROR;
+				goto no_memory;
 			}
 
 			#ifdef _OPENMP
@@ -777,6 +798,18 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	lineCount++;
 
 	return HDBSCAN_SUCCESS;
+
+no_memory:
+	array_list_delete(newClusters);
+	set_delete(affectedClusterLabels);
+	set_delete(affectedVertices);
+	set_delete(constructingSubCluster);
+	array_list_delete(unexploredSubClusterPoints);
+	set_delete(examinedVertices);
+	set_delete(firstChildCluster);
+	set_delete(unexploredFirstChildClusterPoints);
+
+	return HDBSCAN_ERROR;
 }
 
 /**
-- 
2.43.0


From 7e562a388b29e448a949ebf66f9566e509369ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:56 +0000
Subject: [PATCH 63/72] fix: tree propagation reports that it has no memory for
 the clusters to examine

---
 src/hdbscan.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 107608b..73baba2 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -272,6 +272,10 @@ int hdbscan_do_run(hdbscan* sc){
 	}
 
 	int infiniteStability = hdbscan_propagate_tree(sc);
+	if(infiniteStability < 0){
+		return HDBSCAN_ERROR;
+	}
+
 	hdbscan_find_prominent_clusters(sc, infiniteStability);
 
 	if(sc->clusterLabels == NULL){
@@ -1072,7 +1076,10 @@ int hdbscan_construct_mst(hdbscan* sc){
 boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	set_t* clustersToExamine = set_init(sizeof(label_t), NULL);
-	
+
+	if(clustersToExamine == NULL)
+		return -1;
+
 	if(sizeof(label_t) == sizeof(int)) {
 		clustersToExamine->compare = int_compare;
 	} else if(sizeof(label_t) == sizeof(long)) {
-- 
2.43.0


From 00ddc30d6ad73f6c1324eadef113eb0c328479d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:25 +0000
Subject: [PATCH 64/72] fix: a run reports that it has no memory for its
 clusters or hierarchy

---
 src/hdbscan.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 73baba2..78d34bb 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -249,6 +249,10 @@ int hdbscan_do_run(hdbscan* sc){
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
+	if(sc->hierarchy == NULL || sc->clusters == NULL){
+		return HDBSCAN_ERROR;
+	}
+
 	int err = hdbscan_construct_mst(sc);
 	
 	if(err == HDBSCAN_ERROR){
@@ -375,7 +379,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-	
+	if(sc->clusters == NULL || sc->clusterStabilities == NULL){
+		return HDBSCAN_ERROR;
+	}
+
 	return hdbscan_do_run(sc);
 }
 
-- 
2.43.0


From 633033033fefe0da77fffca4a324e45a147d201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:27 +0000
Subject: [PATCH 65/72] fix: finding the prominent clusters fails without
 memory instead of using lists it does not have

---
 src/hdbscan.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 78d34bb..afeb477 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1178,6 +1178,10 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	ArrayList *solution = cl->propagatedDescendants;
 	
 	hashtable *significant = hashtable_init(array_list_size(solution), H_LONG, H_PTR, long_compare);
+	if(significant == NULL)
+		return;
+
+	boolean failed = FALSE;
 	int32_t ret;
 	cluster* c = NULL;
 
@@ -1198,7 +1202,9 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 
 			if(clusterList == NULL){
 				clusterList = array_list_init(16, sizeof(label_t), NULL);
-				if(sizeof(label_t) == sizeof(int)) {
+				if(clusterList == NULL) {
+					failed = TRUE;
+				} else if(sizeof(label_t) == sizeof(int)) {
 					clusterList->compare = int_compare;
 				} else if(sizeof(label_t) == sizeof(long)) {
 					clusterList->compare = long_compare;
@@ -1206,14 +1212,21 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 					clusterList->compare = short_compare;
 				}
 				long tmp = c->offset;
-				hashtable_insert(significant, &tmp, &clusterList);
+				if(clusterList != NULL)
+					hashtable_insert(significant, &tmp, &clusterList);
 			}
 			
-			array_list_append(clusterList, &(c->label));
+			if(clusterList != NULL)
+				array_list_append(clusterList, &(c->label));
 		}
 		}
 	}
-	
+
+	if(failed){
+		hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
+		return;
+	}
+
 	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));
 	if(sc->clusterLabels == NULL){
 	#ifdef DEBUG
-- 
2.43.0


From eaf4f762cbacaaefbac954ce1cfc5aafc5e42008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 66/72] fix: cluster and distance maps that there is no memory
 for are not handed out

---
 src/hdbscan.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index afeb477..b03e046 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1339,6 +1339,9 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		clusterTable = hashtable_init(bsize, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(clusterTable == NULL)
+		return NULL;
+
 	clusterTable->size = 0;
 	index_t size = (index_t)(end - begin);
 	
@@ -1349,6 +1352,11 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 
 		if(clusterList == NULL){
 			clusterList = array_list_init((size_t)size/3 + 1, sizeof(index_t), NULL);
+			if(clusterList == NULL){
+				hdbscan_destroy_cluster_map(clusterTable);
+				return NULL;
+			}
+
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
@@ -1383,6 +1391,9 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 		distanceMap = hashtable_init_size(clusterTable->size, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(distanceMap == NULL)
+		return NULL;
+
 	distance_t* core = sc->distanceFunction.coreDistances;
 	distance_t zero = 0.0000000000000000000;
 	label_t key;
@@ -1402,6 +1413,11 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 			if(dl == NULL)
 			{
 				dl = (distance_values *)malloc(sizeof(distance_values));				
+				if(dl == NULL){
+					hdbscan_destroy_distance_map(distanceMap);
+					return NULL;
+				}
+
 				dl->min_cr = core[index];
 				dl->max_cr = core[index];
 				dl->cr_confidence = 0.0;
-- 
2.43.0


From 62cb6765977d8a56be2b90ec8cc1e797e2b65a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:32 +0000
Subject: [PATCH 67/72] fix: sorting clusters fails without memory instead of
 writing to lists it does not have

---
 src/hdbscan.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b03e046..f2e1bd4 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1765,8 +1765,11 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
+	ArrayList *given = clusters;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		if(clusters == NULL)
+			return NULL;
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1782,6 +1785,12 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
 	
+	if(distances == NULL){
+		if(given == NULL)
+			array_list_delete(clusters);
+		return NULL;
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		distances->compare = double_compare;
 	} else {
@@ -1854,8 +1863,11 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 	assert(clusterTable != NULL);
 	ArrayList *lengths;
+	ArrayList *given = clusters;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		if(clusters == NULL)
+			return NULL;
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1870,6 +1882,12 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
 	
+	if(lengths == NULL){
+		if(given == NULL)
+			array_list_delete(clusters);
+		return NULL;
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		lengths->compare = double_compare;
 	} else {
-- 
2.43.0


From 8be8a251fcb838cf69f3e12f9bf1488cd8915806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 68/72] fix: the C++ sorting of clusters throws without memory
 instead of writing to lists it does not have

---
 src/hdbscan.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index b693ad9..9592440 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -40,6 +40,7 @@
  */
 #ifdef __cplusplus
 #include <limits>
+#include <new>
 #include "hdbscan/hdbscan.hpp"
 namespace clustering {
 
@@ -321,6 +322,9 @@ void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t
 		return;
 
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
+	if(d_data == NULL)
+		throw std::bad_alloc();
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
 	} else {
@@ -328,7 +332,11 @@ void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t
 	}
 
 	ArrayList* c_data = array_list_init(clusters.size(), sizeof(label_t), NULL);
-	
+	if(c_data == NULL){
+		array_list_delete(d_data);
+		throw std::bad_alloc();
+	}
+
 	if(sizeof(label_t) == sizeof(int)) {
 		c_data->compare = int_compare;
 	} else if(sizeof(label_t) == sizeof(long)) {
-- 
2.43.0


From ef346e550747f16531dbf4b29dc0934f9e939fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:52 +0000
Subject: [PATCH 69/72] fix: C++ smallest core distance of a cluster stays zero
 when its first point's is zero

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 9592440..cc40da3 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -126,7 +126,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From 0d2c25ebdb4b5d4ed6faa72f89814d29cabdd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:16 +0000
Subject: [PATCH 70/72] fix: skewness and kurtosis of many clusters divide by
 products that wrapped around

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index f2e1bd4..162c478 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1502,7 +1502,7 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	index_t N = stats->count;
+	distance_t N = stats->count;
 	
 	// Calculate the skewness
 	if(stats->count >= 2){
-- 
2.43.0


From 17daf7513663b1c52dbf881b28e7c31ebfd712a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:46 +0000
Subject: [PATCH 71/72] fix: sorting by an empty map or with an empty list of
 labels makes room for at least one value

---
 src/hdbscan.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 162c478..84ce3ad 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1767,7 +1767,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	ArrayList *distances;
 	ArrayList *given = clusters;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
 		if(clusters == NULL)
 			return NULL;
 
@@ -1779,10 +1779,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+		distances = array_list_init(hashtable_size(distanceMap) + 1, sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(distances == NULL){
@@ -1865,7 +1865,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 	ArrayList *lengths;
 	ArrayList *given = clusters;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
 		if(clusters == NULL)
 			return NULL;
 
@@ -1877,9 +1877,9 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			clusters->compare = short_compare;
 		}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+		lengths = array_list_init(hashtable_size(clusterTable) + 1, sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(lengths == NULL){
-- 
2.43.0


From e2a8e30499a171cdedecf487293d99c50ec58f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:40 +0000
Subject: [PATCH 72/72] fix: a single point without self edges is refused
 instead of asking for lists without room

---
 src/hdbscan.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 84ce3ad..034a385 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -939,6 +939,16 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 	//Each point has a current neighbor point in the tree, and a current nearest distance:
 	size_t ssize = (size_t)size - 1 + selfEdgeCapacity;
+	if(ssize == 0){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_construct_mst - A single point without self edges has no tree\n");
+	#else
+		printf("FATAL: hdbscan_construct_mst - A single point without self edges has no tree\n");
+	#endif
+
+		return HDBSCAN_ERROR;
+	}
+
 	ArrayList* nearestMRDNeighbors = array_list_init(ssize, sizeof(index_t), NULL);
 	
 	//Create an array for vertices in the tree that each point attached to:
-- 
2.43.0

