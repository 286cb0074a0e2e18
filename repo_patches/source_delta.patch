From b8bdb95c933741f27206b09dab1f62e3c71bf5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:38 +0000
Subject: [PATCH 01/38] fix: keep waiting in cf_queue_pop until the time limit
 has passed

A timed cf_queue_pop or cf_queue_reduce_pop returned empty as soon as it was
woken and found the queue empty, although its time limit had not passed.
A negative wait other than -1 used an uninitialised deadline instead of
waiting forever as documented.
---
 src/main/citrusleaf/cf_queue.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 99f9f07..6ffd735 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -437,7 +437,7 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
@@ -445,9 +445,9 @@ cf_queue_pop(cf_queue *q, void *buf, int ms_wait)
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
@@ -570,7 +570,7 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 		// others will find the queue empty and go back to waiting.
 
 		while (CF_Q_EMPTY(q)) {
-			if (CF_QUEUE_FOREVER == ms_wait) {
+			if (ms_wait < 0) {
 				pthread_cond_wait(&q->CV, &q->LOCK);
 			}
 			else if (CF_QUEUE_NOWAIT == ms_wait) {
@@ -578,9 +578,9 @@ cf_queue_reduce_pop(cf_queue *q, void *buf, int ms_wait, cf_queue_reduce_fn cb,
 				return CF_QUEUE_EMPTY;
 			}
 			else {
-				pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
+				int rv = pthread_cond_timedwait(&q->CV, &q->LOCK, &tp);
 
-				if (CF_Q_EMPTY(q)) {
+				if (rv != 0 && CF_Q_EMPTY(q)) {
 					pthread_mutex_unlock(&q->LOCK);
 					return CF_QUEUE_EMPTY;
 				}
-- 
2.43.0


From fd83f3515a8c26625157c905dec8f0a57689d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:56 +0000
Subject: [PATCH 02/38] fix: carry a full second when computing a deadline

A deadline whose nanoseconds add up to exactly one second was left with
tv_nsec equal to 1000000000. That is not a valid timespec, so a timed wait
failed at once instead of waiting.
---
 src/include/citrusleaf/cf_clock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/citrusleaf/cf_clock.h b/src/include/citrusleaf/cf_clock.h
index f8a14af..9dd26d8 100644
--- a/src/include/citrusleaf/cf_clock.h
+++ b/src/include/citrusleaf/cf_clock.h
@@ -91,7 +91,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec += ms_wait / 1000;
 	out->tv_nsec += (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -104,7 +104,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec += delta->tv_sec;
 	out->tv_nsec += delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -167,7 +167,7 @@ cf_set_wait_timespec(int ms_wait, struct timespec* out)
 	out->tv_sec = now.tv_sec + (ms_wait / 1000);
 	out->tv_nsec = now.tv_usec * 1000 + (ms_wait % 1000) * 1000 * 1000;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -182,7 +182,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = now.tv_sec + delta->tv_sec;
 	out->tv_nsec = now.tv_usec * 1000 + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
@@ -275,7 +275,7 @@ cf_clock_current_add(struct timespec* delta, struct timespec* out)
 	out->tv_sec = nanos / (1000 * 1000 * 1000) + delta->tv_sec;
 	out->tv_nsec = (nanos % (1000 * 1000 * 1000)) + delta->tv_nsec;
 
-	if (out->tv_nsec > (1000 * 1000 * 1000)) {
+	if (out->tv_nsec >= (1000 * 1000 * 1000)) {
 		out->tv_nsec -= 1000 * 1000 * 1000;
 		out->tv_sec++;
 	}
-- 
2.43.0


From c7f1587731133951be47ed5c27f6606dee491514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:56 +0000
Subject: [PATCH 03/38] fix: keep queued elements when a queue cannot grow

When realloc failed, the only pointer to the elements was overwritten with
NULL. The elements leaked and the next operation crashed.
---
 src/main/aerospike/as_queue.c  | 5 +++--
 src/main/citrusleaf/cf_queue.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ff47756..ce1a226 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -75,11 +75,12 @@ as_queue_increase_capacity(as_queue* queue)
 		// Check for The rare case where the queue is not fragmented, and realloc makes sense
 		// and none of the offsets need to move.
 		if (queue->head % queue->capacity == 0) {
-			queue->data = cf_realloc(queue->data, new_capacity * queue->item_size);
+			uint8_t* data = cf_realloc(queue->data, new_capacity * queue->item_size);
 			
-			if (! queue->data) {
+			if (! data) {
 				return false;
 			}
+			queue->data = data;
 			queue->head = 0;
 			queue->tail = queue->capacity;
 			queue->capacity = new_capacity;
diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index 6ffd735..c6a2763 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -129,12 +129,13 @@ cf_queue_resize(cf_queue *q, uint32_t new_sz)
 	// The rare case where the queue is not fragmented, and realloc makes sense
 	// and none of the offsets need to move.
 	if (0 == q->read_offset % q->alloc_sz) {
-		q->elements = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
+		uint8_t *newq = (uint8_t*)cf_realloc(q->elements, new_sz * q->element_sz);
 
-		if (! q->elements) {
+		if (! newq) {
 			return CF_QUEUE_ERR;
 		}
 
+		q->elements = newq;
 		q->read_offset = 0;
 		q->write_offset = q->alloc_sz;
 	}
-- 
2.43.0


From 11815ea2c1b240d3c71f89cf779df94fcd27b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:56 +0000
Subject: [PATCH 04/38] fix: delete every matching element from a wrapped
 cf_queue

When a deletion closed the gap from the tail side, the element that moved
into the freed slot was not looked at, so one of two adjacent matches stayed
in the queue.
---
 src/main/citrusleaf/cf_queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/citrusleaf/cf_queue.c b/src/main/citrusleaf/cf_queue.c
index c6a2763..9674eab 100644
--- a/src/main/citrusleaf/cf_queue.c
+++ b/src/main/citrusleaf/cf_queue.c
@@ -675,9 +675,16 @@ cf_queue_delete(cf_queue *q, const void *ptr, bool only_one)
 			}
 
 			if (rv == 0) {
+				uint32_t write_offset = q->write_offset;
+
 				cf_queue_delete_offset(q, i);
 				found = true;
 
+				if (q->write_offset != write_offset) {
+					// Following elements moved down, so stay at this offset.
+					i--;
+				}
+
 				if (only_one) {
 					break;
 				}
-- 
2.43.0


From e16bf34d2ea2a5f49d1cdc6ee6031f3262457bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:11 +0000
Subject: [PATCH 05/38] fix: thread pool start and shutdown when threads or
 memory run out

---
 src/main/aerospike/as_thread_pool.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_thread_pool.c b/src/main/aerospike/as_thread_pool.c
index 5a81e42..09d29b5 100644
--- a/src/main/aerospike/as_thread_pool.c
+++ b/src/main/aerospike/as_thread_pool.c
@@ -16,6 +16,7 @@
  */
 #include <aerospike/as_thread_pool.h>
 #include <aerospike/as_atomic.h>
+#include <aerospike/as_sleep.h>
 #include <aerospike/as_thread.h>
 #include <citrusleaf/alloc.h>
 #include <string.h>
@@ -75,10 +76,23 @@ as_thread_pool_init(as_thread_pool* pool, uint32_t thread_size)
 	pool->fini_fn = NULL;
 	pool->thread_size = 0;
 
-	// Start threads.
-	for (uint32_t i = 0; i < thread_size; i++) {
-		if (pthread_create(&pool->threads[i], NULL, as_thread_worker, pool) == 0) {
-			pool->thread_size++;
+	if (thread_size != 0 && pool->threads && pool->dispatch_queue) {
+		// Start threads. Keep the started threads together, so shutdown joins all of them.
+		for (uint32_t i = 0; i < thread_size; i++) {
+			if (pthread_create(&pool->threads[pool->thread_size], NULL, as_thread_worker, pool) == 0) {
+				pool->thread_size++;
+			}
+		}
+	}
+
+	if (thread_size != 0 && pool->thread_size == 0) {
+		// No threads are running, so shutdown would not release these.
+		cf_free(pool->threads);
+		pool->threads = NULL;
+
+		if (pool->dispatch_queue) {
+			cf_queue_destroy(pool->dispatch_queue);
+			pool->dispatch_queue = NULL;
 		}
 	}
 	return (pool->thread_size == thread_size)? 0 : -3;
@@ -123,7 +137,10 @@ as_thread_pool_destroy(as_thread_pool* pool)
 
 	// Send shutdown signal for variable tasks.
 	for (uint32_t i = 0; i < thread_size; i++) {
-		cf_queue_push(pool->dispatch_queue, &task);
+		// The queue may be full with no memory to grow. Wait for workers to make room.
+		while (cf_queue_push(pool->dispatch_queue, &task) != CF_QUEUE_OK) {
+			as_sleep(1);
+		}
 	}
 
 	// Wait till threads finish.
-- 
2.43.0


From 13568c8a940e3cf5b8072ea20594e29e4f1d20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:00 +0000
Subject: [PATCH 06/38] fix: iterate an ordered map without modifying it

---
 src/main/aerospike/as_orderedmap.c | 52 ++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 01217a0..5b526be 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -186,6 +186,33 @@ as_orderedmap_merge(as_orderedmap* map)
 	return true;
 }
 
+// Find entry at position 'ix' in key order. Does not modify the map, so maps
+// shared by several holders can be iterated concurrently.
+static const map_entry*
+entry_at(const as_orderedmap* map, uint32_t ix)
+{
+	uint32_t low = 0;
+	uint32_t high = map->hold_count;
+
+	// The hold entry 'i' is at position 'hold_locations[i] + i'.
+	while (low < high) {
+		uint32_t mid = (low + high) / 2;
+
+		if (map->hold_locations[mid] + mid < ix) {
+			low = mid + 1;
+		}
+		else {
+			high = mid;
+		}
+	}
+
+	if (low < map->hold_count && map->hold_locations[low] + low == ix) {
+		return &map->hold_table[low];
+	}
+
+	return &map->table[ix - low];
+}
+
 
 /******************************************************************************
  *	INSTANCE FUNCTIONS
@@ -425,12 +452,10 @@ as_orderedmap_foreach(const as_orderedmap* map,
 		return false;
 	}
 
-	if (! as_orderedmap_merge((as_orderedmap*)map)) {
-		return false;
-	}
+	for (uint32_t ix = 0; ix < map->count + map->hold_count; ix++) {
+		const map_entry* entry = entry_at(map, ix);
 
-	for (uint32_t ix = 0; ix < map->count; ix++) {
-		if (! callback(map->table[ix].key, map->table[ix].value, udata)) {
+		if (! callback(entry->key, entry->value, udata)) {
 			return false;
 		}
 	}
@@ -442,10 +467,6 @@ as_orderedmap_iterator*
 as_orderedmap_iterator_init(as_orderedmap_iterator* it,
 		const as_orderedmap* map)
 {
-	if (map != NULL && ! as_orderedmap_merge((as_orderedmap*)map)) {
-		return NULL;
-	}
-
 	if (it == NULL) {
 		return NULL;
 	}
@@ -461,10 +482,6 @@ as_orderedmap_iterator_init(as_orderedmap_iterator* it,
 as_orderedmap_iterator*
 as_orderedmap_iterator_new(const as_orderedmap* map)
 {
-	if (map != NULL && ! as_orderedmap_merge((as_orderedmap*)map)) {
-		return NULL;
-	}
-
 	as_orderedmap_iterator* it =
 			(as_orderedmap_iterator*)cf_malloc(sizeof(as_orderedmap_iterator));
 
@@ -497,18 +514,19 @@ as_orderedmap_iterator_destroy(as_orderedmap_iterator* it)
 bool
 as_orderedmap_iterator_has_next(const as_orderedmap_iterator* it)
 {
-	return it->ix < it->map->count;
+	return it->ix < it->map->count + it->map->hold_count;
 }
 
 const as_val*
 as_orderedmap_iterator_next(as_orderedmap_iterator* it)
 {
-	if (it->ix >= it->map->count) {
+	if (! as_orderedmap_iterator_has_next(it)) {
 		return NULL;
 	}
 
-	as_pair_init(&it->pair, it->map->table[it->ix].key,
-			it->map->table[it->ix].value);
+	const map_entry* entry = entry_at(it->map, it->ix);
+
+	as_pair_init(&it->pair, entry->key, entry->value);
 	it->ix++;
 
 	return (as_val*)&it->pair;
-- 
2.43.0


From 123de80f8d20715d7381b4c75d0966791f31e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:00 +0000
Subject: [PATCH 07/38] fix: count references to allocated booleans

---
 src/main/aerospike/as_val.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_val.c b/src/main/aerospike/as_val.c
index 87a91ef..ca199ac 100644
--- a/src/main/aerospike/as_val.c
+++ b/src/main/aerospike/as_val.c
@@ -48,6 +48,7 @@ static uint32_t as_val_hashcode_noop(const as_val *);
 static char *   as_val_tostring_noop(const as_val *);
 static as_val * as_val_reserve_noop(as_val * v);
 static as_val * as_val_reserve_count(as_val * v);
+static as_val * as_val_reserve_boolean(as_val * v);
 
 /******************************************************************************
  *	VARIABLES
@@ -107,7 +108,7 @@ static const as_val_hashcode_callback as_val_hashcode_callbacks[] = {
 static const as_val_reserve_callback as_val_reserve_callbacks[] = {
 	[AS_UNKNOWN]	= as_val_reserve_noop,
 	[AS_NIL]		= as_val_reserve_noop,
-	[AS_BOOLEAN]	= as_val_reserve_noop,
+	[AS_BOOLEAN]	= as_val_reserve_boolean,
 	[AS_INTEGER]	= as_val_reserve_count,
 	[AS_STRING]		= as_val_reserve_count,
 	[AS_BYTES]		= as_val_reserve_count,
@@ -142,6 +143,15 @@ static as_val * as_val_reserve_count(as_val * v)
 	return v;
 }
 
+static as_val * as_val_reserve_boolean(as_val * v)
+{
+	// The constants as_true and as_false are not ref-counted.
+	if (as_load_uint32(&v->count) != 0) {
+		as_incr_uint32(&v->count);
+	}
+	return v;
+}
+
 static uint32_t as_val_hashcode_noop(const as_val * v)
 { 
 	return 0;
-- 
2.43.0


From b8e370c7a01c81baee79bb3bce65c7a624670bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:00 +0000
Subject: [PATCH 08/38] fix: order result release and report failed counted
 allocations

---
 src/main/aerospike/as_aerospike.c | 1 +
 src/main/aerospike/as_result.c    | 7 ++++++-
 src/main/citrusleaf/cf_alloc.c    | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_aerospike.c b/src/main/aerospike/as_aerospike.c
index f954f4b..db29f4b 100644
--- a/src/main/aerospike/as_aerospike.c
+++ b/src/main/aerospike/as_aerospike.c
@@ -33,6 +33,7 @@ as_aerospike * as_aerospike_init(as_aerospike * a, void * s, const as_aerospike_
 as_aerospike * as_aerospike_new(void * s, const as_aerospike_hooks * h)
 {
 	as_aerospike * a = (as_aerospike *) cf_rc_alloc(sizeof(as_aerospike));
+	if (!a) return a;
 	a->is_rcalloc = true;
 	a->source = s;
 	a->hooks = h;
diff --git a/src/main/aerospike/as_result.c b/src/main/aerospike/as_result.c
index 5139105..1ecbb21 100644
--- a/src/main/aerospike/as_result.c
+++ b/src/main/aerospike/as_result.c
@@ -48,7 +48,10 @@ as_result * as_result_reserve(as_result * r) {
 
 void as_result_destroy(as_result *r) {
     // if we reach the last reference, call the destructor, and free
-	if (as_aaf_uint32(&r->count, -1) == 0) {
+	if (as_aaf_uint32_rls(&r->count, -1) == 0) {
+		// Subsequent destructor may require an 'acquire' barrier.
+		as_fence_acq();
+
         if (r->value) {
             as_val_destroy(r->value); 
             r->value = NULL;
@@ -63,6 +66,7 @@ void as_result_destroy(as_result *r) {
 
 as_result * as_success_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = true;
     r->value = v;
     return(r);
@@ -70,6 +74,7 @@ as_result * as_success_new(as_val * v) {
 
 as_result * as_failure_new(as_val * v) {
     as_result *r = as_result_new();
+    if (!r) return r;
     r->is_success = false;
     r->value = v;
     return(r);
diff --git a/src/main/citrusleaf/cf_alloc.c b/src/main/citrusleaf/cf_alloc.c
index 745c8e1..6342dfa 100644
--- a/src/main/citrusleaf/cf_alloc.c
+++ b/src/main/citrusleaf/cf_alloc.c
@@ -96,6 +96,10 @@ cf_rc_alloc(size_t sz)
 {
 	cf_rc_hdr* head = malloc(sizeof(cf_rc_hdr) + sz);
 
+	if (head == NULL) {
+		return NULL;
+	}
+
 	head->count = 1;
 	head->sz = (uint32_t)sz;
 
-- 
2.43.0


From 1d7bf8af54fddab92b2aeb4c175db883084fae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:32 +0000
Subject: [PATCH 09/38] fix: report failed duplication of a string value

A failed copy gave a string value without text, and a failed value
allocation lost the copy.
---
 src/main/aerospike/as_geojson.c | 7 ++++++-
 src/main/aerospike/as_string.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_geojson.c b/src/main/aerospike/as_geojson.c
index 3212643..c61c132 100644
--- a/src/main/aerospike/as_geojson.c
+++ b/src/main/aerospike/as_geojson.c
@@ -69,7 +69,12 @@ as_geojson * as_geojson_new_wlen(char * value, size_t len, bool free)
 
 as_geojson *as_geojson_new_strdup(const char * s)
 {
-	return as_geojson_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if (!value) return NULL;
+
+	as_geojson * string = as_geojson_new(value, true);
+	if (!string) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index a37c542..23b212b 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -57,7 +57,12 @@ as_string * as_string_new_wlen(char * value, size_t len, bool free)
 
 as_string *as_string_new_strdup(const char * s)
 {
-	return as_string_new(cf_strdup(s), true);
+	char * value = cf_strdup(s);
+	if (!value) return NULL;
+
+	as_string * string = as_string_new(value, true);
+	if (!string) cf_free(value);
+	return string;
 }
 
 /******************************************************************************
-- 
2.43.0


From 5462cd913e6a0accaa013930bceb0375c9574e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:32 +0000
Subject: [PATCH 10/38] fix: array list sublists, self-concatenation and failed
 allocations

The tail of a list copied from the wrong list and stayed empty.
Concatenating a list with itself never ended.
The head of an empty list read unallocated memory.
Failed allocations crashed, stored nil or leaked the new value.
Very large indexes wrapped around and wrote outside the list.
---
 src/main/aerospike/as_arraylist.c | 105 +++++++++++++++++++++++-------
 1 file changed, 80 insertions(+), 25 deletions(-)

diff --git a/src/main/aerospike/as_arraylist.c b/src/main/aerospike/as_arraylist.c
index 230bdfd..aaada22 100644
--- a/src/main/aerospike/as_arraylist.c
+++ b/src/main/aerospike/as_arraylist.c
@@ -43,6 +43,12 @@ as_arraylist_init(as_arraylist* list, uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			list->capacity = 0;
+			list->free = false;
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -64,6 +70,11 @@ as_arraylist_new(uint32_t capacity, uint32_t block_size)
 	if (list->capacity > 0) {
 		list->free = true;
 		list->elements = (as_val**) cf_calloc(capacity, sizeof(as_val*));
+
+		if (! list->elements) {
+			cf_free(list);
+			return NULL;
+		}
 	}
 	else {
 		list->free = false;
@@ -106,7 +117,7 @@ as_arraylist_destroy(as_arraylist* l)
  ******************************************************************************/
 
 static int
-as_arraylist_ensure(as_arraylist* list, uint32_t delta)
+as_arraylist_ensure(as_arraylist* list, uint64_t delta)
 {
 	// Check for capacity (in terms of elements, NOT size in bytes), and if we
 	// need to allocate more, do a realloc.
@@ -117,11 +128,14 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 			return AS_ARRAYLIST_ERR_MAX;
 		}
 		// Compute how much room we're missing for the new stuff
-		int new_room = (list->size + delta) - list->capacity;
+		uint64_t new_room = (list->size + delta) - list->capacity;
 		// Compute new capacity in terms of multiples of block_size
 		// This will get us (conservatively) at least one block
-		int new_blocks = (new_room + list->block_size) / list->block_size;
-		int new_capacity = list->capacity + (new_blocks * list->block_size);
+		uint64_t new_blocks = (new_room + list->block_size) / list->block_size;
+		uint64_t new_capacity = list->capacity + (new_blocks * list->block_size);
+		if (new_capacity > UINT32_MAX) {
+			return AS_ARRAYLIST_ERR_ALLOC;
+		}
 		size_t new_bytes = sizeof(as_val*) * new_capacity;
 		as_val** elements = (as_val**) cf_realloc(list->elements, new_bytes);
 		if (! elements) {
@@ -132,7 +146,7 @@ as_arraylist_ensure(as_arraylist* list, uint32_t delta)
 		memset((uint8_t *)elements + old_bytes, 0, new_bytes - old_bytes);
 		// Set the new array pointer and capacity.
 		list->elements = elements;
-		list->capacity = new_capacity;
+		list->capacity = (uint32_t)new_capacity;
 		list->free = true;
 	}
 
@@ -193,7 +207,7 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	int rc = AS_ARRAYLIST_OK;
 
 	if (index >= list->capacity) {
-		rc = as_arraylist_ensure(list, (index + 1) - list->size);
+		rc = as_arraylist_ensure(list, (uint64_t)index + 1 - list->size);
 
 		if (rc != AS_ARRAYLIST_OK) {
 			return rc;
@@ -222,22 +236,38 @@ as_arraylist_set(as_arraylist* list, uint32_t index, as_val* value)
 	return rc;
 }
 
+// Set a value created for the list. NULL means that its creation failed.
+static int
+as_arraylist_set_new(as_arraylist* list, uint32_t index, as_val* value)
+{
+	if (! value) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
+	int rc = as_arraylist_set(list, index, value);
+
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 int
 as_arraylist_set_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_integer_new(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_set_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_double_new(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_set(list, index, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_set_new(list, index, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -247,10 +277,10 @@ as_arraylist_set_str(as_arraylist* list, uint32_t index, const char * value)
 int
 as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 {
-	uint32_t delta = 1;
+	uint64_t delta = 1;
 
 	if (index > list->size) {
-		delta = index + 1 - list->size;
+		delta = (uint64_t)index + 1 - list->size;
 	}
 
 	int rc = as_arraylist_ensure(list, delta);
@@ -279,22 +309,38 @@ as_arraylist_insert(as_arraylist* list, uint32_t index, as_val* value)
 	return AS_ARRAYLIST_OK;
 }
 
+// Insert a value created for the list. NULL means that its creation failed.
+static int
+as_arraylist_insert_new(as_arraylist* list, uint32_t index, as_val* value)
+{
+	if (! value) {
+		return AS_ARRAYLIST_ERR_ALLOC;
+	}
+
+	int rc = as_arraylist_insert(list, index, value);
+
+	if (rc != AS_ARRAYLIST_OK) {
+		as_val_destroy(value);
+	}
+	return rc;
+}
+
 int
 as_arraylist_insert_int64(as_arraylist* list, uint32_t index, int64_t value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_insert_double(as_arraylist* list, uint32_t index, double value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_insert_str(as_arraylist* list, uint32_t index, const char * value)
 {
-	return as_arraylist_insert(list, index, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, index, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -310,19 +356,19 @@ as_arraylist_append(as_arraylist* list, as_val* value)
 int
 as_arraylist_append_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_append(list, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_append_double(as_arraylist* list, double value)
 {
-	return as_arraylist_append(list, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_append_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_append(list, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, list->size, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -338,19 +384,19 @@ as_arraylist_prepend(as_arraylist* list, as_val* value)
 int
 as_arraylist_prepend_int64(as_arraylist* list, int64_t value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_integer_new(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_integer_new(value));
 }
 
 int
 as_arraylist_prepend_double(as_arraylist* list, double value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_double_new(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_double_new(value));
 }
 
 int
 as_arraylist_prepend_str(as_arraylist* list, const char * value)
 {
-	return as_arraylist_prepend(list, (as_val*) as_string_new_strdup(value));
+	return as_arraylist_insert_new(list, 0, (as_val*) as_string_new_strdup(value));
 }
 
 /*******************************************************************************
@@ -385,13 +431,15 @@ as_arraylist_remove(as_arraylist* list, uint32_t index)
 int
 as_arraylist_concat(as_arraylist* list, const as_arraylist* list2)
 {
-	int rc = as_arraylist_ensure(list, list2->size);
+	// The lists may be the same one.
+	uint32_t size2 = list2->size;
+	int rc = as_arraylist_ensure(list, size2);
 
 	if (rc != AS_ARRAYLIST_OK) {
 		return rc;
 	}
 
-	for (uint32_t i = 0; i < list2->size; i++) {
+	for (uint32_t i = 0; i < size2; i++) {
 		if (list2->elements[i]) {
 			as_val_reserve(list2->elements[i]);
 		}
@@ -424,7 +472,7 @@ as_arraylist_trim(as_arraylist* list, uint32_t index)
 as_val*
 as_arraylist_head(const as_arraylist* list)
 {
-	return list->elements[0];
+	return list->size > 0 ? list->elements[0] : NULL;
 }
 
 as_arraylist*
@@ -434,10 +482,13 @@ as_arraylist_tail(const as_arraylist* list)
 
 	as_arraylist* list2 = as_arraylist_new(list->size-1, list->block_size);
 
+	if (! list2) return NULL;
+
+	list2->size = list->size-1;
 	for(uint32_t i = 1, j = 0; i < list->size; i++, j++) {
 		if (list->elements[i]) {
 			as_val_reserve(list->elements[i]);
-			list2->elements[j] = list2->elements[i];
+			list2->elements[j] = list->elements[i];
 		}
 		else {
 			list2->elements[j] = 0;
@@ -453,7 +504,9 @@ as_arraylist_drop(const as_arraylist* list, uint32_t n)
 	uint32_t		sz		= list->size;
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(sz-c, list->block_size);
-	
+
+	if (! list2) return NULL;
+
 	list2->size = sz-c;
 	for(uint32_t i = c, j = 0; j < list2->size; i++, j++) {
 		if (list->elements[i]) {
@@ -475,6 +528,8 @@ as_arraylist_take(const as_arraylist* list, uint32_t n)
 	uint32_t		c		= n < sz ? n : sz;
 	as_arraylist*	list2	= as_arraylist_new(c, list->block_size);
 
+	if (! list2) return NULL;
+
 	list2->size = c;
 	for(uint32_t i = 0; i < c; i++) {
 		if (list->elements[i]) {
-- 
2.43.0


From 7a53b6185386f391d59b916ba35a7e9bcd57d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:32 +0000
Subject: [PATCH 11/38] fix: keep ordered maps intact when memory runs out

A failed growth left a capacity that was not there, so the next set
wrote outside the table. The tables holding back entries were used
without checking. A map whose merge failed once never recovered.
---
 src/main/aerospike/as_orderedmap.c | 36 ++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_orderedmap.c b/src/main/aerospike/as_orderedmap.c
index 5b526be..775d4c0 100644
--- a/src/main/aerospike/as_orderedmap.c
+++ b/src/main/aerospike/as_orderedmap.c
@@ -241,7 +241,12 @@ as_orderedmap_new(uint32_t capacity)
 
 	as_map_cons((as_map*)map, true, 1, &as_orderedmap_map_hooks);
 
-	return as_orderedmap_cons(map, capacity);
+	if (as_orderedmap_cons(map, capacity) == NULL) {
+		cf_free(map);
+		return NULL;
+	}
+
+	return map;
 }
 
 bool
@@ -323,16 +328,16 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 		// Near end of main table - insert directly.
 
 		if (map->count == map->capacity) {
-			map->capacity *= 2;
-
+			uint32_t new_capacity = map->capacity * 2;
 			map_entry* table = (map_entry*)cf_realloc(map->table,
-					map->capacity * sizeof(map_entry));
+					new_capacity * sizeof(map_entry));
 
 			if (table == NULL) {
 				return -1;
 			}
 
 			map->table = table;
+			map->capacity = new_capacity;
 		}
 
 		memmove(&map->table[ix + 1], &map->table[ix],
@@ -347,8 +352,20 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	// Far from end of main table - insert in hold table.
 
 	if (map->hold_table == NULL) {
-		map->hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
+		map_entry* hold_table = cf_malloc(HOLD_TABLE_CAP * sizeof(map_entry));
+
+		if (hold_table == NULL) {
+			return -1;
+		}
+
 		map->hold_locations = cf_malloc(HOLD_TABLE_CAP * sizeof(uint32_t));
+
+		if (map->hold_locations == NULL) {
+			cf_free(hold_table);
+			return -1;
+		}
+
+		map->hold_table = hold_table;
 	}
 
 	uint32_t hold_ix;
@@ -369,7 +386,12 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 	}
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
-		return -1; // previous merge failed
+		// Previous merge failed - try again.
+		if (! as_orderedmap_merge(map)) {
+			return -1;
+		}
+
+		return as_orderedmap_set(map, key, val);
 	}
 
 	memmove(&map->hold_table[hold_ix + 1], &map->hold_table[hold_ix],
@@ -385,7 +407,7 @@ as_orderedmap_set(as_orderedmap* map, const as_val* key, const as_val* val)
 
 	if (map->hold_count == HOLD_TABLE_CAP) {
 		as_orderedmap_merge(map);
-		// Ignore merge allocation failure, next insert will fail.
+		// Ignore merge allocation failure, next insert will try again.
 	}
 
 	return 0;
-- 
2.43.0


From 9119266e4f729572af1cb8ab0fa0756cb37c8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:32 +0000
Subject: [PATCH 12/38] fix: byte buffer index overflow and failed allocations

An index near the 32-bit limit passed the bounds checks.
A buffer whose memory could not be allocated claimed its capacity.
A variable-length integer that did not fit was written in part.
---
 src/main/aerospike/as_bytes.c | 38 +++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index fc814bc..3af769f 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -44,6 +44,16 @@ static inline as_bytes * as_bytes_cons(
 
     if ( value == NULL && size == 0 && capacity > 0 ) {
 	    bytes->value = cf_calloc(capacity, sizeof(uint8_t));
+
+	    if ( bytes->value == NULL ) {
+		    if ( free ) {
+			    cf_free(bytes);
+		    }
+		    else {
+			    bytes->capacity = 0;
+		    }
+		    return NULL;
+	    }
     }
     
 	return bytes;
@@ -153,7 +163,7 @@ as_bytes * as_bytes_new_wrap(uint8_t * value, uint32_t size, bool free)
  */
 uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value, uint32_t size)
 {
-	uint32_t sz = index + size > bytes->size ? 0 : size;
+	uint32_t sz = (uint64_t)index + size > bytes->size ? 0 : size;
 	if ( sz == 0 ) return sz;
 	memcpy(value, &bytes->value[index], sz);
     return sz;
@@ -218,7 +228,7 @@ uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t *
  */
 bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint32_t size)
 {
-    if ( index + size > bytes->capacity ) return false;
+    if ( (uint64_t)index + size > bytes->capacity ) return false;
     memcpy(&bytes->value[index], value, size);
     if ( index + size > bytes->size ) {
     	bytes->size = index + size;
@@ -244,20 +254,26 @@ bool as_bytes_set(as_bytes * bytes, uint32_t index, const uint8_t * value, uint3
  */
 uint32_t as_bytes_set_var_int(const as_bytes * bytes, uint32_t index, uint32_t value)
 {
-	uint8_t* begin = bytes->value + index;
-	uint8_t* end = bytes->value + bytes->capacity;
-	uint8_t* p = begin;
+	uint32_t size = 1;
+
+	for (uint32_t v = value; v >= 0x80; v >>= 7) {
+		size++;
+	}
+
+	// Write all bytes or nothing.
+	if ((uint64_t)index + size > bytes->capacity) {
+		return 0;
+	}
+
+	uint8_t* p = bytes->value + index;
 	
-	while (p < end && value >= 0x80) {
+	while (value >= 0x80) {
 		*p++ = (uint8_t)(value | 0x80);
 		value >>= 7;
 	}
 	
-	if (p < end) {
-		*p++ = (uint8_t)value;
-		return (uint32_t)(p - begin);
-	}
-	return 0;
+	*p = (uint8_t)value;
+	return size;
 }
 
 /******************************************************************************
-- 
2.43.0


From a5414da744ec6508efadf9b9c5e7ff03677e5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:32 +0000
Subject: [PATCH 13/38] fix: string builder without memory and empty byte
 arrays

A builder that got no memory crashed. A builder of capacity zero wrote
outside its buffer. A failed append could leave the text unterminated.
Appending no bytes dropped the opening bracket.
---
 src/main/aerospike/as_string_builder.c | 34 +++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/main/aerospike/as_string_builder.c b/src/main/aerospike/as_string_builder.c
index d7a8b58..e6b8bc7 100644
--- a/src/main/aerospike/as_string_builder.c
+++ b/src/main/aerospike/as_string_builder.c
@@ -24,12 +24,26 @@ extern const char as_hex_chars[];
 void
 as_string_builder_init(as_string_builder* sb, uint32_t capacity, bool resize)
 {
+	// There must be room for the null byte.
+	if (capacity == 0) {
+		capacity = 1;
+	}
+
 	sb->data = (char*)cf_malloc(capacity);
+	sb->free = true;
+
+	if (! sb->data) {
+		// Start with an empty string that can't hold anything.
+		static char empty[1];
+		sb->data = empty;
+		sb->free = false;
+		capacity = 0;
+	}
+
 	sb->data[0] = 0;
 	sb->capacity = capacity;
 	sb->length = 0;
 	sb->resize = resize;
-	sb->free = true;
 }
 
 void
@@ -105,14 +119,12 @@ as_string_builder_append(as_string_builder* sb, const char* src)
 
 		// Optimistic increase of length failed. Roll it back.
 		sb->length--;
+		*trg = 0;
 
 		if (sb->resize) {
 			return as_sb_expand(sb, src);
 		}
-		else {
-			*trg = 0;
-			return false;
-		}
+		return false;
 	}
 	*trg = 0;
 	return true;
@@ -164,8 +176,8 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 	if (sb->resize) {
 		// Ensure buffer is large enough to receive bytes.
 		// min capacity = old length + 3 chars per byte including separator + 2 bracket chars
-		// - 1 extra separator + 1 null byte.
-		uint32_t min_capacity = sb->length + (size * 3) + 2;
+		// - 1 extra separator if any byte + 1 null byte.
+		uint32_t min_capacity = sb->length + (size * 3) + (size > 0 ? 2 : 3);
 
 		if (min_capacity > sb->capacity) {
 			if (! as_sb_increase_capacity(sb, min_capacity)) {
@@ -182,7 +194,9 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 			*trg++ = as_hex_chars[b & 0xf];
 			*trg++ = ' ';
 		}
-		trg--; // truncate last separator
+		if (size > 0) {
+			trg--; // truncate last separator
+		}
 		*trg++ = ']';
 		*trg = 0;
 		sb->length = (int)(trg - sb->data);
@@ -197,7 +211,9 @@ as_string_builder_append_bytes(as_string_builder* sb, uint8_t* src, uint32_t siz
 				return false;
 			}
 		}
-		sb->length--; // truncate last separator
+		if (size > 0) {
+			sb->length--; // truncate last separator
+		}
 
 		if (! as_sb_append_char(sb, ']')) {
 			return false;
-- 
2.43.0


From 325f31ad3591e290aa33f33048140d857fe4ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:38 +0000
Subject: [PATCH 14/38] fix: acquire when a reader takes the writer/readers
 spin lock

The reader could get the lock through a relaxed operation and then miss
what the previous writer had written.
---
 src/include/aerospike/as_atomic_gcc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/aerospike/as_atomic_gcc.h b/src/include/aerospike/as_atomic_gcc.h
index 67e5b49..e318eec 100644
--- a/src/include/aerospike/as_atomic_gcc.h
+++ b/src/include/aerospike/as_atomic_gcc.h
@@ -832,7 +832,7 @@ as_swlock_read_lock(as_swlock* rw)
 			as_arch_pause();
 		}
 
-		uint32_t l = as_faa_uint32(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
+		uint32_t l = as_faa_acq(&rw->u32, 1) & AS_SWLOCK_WRITER_MASK;
 
 		if (l == 0) {
 			break;
-- 
2.43.0


From c63d0eb4a644de9595d76cbf56af5d22c643bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:21 +0000
Subject: [PATCH 15/38] fix: random generators after a failure of the entropy
 source

A thread's generator seeded while no entropy was available had zero seeds and
returned zero forever. It now falls back to the clock and its own address.
A failed reload of the shared buffer leaves undefined contents, which later
small requests were still served from. The buffer now counts as empty.
---
 src/main/aerospike/as_random.c  | 7 +++++++
 src/main/citrusleaf/cf_random.c | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/main/aerospike/as_random.c b/src/main/aerospike/as_random.c
index 26ae393..9044e6f 100644
--- a/src/main/aerospike/as_random.c
+++ b/src/main/aerospike/as_random.c
@@ -15,6 +15,7 @@
  * the License.
  */
 #include <aerospike/as_random.h>
+#include <citrusleaf/cf_clock.h>
 #include <citrusleaf/cf_random.h>
 #include <stddef.h>
 
@@ -47,6 +48,12 @@ as_random_init(as_random* random)
 	// Do not use a counter as a seed.
 	random->seed0 = cf_get_rand64();
 	random->seed1 = cf_get_rand64();
+
+	if (random->seed0 == 0 && random->seed1 == 0) {
+		// Entropy was not available. A generator with zero seeds would return zero forever.
+		random->seed0 = cf_getns();
+		random->seed1 = (uint64_t)(uintptr_t)random;
+	}
 	random->initialized = true;
 }
 
diff --git a/src/main/citrusleaf/cf_random.c b/src/main/citrusleaf/cf_random.c
index bd9f0b6..ada9ef6 100644
--- a/src/main/citrusleaf/cf_random.c
+++ b/src/main/citrusleaf/cf_random.c
@@ -64,6 +64,9 @@ cf_rand_reload(void)
 		seeded = 1;
 	}
 
+	// The contents are undefined if the reload fails.
+	rand_buf_off = 0;
+
 	if (RAND_bytes(rand_buf, sizeof(rand_buf)) != 1) {
 #if ! defined ENHANCED_ALLOC
 		as_log_error("Failed to reload random buffer");
-- 
2.43.0


From 86bf39d129616930f26c4cb9100dc19e77f4dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:06 +0000
Subject: [PATCH 16/38] fix: read the log callback once per message

The callback was tested and then read again for the call. If another thread
removed it in between, the call went to address zero.
---
 src/include/aerospike/as_log_macros.h | 36 +++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_log_macros.h b/src/include/aerospike/as_log_macros.h
index 0be6add..21fba04 100644
--- a/src/include/aerospike/as_log_macros.h
+++ b/src/include/aerospike/as_log_macros.h
@@ -32,29 +32,45 @@ extern "C" {
 #define as_log_debug_enabled() (g_as_log.callback && AS_LOG_LEVEL_DEBUG <= g_as_log.level)
 #define as_log_trace_enabled() (g_as_log.callback && AS_LOG_LEVEL_TRACE <= g_as_log.level)
 
+// The callback may be changed by another thread, so it is read only once.
 #define as_log_error(__fmt, ... ) \
-	if (g_as_log.callback) {\
-		(g_as_log.callback) (AS_LOG_LEVEL_ERROR, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+	{\
+		as_log_callback __log_cb = *(as_log_callback volatile*)&g_as_log.callback;\
+		if (__log_cb) {\
+			__log_cb(AS_LOG_LEVEL_ERROR, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+		}\
 	}
 
 #define as_log_warn(__fmt, ... ) \
-	if (g_as_log.callback && AS_LOG_LEVEL_WARN <= g_as_log.level) {\
-		(g_as_log.callback) (AS_LOG_LEVEL_WARN, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+	{\
+		as_log_callback __log_cb = *(as_log_callback volatile*)&g_as_log.callback;\
+		if (__log_cb && AS_LOG_LEVEL_WARN <= g_as_log.level) {\
+			__log_cb(AS_LOG_LEVEL_WARN, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+		}\
 	}
 
 #define as_log_info(__fmt, ... ) \
-	if (g_as_log.callback && AS_LOG_LEVEL_INFO <= g_as_log.level) {\
-		(g_as_log.callback) (AS_LOG_LEVEL_INFO, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+	{\
+		as_log_callback __log_cb = *(as_log_callback volatile*)&g_as_log.callback;\
+		if (__log_cb && AS_LOG_LEVEL_INFO <= g_as_log.level) {\
+			__log_cb(AS_LOG_LEVEL_INFO, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+		}\
 	}
 
 #define as_log_debug(__fmt, ... ) \
-	if (g_as_log.callback && AS_LOG_LEVEL_DEBUG <= g_as_log.level) {\
-		(g_as_log.callback) (AS_LOG_LEVEL_DEBUG, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+	{\
+		as_log_callback __log_cb = *(as_log_callback volatile*)&g_as_log.callback;\
+		if (__log_cb && AS_LOG_LEVEL_DEBUG <= g_as_log.level) {\
+			__log_cb(AS_LOG_LEVEL_DEBUG, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+		}\
 	}
 
 #define as_log_trace(__fmt, ... ) \
-	if (g_as_log.callback && AS_LOG_LEVEL_TRACE <= g_as_log.level) {\
-		(g_as_log.callback) (AS_LOG_LEVEL_TRACE, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+	{\
+		as_log_callback __log_cb = *(as_log_callback volatile*)&g_as_log.callback;\
+		if (__log_cb && AS_LOG_LEVEL_TRACE <= g_as_log.level) {\
+			__log_cb(AS_LOG_LEVEL_TRACE, __func__, __FILE__, __LINE__, __fmt, ##__VA_ARGS__);\
+		}\
 	}
 
 #ifdef __cplusplus
-- 
2.43.0


From f8ae184dd7a2d19d98c702c47f580a98b75d2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:35 +0000
Subject: [PATCH 17/38] fix: password prompt on an empty read and without
 terminal settings

A line starting with a zero byte, or a buffer of one byte, made the prompt look
at the byte before the buffer. When the terminal's settings could not be read,
uninitialised settings were applied to it.
---
 src/main/aerospike/as_password.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_password.c b/src/main/aerospike/as_password.c
index be53dc2..08fac31 100644
--- a/src/main/aerospike/as_password.c
+++ b/src/main/aerospike/as_password.c
@@ -53,7 +53,11 @@ static void
 as_set_echo(bool echo)
 {
 	struct termios tty;
-	tcgetattr(STDIN_FILENO, &tty);
+
+	if (tcgetattr(STDIN_FILENO, &tty) != 0) {
+		// Not a terminal, or its settings are not known.
+		return;
+	}
 
 	if (echo)
 	{
@@ -117,7 +121,7 @@ as_password_prompt(char* password, int size)
 	if (s) {
 		int len = (int)strlen(password);
 
-		if (password[len - 1] == '\n') {
+		if (len > 0 && password[len - 1] == '\n') {
 			password[--len] = 0;
 		}
 	}
-- 
2.43.0


From 85073a3250ff62e6b640b7cbfb073808138850ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:20 +0000
Subject: [PATCH 18/38] fix: free the packing buffers when memory runs out
 while serializing

A failed growth of the packing buffer lost the current buffer.
A failed allocation of the combined buffer was not checked at all.
---
 src/main/aerospike/as_msgpack.c            |  6 ++++-
 src/main/aerospike/as_msgpack_serializer.c | 28 ++++++++++++++--------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index b4e6fbf..e075e52 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -278,11 +278,15 @@ pack_resize(as_packer *pk, uint32_t sz)
 
 	size_t newcap = (size_t)((sz > (uint32_t)pk->capacity) ? sz : pk->capacity);
 
-	if (! (pk->buffer = (unsigned char *)cf_malloc(newcap))) {
+	unsigned char *buffer = (unsigned char *)cf_malloc(newcap);
+
+	if (! buffer) {
+		// Keep the current buffer, so that the caller can free it.
 		cf_free(entry);
 		return -1;
 	}
 
+	pk->buffer = buffer;
 	pk->capacity = (int)newcap;
 	pk->offset = 0;
 
diff --git a/src/main/aerospike/as_msgpack_serializer.c b/src/main/aerospike/as_msgpack_serializer.c
index 4371f85..89a484b 100644
--- a/src/main/aerospike/as_msgpack_serializer.c
+++ b/src/main/aerospike/as_msgpack_serializer.c
@@ -119,7 +119,24 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 	}
 
     int rc = as_pack_val(&packer, v);
-	
+	unsigned char *target = NULL;
+	int size = 0;
+
+	if (rc == 0 && packer.head) {
+		// Allocate a single buffer for the contents of all buffers.
+		size = packer.offset;
+
+		for (as_packer_buffer *p = packer.head; p; p = p->next) {
+			size += p->length;
+		}
+
+		target = (unsigned char *)cf_malloc(size);
+
+		if (! target) {
+			rc = 1;
+		}
+	}
+
 	if (rc != 0) {
 		// Cleanup buffers on error.
 		as_packer_buffer *p = packer.head;
@@ -142,15 +159,6 @@ static int as_msgpack_serializer_serialize(as_serializer *s, const as_val *v, as
 	if (packer.head) {
 		// Combine buffers into a single contiguous buffer.
 		as_packer_buffer *p = packer.head;
-		int size = packer.offset;
-
-		while (p) {
-			size += p->length;
-			p = p->next;
-		}
-
-		unsigned char *target = (unsigned char *)cf_malloc(size);
-		p = packer.head;
 		int offset = 0;
 
 		while (p) {
-- 
2.43.0


From 17f52aea2be1538692cfb949d0d191914398b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:20 +0000
Subject: [PATCH 19/38] fix: keep as_pack_str and as_pack_bytes in the caller's
 buffer

When the header did not fit, they allocated a new buffer and reported
success although the caller's buffer did not hold the item.
---
 src/main/aerospike/as_msgpack.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index e075e52..1f922c6 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -480,35 +480,35 @@ pack_as_double(as_packer *pk, const as_double *d)
 }
 
 static int
-pack_string_header(as_packer *pk, uint32_t size)
+pack_string_header(as_packer *pk, uint32_t size, bool resize)
 {
 	if (size < 32) {
-		return pack_byte(pk, (uint8_t)(0xa0 | size), true);
+		return pack_byte(pk, (uint8_t)(0xa0 | size), resize);
 	}
 
 	if (size < 256) {
-		return pack_type_uint8(pk, 0xd9, (uint8_t)size, true);
+		return pack_type_uint8(pk, 0xd9, (uint8_t)size, resize);
 	}
 
 	if (size < 65536) {
-		return pack_type_uint16(pk, 0xda, (uint16_t)size, true);
+		return pack_type_uint16(pk, 0xda, (uint16_t)size, resize);
 	}
 
-	return pack_type_uint32(pk, 0xdb, size, true);
+	return pack_type_uint32(pk, 0xdb, size, resize);
 }
 
 static inline int
-pack_byte_array_header(as_packer *pk, uint32_t size)
+pack_byte_array_header(as_packer *pk, uint32_t size, bool resize)
 {
 	// Use string header codes for byte arrays.
-	return pack_string_header(pk, size);
+	return pack_string_header(pk, size, resize);
 }
 
 static int
 pack_string(as_packer *pk, as_string *s)
 {
 	uint32_t length = (uint32_t)as_string_len(s);
-	int rc = pack_string_header(pk, length + 1);
+	int rc = pack_string_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_STRING, true);
@@ -525,7 +525,7 @@ static int
 pack_geojson(as_packer *pk, as_geojson *s)
 {
 	uint32_t length = (uint32_t)as_geojson_len(s);
-	int rc = pack_byte_array_header(pk, length + 1);
+	int rc = pack_byte_array_header(pk, length + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, AS_BYTES_GEOJSON, true);
@@ -541,7 +541,7 @@ pack_geojson(as_packer *pk, as_geojson *s)
 static int
 pack_bytes(as_packer *pk, const as_bytes *b)
 {
-	int rc = pack_byte_array_header(pk, b->size + 1);
+	int rc = pack_byte_array_header(pk, b->size + 1, true);
 
 	if (rc == 0) {
 		rc = pack_byte(pk, b->type, true);
@@ -1358,10 +1358,10 @@ as_pack_double(as_packer *pk, double val)
 int
 as_pack_bytes(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_byte_array_header(pk, sz + 1);
+	int rc = pack_byte_array_header(pk, sz + 1, false);
 
 	if (rc == 0) {
-		rc = pack_byte(pk, AS_BYTES_BLOB, true);
+		rc = pack_byte(pk, AS_BYTES_BLOB, false);
 	}
 
 	if (rc == 0) {
@@ -1397,7 +1397,7 @@ as_pack_bin_size(uint32_t buf_sz)
 int
 as_pack_str(as_packer *pk, const uint8_t *buf, uint32_t sz)
 {
-	int rc = pack_string_header(pk, sz);
+	int rc = pack_string_header(pk, sz, false);
 
 	if (rc == 0 && buf) {
 		return pack_append(pk, buf, sz, false);
-- 
2.43.0


From 72caf5e4ea180551d0016543f1678f646da30ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 20/38] fix: report failure when memory runs out while decoding
 a value

Decoding returned success without a value, or a string without text,
and lost the text of a string whose value could not be allocated.
Map pairs could go missing from a value decoded as a list.
---
 src/main/aerospike/as_msgpack.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 1f922c6..acf8a84 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -924,21 +924,21 @@ static inline int
 unpack_boolean(bool b, as_val **v)
 {
 	*v = (as_val *)as_boolean_new(b);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_integer_val(int64_t i, as_val **v)
 {
 	*v = (as_val *)as_integer_new(i);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static inline int
 unpack_double_val(double d, as_val **v)
 {
 	*v = (as_val *)as_double_new(d);
-	return 0;
+	return *v ? 0 : -1;
 }
 
 static int
@@ -953,11 +953,29 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 
 	if (type == AS_BYTES_STRING) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val*)as_string_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else if (type == AS_BYTES_GEOJSON) {
 		char *v = cf_strndup((const char *)pk->buffer + pk->offset, size);
+
+		if (! v) {
+			return -1;
+		}
+
 		*val = (as_val *)as_geojson_new(v, true);
+
+		if (! *val) {
+			cf_free(v);
+		}
 	}
 	else {
 		as_bytes *b;
-- 
2.43.0


From a3482924e744f9ead3c29017dbfb22ee0c1169b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:40 +0000
Subject: [PATCH 21/38] fix: handle failed allocations when sizing or comparing
 deep values

The blocks that track values nested more than 256 levels deep were used
without a check, and all but the first were lost when an error ended
the walk.
---
 src/main/aerospike/as_msgpack.c | 48 ++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index acf8a84..abf8324 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -107,7 +107,7 @@ static inline int pack_ext_header_internal(as_packer *pk, uint32_t content_size,
 static int64_t unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static int64_t unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth);
 static inline as_val_t bytes_internal_type_to_as_val_t(uint8_t type);
-static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block, msgpack_parse_state *state);
+static int64_t unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block, msgpack_parse_state *state);
 static inline int64_t unpack_size_internal(as_unpacker *pk, uint32_t depth);
 static inline const uint8_t *unpack_str_bin(as_unpacker *pk, uint32_t *sz_r);
 
@@ -120,6 +120,11 @@ static msgpack_parse_memblock *
 msgpack_parse_memblock_create(msgpack_parse_memblock *prev)
 {
 	msgpack_parse_memblock *p = cf_malloc(sizeof(msgpack_parse_memblock));
+
+	if (! p) {
+		return NULL;
+	}
+
 	p->prev = prev;
 	p->count = 0;
 	return p;
@@ -140,8 +145,17 @@ msgpack_parse_memblock_next(msgpack_parse_memblock **block)
 {
 	msgpack_parse_memblock *ptr = *block;
 
+	if (! ptr) {
+		return NULL;
+	}
+
 	if (ptr->count >= MSGPACK_PARSE_MEMBLOCK_STATE_COUNT) {
 		ptr = msgpack_parse_memblock_create(ptr);
+
+		if (! ptr) {
+			return NULL;
+		}
+
 		*block = ptr;
 	}
 
@@ -1600,12 +1614,16 @@ unpack_list_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
+		if (! state) {
+			return -1;
+		}
+
 		state->index = 0;
 		state->map_pair = 0;
 		state->len = ele_count;
 		state->type = AS_LIST;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 
 		msgpack_parse_memblock_destroy(block);
 
@@ -1639,12 +1657,16 @@ unpack_map_elements_size(as_unpacker *pk, uint32_t ele_count, uint32_t depth)
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
+		if (! state) {
+			return -1;
+		}
+
 		state->index = 0;
 		state->map_pair = 0;
 		state->len = ele_count;
 		state->type = AS_MAP;
 
-		int64_t ret = unpack_size_non_recursive(pk, block, state);
+		int64_t ret = unpack_size_non_recursive(pk, &block, state);
 		msgpack_parse_memblock_destroy(block);
 
 		return ret;
@@ -1809,18 +1831,18 @@ as_unpack_buf_peek_type(const uint8_t *buf, uint32_t size)
 }
 
 static int64_t
-unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
+unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock **block,
 		msgpack_parse_state *state)
 {
 	int start = pk->offset;
 
 	while (state) {
 		while (state->index >= state->len) {
-			if (! msgpack_parse_memblock_has_prev(block)) {
+			if (! msgpack_parse_memblock_has_prev(*block)) {
 				return (int64_t)(pk->offset - start);
 			}
 
-			state = msgpack_parse_memblock_prev(&block);
+			state = msgpack_parse_memblock_prev(block);
 		}
 
 		if (state->type == AS_LIST) {
@@ -1846,9 +1868,9 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_LIST ) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_list_size_init(state, pk)) {
 				return -3;
 			}
 
@@ -1856,9 +1878,9 @@ unpack_size_non_recursive(as_unpacker *pk, msgpack_parse_memblock *block,
 		}
 
 		if (type == AS_MAP) {
-			state = msgpack_parse_memblock_next(&block);
+			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_size_init(state, pk)) {
+			if (! state || ! msgpack_parse_state_map_size_init(state, pk)) {
 				return -4;
 			}
 
@@ -2623,7 +2645,7 @@ msgpack_compare_list(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		msgpack_parse_memblock *block = msgpack_parse_memblock_create(NULL);
 		msgpack_parse_state *state = msgpack_parse_memblock_next(&block);
 
-		if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+		if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 			msgpack_parse_memblock_destroy(block);
 			return MSGPACK_COMPARE_ERROR;
 		}
@@ -2887,7 +2909,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_LIST ) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_list_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -2897,7 +2919,7 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 		if (type == AS_MAP) {
 			state = msgpack_parse_memblock_next(block);
 
-			if (! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
+			if (! state || ! msgpack_parse_state_map_cmp_init(state, pk1, pk2)) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-- 
2.43.0


From baf88df05ac9fd0d886901f66ee0094322ffdcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:50 +0000
Subject: [PATCH 22/38] fix: check the remaining length in every decoding
 function

Decoding, sizing, peeking and comparing read past the end of data that
was cut short or damaged, and sizes past the end were reported as valid.
A list or map that claims more elements than bytes are left is refused
before memory is allocated for it.
---
 src/main/aerospike/as_msgpack.c | 171 +++++++++++++++++++++++++++-----
 1 file changed, 147 insertions(+), 24 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index abf8324..7673117 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -862,6 +862,60 @@ as_pack_val(as_packer *pk, const as_val *val)
  * UNPACK FUNCTIONS
  ******************************************************************************/
 
+/**
+ * Get number of bytes between the type byte and the contents of an element.
+ */
+static inline uint32_t
+unpack_header_size(uint8_t type)
+{
+	switch (type) {
+	case 0xc4: // string/raw bytes with 8 bit header
+	case 0xd9:
+	case 0xcc: // unsigned 8 bit integer
+	case 0xd0: // signed 8 bit integer
+		return 1;
+
+	case 0xc5: // string/raw bytes with 16 bit header
+	case 0xda:
+	case 0xcd: // unsigned 16 bit integer
+	case 0xd1: // signed 16 bit integer
+	case 0xdc: // list with 16 bit header
+	case 0xde: // map with 16 bit header
+	case 0xc7: // ext 8
+	case 0xd4: // fixext 1
+		return 2;
+
+	case 0xc8: // ext 16
+	case 0xd5: // fixext 2
+		return 3;
+
+	case 0xc6: // string/raw bytes with 32 bit header
+	case 0xdb:
+	case 0xca: // float
+	case 0xce: // unsigned 32 bit integer
+	case 0xd2: // signed 32 bit integer
+	case 0xdd: // list with 32 bit header
+	case 0xdf: // map with 32 bit header
+		return 4;
+
+	case 0xc9: // ext 32
+	case 0xd6: // fixext 4
+		return 5;
+
+	case 0xcb: // double
+	case 0xcf: // unsigned 64 bit integer
+	case 0xd3: // signed 64 bit integer
+		return 8;
+
+	case 0xd7: // fixext 8
+		return 9;
+	case 0xd8: // fixext 16
+		return 17;
+	default:
+		return 0;
+	}
+}
+
 static inline uint16_t
 extract_uint16(as_unpacker *pk)
 {
@@ -960,6 +1014,10 @@ unpack_blob(as_unpacker *pk, uint32_t size, as_val **val)
 {
 	unsigned char type = 0;
 
+	if (size > pk->length - pk->offset) {
+		return -5;
+	}
+
 	if (size != 0) {
 		type = pk->buffer[pk->offset++];
 		size--;
@@ -1047,6 +1105,11 @@ unpack_list(as_unpacker *pk, uint32_t size, as_val **val)
 		size--;
 	}
 
+	// Every element takes at least one byte.
+	if (size > pk->length - pk->offset) {
+		return -4;
+	}
+
 	as_arraylist *list = as_arraylist_new(size, 8);
 
 	if (! list) {
@@ -1166,6 +1229,11 @@ unpack_map(as_unpacker* pk, uint32_t ele_count, as_val** val)
 		ele_count--;
 	}
 
+	// Every key and every value takes at least one byte.
+	if (ele_count > (pk->length - pk->offset) / 2) {
+		return -6;
+	}
+
 	// Check preserve order bit.
 	if ((flags & AS_PACKED_MAP_FLAG_PRESERVE_ORDER) != 0) {
 		return unpack_map_create_list(pk, ele_count, val);
@@ -1178,13 +1246,24 @@ int
 as_unpack_val(as_unpacker *pk, as_val **val)
 {
 	if (as_unpack_peek_is_ext(pk)) {
-		as_unpack_size(pk);
+		if (as_unpack_size(pk) < 0) {
+			return -3;
+		}
+
 		*val = NULL;
 		return 0;
 	}
 
+	if (pk->offset >= pk->length) {
+		return -4;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (unpack_header_size(type) > pk->length - pk->offset) {
+		return -5;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 		return unpack_nil(val);
@@ -1708,6 +1787,20 @@ bytes_internal_type_to_as_val_t(uint8_t type)
 	return AS_BYTES;
 }
 
+static as_val_t
+peek_blob_type(const as_unpacker *pk, uint32_t type_offset)
+{
+	if (pk->length - pk->offset > type_offset) {
+		return bytes_internal_type_to_as_val_t(
+				pk->buffer[pk->offset + type_offset]);
+	}
+
+	// Only an empty blob has no type.
+	as_unpacker blob = *pk;
+
+	return as_unpack_blob_size(&blob) == 0 ? AS_BYTES : AS_UNDEF;
+}
+
 as_val_t
 as_unpack_peek_type(const as_unpacker *pk)
 {
@@ -1740,22 +1833,16 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_DOUBLE;
 
 	case 0xc4:
-	case 0xd9: { // string/raw bytes with 8 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 2];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xd9: // string/raw bytes with 8 bit header
+		return peek_blob_type(pk, 2);
 
 	case 0xc5:
-	case 0xda: { // string/raw bytes with 16 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 3];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xda: // string/raw bytes with 16 bit header
+		return peek_blob_type(pk, 3);
 
 	case 0xc6:
-	case 0xdb: { // string/raw bytes with 32 bit header
-		uint8_t type1 = pk->buffer[pk->offset + 5];
-		return bytes_internal_type_to_as_val_t(type1);
-	}
+	case 0xdb: // string/raw bytes with 32 bit header
+		return peek_blob_type(pk, 5);
 
 	case 0xdc: // list with 16 bit header
 	case 0xdd: // list with 32 bit header
@@ -1766,6 +1853,10 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_MAP;
 
 	case 0xd4: { // fixext1
+		if (pk->length - pk->offset < 3) {
+			return AS_UNDEF;
+		}
+
 		uint8_t ext_type = pk->buffer[pk->offset + 1];
 
 		if (ext_type == ASVAL_CMP_EXT_TYPE) {
@@ -1792,8 +1883,7 @@ as_unpack_peek_type(const as_unpacker *pk)
 		return AS_CMP_EXT;
 	default:
 		if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-			uint8_t type1 = pk->buffer[pk->offset + 1];
-			return bytes_internal_type_to_as_val_t(type1);
+			return peek_blob_type(pk, 1);
 		}
 
 		if ((type & 0xf0) == 0x80) { // map with 8 bit combined header
@@ -1904,6 +1994,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 
 	uint8_t type = pk->buffer[pk->offset++];
 
+	if (unpack_header_size(type) > pk->length - pk->offset) {
+		return -1;
+	}
+
 	switch (type) {
 	case 0xc0: // nil
 	case 0xc3: // boolean true
@@ -1935,6 +2029,9 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc4:
 	case 0xd9: { // string/raw bytes with 8 bit header
 		uint8_t length = pk->buffer[pk->offset++];
+		if (length > pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += length;
 		return 1 + 1 + length;
 	}
@@ -1942,6 +2039,9 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc5:
 	case 0xda: { // string/raw bytes with 16 bit header
 		uint16_t length = extract_uint16(pk);
+		if (length > pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += length;
 		return 1 + 2 + length;
 	}
@@ -1949,8 +2049,11 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 	case 0xc6:
 	case 0xdb: { // string/raw bytes with 32 bit header
 		uint32_t length = extract_uint32(pk);
+		if (length > pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += length;
-		return 1 + 4 + length;
+		return 1 + 4 + (int64_t)length;
 	}
 
 	case 0xdc: { // list with 16 bit header
@@ -2006,25 +2109,37 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 		return 1 + 1 + 16;
 	case 0xc7: { // ext 8
 		uint8_t length = pk->buffer[pk->offset++];
+		if (length >= pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += 1 + length;
 		return 1 + 1 + 1 + length;
 	}
 	case 0xc8: { // ext 16
 		uint16_t length = extract_uint16(pk);
+		if (length >= pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += 1 + length;
 		return 1 + 2 + 1 + length;
 	}
 	case 0xc9: { // ext 32
 		uint32_t length = extract_uint32(pk);
+		if (length >= pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += 1 + length;
-		return 1 + 4 + 1 + length;
+		return 1 + 4 + 1 + (int64_t)length;
 	}
 	default:
 		break;
 	}
 
 	if ((type & 0xe0) == 0xa0) { // raw bytes with 8 bit combined header
-		int length = type & 0x1f;
+		uint32_t length = type & 0x1f;
+		if (length > pk->length - pk->offset) {
+			return -9;
+		}
 		pk->offset += length;
 		return 1 + length;
 	}
@@ -2059,6 +2174,10 @@ unpack_size_internal(as_unpacker *pk, uint32_t depth)
 int
 as_unpack_boolean(as_unpacker *pk, bool *value)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	if (type == 0xc3 || type == 0xc2) {
@@ -2072,6 +2191,10 @@ as_unpack_boolean(as_unpacker *pk, bool *value)
 int
 as_unpack_nil(as_unpacker *pk)
 {
+	if (pk->offset >= pk->length) {
+		return -1;
+	}
+
 	uint8_t type = pk->buffer[pk->offset++];
 
 	return type == 0xc0 ? 0 : -1;
@@ -2277,14 +2400,14 @@ unpack_str_bin(as_unpacker *pk, uint32_t *sz_r)
 		return NULL;
 	}
 
+	if (*sz_r > pk->length - pk->offset) {
+		return NULL;
+	}
+
 	const uint8_t *buf = &pk->buffer[pk->offset];
 
 	pk->offset += *sz_r;
 
-	if (pk->offset > pk->length) {
-		return NULL;
-	}
-
 	return buf;
 }
 
@@ -2343,7 +2466,7 @@ as_unpack_ext(as_unpacker *pk, as_msgpack_ext *ext)
 		return -3;
 	}
 
-	if (pk->length - pk->offset < 1 + ext->size) {
+	if (pk->length - pk->offset <= ext->size) {
 		return -4;
 	}
 
@@ -2510,7 +2633,7 @@ msgpack_get_blob_len(as_unpacker *pk)
 {
 	int64_t len = as_unpack_blob_size(pk);
 
-	if (len == 0) {
+	if (len <= 0 || pk->offset >= pk->length) {
 		return -1;
 	}
 
-- 
2.43.0


From 246ccf4ef55709568e1638260bf95802f6a1deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:19 +0000
Subject: [PATCH 23/38] fix: compare ordered and deeply nested maps and lists
 correctly

Comparing two serialized maps with flags and different keys failed.
Comparing maps of different sizes did not skip all of their contents.
More than 256 levels deep, maps with flags could not be compared, and
lists of different lengths were skipped twice.
---
 src/main/aerospike/as_msgpack.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index 7673117..a6849ae 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -2863,11 +2863,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 	}
 
 	if (len1 != len2) {
-		if (! msgpack_skip(pk1, len1)) {
+		if (! msgpack_skip(pk1, 2 * len1)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
-		if (! msgpack_skip(pk2, len2)) {
+		if (! msgpack_skip(pk2, 2 * len2)) {
 			return MSGPACK_COMPARE_ERROR;
 		}
 
@@ -2890,11 +2890,11 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		if (ret != MSGPACK_COMPARE_EQUAL) {
-			if (! msgpack_skip(pk1, len1 - 1)) {
+			if (! msgpack_skip(pk1, 2 * (len1 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
-			if (! msgpack_skip(pk2, len2 - 1)) {
+			if (! msgpack_skip(pk2, 2 * (len2 - 1))) {
 				return MSGPACK_COMPARE_ERROR;
 			}
 
@@ -2902,6 +2902,8 @@ msgpack_compare_map(as_unpacker *pk1, as_unpacker *pk2, size_t depth)
 		}
 
 		minlen--;
+		len1--;
+		len2--;
 	}
 
 	for (int64_t i = 0; i < minlen; i++) {
@@ -2985,6 +2987,10 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 			}
 
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Nothing is left to unwind.
+				state->len1 = state->index;
+				state->len2 = state->index;
+
 				return state->default_compare_type;
 			}
 
@@ -3115,6 +3121,8 @@ msgpack_compare_type(as_unpacker *pk1, as_unpacker *pk2, as_val_t type,
 		return msgpack_compare_double(pk1, pk2);
 	case AS_GEOJSON:
 		return msgpack_compare_blob(pk1, pk2);
+	case AS_CMP_EXT:
+		return compare_ext(pk1, pk2);
 	case AS_CMP_WILDCARD:
 	case AS_CMP_INF:
 		pk1->offset += 3;
-- 
2.43.0


From 83e440e35b505ad5be02a05aae87c1827397e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:20 +0000
Subject: [PATCH 24/38] fix: release the key and report failure when a string
 map entry cannot be stored

---
 src/include/aerospike/as_stringmap.h | 40 +++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/include/aerospike/as_stringmap.h b/src/include/aerospike/as_stringmap.h
index 7b60f8d..84da3bc 100644
--- a/src/include/aerospike/as_stringmap.h
+++ b/src/include/aerospike/as_stringmap.h
@@ -39,7 +39,12 @@ extern "C" {
  */
 static inline int as_stringmap_set(as_map * m, const char * k, as_val * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), v);
+	as_string * key = as_string_new_strdup(k);
+	if ( !key ) return -1;
+
+	int rc = as_util_hook(set, 1, m, (as_val *) key, v);
+	if ( rc != 0 ) as_string_destroy(key);
+	return rc;
 }
 
 /**
@@ -47,7 +52,12 @@ static inline int as_stringmap_set(as_map * m, const char * k, as_val * v)
  */
 static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_integer_new(v));
+	as_val * val = (as_val *) as_integer_new(v);
+	if ( !val ) return -1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -55,7 +65,12 @@ static inline int as_stringmap_set_int64(as_map * m, const char * k, int64_t v)
  */
 static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_double_new(v));
+	as_val * val = (as_val *) as_double_new(v);
+	if ( !val ) return -1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -63,7 +78,12 @@ static inline int as_stringmap_set_double(as_map * m, const char * k, double v)
  */
 static inline int as_stringmap_set_str(as_map * m, const char * k, const char * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) as_string_new_strdup(v));
+	as_val * val = (as_val *) as_string_new_strdup(v);
+	if ( !val ) return -1;
+
+	int rc = as_stringmap_set(m, k, val);
+	if ( rc != 0 ) as_val_destroy(val);
+	return rc;
 }
 
 /**
@@ -71,7 +91,7 @@ static inline int as_stringmap_set_str(as_map * m, const char * k, const char *
  */
 static inline int as_stringmap_set_integer(as_map * m, const char * k, as_integer * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -79,7 +99,7 @@ static inline int as_stringmap_set_integer(as_map * m, const char * k, as_intege
  */
 static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_double * v)
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 	
 /**
@@ -87,7 +107,7 @@ static inline int as_stringmap_set_as_double(as_map * m, const char * k, as_doub
  */
 static inline int as_stringmap_set_string(as_map * m, const char * k, as_string * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -95,7 +115,7 @@ static inline int as_stringmap_set_string(as_map * m, const char * k, as_string
  */
 static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -103,7 +123,7 @@ static inline int as_stringmap_set_bytes(as_map * m, const char * k, as_bytes *
  */
 static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /**
@@ -111,7 +131,7 @@ static inline int as_stringmap_set_list(as_map * m, const char * k, as_list * v)
  */
 static inline int as_stringmap_set_map(as_map * m, const char * k, as_map * v) 
 {
-	return as_util_hook(set, 1, m, (as_val *) as_string_new_strdup(k), (as_val *) v);
+	return as_stringmap_set(m, k, (as_val *) v);
 }
 
 /******************************************************************************
-- 
2.43.0


From eeb4448f8076a08c3ddb4c9c32f3ce6472add450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:53 +0000
Subject: [PATCH 25/38] fix: report failure when a file name cannot be copied

---
 src/main/aerospike/as_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/aerospike/as_string.c b/src/main/aerospike/as_string.c
index 23b212b..11902fa 100644
--- a/src/main/aerospike/as_string.c
+++ b/src/main/aerospike/as_string.c
@@ -138,6 +138,12 @@ const char* as_basename(as_string * filename, const char* path)
 
 		size_t len = (end - p) + 1;
 		char* str = cf_malloc(len + 1);
+
+		if (! str) {
+			as_string_cons(filename, false, NULL, 0, false);
+			return NULL;
+		}
+
 		memcpy(str, p, len);
 		*(str + len) = 0;
 		as_string_cons(filename, false, str, len, true);
-- 
2.43.0


From 5fae2933cac91c5e367e48eb1065bfe5dca2806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:53 +0000
Subject: [PATCH 26/38] fix: do not write past a buffer too small for the hex
 prefix

---
 src/main/aerospike/as_bytes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index 3af769f..cdbd610 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -474,7 +474,8 @@ as_bytes_to_string_with_prefix(
 	const uint8_t* bytes, uint32_t bytes_size, char* str, uint32_t str_size
 	)
 {
-	if (as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
+	if (str_size >= 2 &&
+		as_bytes_to_string(bytes, bytes_size, str + 2, str_size - 2)) {
 		*str++ = '0';
 		*str = 'x';
 		return true;
-- 
2.43.0


From 26d84196f5697dbff8723517630e93d39735dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:53 +0000
Subject: [PATCH 27/38] fix: survive running out of memory while building the
 text of a value

Lists, maps, pairs, integers and doubles wrote to address zero. A map
holding a value without a text lost all entries from that one on.
---
 src/main/aerospike/as_double.c  |  1 +
 src/main/aerospike/as_integer.c |  1 +
 src/main/aerospike/as_list.c    | 30 ++++++++++++++++--
 src/main/aerospike/as_map.c     | 55 ++++++++++++++++++++++++++-------
 src/main/aerospike/as_pair.c    | 16 +++++++---
 5 files changed, 84 insertions(+), 19 deletions(-)

diff --git a/src/main/aerospike/as_double.c b/src/main/aerospike/as_double.c
index 0eb51e2..e2bec92 100644
--- a/src/main/aerospike/as_double.c
+++ b/src/main/aerospike/as_double.c
@@ -80,6 +80,7 @@ as_double_val_tostring(const as_val * val)
 {
 	as_double* value_ptr = (as_double*)val;
 	char* str = (char*)cf_malloc(sizeof(char) * 64);
+	if (!str) return str;
 	sprintf(str, "%.16g", value_ptr->value);
 	return str;
 }
diff --git a/src/main/aerospike/as_integer.c b/src/main/aerospike/as_integer.c
index 2384453..f4da430 100644
--- a/src/main/aerospike/as_integer.c
+++ b/src/main/aerospike/as_integer.c
@@ -65,6 +65,7 @@ char * as_integer_val_tostring(const as_val * v)
 {
 	as_integer * i = (as_integer *) v;
 	char * str = (char *) cf_malloc(sizeof(char) * 32);
+	if (!str) return str;
 	memset(str, 0, 32);
 	sprintf(str, "%" PRId64, i->value);
 	return str;
diff --git a/src/main/aerospike/as_list.c b/src/main/aerospike/as_list.c
index 31779d5..e58f21b 100644
--- a/src/main/aerospike/as_list.c
+++ b/src/main/aerospike/as_list.c
@@ -98,7 +98,18 @@ static bool as_list_val_tostring_foreach(as_val * val, void * udata)
 
 	if ( data->pos + len + 2 >= data->cap ) {
 		uint32_t adj = ((len+2) > data->blk) ? len+2 : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if ( !buf ) {
+			if ( str != NULL_STR ) {
+				cf_free(str);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+
+		data->buf = buf;
 		data->cap += adj;
 	}
 
@@ -131,15 +142,30 @@ char * as_list_val_tostring(const as_val * v)
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
 
+	if ( !data.buf ) {
+		return NULL;
+	}
+
 	strcpy(data.buf, "[");
 	data.pos += 1;
 
 	if ( v ) {
 		as_list_foreach((as_list *) v, as_list_val_tostring_foreach, &data);
+
+		if ( !data.buf ) {
+			return NULL;
+		}
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+
+		data.buf = buf;
 		data.cap += 2;
 	}
 
diff --git a/src/main/aerospike/as_map.c b/src/main/aerospike/as_map.c
index a436ff2..1e710a1 100644
--- a/src/main/aerospike/as_map.c
+++ b/src/main/aerospike/as_map.c
@@ -68,28 +68,43 @@ typedef struct as_map_val_tostring_data_s {
 	bool		sep;
 } as_map_val_tostring_data;
 
+static const char NULL_STR[] = "<NULL>";
+
 static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, void* udata)
 {
 	as_map_val_tostring_data * data = (as_map_val_tostring_data *) udata;
 
 	char * keystr = as_val_tostring(key);
 	if (!keystr) {
-		return false;
+		keystr = (char *)NULL_STR;
 	}
 	int keylen = (int)strlen(keystr);
 
 	char * valstr = as_val_tostring(val);
-    if (!valstr) {
-		cf_free(keystr);
-    	return false;
-    }
+	if (!valstr) {
+		valstr = (char *)NULL_STR;
+	}
 	int vallen = (int)strlen(valstr);
 
 	uint32_t entlen = keylen + 2 + vallen + 2;
 
 	if ( data->pos + entlen >= data->cap ) {
 		uint32_t adj = entlen > data->blk ? entlen : data->blk;
-		data->buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+		char * buf = cf_realloc(data->buf, sizeof(char) * (data->cap + adj));
+
+		if ( !buf ) {
+			if ( keystr != NULL_STR ) {
+				cf_free(keystr);
+			}
+			if ( valstr != NULL_STR ) {
+				cf_free(valstr);
+			}
+			cf_free(data->buf);
+			data->buf = NULL;
+			return false;
+		}
+
+		data->buf = buf;
 		memset(data->buf + data->cap, 0, sizeof(char) * adj);
 		data->cap += adj;
 	}
@@ -111,11 +126,13 @@ static bool as_map_val_tostring_foreach(const as_val* key, const as_val* val, vo
 
 	data->sep = true;
 
-	cf_free(keystr);
-	keystr = NULL;
+	if ( keystr != NULL_STR ) {
+		cf_free(keystr);
+	}
 
-	cf_free(valstr);
-	valstr = NULL;
+	if ( valstr != NULL_STR ) {
+		cf_free(valstr);
+	}
 
 	return true;
 }
@@ -132,15 +149,29 @@ char * as_map_val_tostring(const as_val* v)
 
 	data.buf = (char *) cf_calloc(data.cap, sizeof(char));
 
+	if ( !data.buf ) {
+		return NULL;
+	}
+
 	strcpy(data.buf, "{");
 	data.pos += 1;
 	
 	if ( v ) {
-		as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data);
+		if ( !as_map_foreach((as_map*) v, as_map_val_tostring_foreach, &data) ) {
+			cf_free(data.buf);
+			return NULL;
+		}
 	}
 
 	if ( data.pos + 2 >= data.cap ) {
-		data.buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+		char * buf = cf_realloc(data.buf, sizeof(char) * (data.cap + 2));
+
+		if ( !buf ) {
+			cf_free(data.buf);
+			return NULL;
+		}
+
+		data.buf = buf;
 		data.cap += 2;
 	}
 
diff --git a/src/main/aerospike/as_pair.c b/src/main/aerospike/as_pair.c
index 0e8c017..53b2b58 100644
--- a/src/main/aerospike/as_pair.c
+++ b/src/main/aerospike/as_pair.c
@@ -66,18 +66,24 @@ char *as_pair_val_tostring(const as_val * v)
 	if ( p == NULL ) return NULL;
 
 	char * a = as_val_tostring(p->_1);
-	size_t al = strlen(a);
+	const char * as = a ? a : "<NULL>";
+	size_t al = strlen(as);
 	char * b = as_val_tostring(p->_2);
-	size_t bl = strlen(b);
+	const char * bs = b ? b : "<NULL>";
+	size_t bl = strlen(bs);
 	
 	size_t l = al + bl + 5;
 	char * str = (char *) cf_malloc(sizeof(char) * l);
-	if (!str) return str;
+	if (!str) {
+		cf_free(a);
+		cf_free(b);
+		return str;
+	}
 
 	strcpy(str, "(");
-	strcpy(str+1, a);
+	strcpy(str+1, as);
 	strcpy(str+1+al,", ");
-	strcpy(str+1+al+2, b);
+	strcpy(str+1+al+2, bs);
 	strcpy(str+1+al+2+bl,")");
 	*(str+1+al+2+bl+1) = '\0';
 	
-- 
2.43.0


From 85d1d454b52f26f2ef3c4a926fbb7a8462bcbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:07 +0000
Subject: [PATCH 28/38] fix: do not accept a certificate whose alternative name
 only starts with the expected name

A null byte in the alternative name ended the comparison.
---
 src/main/aerospike/ssl_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 3d8280e..6874ccd 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -458,7 +458,10 @@ bool as_tls_match_san(X509 *x509, const char *name) {
 			char *san = (char*)ASN1_STRING_get0_data(dns_name);
 #endif
 
-			if (strcmp(name, san) == 0) {
+			size_t san_length = (size_t)ASN1_STRING_length(dns_name);
+
+			// The SAN may contain null bytes.
+			if (strlen(name) == san_length && memcmp(name, san, san_length) == 0) {
 				match = true;
 				break;
 			}
-- 
2.43.0


From 41499c339acc512b584d44276e861410b4928dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:07 +0000
Subject: [PATCH 29/38] fix: do not take a partly converted certificate name
 for the whole name

---
 src/main/aerospike/ssl_util.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 6874ccd..2019f91 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -150,13 +150,20 @@ static char *asn1_string_to_utf8(apr_pool_t *p, ASN1_STRING *asn1str)
     if ((bio = BIO_new(BIO_s_mem())) == NULL)
         return NULL;
 
-    ASN1_STRING_print_ex(bio, asn1str, ASN1_STRFLGS_ESC_CTRL|
-                                       ASN1_STRFLGS_UTF8_CONVERT);
+    /* On failure the text may have been written in part only. */
+    if (ASN1_STRING_print_ex(bio, asn1str, ASN1_STRFLGS_ESC_CTRL|
+                                           ASN1_STRFLGS_UTF8_CONVERT) < 0) {
+        BIO_free(bio);
+        return NULL;
+    }
     len = BIO_pending(bio);
-    if (len > 0) {
-		result = cf_malloc(len+1);
-        len = BIO_read(bio, result, len);
-        result[len] = NUL;
+    if (len > 0 && (result = cf_malloc(len+1)) != NULL) {
+        if (BIO_read(bio, result, len) == len) {
+            result[len] = NUL;
+        } else {
+            cf_free(result);
+            result = NULL;
+        }
     }
     BIO_free(bio);
     return result;
-- 
2.43.0


From f886025dbaaecb393a52d66774c07fc7c9ac0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:31 +0000
Subject: [PATCH 30/38] fix: survive running out of memory while collecting the
 names of a certificate

---
 src/main/aerospike/ssl_util.c | 41 +++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/main/aerospike/ssl_util.c b/src/main/aerospike/ssl_util.c
index 2019f91..d5354ae 100644
--- a/src/main/aerospike/ssl_util.c
+++ b/src/main/aerospike/ssl_util.c
@@ -88,6 +88,9 @@ static apr_array_header_t * as_apr_array_make(apr_pool_t * pp,
 	assert(nelts == 0);
 
 	apr_array_header_t * arr = cf_malloc(sizeof(apr_array_header_t));
+	if (!arr) {
+		return NULL;
+	}
 	arr->pool = NULL;
 	arr->elt_size = (int)eltsz;
 	arr->nelts = (int)nelts;
@@ -98,6 +101,9 @@ static apr_array_header_t * as_apr_array_make(apr_pool_t * pp,
 
 static void as_array_destroy(apr_array_header_t * arr)
 {
+	if (!arr) {
+		return;
+	}
 	for (int ii = 0; ii < arr->nelts; ++ii) {
 		char ** ptr = (char **) (arr->elts + (ii * arr->elt_size));
 		cf_free(*ptr);
@@ -112,13 +118,14 @@ static void * as_apr_array_push(apr_array_header_t * arr)
 {
 	// If we don't have enough space double up.
 	if (arr->nelts == arr->nalloc) {
-		if (arr->nalloc == 0) {
-			arr->nalloc = 16;
-		} else {
-			arr->nalloc *= 2;
+		int nalloc = arr->nalloc == 0 ? 16 : arr->nalloc * 2;
+		size_t newsz = nalloc * arr->elt_size;
+		char * elts = cf_realloc(arr->elts, newsz);
+		if (!elts) {
+			return NULL;
 		}
-		size_t newsz = arr->nalloc * arr->elt_size;
-		arr->elts = cf_realloc(arr->elts, newsz);
+		arr->elts = elts;
+		arr->nalloc = nalloc;
 	}
 
 	// Point to the first unused location.
@@ -130,7 +137,17 @@ static void * as_apr_array_push(apr_array_header_t * arr)
     return ptr;
 }
 
-#define 	APR_ARRAY_PUSH(ary, type)   (*((type *)as_apr_array_push(ary)))
+// Add a string to the array, which takes ownership of it.
+static void as_array_push_str(apr_array_header_t * arr, const char * str)
+{
+	const char ** ptr = as_apr_array_push(arr);
+
+	if (ptr) {
+		*ptr = str;
+	} else {
+		cf_free((void *)str);
+	}
+}
 
 static int as_apr_is_empty_array(const apr_array_header_t * arr)
 {
@@ -193,11 +210,11 @@ static void parse_otherName_value(apr_pool_t *p, ASN1_TYPE *value,
      */
     if ((nid == NID_ms_upn) && (value->type == V_ASN1_UTF8STRING) &&
         (str = asn1_string_to_utf8(p, value->value.utf8string))) {
-        APR_ARRAY_PUSH(*entries, const char *) = str;
+        as_array_push_str(*entries, str);
     } else if (strEQ(onf, "id-on-dnsSRV") &&
                (value->type == V_ASN1_IA5STRING) &&
                (str = asn1_string_to_utf8(p, value->value.ia5string))) {
-        APR_ARRAY_PUSH(*entries, const char *) = str;
+        as_array_push_str(*entries, str);
     }
 }
 
@@ -240,7 +257,7 @@ static BOOL modssl_X509_getSAN(apr_pool_t *p, X509 *x509, int type, const char *
             case GEN_DNS:
                 if (((idx == -1) || (n == idx)) &&
                     (utf8str = asn1_string_to_utf8(p, name->d.ia5))) {
-                    APR_ARRAY_PUSH(*entries, const char *) = utf8str;
+                    as_array_push_str(*entries, utf8str);
                 }
                 n++;
                 break;
@@ -292,8 +309,8 @@ static BOOL getIDs(apr_pool_t *p, X509 *x509, apr_array_header_t **ids)
     /* Second, the CN-IDs (commonName attributes in the subject DN) */
     subj = X509_get_subject_name(x509);
     while ((i = X509_NAME_get_index_by_NID(subj, NID_commonName, i)) != -1) {
-        APR_ARRAY_PUSH(*ids, const char *) = 
-            modssl_X509_NAME_ENTRY_to_string(p, X509_NAME_get_entry(subj, i));
+        as_array_push_str(*ids,
+            modssl_X509_NAME_ENTRY_to_string(p, X509_NAME_get_entry(subj, i)));
     }
 
     return as_apr_is_empty_array(*ids) ? FALSE : TRUE;
-- 
2.43.0


From 875de5db95ae35116d3720f4c9ca18f0763578cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:20 +0000
Subject: [PATCH 31/38] fix: remember whether a timer was allocated

as_timer_init and as_timer_new left is_malloc unset.
as_timer_destroy then leaked heap timers or freed memory of the caller.
---
 src/main/aerospike/as_timer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/aerospike/as_timer.c b/src/main/aerospike/as_timer.c
index 6a56fbc..6abdacd 100644
--- a/src/main/aerospike/as_timer.c
+++ b/src/main/aerospike/as_timer.c
@@ -27,6 +27,7 @@
  */
 as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks * hooks) {
     if ( timer == NULL ) return timer;
+    timer->is_malloc = false;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
@@ -38,6 +39,7 @@ as_timer * as_timer_init(as_timer * timer, void * source, const as_timer_hooks *
 as_timer * as_timer_new(void * source, const as_timer_hooks * hooks) {
     as_timer * timer = (as_timer *) cf_malloc(sizeof(as_timer));
     if (!timer) return timer;
+    timer->is_malloc = true;
     timer->source = source;
     timer->hooks = hooks;
     return timer;
-- 
2.43.0


From da548bbf82be69f56e895eb83c7282801f2ce959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:20 +0000
Subject: [PATCH 32/38] fix: let a vector created with capacity zero grow

Doubling zero never made room, so the first append wrote past the storage.
---
 src/main/aerospike/as_vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/aerospike/as_vector.c b/src/main/aerospike/as_vector.c
index 0cfe2a2..8f9e8e8 100644
--- a/src/main/aerospike/as_vector.c
+++ b/src/main/aerospike/as_vector.c
@@ -55,11 +55,11 @@ void
 as_vector_increase_capacity(as_vector* vector)
 {
 	if (vector->flags & FLAGS_HEAP) {
-		vector->capacity *= 2;
+		vector->capacity = vector->capacity ? vector->capacity * 2 : 1;
 		vector->list = cf_realloc(vector->list, vector->capacity * vector->item_size);
 	}
 	else {
-		uint32_t capacity = vector->capacity * 2;
+		uint32_t capacity = vector->capacity ? vector->capacity * 2 : 1;
 		void* tmp = cf_malloc(capacity * vector->item_size);
 		memcpy(tmp, vector->list, vector->capacity * vector->item_size);
 		vector->list = tmp;
-- 
2.43.0


From 5700edbebbb76f7b3c1b84e5de3f85ac9814dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:20 +0000
Subject: [PATCH 33/38] fix: report failure when there is no memory for a bin's
 value

The typed setters of a record passed NULL to the set hook.
---
 src/include/aerospike/as_rec.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/aerospike/as_rec.h b/src/include/aerospike/as_rec.h
index 3becfc6..ffba201 100644
--- a/src/include/aerospike/as_rec.h
+++ b/src/include/aerospike/as_rec.h
@@ -643,7 +643,9 @@ static inline int as_rec_set(const as_rec * rec, const char * name, const as_val
  */
 static inline int as_rec_set_int64(const as_rec * rec, const char * name, int64_t value)
 {
-	return as_util_hook(set, 1, rec, name, (as_val *) as_integer_new(value));
+	if (!rec || !rec->hooks || !rec->hooks->set) return 1;
+	as_val * val = (as_val *) as_integer_new(value);
+	return val ? rec->hooks->set(rec, name, val) : 1;
 }
 
 /**
@@ -659,7 +661,9 @@ static inline int as_rec_set_int64(const as_rec * rec, const char * name, int64_
  */
 static inline int as_rec_set_double(const as_rec * rec, const char * name, double value)
 {
-	return as_util_hook(set, 1, rec, name, (as_val *) as_double_new(value));
+	if (!rec || !rec->hooks || !rec->hooks->set) return 1;
+	as_val * val = (as_val *) as_double_new(value);
+	return val ? rec->hooks->set(rec, name, val) : 1;
 }
 
 /**
@@ -675,7 +679,9 @@ static inline int as_rec_set_double(const as_rec * rec, const char * name, doubl
  */
 static inline int as_rec_set_str(const as_rec * rec, const char * name, const char * value)
 {
-	return as_util_hook(set, 1, rec, name, (as_val *) as_string_new_strdup(value));
+	if (!rec || !rec->hooks || !rec->hooks->set) return 1;
+	as_val * val = (as_val *) as_string_new_strdup(value);
+	return val ? rec->hooks->set(rec, name, val) : 1;
 }
 
 /**
-- 
2.43.0


From 8b793c772c486837550e753eeabdc28845902541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:56:11 +0000
Subject: [PATCH 34/38] fix: keep as_bytes_get_var_int inside the buffer

An integer whose last byte was missing made the function read on past the
end of the buffer. It now returns 0, the documented error, when the integer
does not end inside the buffer or has more than 5 bytes.
---
 src/main/aerospike/as_bytes.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/aerospike/as_bytes.c b/src/main/aerospike/as_bytes.c
index cdbd610..a307b25 100644
--- a/src/main/aerospike/as_bytes.c
+++ b/src/main/aerospike/as_bytes.c
@@ -187,20 +187,24 @@ uint32_t as_bytes_copy(const as_bytes * bytes, uint32_t index, uint8_t * value,
  */
 uint32_t as_bytes_get_var_int(const as_bytes * bytes, uint32_t index, uint32_t * value)
 {
-	uint8_t* begin = bytes->value + index;
-	uint8_t* p = begin;
 	uint32_t val = 0;
 	uint32_t shift = 0;
+	uint32_t i = index;
 	uint8_t b;
 	
 	do {
-		b = *p++;
-		val |= (b & 0x7F) << shift;
+		// A 32 bit integer has at most 5 bytes.
+		if (i >= bytes->capacity || shift > 28) {
+			return 0;
+		}
+
+		b = bytes->value[i++];
+		val |= (uint32_t)(b & 0x7F) << shift;
 		shift += 7;
 	} while ((b & 0x80));
 	
 	*value = val;
-	return (uint32_t)(p - begin);
+	return i - index;
 }
 
 /******************************************************************************
-- 
2.43.0


From 479851498ef3ef44c28449027d599ed5c013a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:11 +0000
Subject: [PATCH 35/38] fix: compare deeply nested lists containing a wildcard

After a wildcard ended the comparison of the outermost list handled
without recursion, the rest of that list was skipped a second time.
The comparison then failed or consumed data behind the list.
---
 src/main/aerospike/as_msgpack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/aerospike/as_msgpack.c b/src/main/aerospike/as_msgpack.c
index a6849ae..3c798a3 100644
--- a/src/main/aerospike/as_msgpack.c
+++ b/src/main/aerospike/as_msgpack.c
@@ -3066,6 +3066,10 @@ msgpack_compare_non_recursive(as_unpacker *pk1, as_unpacker *pk2,
 			}
 
 			if (! msgpack_parse_memblock_has_prev(*block)) {
+				// Nothing is left to unwind.
+				state->len1 = state->index;
+				state->len2 = state->index;
+
 				return MSGPACK_COMPARE_EQUAL;
 			}
 
-- 
2.43.0


From 27e3efc17b22e654e0d4c5ba72291116b951cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:16 +0000
Subject: [PATCH 36/38] fix: tell a serializer's implementation that it is
 destroyed

as_serializer_destroy() never called the destroy function of the
serializer's hooks, so an implementation could not release its own data.
---
 src/main/aerospike/as_serializer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/aerospike/as_serializer.c b/src/main/aerospike/as_serializer.c
index fe96800..c7bddc6 100644
--- a/src/main/aerospike/as_serializer.c
+++ b/src/main/aerospike/as_serializer.c
@@ -15,6 +15,7 @@
  * the License.
  */
 #include <aerospike/as_serializer.h>
+#include <aerospike/as_util.h>
 #include <citrusleaf/alloc.h>
 
 /******************************************************************************
@@ -46,6 +47,8 @@ as_serializer *as_serializer_new(const as_serializer_hooks *hooks)
 
 void as_serializer_destroy(as_serializer *serializer)
 {
+	as_util_hook_ret_void(destroy, serializer);
+
 	if (serializer->free) {
 		cf_free(serializer);
 	}
-- 
2.43.0


From 5810e9feedc34ae5afe0a924bc753777c1d58329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:21 +0000
Subject: [PATCH 37/38] fix: Do not let the size of a pooled buffer request
 wrap around

A request near 4 GB plus the pool's header size did not fit in 32 bits.
The sum wrapped and the caller got a buffer that was far too small.
---
 src/main/aerospike/as_buffer_pool.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/aerospike/as_buffer_pool.c b/src/main/aerospike/as_buffer_pool.c
index 08691ef..416f0df 100644
--- a/src/main/aerospike/as_buffer_pool.c
+++ b/src/main/aerospike/as_buffer_pool.c
@@ -35,18 +35,19 @@ as_buffer_pool_init(as_buffer_pool* pool, uint32_t header_size, uint32_t buffer_
 int
 as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer)
 {
-	size += pool->header_size;
-	
-	if (size > pool->buffer_size) {
+	// The sum may not fit in 32 bits.
+	uint64_t total_size = (uint64_t)size + pool->header_size;
+
+	if (total_size > pool->buffer_size) {
 		// Requested size is greater than fixed buffer size.
 		// Allocate new buffer, but don't put back into pool.
-		buffer->data = cf_malloc(size);
+		buffer->data = cf_malloc(total_size);
 		
 		if (! buffer->data) {
 			return -1;
 		}
 		
-		buffer->capacity = size - pool->header_size;
+		buffer->capacity = size;
 		return 2;
 	}
 	
@@ -76,7 +77,7 @@ as_buffer_pool_pop(as_buffer_pool* pool, uint32_t size, as_buffer_result* buffer
 int
 as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool.
 		if (cf_queue_push(pool->queue, &buffer) == CF_QUEUE_OK) {
 			return 0;
@@ -96,7 +97,7 @@ as_buffer_pool_push(as_buffer_pool* pool, void* buffer, uint32_t capacity)
 int
 as_buffer_pool_push_limit(as_buffer_pool* pool, void* buffer, uint32_t capacity, uint32_t max_buffers)
 {
-	if (capacity + pool->header_size <= pool->buffer_size) {
+	if ((uint64_t)capacity + pool->header_size <= pool->buffer_size) {
 		// Put buffer back into pool up to a limit.
 		if (cf_queue_push_limit(pool->queue, &buffer, max_buffers)) {
 			// Success.
-- 
2.43.0


From 0fc0812d7bd3e07443da4b6f29c0b35e2a9f6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:21 +0000
Subject: [PATCH 38/38] fix: Refuse queues whose size in bytes does not fit in
 32 bits

as_queue_init() multiplied capacity and item size in 32 bits.
A product that wrapped gave a queue with too little memory, and later accesses ran outside it.
Growing a queue has the same limit now.
---
 src/main/aerospike/as_queue.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/main/aerospike/as_queue.c b/src/main/aerospike/as_queue.c
index ce1a226..eead24b 100644
--- a/src/main/aerospike/as_queue.c
+++ b/src/main/aerospike/as_queue.c
@@ -40,6 +40,15 @@ as_queue_unwrap(as_queue* queue)
 	}
 }
 
+/**
+ * Sizes and offsets in bytes are 32 bit numbers. Larger queues are not supported.
+ */
+static inline bool
+as_queue_size_valid(uint64_t capacity, uint32_t item_size)
+{
+	return capacity <= UINT32_MAX && capacity * item_size <= UINT32_MAX;
+}
+
 static bool
 as_queue_copy(as_queue* queue, uint32_t new_capacity, bool free_old)
 {
@@ -69,6 +78,10 @@ static bool
 as_queue_increase_capacity(as_queue* queue)
 {
 	uint32_t new_capacity = queue->capacity * 2;
+
+	if (! as_queue_size_valid((uint64_t)queue->capacity * 2, queue->item_size)) {
+		return false;
+	}
 	
 	if (queue->flags & ITEMS_ON_HEAP) {
 		// Data already allocated on heap.
@@ -106,6 +119,10 @@ as_queue_increase_capacity(as_queue* queue)
 bool
 as_queue_init(as_queue* queue, uint32_t item_size, uint32_t capacity)
 {
+	if (! as_queue_size_valid(capacity, item_size)) {
+		return false;
+	}
+
 	queue->data = cf_malloc(capacity * item_size);
 	
 	if (! queue->data) {
-- 
2.43.0

