From 4ba0e8adb265f967d5ffba059fc74d0e7e1a3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 01/21] fix: realloc of over-page-aligned allocations with a
 slab size

Allocations aligned to more than a page live in the region allocator even
when their size is a slab size class. realloc decided how to release the old
allocation (and whether it has a canary) from its size.
---
 h_malloc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..c7f70c1 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1520,7 +1520,9 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    // over-page-aligned allocations of a slab size are in the region allocator and have no canary
+    bool is_old_small = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (is_old_small) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1632,12 +1634,11 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
+    size_t old_usable_size = is_old_small && old_size > 0 ? old_size - canary_size : old_size;
+    size_t new_usable_size = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    size_t copy_size = min(new_usable_size, old_usable_size);
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    if (is_old_small) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From 554f8039cba7955f2d7e6e491b725eedbf6b6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 02/21] fix: malloc_object_size for zero size allocations
 outside the first slab

The slab size of the zero size class is based on 16 byte slots.
---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index c7f70c1..bf6fbbf 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1802,6 +1802,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         struct slab_size_class_info size_class_info = slab_size_class(p);
         size_t class = size_class_info.class;
         size_t size_class = size_classes[class];
+        if (unlikely(size_class == 0)) {
+            size_class = 16;
+        }
         struct size_class *c = &ro.size_class_metadata[size_class_info.arena][class];
 
         mutex_lock(&c->lock);
-- 
2.43.0


From 0b021e5610fa69af5af631aeb379cd5698daadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 03/21] fix: detect sized deallocation mismatch for sizes
 overflowing when rounded

A size close to SIZE_MAX was rounded up to 0 and accepted for a zero size
allocation.
---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index bf6fbbf..815f8c3 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1709,6 +1709,10 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
+        // rounding up may overflow to a small size
+        if (unlikely(expected_size > max_slab_size_class)) {
+            fatal_error("sized deallocation mismatch (small)");
+        }
         expected_size = get_size_info(expected_size).size;
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
-- 
2.43.0


From 6ab724ab974b21b6828d857daf83a5d1cd304f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 04/21] fix: count over-page-aligned allocations in the
 statistics

They were only subtracted on deallocation, so the total underflowed.
---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 815f8c3..132d327 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 5b8f8a2a676823e6c15c9e89ab31ae56e856287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 05/21] fix: rejection threshold of get_random_u16_uniform

Integer promotion made -bound a negative int so the threshold was always 0
and the result was biased for bounds which are not a power of 2.
---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 7ed9f9835311dde826cba560ec9eeee93860cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 06/21] fix: clear the old region table if replacing it fails

Otherwise the next growth reuses a table containing stale entries.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 132d327..7a00225 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1047,7 +1047,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // the table will be reused by the next growth and must not have stale entries
+        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 0836ff83c99e7ce10613667c15114df12326e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 07/21] fix: set errno when the region table is exhausted

---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 7a00225..64a5936 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1018,6 +1018,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1026,6 +1027,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From 00f3064a237427e75ff8235cdc4465e1ae84303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 08/21] fix: support a free slabs quarantine length of 0

The length 0 is accepted but accessed the array out-of-bounds.
---
 h_malloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 64a5936..a99c5e0 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -277,7 +277,9 @@ struct __attribute__((aligned(CACHELINE_SIZE))) size_class {
     // FIFO singly-linked list
     struct slab_metadata *free_slabs_head;
     struct slab_metadata *free_slabs_tail;
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     struct slab_metadata *free_slabs_quarantine[FREE_SLABS_QUARANTINE_RANDOM_LENGTH];
+#endif
 
 #if CONFIG_STATS
     u64 nmalloc; // may wrap (per jemalloc API)
@@ -750,6 +752,7 @@ static size_t slab_usable_size(const void *p) {
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
     struct slab_metadata *substitute = c->free_slabs_quarantine[index];
@@ -758,6 +761,9 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     if (substitute == NULL) {
         return;
     }
+#else
+    struct slab_metadata *substitute = metadata;
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From 18f157d1590ca4bdcecde63b65c2e518bbea27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 09/21] fix: use the full slab quarantine random array for
 large lengths

The scaled length was truncated to 16 bits.
---
 h_malloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index a99c5e0..791ea7f 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -835,7 +835,9 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    size_t random_index = slab_quarantine_random_length <= (u16)-1 ?
+        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :
+        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From 04aedfdb965b724973caff236988505117f0937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 10/21] fix: return an upper bound from malloc_object_size_fast
 before initialization

0 is not an upper bound for objects not managed by the allocator.
---
 h_malloc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 791ea7f..41d33b4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1879,10 +1879,6 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return size ? size - canary_size : 0;
     }
 
-    if (unlikely(slab_region_end == NULL)) {
-        return 0;
-    }
-
     return SIZE_MAX;
 }
 
-- 
2.43.0


From 8f6bc16eb3cfc1ec949818f60969df612703e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 11/21] fix: over-page-aligned zero size allocations without
 large size classes

The size was rounded to 0 which is treated as an overflow.
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 41d33b4..2c3a542 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1347,7 +1347,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)PAGE_SIZE));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


From d0944959435ce9ab13655714e25754e58973cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 12/21] fix: malloc_info with sealed metadata and a stream that
 allocates

An allocation made by stdio sealed the metadata while malloc_info relied on it
staying accessible.
---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 2c3a542..2685424 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2025,20 +2025,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                // writing to the stream may allocate, which seals the metadata again
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2055,15 +2056,15 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
         }
 
         struct region_allocator *ra = ro.region_allocator;
+        thread_unseal_metadata();
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From c36f82defe79a3da1cd234deb30b3f852602e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 13/21] fix: preserve errno when seeding is interrupted

free preserves errno but can reseed the random state of a size class.
---
 random.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/random.c b/random.c
index 0ef15d2..7927e52 100644
--- a/random.c
+++ b/random.c
@@ -8,6 +8,8 @@
 #include <sys/random.h>
 
 static void get_random_seed(void *buf, size_t size) {
+    int saved_errno = errno;
+
     while (size) {
         ssize_t r;
 
@@ -22,6 +24,8 @@ static void get_random_seed(void *buf, size_t size) {
         buf = (char *)buf + r;
         size -= r;
     }
+
+    errno = saved_errno;
 }
 
 void random_state_init(struct random_state *state) {
-- 
2.43.0


From cfb2c8cd84f665ac15051c684bc73fc2fbae721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 14/21] fix: sized delete of over-aligned types

The size class of an aligned allocation depends on the alignment, so the size
check has to take it into account.
---
 h_malloc.c         | 16 ++++++++++++++--
 include/h_malloc.h |  3 +++
 new.cc             |  8 ++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 2685424..0797291 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1712,7 +1712,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+static void deallocate_sized(void *p, size_t alignment, size_t expected_size) {
     if (p == NULL) {
         return;
     }
@@ -1727,7 +1727,11 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
         if (unlikely(expected_size > max_slab_size_class)) {
             fatal_error("sized deallocation mismatch (small)");
         }
-        expected_size = get_size_info(expected_size).size;
+        if (alignment > min_align && alignment <= PAGE_SIZE) {
+            expected_size = get_size_info_align(expected_size, alignment).size;
+        } else {
+            expected_size = get_size_info(expected_size).size;
+        }
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
@@ -1738,6 +1742,14 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    deallocate_sized(p, min_align, expected_size);
+}
+
+void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
+    deallocate_sized(p, alignment, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..e7c5ad1 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -122,6 +122,9 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// free_sized for allocations with an explicit alignment, internal to the C++ operators
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From 7855c4393dac6cd30721a31740814c6b2c74dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 15/21] fix: do not unmap the lead of an aligned allocation
 twice

---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..456c792 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the lead has already been unmapped and may be in use elsewhere
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From 0df0058424614fdac1befba73b9a0bf12b21ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 16/21] fix: accept tagged pointers in object size queries

---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 0797291..f16ca2d 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1825,6 +1825,8 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1885,6 +1887,8 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From f23ab5cdeded498beb242f10d2c60f4887d0b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 17/21] fix: unseal metadata in h_mallinfo_bin_info

---
 h_malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index f16ca2d..a706ae9 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2156,7 +2156,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
     }
 
     if (arena < N_ARENA && bin < N_SIZE_CLASSES) {
-        thread_seal_metadata();
+        thread_unseal_metadata();
 
         struct size_class *c = &ro.size_class_metadata[arena][bin];
 
@@ -2166,7 +2166,7 @@ EXPORT struct mallinfo h_mallinfo_bin_info(UNUSED size_t arena, UNUSED size_t bi
         info.fordblks = c->ndalloc;
         mutex_unlock(&c->lock);
 
-        thread_unseal_metadata();
+        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From a40c9bd8cedd1b2930a7b4da4390fe898ec90f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 18/21] fix: keep released slabs mapped for memory tagging

---
 h_malloc.c | 13 +++++++++++--
 memory.c   | 12 ++++++++++++
 memory.h   |  3 +++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index a706ae9..4c8d7b5 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -342,6 +342,15 @@ static struct slab_metadata *alloc_metadata(struct size_class *c, size_t slab_si
     return metadata;
 }
 
+static bool release_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 static void set_used_slot(struct slab_metadata *metadata, size_t index) {
     size_t bucket = index / U64_WIDTH;
     metadata->bitmap[bucket] |= 1UL << (index - bucket * U64_WIDTH);
@@ -898,7 +907,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!release_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1929,7 +1938,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (release_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..cf7e9e3 100644
--- a/memory.c
+++ b/memory.c
@@ -51,6 +51,18 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+#ifdef HAS_ARM_MTE
+// replacing a mapping drops PROT_MTE unless it's requested again
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0


From 968b2da285141591c372e981ef9f0dbdc37d1025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:51 +0000
Subject: [PATCH 19/21] fix: preserve errno when labelling memory

---
 memory.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index cf7e9e3..32ef91e 100644
--- a/memory.c
+++ b/memory.c
@@ -125,7 +125,11 @@ bool memory_purge(void *ptr, size_t size) {
 
 bool memory_set_name(UNUSED void *ptr, UNUSED size_t size, UNUSED const char *name) {
 #ifdef LABEL_MEMORY
-    return prctl(PR_SET_VMA, PR_SET_VMA_ANON_NAME, ptr, size, name);
+    // naming is best effort and must not clobber errno in free
+    int saved_errno = errno;
+    bool ret = prctl(PR_SET_VMA, PR_SET_VMA_ANON_NAME, ptr, size, name);
+    errno = saved_errno;
+    return ret;
 #else
     return false;
 #endif
-- 
2.43.0


From d223281a4d517d0d8c8e631272f5b752ef1037b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:35 +0000
Subject: [PATCH 20/21] fix: malloc_object_size: do not wrap around for
 pointers into the canary

---
 h_malloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 4c8d7b5..1762641 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1872,7 +1872,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         thread_seal_metadata();
 
         size_t size = slab_usable_size(p);
-        return size ? size - canary_size - offset : 0;
+        size_t usable_size = size ? size - canary_size : 0;
+        // the canary is not accessible
+        return offset < usable_size ? usable_size - offset : 0;
     }
 
     if (unlikely(slab_region_end == NULL)) {
-- 
2.43.0


From 6d43843969a1913dc407e667115cf62c9713ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:01 +0000
Subject: [PATCH 21/21] fix: preload.sh looks for the library where the
 Makefile puts it

---
 preload.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload.sh b/preload.sh
index ee6abb6..efba490 100755
--- a/preload.sh
+++ b/preload.sh
@@ -2,5 +2,5 @@
 
 dir="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
 [[ $LD_PRELOAD ]] && LD_PRELOAD+=" "
-export LD_PRELOAD+="$dir/libhardened_malloc.so"
+export LD_PRELOAD+="$dir/out/libhardened_malloc.so"
 exec "$@"
-- 
2.43.0

