From 97040b0060f6e5aacceadc93a493ceedf9e34527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 01/34] fix: don't copy past the end of a used chunk during
 compaction

Chunks are copied two words at a time, so an odd-sized chunk at the very end of
a pool made the compactor read one word beyond the pool.
---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..c04f730 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1158,7 +1158,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
+            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)
                 pool->free[i+j] = cur[i+j];
         }
 
-- 
2.43.0


From 05de011ba957f60864f561e5f31cf44076465ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 02/34] fix: initialize survivors and finalizers of a new pool

Pools come from memory that may have been used before (another thread's pools,
or malloc), so a new pool could start with garbage in its survivor count, which
doubles the pool list at every collection, and in its finalizer list.
---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index dfb161f..b2c2967 100644
--- a/allocator.c
+++ b/allocator.c
@@ -125,6 +125,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     /* set it up */
     ret->next = NULL;
     ret->free = ret->start;
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
 
     return ret;
-- 
2.43.0


From ed3acd9025f0a8c11e39b00beefd54d23cf67007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 03/34] fix: don't look for objects beyond the end of a pool
 when scanning cards

If the last object of a remembered card ended exactly at the end of its pool,
the scan read the (nonexistent) descriptor of the word after the pool.
---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index c04f730..ce45966 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -542,7 +542,7 @@ collect:
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
+                        if ((ggc_size_t *) obj >= poolCur->free || obj->descriptor__ptr == NULL) break;
                     }
                 }
             }
-- 
2.43.0


From a76e540aec83d9dbf7351c403251edda5229385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 04/34] fix: don't overwrite the first card's firstObject when
 a pool is exactly full

The end of a pool has card number 0, so compacting a pool whose survivors reach
exactly to its end recorded the pool header as the first object of card 0.
---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index ce45966..648af58 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1266,7 +1266,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
 
 #if GGGGC_GENERATIONS > 1
     /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From 76d4b404e7888bdfd7eb5687f4898b90a1cc85ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 05/34] fix: compute pointer bits as words in GGC_PTR

Shifting an int lost (or sign-extended) the bit of any pointer member beyond
the 31st word of its object.
---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From ba8acec9a824d9aee1f235e882799a66747bf3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 06/34] fix: GGC_LENGTH reads the array's length

Descriptors have no length; the length is a member of the array itself.
---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 607c48e67ef99ffb97be4c81df5ffe2264569dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 07/34] fix: decide finalizer survival by reachability and keep
 every entry in its own pool

---
 allocator.c       |   5 ++
 collector/gembc.c | 145 +++++++++++++++++++++++++---------------------
 2 files changed, 85 insertions(+), 65 deletions(-)

diff --git a/allocator.c b/allocator.c
index b2c2967..81367b4 100644
--- a/allocator.c
+++ b/allocator.c
@@ -92,7 +92,12 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
 {
     struct GGGGC_Pool *ret;
 #ifdef GGGGC_DEBUG_TINY_HEAP
+#ifdef GGGGC_FEATURE_FINALIZERS
+    /* finalizers are kept for as long as their objects are, so need space too */
+    static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS + 1;
+#else
     static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS;
+#endif
 
     if (allocationsLeft-- <= 0) {
         allocationsLeft = 0;
diff --git a/collector/gembc.c b/collector/gembc.c
index 648af58..5905d29 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -172,7 +172,6 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
     GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
     GGGGC_FinalizerEntry *readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
@@ -251,8 +250,9 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. survived checks whether obj
+ * survived the collection */
+#define FINALIZER_POOL(survived) do { \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
@@ -264,12 +264,12 @@ static struct ToSearch toSearchList;
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        if (IS_FORWARDED_OBJECT(obj)) \
+            FOLLOW_FORWARDED_OBJECT(obj); \
+        if (survived) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
-            if (!survivingFinalizersTail) \
-                survivingFinalizersTail = finalizer; \
             \
         } else { \
             /* object died, add this to ready finalizers */ \
@@ -281,6 +281,25 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* keep finalizers for a later collection, each in its own pool */
+static void keepFinalizers(GGGGC_FinalizerEntry finalizer)
+{
+    GGGGC_FinalizerEntry nextFinalizer;
+
+    for (; finalizer; finalizer = nextFinalizer) {
+        struct GGGGC_Header *obj = (struct GGGGC_Header *) finalizer;
+        struct GGGGC_Pool *pool;
+
+        FOLLOW_FORWARDED_OBJECT(obj);
+        finalizer = (GGGGC_FinalizerEntry) obj;
+        nextFinalizer = finalizer->next__ptr;
+
+        pool = GGGGC_POOL_OF(finalizer);
+        finalizer->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+        pool->finalizers = finalizer;
+    }
+}
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -421,8 +440,8 @@ void ggggc_collect0(unsigned char gen)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     /* first, make sure we stop the world */
@@ -488,7 +507,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &survivingFinalizers, &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -555,6 +574,9 @@ collect:
 #endif
 
     /* now test all our pointers */
+#ifdef GGGGC_FEATURE_FINALIZERS
+search:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -592,16 +614,9 @@ collect:
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
                 /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
-                survivingFinalizers = survivingFinalizersTail =
-                    readyFinalizers = NULL;
+                keepFinalizers(survivingFinalizers);
+                keepFinalizers(readyFinalizers);
+                survivingFinalizers = readyFinalizers = NULL;
 #endif
 
                 /* failed to allocate, need to collect gen+1 too */
@@ -631,43 +646,41 @@ collect:
             abort();
         }
 #endif
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* perhaps check finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* add all the finalizers themselves */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
             }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur <= gen; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen);
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD(&survivingFinalizers);
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 #endif /* GGGGC_GENERATIONS > 1 */
 
 postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
-    if (survivingFinalizers) {
-        poolCur = GGGGC_POOL_OF(survivingFinalizers);
-        poolCur->finalizers = survivingFinalizers;
-    }
+    keepFinalizers(survivingFinalizers);
 #endif
 
     /* heuristically expand too-small generations */
@@ -847,8 +860,8 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry survivingFinalizers, readyFinalizers;
+    survivingFinalizers = readyFinalizers = NULL;
 #endif
 
     TOSEARCH_INIT();
@@ -890,6 +903,9 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
+#ifdef GGGGC_FEATURE_FINALIZERS
+search:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -920,33 +936,34 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* possibly start handling finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* add all the finalizers themselves */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(IS_MARKED(obj));
             }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(IS_MARKED(obj));
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD(&survivingFinalizers);
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* find all our sizes, for later compaction */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
@@ -1018,7 +1035,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     } \
 } while(0)
     F(survivingFinalizers);
-    F(survivingFinalizersTail);
     F(readyFinalizers);
 #undef F
 #endif
@@ -1059,7 +1075,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
     *readyFinalizersOut = readyFinalizers;
 #endif
 }
-- 
2.43.0


From 8c75356b6d0e1cb434b0aed88f63324f99cdca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 08/34] fix: set the size of pointer stack frames pushed by
 GGC_PUSH_N

---
 ggggc/push.h | 1 +
 pushgen.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..a268ac3 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -778,6 +778,7 @@ do { \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
     void *ggggc_pptrs[] = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..65873a4 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -83,6 +83,7 @@ int main()
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
            "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From 8499799b0e989d83abea5f97a19f0820185b9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 09/34] fix: describe every word of objects larger than one
 description word

---
 allocator.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/allocator.c b/allocator.c
index 81367b4..9251e97 100644
--- a/allocator.c
+++ b/allocator.c
@@ -277,9 +277,20 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
  * given pointer layout */
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
-    ggc_size_t pointersA[1];
-    pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    struct GGGGC_Descriptor *ret;
+    ggc_size_t pointersA[1], *pointersL = pointersA;
+    ggc_size_t words = (size + GGGGC_BITS_PER_WORD - 1) / GGGGC_BITS_PER_WORD;
+
+    /* only the first word is described, so there are no pointers beyond it */
+    if (words > 1) {
+        pointersL = (ggc_size_t *) calloc(words, sizeof(ggc_size_t));
+        if (!pointersL) abort();
+    }
+    pointersL[0] = pointers;
+
+    ret = ggggc_allocateDescriptorL(size, pointersL);
+    if (words > 1) free(pointersL);
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From 00d25be52bd33285cecb3123c233fd6b7a456ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 10/34] fix: make the descriptor-descriptor table large enough
 for external tags

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..bc84806 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 136fb25..ae7ff66 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From 5105d00d39eef880c97a758d489c92c45519ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 11/34] fix: stay stoppable while waiting for a descriptor, and
 use its current address

---
 allocator.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/allocator.c b/allocator.c
index 9251e97..a82c2d9 100644
--- a/allocator.c
+++ b/allocator.c
@@ -239,12 +239,17 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
     /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
+    while (ggc_mutex_trylock(&ggggc_descriptorDescriptorsLock) != 0)
+        GGC_YIELD();
     if (ggggc_descriptorDescriptors[size]) {
         ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
         return ggggc_descriptorDescriptors[size];
     }
 
+    /* our descriptor may have moved while we waited */
+    if (ddSize != size)
+        ddd = ggggc_descriptorDescriptors[ddSize];
+
     /* allocate the descriptor descriptor */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
@@ -270,7 +275,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         GGC_GLOBALIZE();
     }
 
-    return ret;
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
@@ -443,7 +448,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
     if (slot->descriptor) return slot->descriptor;
-    ggc_mutex_lock_raw(&slot->lock);
+    while (ggc_mutex_trylock(&slot->lock) != 0)
+        GGC_YIELD();
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
-- 
2.43.0


From 6366888883a9c45201e645b55ebc26b9a0738e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 12/34] fix: unlock the pool lock when malloc fails

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..26936a7 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -37,6 +37,7 @@ static void *allocPool(int mustSucceed)
                 perror("malloc");
                 abort();
             }
+            ggc_mutex_unlock(&poolLock);
             return NULL;
         }
         spaceEnd = space + GGGGC_POOL_BYTES * i;
-- 
2.43.0


From 72a835e97ee33d692dc6209ea7d6bd0021279143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 13/34] fix: check mmap for MAP_FAILED

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From f99d36888d0a740e352a8cc7cb81466bce3710e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 14/34] fix: GGC_ListShift returns the element, not its node

---
 collections/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..7b012b6 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,12 +176,14 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *value = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
 
     node = GGC_RP(list, head);
     if (node) {
+        value = GGC_RP(node, el);
         head = GGC_RP(node, next);
         GGC_WP(list, head, head);
         if (!head)
@@ -191,7 +193,7 @@ void *GGC_ListShift(GGC_List list)
         GGC_WD(list, length, len);
     }
 
-    return node;
+    return value;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From da5c0367a91e26f401f821976bc998fc1c8ca1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 15/34] fix: joining an empty list to another leaves the other
 as it was

---
 collections/list.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 7b012b6..8c099a8 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,10 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to append? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +150,10 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to prepend? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -225,6 +233,10 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    /* nothing to insert? */
+    if (!GGC_RP(from, head))
+        return;
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From 6f7fec6a5a87e4710b2f6fc7ab5cf0594c2e87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 16/34] fix: inserting after the last node of a list updates
 its tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 8c099a8..28216ba 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -218,6 +218,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -250,6 +252,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 8ad345db5168679e8af39c5fbfb9acf8e2de17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 17/34] fix: pop every pushed frame when there is no automatic
 popping

---
 allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/allocator.c b/allocator.c
index a82c2d9..0652058 100644
--- a/allocator.c
+++ b/allocator.c
@@ -273,6 +273,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return ggggc_descriptorDescriptors[size];
@@ -462,6 +463,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
     {
         GGC_PUSH_1(slot->descriptor);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return slot->descriptor;
@@ -501,6 +503,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    return;
 }
 
 /* and function for running finalizers */
@@ -520,6 +524,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    return;
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From c9f880b8136062f971f9a2eae98477e45100625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 18/34] fix: let the JIT pointer stack be combined with
 internal tags and with finalizers

---
 collector/gembc.c      |  4 ++--
 collector/portablems.c | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 5905d29..116a2b2 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -528,7 +528,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*(void **) jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -1004,7 +1004,7 @@ search:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..4ac350b 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -169,7 +169,6 @@ static void stopTheWorld(
     pointerStackNode->pointerStack = ggggc_pointerStack;
     pointerStackNode->next = ggggc_blockedThreadPointerStacks;
     ggggc_rootPointerStackList = pointerStackNode;
-    ggc_mutex_unlock(&ggggc_rootsLock);
 
 #ifdef GGGGC_FEATURE_JITPSTACK
     jitPointerStackNode->cur = ggc_jitPointerStack;
@@ -178,6 +177,8 @@ static void stopTheWorld(
     ggggc_rootJITPointerStackList = jitPointerStackNode;
 #endif
 
+    ggc_mutex_unlock(&ggggc_rootsLock);
+
     /* stop the world */
     ggggc_stopTheWorld = 1;
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
@@ -201,6 +202,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -212,7 +216,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
@@ -585,7 +594,7 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 mark(*jpsCur);
 #else
             int wordIdx;
-- 
2.43.0


From 6c39d839d007b33631218142f505d612741a5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 19/34] fix: treat the JIT pointer stacks of blocked threads as
 roots

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index 4065b26..31bd6d0 100644
--- a/threads.c
+++ b/threads.c
@@ -60,6 +60,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -80,6 +83,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -89,6 +98,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -125,6 +137,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = blockedJITPointerStackListNode.next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 4b1492a8537c1310ee01658a6102e0958e76eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 20/34] fix: provide ggc_sem_wait on POSIX, and report success
 from every barrier waiter

---
 threads/posix.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..30a5bec 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -29,12 +29,33 @@ int func \
 }
 
 #if _POSIX_BARRIERS
+/* exactly one waiter gets PTHREAD_BARRIER_SERIAL_THREAD, which isn't an error */
+static int barrierWait(pthread_barrier_t *barrier)
+{
+    int err = pthread_barrier_wait(barrier);
+    return (err == PTHREAD_BARRIER_SERIAL_THREAD) ? 0 : err;
+}
+
 BLOCKING(
     ggc_barrier_wait(void *barrier),
-    pthread_barrier_wait((pthread_barrier_t *) barrier)
+    barrierWait((pthread_barrier_t *) barrier)
 )
 #endif
 
+/* unlike the pthread functions, sem_wait returns its error in errno */
+static int semWait(ggc_sem_t *sem)
+{
+    while (sem_wait(sem) != 0) {
+        if (errno != EINTR) return errno;
+    }
+    return 0;
+}
+
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    semWait(sem)
+)
+
 BLOCKING(
     ggc_mutex_lock(ggc_mutex_t *mutex),
     pthread_mutex_lock(mutex)
-- 
2.43.0


From 1a7d54d1b33684da06237dc64be632b19200b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 21/34] fix: take a thread that failed to start out of the
 world barrier

---
 threads/posix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 30a5bec..6bd7b95 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -67,6 +67,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -84,8 +85,16 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        /* there's no thread, so don't wait for it */
+        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+            GGC_YIELD();
+        ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 67fe85801c9104ee6a394c55d265112c7a278a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 22/34] fix: keep the heap and global roots of a thread that
 exits

---
 allocator.c            |  2 +-
 collector/gembc.c      | 26 +++++++++++++++++++++++++-
 collector/portablems.c | 21 +++++++++++++++++++++
 ggggc-internals.h      | 10 +++++++++-
 globals.c              |  6 ++++--
 threads.c              | 32 +++++++++++++++++++++++++++++---
 6 files changed, 89 insertions(+), 8 deletions(-)

diff --git a/allocator.c b/allocator.c
index 0652058..6d2b54e 100644
--- a/allocator.c
+++ b/allocator.c
@@ -177,7 +177,7 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
     }
 }
 
-/* free a generation (used when a thread exits) */
+/* free a generation (used for the empty pools of exited threads) */
 void ggggc_freeGeneration(struct GGGGC_Pool *pool)
 {
     if (!pool) return;
diff --git a/collector/gembc.c b/collector/gembc.c
index 116a2b2..575585d 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -424,6 +424,28 @@ static void report(unsigned char gen, const char *when)
 }
 #endif
 
+/* make this pool this (new) thread's generation 0 */
+void ggggc_adoptPool(struct GGGGC_Pool *pool)
+{
+    ggggc_gen0 = ggggc_pool0 = pool;
+}
+
+/* give back the pools of exited threads that are now empty */
+static void freeOrphanPools(void)
+{
+    struct GGGGC_Pool *pool, **poolRef = &ggggc_orphanPools.pool;
+
+    while ((pool = *poolRef)) {
+        if (pool->free == pool->start) {
+            *poolRef = pool->next;
+            pool->next = NULL;
+            ggggc_freeGeneration(pool);
+        } else {
+            poolRef = &pool->next;
+        }
+    }
+}
+
 /* run a generation 0 collection */
 void ggggc_collect0(unsigned char gen)
 {
@@ -685,7 +707,7 @@ postCollect:
 
     /* heuristically expand too-small generations */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next)
-        ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
+        if (plCur != &ggggc_orphanPools) ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
     for (genCur = 1; genCur <= gen; genCur++)
         ggggc_expandPoolList(ggggc_gens[genCur], newPoolGenProto, 1);
 
@@ -731,6 +753,8 @@ postCollect:
     memoryCorruptionCheck("post-collection");
 #endif
 
+    freeOrphanPools();
+
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
diff --git a/collector/portablems.c b/collector/portablems.c
index 4ac350b..11d8ad6 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -52,6 +52,27 @@ static struct GGGGC_Pool *ggggc_newPoolFree(int mustSucceed)
     return pool;
 }
 
+/* make this pool this (new) thread's heap */
+void ggggc_adoptPool(struct GGGGC_Pool *pool)
+{
+    ggc_size_t *cur = pool->start;
+
+    ggggc_gen0 = ggggc_pool0 = pool;
+
+    /* find its free space */
+    freeList = NULL;
+    while (cur < pool->end) {
+        struct FreeListNode *node = (struct FreeListNode *) (void *) cur;
+        if (node->zero == 0) {
+            node->next = freeList;
+            freeList = node;
+            cur += node->size;
+        } else {
+            cur += ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+        }
+    }
+}
+
 /* allocate an object */
 void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, ggc_size_t size)
 {
diff --git a/ggggc-internals.h b/ggggc-internals.h
index bc84806..f6c0e8d 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -43,9 +43,12 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
                           struct GGGGC_Pool *(*newPool)(struct GGGGC_Pool *),
                           int ratio);
 
-/* free a generation (used when a thread exits) */
+/* free a generation (used for the empty pools of exited threads) */
 void ggggc_freeGeneration(struct GGGGC_Pool *proto);
 
+/* make this pool this (new) thread's generation 0 */
+void ggggc_adoptPool(struct GGGGC_Pool *pool);
+
 /* run a collection */
 void ggggc_collect0(unsigned char gen);
 
@@ -94,6 +97,11 @@ extern struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
 extern struct GGGGC_JITPointerStackList *ggggc_blockedThreadJITPointerStacks;
 #endif
 
+/* the pools and global roots of threads which have exited, always on the above
+ * lists and likewise protected by ggggc_worldBarrierLock */
+extern struct GGGGC_PoolList ggggc_orphanPools;
+extern struct GGGGC_PointerStackList ggggc_orphanPointerStacks;
+
 /* the generation 0 pools are thread-local */
 extern ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 
diff --git a/globals.c b/globals.c
index ae7ff66..005ff7d 100644
--- a/globals.c
+++ b/globals.c
@@ -14,8 +14,10 @@ ggc_mutex_t ggggc_worldBarrierLock = GGC_MUTEX_INITIALIZER;
 ggc_mutex_t ggggc_rootsLock = GGC_MUTEX_INITIALIZER;
 struct GGGGC_PoolList *ggggc_rootPool0List;
 struct GGGGC_PointerStackList *ggggc_rootPointerStackList;
-struct GGGGC_PoolList *ggggc_blockedThreadPool0s;
-struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
+struct GGGGC_PoolList ggggc_orphanPools;
+struct GGGGC_PointerStackList ggggc_orphanPointerStacks;
+struct GGGGC_PoolList *ggggc_blockedThreadPool0s = &ggggc_orphanPools;
+struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks = &ggggc_orphanPointerStacks;
 #ifdef GGGGC_FEATURE_JITPSTACK
 struct GGGGC_JITPointerStackList *ggggc_rootJITPointerStackList;
 struct GGGGC_JITPointerStackList *ggggc_blockedThreadJITPointerStacks;
diff --git a/threads.c b/threads.c
index 31bd6d0..fdc880e 100644
--- a/threads.c
+++ b/threads.c
@@ -41,8 +41,20 @@ GGC_END_TYPE(ThreadInfo,
 static void *ggggcThreadWrapper(void *arg)
 {
     ThreadInfo ti = (ThreadInfo) arg;
+    struct GGGGC_Pool *pool;
+    struct GGGGC_PointerStack *globals, *gtail;
     GGC_PUSH_1(ti);
 
+    /* if an exited thread left a pool behind, take it over */
+    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+        GGC_YIELD();
+    if ((pool = ggggc_orphanPools.pool)) {
+        ggggc_orphanPools.pool = pool->next;
+        pool->next = NULL;
+        ggggc_adoptPool(pool);
+    }
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+
     GGC_RD(ti, func)(GGC_RP(ti, arg));
 
     /* now remove this thread from the thread barrier */
@@ -50,10 +62,24 @@ static void *ggggcThreadWrapper(void *arg)
         GGC_YIELD();
     ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* and give back its pools */
-    ggggc_freeGeneration(ggggc_gen0);
+    /* and leave behind its pools, as other threads may still use their objects */
+    if (ggggc_gen0) {
+        for (pool = ggggc_gen0; pool->next; pool = pool->next);
+        pool->next = ggggc_orphanPools.pool;
+        ggggc_orphanPools.pool = ggggc_gen0;
+        ggggc_gen0 = ggggc_pool0 = NULL;
+    }
+
+    /* as well as its global roots, which are all that's under our own frame */
+    globals = ggggc_pointerStack->next;
+    if (globals) {
+        for (gtail = globals; gtail->next; gtail = gtail->next);
+        gtail->next = ggggc_orphanPointerStacks.pointerStack;
+        ggggc_orphanPointerStacks.pointerStack = globals;
+        ggggc_pointerStack->next = NULL;
+    }
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     return 0;
 }
-- 
2.43.0


From f7719a219d329b03ae821feff8520b5d25f2afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 23/34] fix: sweep the heaps of blocked threads in portablems

---
 collector/portablems.c | 76 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 11d8ad6..75f7069 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -209,11 +209,14 @@ static void stopTheWorld(
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 }
 
+static void clearBlocked(void);
+
 /* generalized restart-the-world */
 static void restartTheWorld()
 {
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+    clearBlocked();
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
@@ -569,6 +572,76 @@ void clearFreeList()
     }
 }
 
+/* Sweep the heaps of blocked and exited threads, which can't sweep their own.
+ * Their free lists aren't ours to change, so new free space is only made
+ * recognizable as such, and will be found by the thread's own next sweep. Like
+ * above, nothing may overwrite the size of a dead descriptor until every heap
+ * has been swept, so this first stores the size in the first word, tagged. */
+static void sweepBlocked(void)
+{
+    struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool;
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        for (pool = plCur->pool; pool; pool = pool->next) {
+            ggc_size_t *cur = pool->start;
+            pool->survivors = 0;
+            while (cur < pool->end) {
+                struct FreeListNode *node = (struct FreeListNode *) (void *) cur;
+                if (node->zero == 0) {
+                    /* already free */
+                    cur += node->size;
+                } else {
+                    ggc_size_t size = ((struct GGGGC_Descriptor *) (void *)
+                        (node->zero & ~(ggc_size_t) 1))->size;
+                    if (node->zero & 1) {
+                        /* still in use */
+                        node->zero--;
+                        pool->survivors += size;
+                    } else {
+                        node->zero = (size << 1) | 1;
+                    }
+                    cur += size;
+                }
+            }
+        }
+    }
+}
+
+/* and make proper free space of what sweepBlocked found */
+static void clearBlocked(void)
+{
+    struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool, **poolRef;
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        for (pool = plCur->pool; pool; pool = pool->next) {
+            ggc_size_t *cur = pool->start;
+            while (cur < pool->end) {
+                struct FreeListNode *node = (struct FreeListNode *) (void *) cur;
+                if (node->zero & 1) {
+                    node->size = node->zero >> 1;
+                    node->zero = 0;
+                }
+                if (node->zero == 0)
+                    cur += node->size;
+                else
+                    cur += ((struct GGGGC_Header *) (void *) cur)->descriptor__ptr->size;
+            }
+        }
+    }
+
+    /* the pools of exited threads may be reusable entirely */
+    poolRef = &ggggc_orphanPools.pool;
+    while ((pool = *poolRef)) {
+        if (pool->survivors == 0) {
+            *poolRef = pool->next;
+            pool->next = NULL;
+            ggggc_freeGeneration(pool);
+        } else {
+            poolRef = &pool->next;
+        }
+    }
+}
+
 /* run garbage collection */
 void ggggc_collect0(unsigned char gen)
 {
@@ -680,8 +753,9 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* sweep our own heap */
+    /* sweep our own heap, and those of threads which can't */
     sweep(ggggc_gen0);
+    sweepBlocked();
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
     {
-- 
2.43.0


From 0aab78f10ec7d2f4e75104127f732b10f9458af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 24/34] fix: use the write barrier when a C++ member is
 assigned from another member

---
 ggggc/gc.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index b16e5cb..ee1edb2 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -272,9 +272,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 
 #ifdef __cplusplus
 #define GGC_MDATA(type, name) \
-        union { \
-            type name ## __data; \
-            struct { \
+        struct name ## __member { \
                 inline operator type () { \
                     ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
                         (char *) (void *) this - \
@@ -289,13 +287,18 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
                     ); \
                     GGC_WD(that, name, x); \
                 } \
+                inline void operator=(const struct name ## __member &x) { \
+                    type v = x.data; \
+                    *this = v; \
+                } \
                 type data; \
-            } name; \
+            }; \
+        union { \
+            type name ## __data; \
+            struct name ## __member name; \
         }
 #define GGC_MPTR(type, name) \
-        union { \
-            type name ## __ptr; \
-            struct { \
+        struct name ## __member { \
                 inline operator type () { \
                     ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
                         (char *) (void *) this - \
@@ -310,8 +313,15 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
                     ); \
                     GGC_WP(that, name, x); \
                 } \
+                inline void operator=(const struct name ## __member &x) { \
+                    type v = x.data; \
+                    *this = v; \
+                } \
                 type data; \
-            } name; \
+            }; \
+        union { \
+            type name ## __ptr; \
+            struct name ## __member name; \
         }
 
 #else
-- 
2.43.0


From 508145264a01c998ce722009b1af0999af88a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 25/34] fix: grow generation 0 when a collection does not make
 enough room

---
 collector/gembc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index 575585d..b4218c6 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -70,6 +70,7 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, /* descriptor to pro
                       ) {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *ret;
+    int collected = 0;
 
 retry:
     /* get our allocation pool */
@@ -97,8 +98,15 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
+    } else if (collected && size <= (ggc_size_t) (pool->end - pool->start) &&
+               (pool->next = ggggc_newPoolGen(0, 0))) {
+        /* collecting didn't make enough space, so use more */
+        ggggc_pool0 = pool = pool->next;
+        goto retry;
+
     } else {
         /* need to collect, which means we need to actually be a GC-safe function */
+        collected = 1;
         GGC_PUSH_1(*descriptor);
         ggggc_collect0(0);
         GGC_POP();
-- 
2.43.0


From 0ce388c8fdc0e2d5a66f47d4b9572ab49d2e22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 26/34] fix: don't describe globalized variables twice

---
 roots.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/roots.c b/roots.c
index 75b7db0..1b0ee1d 100644
--- a/roots.c
+++ b/roots.c
@@ -39,6 +39,10 @@ void ggggc_globalize()
     gPointerStack->size = ggggc_pointerStack->size;
     memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));
 
+    /* the global copy takes over: updating the same variable through both
+     * would relocate it twice */
+    ggggc_pointerStack->size = 0;
+
     /* then add it to the stack */
     if (!ggggc_pointerStackGlobals) {
         /* need to find the globals first! */
-- 
2.43.0


From ead3dec651938b4e3bfea984281512011f963628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 27/34] fix: don't allocate shared descriptors while holding
 their lock

The allocation may collect and run finalizers, which then waited forever for
the lock if they needed a new descriptor themselves.
---
 allocator.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/allocator.c b/allocator.c
index 6d2b54e..2619f6d 100644
--- a/allocator.c
+++ b/allocator.c
@@ -238,19 +238,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    while (ggc_mutex_trylock(&ggggc_descriptorDescriptorsLock) != 0)
-        GGC_YIELD();
-    if (ggggc_descriptorDescriptors[size]) {
-        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-        return ggggc_descriptorDescriptors[size];
-    }
-
-    /* our descriptor may have moved while we waited */
-    if (ddSize != size)
-        ddd = ggggc_descriptorDescriptors[ddSize];
-
-    /* allocate the descriptor descriptor */
+    /* otherwise, need to allocate one. Don't hold the lock while allocating, as
+     * that may collect, and so run finalizers that need descriptors themselves */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
     /* make it correct */
@@ -267,7 +256,17 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     ret->tags[GGGGC_OFFSETOF(struct GGGGC_Descriptor *, user)] = 0;
 #endif
 
-    /* put it in the list */
+    /* put it in the list, unless somebody else was faster */
+    {
+        GGC_PUSH_1(ret);
+        while (ggc_mutex_trylock(&ggggc_descriptorDescriptorsLock) != 0)
+            GGC_YIELD();
+        GGC_POP();
+    }
+    if (ggggc_descriptorDescriptors[size]) {
+        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
+        return ggggc_descriptorDescriptors[size];
+    }
     ggggc_descriptorDescriptors[size] = ret;
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
     {
@@ -448,15 +447,25 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 /* allocate a descriptor from a descriptor slot */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
+    struct GGGGC_Descriptor *descriptor;
+
     if (slot->descriptor) return slot->descriptor;
-    while (ggc_mutex_trylock(&slot->lock) != 0)
-        GGC_YIELD();
+
+    /* don't hold the lock while allocating, as that may collect, and so run
+     * finalizers that need this slot themselves */
+    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    {
+        GGC_PUSH_1(descriptor);
+        while (ggc_mutex_trylock(&slot->lock) != 0)
+            GGC_YIELD();
+        GGC_POP();
+    }
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
     }
 
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    slot->descriptor = descriptor;
     ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
-- 
2.43.0


From 56a06e8be8b2f1aa9a1bb631a5bed036b15228ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 28/34] fix: keep a thread that could not be created out of the
 world barrier

A collection could start between counting the new thread and finding out that
there is none, and then waited for it forever.
---
 threads/posix.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/threads/posix.c b/threads/posix.c
index 6bd7b95..25b1872 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -82,16 +82,16 @@ int ggc_thread_create(
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* spawn the pthread */
+    /* spawn the pthread, before anybody can stop the world and wait for it */
     if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
         /* there's no thread, so don't wait for it */
-        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-            GGC_YIELD();
         ggc_barrier_destroy(&ggggc_worldBarrier);
         ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
-        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    }
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+
+    if (err) {
         errno = err;
         return -1;
     }
-- 
2.43.0


From e968355a5e56b0de6d00485d55c1ffb040433b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 29/34] fix: compile generic barriers in C with pthreads

---
 gen-barriers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..2e0c196 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -23,7 +23,8 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    ggc_mutex_t lock = GGC_MUTEX_INITIALIZER;
+    barrier->lock = lock;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From b56c87589f5defa3e27fcf90328e58831f0a5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 30/34] fix: don't destroy a generic barrier under its last
 thread

---
 gen-barriers.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gen-barriers.c b/gen-barriers.c
index 2e0c196..1636d66 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,6 +18,11 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
+    /* the last thread of the previous round may not be done with it yet */
+    ggc_mutex_lock_raw(&barrier->lock);
+    ggc_mutex_unlock(&barrier->lock);
+
+    ggc_sem_destroy(&barrier->leader);
     return ggc_sem_destroy(&barrier->waiters);
 }
 
-- 
2.43.0


From 886d390c082940582b45a16c2f822cba26b58082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 31/34] fix: find the value of a NULL key in a map

---
 collections/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/map.c b/collections/map.c
index 3a9efe7..d331580 100644
--- a/collections/map.c
+++ b/collections/map.c
@@ -35,7 +35,7 @@ int GGC_MapGet(GGC_Map map, void *key, void **value, ggc_map_hash_t hash, ggc_ma
     entry = GGC_RAP(GGC_RP(map, entries), hashV);
     while (entry) {
         keyCmp = GGC_RP(entry, key);
-        if (keyCmp && cmp(key, keyCmp) == 0) {
+        if (cmp(key, keyCmp) == 0) {
             *value = GGC_RP(entry, value);
             return 1;
         }
-- 
2.43.0


From 7ca09440055717938b3b2190e0916d463fa87223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 32/34] fix: don't misalign sbrk'd pools if the break can't be
 or is otherwise moved

If aligning the break failed, every pool from then on was misaligned, as it was
if another thread moved the break in between. Get the alignment and the pool in
one step, hold a lock, and check the result.
---
 allocator/sbrk.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/allocator/sbrk.c b/allocator/sbrk.c
index 3ef2478..205e1d7 100644
--- a/allocator/sbrk.c
+++ b/allocator/sbrk.c
@@ -61,26 +61,35 @@ static void mallocBump()
 
 static void *allocPool(int mustSucceed)
 {
-    void *ret;
-    size_t offset = poolOffset();
+    static ggc_mutex_t poolLock = GGC_MUTEX_INITIALIZER;
+    unsigned char *ret;
+    size_t offset;
 
-    mallocBump();
+    ggc_mutex_lock_raw(&poolLock);
+    do {
+        mallocBump();
 
-    offset = poolOffset();
-    if (offset != 0) {
-        /* align manually */
-        fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
-        sbrk(offset);
-    }
+        offset = poolOffset();
+        if (offset != 0) {
+            /* align manually */
+            fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
+        }
 
-    ret = sbrk(GGGGC_POOL_BYTES);
-    if (ret == (void *) -1) {
-        if (mustSucceed) {
-            perror("sbrk");
-            abort();
-        } else {
-            return NULL;
+        ret = (unsigned char *) sbrk(offset + GGGGC_POOL_BYTES);
+        if (ret == (unsigned char *) -1) {
+            if (mustSucceed) {
+                perror("sbrk");
+                abort();
+            } else {
+                ggc_mutex_unlock(&poolLock);
+                return NULL;
+            }
         }
-    }
+        ret += offset;
+
+        /* somebody else may have moved the break in the meantime */
+    } while ((size_t) ret & GGGGC_POOL_INNER_MASK);
+    ggc_mutex_unlock(&poolLock);
+
     return ret;
 }
-- 
2.43.0


From 36f841a05edbef4683d37879984fab7932914e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 33/34] fix: allocate objects a little smaller than a pool with
 portablems

What's left of a free chunk must be large enough to be free space itself, so an
object one to three words smaller than a pool could never be allocated. Cut the
pool to size.
---
 collector/portablems.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collector/portablems.c b/collector/portablems.c
index 75f7069..61b61a5 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -134,6 +134,12 @@ retry:
             if (pool) {
                 pool->next = ggggc_gen0;
                 ggggc_gen0 = pool;
+
+                /* what would be left over may be too little to be free space */
+                if (freeList->size > size && freeList->size < size + 4) {
+                    pool->end -= freeList->size - size;
+                    freeList->size = size;
+                }
             }
             goto retry;
         }
-- 
2.43.0


From 5b00481994842721258e16d027daf815746cea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 34/34] fix: let the break table end exactly where its pool or
 chunk does in debug checks

With the live objects of a pool ending exactly at its end, the break table can
fill the space freed up to the last word, which the memory corruption check
of the compaction reported by aborting.
---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b4218c6..9e7d704 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1218,14 +1218,14 @@ void ggggc_compact(struct GGGGC_Pool *pool)
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
         if ((ggc_size_t *) bt < pool->free) abort();
-        if ((ggc_size_t *) btEnd >= cur + fchSize) abort();
+        if ((ggc_size_t *) btEnd > cur + fchSize) abort();
 #endif
 
         if (cur >= pool->end) break;
     }
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-    if ((ggc_size_t *) btEnd >= pool->end) abort();
+    if ((ggc_size_t *) btEnd > pool->end) abort();
 #endif
 
     pool->breakTableSize = btEnd - bt;
-- 
2.43.0

