From b4dca0a67e9a7bbb5c9b59739e0c76bc90c4c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 01/48] fix: initialize survivors and finalizers of new pools

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index dfb161f..a1ddbcd 100644
--- a/allocator.c
+++ b/allocator.c
@@ -126,6 +126,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret->next = NULL;
     ret->free = ret->start;
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
 
     return ret;
 }
-- 
2.43.0


From 109a157f1094a1a2da1a6c2fa3f198511fd242a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 02/48] fix: do not copy past the end of an odd-sized chunk
 during compaction

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..c04f730 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1158,7 +1158,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
+            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)
                 pool->free[i+j] = cur[i+j];
         }
 
-- 
2.43.0


From 03d7f286cd0364254cd69151f90de406a421fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 03/48] fix: do not overwrite the first card's firstObject when
 a compacted pool is full

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index c04f730..18dc93c 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1266,7 +1266,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
 
 #if GGGGC_GENERATIONS > 1
     /* and perhaps set firstObject for the free space */
-    if (pool->gen) {
+    if (pool->gen && pool->free < pool->end) {
         card = GGGGC_CARD_OF(pool->free);
         if (card != lastCard)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
-- 
2.43.0


From 6a3db97d77b1381dd1f2173dbf3d65ec9a9c563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 04/48] fix: stop scanning a remembered card at the end of the
 pool's used space

---
 collector/gembc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 18dc93c..b0d2577 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -538,11 +538,10 @@ collect:
                 if (poolCur->remember[i]) {
                     struct GGGGC_Header *obj = (struct GGGGC_Header *)
                         ((ggc_size_t) poolCur + i * GGGGC_CARD_BYTES + poolCur->firstObject[i] * sizeof(ggc_size_t));
-                    while (GGGGC_CARD_OF(obj) == i) {
+                    while ((ggc_size_t *) obj < poolCur->free && GGGGC_CARD_OF(obj) == i) {
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
                     }
                 }
             }
-- 
2.43.0


From 19c47d2abf7cedd3b951c920728cb4ce146fda15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 05/48] fix: allow the break table to end exactly at the end of
 its space in debug builds

---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b0d2577..74f6556 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1170,14 +1170,14 @@ void ggggc_compact(struct GGGGC_Pool *pool)
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
         if ((ggc_size_t *) bt < pool->free) abort();
-        if ((ggc_size_t *) btEnd >= cur + fchSize) abort();
+        if ((ggc_size_t *) btEnd > cur + fchSize) abort();
 #endif
 
         if (cur >= pool->end) break;
     }
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-    if ((ggc_size_t *) btEnd >= pool->end) abort();
+    if ((ggc_size_t *) btEnd > pool->end) abort();
 #endif
 
     pool->breakTableSize = btEnd - bt;
-- 
2.43.0


From bca1762321f01c8a55dec6d04e6685d52876e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 06/48] fix: expand generation 0 or stop with a message when
 collection cannot make room

---
 collector/gembc.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 74f6556..0836553 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -70,6 +70,7 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, /* descriptor to pro
                       ) {
     struct GGGGC_Pool *pool;
     struct GGGGC_Header *ret;
+    int collections = 0;
 
 retry:
     /* get our allocation pool */
@@ -97,12 +98,24 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
+    } else if (size > (ggc_size_t) (pool->end - pool->start)) {
+        /* no amount of collection will make this fit */
+        fprintf(stderr, "GGGGC: allocation of %lu words does not fit a pool\n",
+            (unsigned long) size);
+        abort();
+
+    } else if (collections > GGGGC_GENERATIONS) {
+        /* collection couldn't make enough space in our existing pools */
+        pool->next = ggggc_newPoolGen(0, 1);
+        ggggc_pool0 = pool->next;
+        goto retry;
+
     } else {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
         ggggc_collect0(0);
         GGC_POP();
-        pool = ggggc_pool0;
+        collections++;
         goto retry;
 
     }
-- 
2.43.0


From 70e7eb7a3fc223a7e590d1ce11b6366264595cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 07/48] fix: stop with a message on allocations too large for
 any pool, including overflowing ones

---
 allocator.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index a1ddbcd..e0ba424 100644
--- a/allocator.c
+++ b/allocator.c
@@ -187,6 +187,16 @@ void ggggc_freeGeneration(struct GGGGC_Pool *pool)
     ggc_mutex_unlock(&freePoolsLock);
 }
 
+/* stop if an object of this many words could never be allocated */
+static void checkSize(ggc_size_t size)
+{
+    if (size > GGGGC_WORDS_PER_POOL) {
+        fprintf(stderr, "GGGGC: allocation of %lu words does not fit a pool\n",
+            (unsigned long) size);
+        abort();
+    }
+}
+
 struct GGGGC_Array {
     struct GGGGC_Header header;
     ggc_size_t length;
@@ -195,8 +205,11 @@ struct GGGGC_Array {
 /* allocate a pointer array (size is in words) */
 void *ggggc_mallocPointerArray(ggc_size_t sz)
 {
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+    checkSize(sz);
+    descriptor = ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = sz;
     return ret;
 }
@@ -204,10 +217,18 @@ void *ggggc_mallocPointerArray(ggc_size_t sz)
 /* allocate a data array */
 void *ggggc_mallocDataArray(ggc_size_t nmemb, ggc_size_t size)
 {
-    ggc_size_t sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
-    struct GGGGC_Descriptor *descriptor = ggggc_allocateDescriptorDA(
+    ggc_size_t sz;
+    struct GGGGC_Descriptor *descriptor;
+    struct GGGGC_Array *ret;
+
+    /* beware of overflow */
+    if (size && nmemb > GGGGC_POOL_BYTES / size)
+        checkSize((ggc_size_t) -1);
+
+    sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);
+    descriptor = ggggc_allocateDescriptorDA(
         sz + 1 + GGGGC_WORD_SIZEOF(struct GGGGC_Header));
-    struct GGGGC_Array *ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
+    ret = (struct GGGGC_Array *) ggggc_malloc(descriptor);
     ret->length = nmemb;
     return ret;
 }
@@ -284,6 +305,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorL(ggc_size_t size, const ggc_si
     struct GGGGC_Descriptor *dd, *ret;
     ggc_size_t dPWords, dSize;
 
+    checkSize(size);
+
     /* check for minimum size */
     /* FIXME: Theoretically if our minimum size straddled a word length, this
      * would cause us to read past the end of pointers */
@@ -347,6 +370,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsign
     struct GGGGC_Descriptor *dd, *ret;
     ggc_size_t dPWords, dSize;
 
+    checkSize(size);
+
     /* check for minimum size */
     /* FIXME: Theoretically if our minimum size straddled a word length, this
      * would cause us to read past the end of pointers */
@@ -387,6 +412,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorPA(ggc_size_t size)
     ggc_size_t dPWords, i;
     struct GGGGC_Descriptor *ret;
 
+    checkSize(size);
+
     /* fill our pointer-words with 1s */
     dPWords = GGGGC_DESCRIPTOR_WORDS_REQ(size);
 #ifdef alloca
-- 
2.43.0


From 2b2c5ca3be1906988454433d1eb4cc1d766dd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 08/48] fix: describe types of more than one word's worth of
 bits without reading past the description

---
 allocator.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/allocator.c b/allocator.c
index e0ba424..dc3ea87 100644
--- a/allocator.c
+++ b/allocator.c
@@ -294,8 +294,25 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
     ggc_size_t pointersA[1];
+    ggc_size_t *pointersL;
+    struct GGGGC_Descriptor *ret;
+
     pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    if (size <= GGGGC_BITS_PER_WORD)
+        return ggggc_allocateDescriptorL(size, pointersA);
+
+    /* too large to be described in one word, so the rest has no pointers */
+    checkSize(size);
+    pointersL = (ggc_size_t *)
+        calloc((size + GGGGC_BITS_PER_WORD - 1) / GGGGC_BITS_PER_WORD, sizeof(ggc_size_t));
+    if (!pointersL) {
+        perror("malloc");
+        abort();
+    }
+    pointersL[0] = pointers;
+    ret = ggggc_allocateDescriptorL(size, pointersL);
+    free(pointersL);
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From 4ed8b257c72af39e5af6748daeb0cfc33ce9fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 09/48] fix: do not read past the tags of types smaller than
 the minimum size

---
 allocator.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/allocator.c b/allocator.c
index dc3ea87..af74257 100644
--- a/allocator.c
+++ b/allocator.c
@@ -385,13 +385,11 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorL(ggc_size_t size, const ggc_si
 struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsigned char *tags)
 {
     struct GGGGC_Descriptor *dd, *ret;
-    ggc_size_t dPWords, dSize;
+    ggc_size_t dPWords, dSize, tagCt = size;
 
     checkSize(size);
 
     /* check for minimum size */
-    /* FIXME: Theoretically if our minimum size straddled a word length, this
-     * would cause us to read past the end of pointers */
     if (size < GGGGC_MINIMUM_OBJECT_SIZE)
         size = GGGGC_MINIMUM_OBJECT_SIZE;
 
@@ -412,7 +410,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsign
 
     /* and set it up */
     if (tags) {
-        memcpy(ret->tags, tags, size);
+        memset(ret->tags, 1, size); /* padding is not pointers */
+        memcpy(ret->tags, tags, tagCt);
         ret->tags[0] = 0; /* first word is always the descriptor pointer */
     } else {
         ret->tags[0] = 1;
-- 
2.43.0


From 8728ef122a1a900144f08ee380d04e84f9a6ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 10/48] fix: size the descriptor descriptor table for external
 tags

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..bc84806 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 136fb25..ae7ff66 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock;
-- 
2.43.0


From e2ae5c58d6bb49675f1a2510989c2919d3ceaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 11/48] fix: describe pointers beyond the 31st word of a type

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From 68346d409846883b89d024eff9fdd2f770bec0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 12/48] fix: GGC_LENGTH read a member that does not exist

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 831fee419b95212ff11a2a4e49dfcff3c527baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 13/48] fix: make GGC_PUSH_N compile and set the size of its
 frame

---
 ggggc/push.h | 10 ++++++----
 pushgen.c    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..d4a6214 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -769,16 +769,18 @@ do { \
     GGC_YIELD(); \
 } while(0)
 #endif
-#define GGC_PUSH_N(n, pptrs) \
+#define GGC_PUSH_N(n, ...) \
 GGGGC_LOCAL_PUSH \
 do { \
-    ggc_size_t ggggc_n = (n); \
+    ggc_size_t ggggc_n = (n), ggggc_i; \
     struct GGGGC_PointerStack *ggggc_pstack_cur = \
         (struct GGGGC_PointerStack *) \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
-    void *ggggc_pptrs[] = (void*[]) pptrs; \
+    void *ggggc_pptrs[] = __VA_ARGS__; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
-    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
+    ggggc_pstack_cur->size = ggggc_n; \
+    for (ggggc_i = 0; ggggc_i < ggggc_n; ggggc_i++) \
+        ggggc_pstack_cur->pointers[ggggc_i] = ggggc_pptrs[ggggc_i]; \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
     GGC_YIELD(); \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..c541b21 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -74,16 +74,18 @@ int main()
         doPush("MANUAL_", size, 0);
         printf("#endif\n");
     }
-    printf("#define GGC_PUSH_N(n, pptrs) \\\n"
+    printf("#define GGC_PUSH_N(n, ...) \\\n"
            "GGGGC_LOCAL_PUSH \\\n"
            "do { \\\n"
-           "    ggc_size_t ggggc_n = (n); \\\n"
+           "    ggc_size_t ggggc_n = (n), ggggc_i; \\\n"
            "    struct GGGGC_PointerStack *ggggc_pstack_cur = \\\n"
            "        (struct GGGGC_PointerStack *) \\\n"
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
-           "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
+           "    void *ggggc_pptrs[] = __VA_ARGS__; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
-           "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
+           "    for (ggggc_i = 0; ggggc_i < ggggc_n; ggggc_i++) \\\n"
+           "        ggggc_pstack_cur->pointers[ggggc_i] = ggggc_pptrs[ggggc_i]; \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
            "    GGC_YIELD(); \\\n"
-- 
2.43.0


From 10133bd4957a552f214b15ab8870d0bb9dce233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 14/48] fix: make GGC_ListShift return the element, not its
 node

---
 collections/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..0365cf1 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,12 +176,14 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *el = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
 
     node = GGC_RP(list, head);
     if (node) {
+        el = GGC_RP(node, el);
         head = GGC_RP(node, next);
         GGC_WP(list, head, head);
         if (!head)
@@ -191,7 +193,7 @@ void *GGC_ListShift(GGC_List list)
         GGC_WD(list, length, len);
     }
 
-    return node;
+    return el;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From 24c1aebb3f06be9cb7a668368ca86521a971cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 15/48] fix: update the list's tail when inserting after its
 last node

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 0365cf1..5b21f33 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -210,6 +210,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -238,6 +240,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From f1de43a8d8c7cd3275215abce07fdc4133c3527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 16/48] fix: accept empty lists in whole-list append, prepend
 and insertion

---
 collections/list.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 5b21f33..15f0f31 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,10 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to do if there's nothing to append */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +150,10 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    /* nothing to do if there's nothing to prepend */
+    if (!GGC_RP(from, head))
+        return;
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -227,6 +235,10 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    /* nothing to do if there's nothing to insert */
+    if (!GGC_RP(from, head))
+        return;
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From 401a5efc3d4f6a33f9f4785d0dfeb242f220069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 17/48] fix: run finalizers exactly when their object dies

Finalizer lists were lost or corrupted when a partial collection was
abandoned, were not sorted when nothing was left to search, mixed
generations after full collections, and treated marked objects as dead.
---
 collector/gembc.c | 158 +++++++++++++++++++++++++---------------------
 1 file changed, 87 insertions(+), 71 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 0836553..c1dbfbc 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -184,9 +184,8 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 /* full collection */
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
-    GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
-    GGGGC_FinalizerEntry *readyFinalizersOut
+    GGGGC_FinalizerEntry *survivingFinalizersInOut, \
+    GGGGC_FinalizerEntry *readyFinalizersInOut
 #else
 #define COLLECT_FULL_ARGS void
 #endif
@@ -264,20 +263,21 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
-    finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
-    poolCur->finalizers = NULL; \
+/* macro to sort a list of finalizers into surviving and ready finalizers.
+ * survived(obj) must tell whether obj, with forwarding followed, survived */
+#define FINALIZER_LIST(list, survived) do { \
+    finalizer = (GGGGC_FinalizerEntry) (list); \
+    (list) = NULL; \
     while (finalizer) { \
         obj = (struct GGGGC_Header *) finalizer; \
-        if (IS_FORWARDED_OBJECT(obj)) \
-            FOLLOW_FORWARDED_OBJECT(obj); \
+        FOLLOW_FORWARDED_OBJECT(obj); \
         finalizer = (GGGGC_FinalizerEntry) obj; \
         nextFinalizer = finalizer->next__ptr; \
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        FOLLOW_FORWARDED_OBJECT(obj); \
+        if (survived(obj)) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
@@ -294,6 +294,12 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* in a partial collection, objects survive by being in an older generation */
+#define SURVIVED_PARTIAL(obj) (GGGGC_GEN_OF(obj) > gen)
+
+/* in a full collection, objects survive by being marked */
+#define SURVIVED_FULL(obj) IS_MARKED(obj)
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -501,7 +507,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &survivingFinalizers, &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -567,6 +573,9 @@ collect:
 #endif
 
     /* now test all our pointers */
+#ifdef GGGGC_FEATURE_FINALIZERS
+searchPointers:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -602,19 +611,8 @@ collect:
             /* allocate in the new generation */
             nobj = (struct GGGGC_Header *) ggggc_mallocGen1(descriptor->size, gen + 1);
             if (!nobj) {
-#ifdef GGGGC_FEATURE_FINALIZERS
-                /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
-                survivingFinalizers = survivingFinalizersTail =
-                    readyFinalizers = NULL;
-#endif
+                /* NOTE: Any finalizers we've already sorted remain in our
+                 * lists, to be sorted again */
 
                 /* failed to allocate, need to collect gen+1 too */
                 gen += 1;
@@ -643,44 +641,50 @@ collect:
             abort();
         }
 #endif
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* everything reachable has been found, so check finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+        GGGGC_FinalizerEntry lastSurviving = survivingFinalizers, lastReady = readyFinalizers;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
+        survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* add all the finalizers themselves, including those from a previous,
+         * abandoned attempt */
+        FINALIZER_LIST(lastSurviving, SURVIVED_PARTIAL);
+        FINALIZER_LIST(lastReady, SURVIVED_PARTIAL);
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_LIST(poolCur->finalizers, SURVIVED_PARTIAL);
             }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur <= gen; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_LIST(poolCur->finalizers, SURVIVED_PARTIAL);
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
-    }
-#endif /* GGGGC_GENERATIONS > 1 */
 
-postCollect:
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD((void **) &survivingFinalizers);
+        TOSEARCH_ADD((void **) &survivingFinalizersTail);
+        TOSEARCH_ADD((void **) &readyFinalizers);
+        goto searchPointers;
+    }
 
-#ifdef GGGGC_FEATURE_FINALIZERS
     /* preserve surviving finalizers */
     if (survivingFinalizers) {
         poolCur = GGGGC_POOL_OF(survivingFinalizers);
+        survivingFinalizersTail->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;
         poolCur->finalizers = survivingFinalizers;
     }
-#endif
+#endif /* GGGGC_FEATURE_FINALIZERS */
+#endif /* GGGGC_GENERATIONS > 1 */
+
+postCollect:
 
     /* heuristically expand too-small generations */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next)
@@ -902,6 +906,9 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
+#ifdef GGGGC_FEATURE_FINALIZERS
+markPointers:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -932,33 +939,37 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* everything reachable has been marked, so check finalizers */
+    if (!finalizersChecked) {
+        struct GGGGC_Header *obj;
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* add all the finalizers themselves, including those from an
+         * abandoned partial collection */
+        FINALIZER_LIST(*survivingFinalizersInOut, SURVIVED_FULL);
+        FINALIZER_LIST(*readyFinalizersInOut, SURVIVED_FULL);
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_LIST(poolCur->finalizers, SURVIVED_FULL);
             }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_LIST(poolCur->finalizers, SURVIVED_FULL);
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues survive */
+        TOSEARCH_ADD((void **) &survivingFinalizers);
+        TOSEARCH_ADD((void **) &readyFinalizers);
+        goto markPointers;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* find all our sizes, for later compaction */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
@@ -1030,7 +1041,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     } \
 } while(0)
     F(survivingFinalizers);
-    F(survivingFinalizersTail);
     F(readyFinalizers);
 #undef F
 #endif
@@ -1070,9 +1080,15 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-    *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
-    *readyFinalizersOut = readyFinalizers;
+    /* preserve surviving finalizers, each with the pool it's in */
+    while (survivingFinalizers) {
+        GGGGC_FinalizerEntry finalizer = survivingFinalizers;
+        survivingFinalizers = finalizer->next__ptr;
+        poolCur = GGGGC_POOL_OF(finalizer);
+        finalizer->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;
+        poolCur->finalizers = finalizer;
+    }
+    *readyFinalizersInOut = readyFinalizers;
 #endif
 }
 
-- 
2.43.0


From 9eceb8cae433f8eb96b329fe7c4df71bb20f8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 18/48] fix: let a tiny heap grow when there is no other choice

A tiny heap is the smallest feasible one, so pool allocations that must
succeed must not abort. Correct finalization needs this.
---
 allocator.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index af74257..6f5b4e1 100644
--- a/allocator.c
+++ b/allocator.c
@@ -94,13 +94,11 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
 #ifdef GGGGC_DEBUG_TINY_HEAP
     static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS;
 
+    /* only expand beyond the tiny heap if there's no other choice */
     if (allocationsLeft-- <= 0) {
         allocationsLeft = 0;
-        if (mustSucceed) {
-            fprintf(stderr, "GGGGC: exceeded tiny heap size\n");
-            abort();
-        }
-        return NULL;
+        if (!mustSucceed)
+            return NULL;
     }
 #endif
 
-- 
2.43.0


From bc7a1d6d1b10bcee8766f7a5499d89e532a69d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 19/48] fix: tagged values and finalizers with the JIT pointer
 stack

The combinations did not compile, and full collections treated tagged
values on the JIT stack as objects.
---
 collector/gembc.c      |  4 ++--
 collector/portablems.c | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index c1dbfbc..1c5f8fc 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -528,7 +528,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -1010,7 +1010,7 @@ markPointers:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..84682f3 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -201,6 +201,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -212,7 +215,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
@@ -585,7 +593,7 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 mark(*jpsCur);
 #else
             int wordIdx;
-- 
2.43.0


From 960da2184808e0ed7e762f05a361724a77602364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 20/48] fix: do not initialize the world barrier for zero
 threads

When the last running thread blocked or exited, the barrier was
initialized with a count of zero, which fails, and then destroyed and
used anyway.
---
 threads.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/threads.c b/threads.c
index 4065b26..f95b7ff 100644
--- a/threads.c
+++ b/threads.c
@@ -37,6 +37,18 @@ GGC_END_TYPE(ThreadInfo,
     GGC_PTR(ThreadInfo, arg)
     )
 
+/* set the thread count, and remake the world barrier to match. There is no
+ * barrier before threads were first counted, or when every thread is blocked.
+ * The world barrier lock must be held. */
+static void ggggc_setThreadCount(ggc_size_t threadCount)
+{
+    if (ggggc_threadCount != (ggc_size_t) -1 && ggggc_threadCount != 0)
+        ggc_barrier_destroy(&ggggc_worldBarrier);
+    ggggc_threadCount = threadCount;
+    if (threadCount != 0)
+        ggc_barrier_init(&ggggc_worldBarrier, threadCount);
+}
+
 /* general purpose thread wrapper */
 static void *ggggcThreadWrapper(void *arg)
 {
@@ -48,8 +60,7 @@ static void *ggggcThreadWrapper(void *arg)
     /* now remove this thread from the thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    ggggc_setThreadCount(ggggc_threadCount - 1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* and give back its pools */
@@ -69,9 +80,8 @@ void ggc_pre_blocking()
         GGC_YIELD();
 
     /* take ourselves out of contention */
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_setThreadCount(1);
+    ggggc_setThreadCount(ggggc_threadCount - 1);
 
     /* add our roots and pools */
     blockedPoolListNode.pool = ggggc_gen0;
@@ -97,8 +107,7 @@ void ggc_post_blocking()
      * though. */
 
     /* add ourselves back to the world barrier */
-    ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
+    ggggc_setThreadCount(ggggc_threadCount + 1);
 
     /* remove our roots and pools from the list */
     if (ggggc_blockedThreadPool0s == &blockedPoolListNode) {
-- 
2.43.0


From a6ad955210455094c47bf7a960b5fc81b80a321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 21/48] fix: do not wait for threads that could not be created

---
 threads/posix.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..a9429ed 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -46,6 +46,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -57,16 +58,17 @@ int ggc_thread_create(
     /* update our thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
-    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
-    else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    if (ggggc_threadCount == (ggc_size_t) -1) ggggc_setThreadCount(1);
+    ggggc_setThreadCount(ggggc_threadCount + 1);
 
-    /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
-        return -1;
+    /* spawn the pthread. This is done with the lock, as nobody may wait for a
+     * thread that turns out not to exist. */
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+        ggggc_setThreadCount(ggggc_threadCount - 1);
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    return 0;
+    errno = err;
+    return err ? -1 : 0;
 }
 
 BLOCKING(
-- 
2.43.0


From 0196afecf65492672157429d13e3b7f93563f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 22/48] fix: ggc_sem_wait was missing, and ggc_barrier_wait
 failed for one thread

---
 threads/posix.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index a9429ed..aec3b5d 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -29,9 +29,15 @@ int func \
 }
 
 #if _POSIX_BARRIERS
+static int ggggc_barrierWait(pthread_barrier_t *barrier)
+{
+    int err = pthread_barrier_wait(barrier);
+    return (err == PTHREAD_BARRIER_SERIAL_THREAD) ? 0 : err;
+}
+
 BLOCKING(
     ggc_barrier_wait(void *barrier),
-    pthread_barrier_wait((pthread_barrier_t *) barrier)
+    ggggc_barrierWait((pthread_barrier_t *) barrier)
 )
 #endif
 
@@ -40,6 +46,16 @@ BLOCKING(
     pthread_mutex_lock(mutex)
 )
 
+static int ggggc_semWait(ggc_sem_t *sem)
+{
+    return sem_wait(sem) ? errno : 0;
+}
+
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    ggggc_semWait(sem)
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0


From ff1daba7f8bdf5e4d699111ad196a704c0228932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 23/48] fix: the JIT pointer stacks of blocked threads were not
 roots

---
 threads.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/threads.c b/threads.c
index f95b7ff..3b69684 100644
--- a/threads.c
+++ b/threads.c
@@ -71,6 +71,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -90,6 +93,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -99,6 +108,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList **jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -134,6 +146,14 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    for (jpslCur = &ggggc_blockedThreadJITPointerStacks; *jpslCur; jpslCur = &(*jpslCur)->next) {
+        if (*jpslCur == &blockedJITPointerStackListNode) {
+            *jpslCur = blockedJITPointerStackListNode.next;
+            break;
+        }
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 3c49c32ae3e1d5273789320dd84631abaf74d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 24/48] fix: keep what exited threads allocated and globalized

When a thread exited, its generation 0 was given to other threads, though other
threads may refer to objects in it, and what it globalized, such as the
descriptors of types it used first, stopped being a root.
---
 allocator.c            |  2 +-
 collector/gembc.c      | 39 ++++++++++++++++++++++++++++++++++++---
 collector/portablems.c | 25 +++++++++++++++++++++++++
 ggggc-internals.h      | 16 +++++++++++++++-
 globals.c              |  6 ++++--
 threads.c              | 19 +++++++++++++++----
 6 files changed, 96 insertions(+), 11 deletions(-)

diff --git a/allocator.c b/allocator.c
index 6f5b4e1..952a1e4 100644
--- a/allocator.c
+++ b/allocator.c
@@ -170,7 +170,7 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
     }
 }
 
-/* free a generation (used when a thread exits) */
+/* free a generation. There must be nothing reachable left in it. */
 void ggggc_freeGeneration(struct GGGGC_Pool *pool)
 {
     if (!pool) return;
diff --git a/collector/gembc.c b/collector/gembc.c
index 1c5f8fc..868c33b 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -180,6 +180,25 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
     return ret;
 }
 
+/* leave this thread's generation 0 behind */
+void ggggc_abandonPools()
+{
+    struct GGGGC_Pool **poolCurP = &ggggc_exitedThreadPool0s.pool;
+    while (*poolCurP) poolCurP = &(*poolCurP)->next;
+    *poolCurP = ggggc_gen0;
+    ggggc_gen0 = ggggc_pool0 = NULL;
+}
+
+/* take over a pool of an exited thread */
+void ggggc_adoptPools()
+{
+    struct GGGGC_Pool *pool = ggggc_exitedThreadPool0s.pool;
+    if (!pool) return;
+    ggggc_exitedThreadPool0s.pool = pool->next;
+    pool->next = NULL;
+    pool->survivors = 0;
+    ggggc_gen0 = ggggc_pool0 = pool;
+}
 
 /* full collection */
 #ifdef GGGGC_FEATURE_FINALIZERS
@@ -428,7 +447,7 @@ static void report(unsigned char gen, const char *when)
 void ggggc_collect0(unsigned char gen)
 {
     struct GGGGC_PoolList pool0Node, *plCur;
-    struct GGGGC_Pool *poolCur;
+    struct GGGGC_Pool *poolCur, **poolCurP;
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     struct ToSearch *toSearch;
@@ -687,8 +706,10 @@ searchPointers:
 postCollect:
 
     /* heuristically expand too-small generations */
-    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next)
-        ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
+    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+        if (plCur != &ggggc_exitedThreadPool0s)
+            ggggc_expandPoolList(plCur->pool, newPoolGenProto, 1);
+    }
     for (genCur = 1; genCur <= gen; genCur++)
         ggggc_expandPoolList(ggggc_gens[genCur], newPoolGenProto, 1);
 
@@ -716,6 +737,18 @@ postCollect:
 #endif
     }
 
+    /* give back the pools of exited threads with nothing left in them */
+    for (poolCurP = &ggggc_exitedThreadPool0s.pool; *poolCurP;) {
+        poolCur = *poolCurP;
+        if (poolCur->free == poolCur->start) {
+            *poolCurP = poolCur->next;
+            poolCur->next = NULL;
+            ggggc_freeGeneration(poolCur);
+        } else {
+            poolCurP = &poolCur->next;
+        }
+    }
+
 #ifdef GGGGC_DEBUG_REPORT_COLLECTIONS
     report(gen, "post-collection");
 #endif
diff --git a/collector/portablems.c b/collector/portablems.c
index 84682f3..7a348b4 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -132,6 +132,31 @@ retry:
     return ret;
 }
 
+/* the free list in the pools of exited threads */
+static struct FreeListNode *exitedFreeList = NULL;
+
+/* leave this thread's pools behind */
+void ggggc_abandonPools()
+{
+    struct GGGGC_Pool **poolCur = &ggggc_exitedThreadPool0s.pool;
+    struct FreeListNode **freeListCur = &exitedFreeList;
+    while (*poolCur) poolCur = &(*poolCur)->next;
+    *poolCur = ggggc_gen0;
+    ggggc_gen0 = ggggc_pool0 = NULL;
+    while (*freeListCur) freeListCur = &(*freeListCur)->next;
+    *freeListCur = freeList;
+    freeList = NULL;
+}
+
+/* take over the pools of exited threads */
+void ggggc_adoptPools()
+{
+    ggggc_gen0 = ggggc_pool0 = ggggc_exitedThreadPool0s.pool;
+    ggggc_exitedThreadPool0s.pool = NULL;
+    freeList = exitedFreeList;
+    exitedFreeList = NULL;
+}
+
 /* allocate an object */
 void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 {
diff --git a/ggggc-internals.h b/ggggc-internals.h
index bc84806..c08b55d 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -43,9 +43,17 @@ void ggggc_expandPoolList(struct GGGGC_Pool *poolList,
                           struct GGGGC_Pool *(*newPool)(struct GGGGC_Pool *),
                           int ratio);
 
-/* free a generation (used when a thread exits) */
+/* free a generation. There must be nothing reachable left in it. */
 void ggggc_freeGeneration(struct GGGGC_Pool *proto);
 
+/* leave this thread's generation 0 behind, when it exits, as other threads may
+ * use what's in it. The world barrier lock must be held. */
+void ggggc_abandonPools(void);
+
+/* take over the pools, or a pool, of an exited thread, if there is one. This
+ * thread may not have any yet. The world barrier lock must be held. */
+void ggggc_adoptPools(void);
+
 /* run a collection */
 void ggggc_collect0(unsigned char gen);
 
@@ -54,6 +62,8 @@ void ggggc_collect0(unsigned char gen);
  *  ggggc_threadCount
  *  ggggc_blockedThreadPool0s
  *  ggggc_blockedThreadPointerStacks
+ *  ggggc_exitedThreadPool0s
+ *  ggggc_exitedThreadPointerStacks
  *
  * It should be acquired to change any of these, and by the main thread during
  * collection, for the ENTIRE duration of collection
@@ -94,6 +104,10 @@ extern struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
 extern struct GGGGC_JITPointerStackList *ggggc_blockedThreadJITPointerStacks;
 #endif
 
+/* what exited threads left behind is always part of the above lists */
+extern struct GGGGC_PoolList ggggc_exitedThreadPool0s;
+extern struct GGGGC_PointerStackList ggggc_exitedThreadPointerStacks;
+
 /* the generation 0 pools are thread-local */
 extern ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 
diff --git a/globals.c b/globals.c
index ae7ff66..63463cc 100644
--- a/globals.c
+++ b/globals.c
@@ -14,8 +14,10 @@ ggc_mutex_t ggggc_worldBarrierLock = GGC_MUTEX_INITIALIZER;
 ggc_mutex_t ggggc_rootsLock = GGC_MUTEX_INITIALIZER;
 struct GGGGC_PoolList *ggggc_rootPool0List;
 struct GGGGC_PointerStackList *ggggc_rootPointerStackList;
-struct GGGGC_PoolList *ggggc_blockedThreadPool0s;
-struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
+struct GGGGC_PoolList ggggc_exitedThreadPool0s;
+struct GGGGC_PointerStackList ggggc_exitedThreadPointerStacks;
+struct GGGGC_PoolList *ggggc_blockedThreadPool0s = &ggggc_exitedThreadPool0s;
+struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks = &ggggc_exitedThreadPointerStacks;
 #ifdef GGGGC_FEATURE_JITPSTACK
 struct GGGGC_JITPointerStackList *ggggc_rootJITPointerStackList;
 struct GGGGC_JITPointerStackList *ggggc_blockedThreadJITPointerStacks;
diff --git a/threads.c b/threads.c
index 3b69684..fc8abec 100644
--- a/threads.c
+++ b/threads.c
@@ -55,17 +55,28 @@ static void *ggggcThreadWrapper(void *arg)
     ThreadInfo ti = (ThreadInfo) arg;
     GGC_PUSH_1(ti);
 
+    /* use what exited threads left behind */
+    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+        GGC_YIELD();
+    ggggc_adoptPools();
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+
     GGC_RD(ti, func)(GGC_RP(ti, arg));
 
-    /* now remove this thread from the thread barrier */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
+
+    /* leave behind its pools and globals, as others may use them */
+    ggggc_abandonPools();
+    if (ggggc_pointerStackGlobals) {
+        ggggc_pointerStackGlobals->next = ggggc_exitedThreadPointerStacks.pointerStack;
+        ggggc_exitedThreadPointerStacks.pointerStack = ggggc_pointerStack->next;
+    }
+
+    /* now remove this thread from the thread barrier */
     ggggc_setThreadCount(ggggc_threadCount - 1);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
-    /* and give back its pools */
-    ggggc_freeGeneration(ggggc_gen0);
-
     return 0;
 }
 
-- 
2.43.0


From 53fa186f3506dc35e33228238404e977aa00b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 25/48] fix: do not deadlock on locks held while allocating
 descriptors

Another thread waiting for the lock could not join the collection that the
thread with the lock was waiting for.
---
 allocator.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/allocator.c b/allocator.c
index 952a1e4..f0ca246 100644
--- a/allocator.c
+++ b/allocator.c
@@ -252,8 +252,12 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
+    /* otherwise, need to allocate one. First lock the space. Whoever has the
+     * lock may be collecting, so don't make them wait for us. */
+    while (ggc_mutex_trylock(&ggggc_descriptorDescriptorsLock) != 0)
+        GGC_YIELD();
+    if (ddSize != size)
+        ddd = ggggc_descriptorDescriptors[ddSize];
     if (ggggc_descriptorDescriptors[size]) {
         ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
         return ggggc_descriptorDescriptors[size];
@@ -468,7 +472,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
     if (slot->descriptor) return slot->descriptor;
-    ggc_mutex_lock_raw(&slot->lock);
+    while (ggc_mutex_trylock(&slot->lock) != 0)
+        GGC_YIELD();
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
-- 
2.43.0


From 7421bf0a22037a4ae431575e918ac1653e990dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 26/48] fix: handle refused memory in the mmap, malloc and sbrk
 allocators and tables

---
 allocator/malloc.c | 1 +
 allocator/mmap.c   | 2 +-
 allocator/sbrk.c   | 7 +++++--
 ggggc-internals.h  | 4 ++++
 roots.c            | 4 ++++
 5 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..b041baf 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -33,6 +33,7 @@ static void *allocPool(int mustSucceed)
             if (space) break;
         }
         if (!space) {
+            ggc_mutex_unlock(&poolLock);
             if (mustSucceed) {
                 perror("malloc");
                 abort();
diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
diff --git a/allocator/sbrk.c b/allocator/sbrk.c
index 3ef2478..5b26df6 100644
--- a/allocator/sbrk.c
+++ b/allocator/sbrk.c
@@ -70,10 +70,13 @@ static void *allocPool(int mustSucceed)
     if (offset != 0) {
         /* align manually */
         fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
-        sbrk(offset);
+        ret = sbrk(offset);
+    } else {
+        ret = NULL;
     }
 
-    ret = sbrk(GGGGC_POOL_BYTES);
+    if (ret != (void *) -1)
+        ret = sbrk(GGGGC_POOL_BYTES);
     if (ret == (void *) -1) {
         if (mustSucceed) {
             perror("sbrk");
diff --git a/ggggc-internals.h b/ggggc-internals.h
index c08b55d..3a3a46b 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -149,6 +149,10 @@ struct ToSearch {
 #define TOSEARCH_NEXT() do { \
     if (!toSearch->next) { \
         struct ToSearch *tsn = (struct ToSearch *) malloc(sizeof(struct ToSearch)); \
+        if (tsn == NULL) { \
+            perror("malloc"); \
+            abort(); \
+        } \
         toSearch->next = tsn; \
         tsn->prev = toSearch; \
         tsn->next = NULL; \
diff --git a/roots.c b/roots.c
index 75b7db0..69a18bf 100644
--- a/roots.c
+++ b/roots.c
@@ -35,6 +35,10 @@ void ggggc_globalize()
     /* make a global copy */
     gPointerStack = (struct GGGGC_PointerStack *)
         malloc(sizeof(struct GGGGC_PointerStack) + ggggc_pointerStack->size * sizeof(void *));
+    if (!gPointerStack) {
+        perror("malloc");
+        abort();
+    }
     gPointerStack->next = NULL;
     gPointerStack->size = ggggc_pointerStack->size;
     memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));
-- 
2.43.0


From 486c93ca5e735b348da6f5b5e0b0feb7a9cdd758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 27/48] fix: sweep the heaps of blocked threads in portablems

Their objects stayed marked, so in the next collection what only they refer to
was not marked, and freed.
---
 collector/portablems.c | 65 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 7a348b4..6f9a55b 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -212,11 +212,19 @@ static void stopTheWorld(
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 }
 
-/* generalized restart-the-world */
-static void restartTheWorld()
+/* generalized restart-the-world, given the objects freed in blocked threads'
+ * heaps */
+static void restartTheWorld(struct FreeListNode *dead)
 {
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
+
+    /* nobody is sweeping now, so descriptors' sizes may be overwritten */
+    for (; dead; dead = dead->next) {
+        dead->size = dead->zero;
+        dead->zero = 0;
+    }
+
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
 
@@ -547,6 +555,53 @@ static void sweep(struct GGGGC_Pool *pool)
         lastFree->next = NULL;
 }
 
+/* sweep the heaps of blocked and exited threads, which can't do so themselves.
+ * Their free lists are left as they are, so the space freed here will only be
+ * used once they sweep. Returns a list of the objects freed, as sweep does. */
+static struct FreeListNode *sweepBlocked()
+{
+    struct FreeListNode *dead = NULL;
+    struct GGGGC_PoolList *plCur;
+    struct GGGGC_Pool *pool;
+
+    for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
+        for (pool = plCur->pool; pool; pool = pool->next) {
+            union {
+                ggc_size_t *w;
+                struct GGGGC_Header *obj;
+                struct FreeListNode *fl;
+            } cur;
+
+            for (cur.w = pool->start; cur.w < pool->end;) {
+                ggc_size_t descriptorI =
+                    (ggc_size_t) (void *) cur.obj->descriptor__ptr;
+
+                if (!descriptorI) {
+                    /* already free */
+                    cur.w += cur.fl->size;
+
+                } else if (descriptorI & 1) {
+                    /* marked, so still in use */
+                    descriptorI--;
+                    cur.obj->descriptor__ptr =
+                        (struct GGGGC_Descriptor *) (void *) descriptorI;
+                    cur.w += cur.obj->descriptor__ptr->size;
+
+                } else {
+                    /* free it, with its size in the zero slot */
+                    cur.fl->zero = cur.obj->descriptor__ptr->size;
+                    cur.fl->next = dead;
+                    dead = cur.fl;
+                    cur.w += cur.fl->zero;
+
+                }
+            }
+        }
+    }
+
+    return dead;
+}
+
 /* clear the free list after sweeping */
 void clearFreeList()
 {
@@ -578,6 +633,7 @@ void ggggc_collect0(unsigned char gen)
     struct GGGGC_PoolList pool0Node;
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
+    struct FreeListNode *dead;
     ggc_size_t i;
 #ifdef GGGGC_FEATURE_JITPSTACK
     struct GGGGC_JITPointerStackList jitPointerStackNode, *jpslCur;
@@ -683,8 +739,9 @@ void ggggc_collect0(unsigned char gen)
     /* indicate that we're now ready to sweep */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-    /* sweep our own heap */
+    /* sweep our own heap, and those of whoever is blocked */
     sweep(ggggc_gen0);
+    dead = sweepBlocked();
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
     {
@@ -695,7 +752,7 @@ void ggggc_collect0(unsigned char gen)
     memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld();
+    restartTheWorld(dead);
 
     /* clear our freelist */
     clearFreeList();
-- 
2.43.0


From dc39f55f2f2a6e8a379713d109129b69156a1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 28/48] fix: make memory corruption debugging work with
 portablems

The check word made free list elements overlap what sweeping needs, and the
check after collection looked at other threads' pools while they swept.
---
 collector/portablems.c | 26 ++++++++++++++++++++------
 ggggc/gc-portablems.h  |  7 ++++++-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 6f9a55b..7977be4 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -25,9 +25,14 @@
 
 #include "ggggc-internals.h"
 
-/* Free list. Free list elements are stored as [0, size in words, next]. */
+/* Free list. Free list elements are stored as [0, size in words, next]. The
+ * size has to be where a descriptor has its size. */
 struct FreeListNode {
-    ggc_size_t zero, size;
+    ggc_size_t zero;
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    ggc_size_t check;
+#endif
+    ggc_size_t size;
     struct FreeListNode *next;
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
@@ -316,7 +321,8 @@ static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
             {
                 /* it's a pointer */
                 struct GGGGC_Header *nobj = (struct GGGGC_Header *) objVp[curWord];
-                if (nobj && nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
+                if (nobj && !IS_TAGGED(nobj) &&
+                    nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
                     fprintf(stderr, "GGGGC: Memory corruption (%s nested)!\n", when);
                     abort();
                 }
@@ -380,7 +386,7 @@ static void memoryCorruptionCheck(const char *when)
             ggc_size_t i;
             for (i = 0; i < psCur->size; i++) {
                 struct GGGGC_Header *obj = *((struct GGGGC_Header **) psCur->pointers[i]);
-                if (obj)
+                if (obj && !IS_TAGGED(obj))
                     memoryCorruptionCheckObj(when, obj);
             }
         }
@@ -747,9 +753,8 @@ void ggggc_collect0(unsigned char gen)
     {
         struct FreeListNode *f;
         for (f = freeList; f; f = f->next)
-            memset(f + 1, 0, f->size * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
+            memset(f + 1, 0, f->zero * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
     }
-    memoryCorruptionCheck("post-collection");
 #endif
 
     restartTheWorld(dead);
@@ -757,6 +762,15 @@ void ggggc_collect0(unsigned char gen)
     /* clear our freelist */
     clearFreeList();
 
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    /* others may already be running, but our own pools can be checked */
+    {
+        struct GGGGC_Pool *pool;
+        for (pool = ggggc_gen0; pool; pool = pool->next)
+            memoryCorruptionCheckPool("post-collection", pool);
+    }
+#endif
+
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run any finalizers */
     if (readyFinalizers)
diff --git a/ggggc/gc-portablems.h b/ggggc/gc-portablems.h
index d7bf443..221d99c 100644
--- a/ggggc/gc-portablems.h
+++ b/ggggc/gc-portablems.h
@@ -24,9 +24,14 @@
 #define GGGGC_USE_PORTABLE_ALLOCATOR 1
 
 /* our freelist entries are three words, to make them easily distinguishable
- * from objects (the first word is zero) */
+ * from objects (the first word is zero), with another word for the check when
+ * debugging memory corruption */
 #undef GGGGC_MINIMUM_OBJECT_SIZE
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+#define GGGGC_MINIMUM_OBJECT_SIZE 4
+#else
 #define GGGGC_MINIMUM_OBJECT_SIZE 3
+#endif
 
 /* portablems does not have generations */
 #undef GGGGC_GENERATIONS
-- 
2.43.0


From f2da0923da33d6f4c0727dbe397e8462c2674d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 29/48] fix: assigning one C++ member to another bypassed the
 write barrier

---
 ggggc/gc.h | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index b16e5cb..156cf57 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -293,25 +293,31 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
             } name; \
         }
 #define GGC_MPTR(type, name) \
+        struct name ## __ggggc_member { \
+            inline operator type () { \
+                ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
+                    (char *) (void *) this - \
+                    (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
+                ); \
+                return GGC_RP(that, name); \
+            } \
+            inline void operator=(type &x) { \
+                ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
+                    (char *) (void *) this - \
+                    (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
+                ); \
+                GGC_WP(that, name, x); \
+            } \
+            /* assigning from another object's member has to be a write too */ \
+            inline void operator=(const name ## __ggggc_member &other) { \
+                type x = other.data; \
+                *this = x; \
+            } \
+            type data; \
+        }; \
         union { \
             type name ## __ptr; \
-            struct { \
-                inline operator type () { \
-                    ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
-                        (char *) (void *) this - \
-                        (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
-                    ); \
-                    return GGC_RP(that, name); \
-                } \
-                inline void operator=(type &x) { \
-                    ggggc_current_struct *that = (ggggc_current_struct *) (void *) ( \
-                        (char *) (void *) this - \
-                        (size_t) (void *) &(((ggggc_current_struct *) NULL)->name ## __ptr) \
-                    ); \
-                    GGC_WP(that, name, x); \
-                } \
-                type data; \
-            } name; \
+            name ## __ggggc_member name; \
         }
 
 #else
-- 
2.43.0


From 0702a9720c26cb1637a08efa5e1094f820069c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 30/48] fix: unused variable in portablems fails -Werror builds

---
 collector/portablems.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 7977be4..dc58d10 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -506,7 +506,6 @@ static void sweep(struct GGGGC_Pool *pool)
         end = pool->end;
         while (cur.w < end) {
             struct GGGGC_Descriptor *descriptor;
-            struct FreeListNode *nextFree;
             ggc_size_t descriptorI;
 
             /* it's either a freelist entry already or an allocated object */
-- 
2.43.0


From 9b547b15911ecbd27adfbcbe90b676868de3f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 31/48] fix: return descriptor descriptors from where they are
 after yielding

---
 allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allocator.c b/allocator.c
index f0ca246..af99570 100644
--- a/allocator.c
+++ b/allocator.c
@@ -288,7 +288,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         GGC_GLOBALIZE();
     }
 
-    return ret;
+    /* pushing yields, so it may have moved */
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
-- 
2.43.0


From 91e5bbd02ce893668ff42965af53acfb70f60117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 32/48] fix: read the list of free pools only with its lock

---
 allocator.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/allocator.c b/allocator.c
index af99570..0129df6 100644
--- a/allocator.c
+++ b/allocator.c
@@ -105,15 +105,13 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret = NULL;
 
     /* try to reuse a pool */
+    ggc_mutex_lock_raw(&freePoolsLock);
     if (freePoolsHead) {
-        ggc_mutex_lock_raw(&freePoolsLock);
-        if (freePoolsHead) {
-            ret = freePoolsHead;
-            freePoolsHead = freePoolsHead->next;
-            if (!freePoolsHead) freePoolsTail = NULL;
-        }
-        ggc_mutex_unlock(&freePoolsLock);
+        ret = freePoolsHead;
+        freePoolsHead = freePoolsHead->next;
+        if (!freePoolsHead) freePoolsTail = NULL;
     }
+    ggc_mutex_unlock(&freePoolsLock);
 
     /* otherwise, allocate one */
     if (!ret) ret = (struct GGGGC_Pool *) allocPool(mustSucceed);
-- 
2.43.0


From 42704d33055f922acac15b851de9b93594aa03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 33/48] fix: publish type descriptors with release, and read
 them with acquire, semantics

---
 allocator.c       | 13 ++++++++-----
 ggggc-internals.h | 10 ++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/allocator.c b/allocator.c
index 0129df6..b776a22 100644
--- a/allocator.c
+++ b/allocator.c
@@ -240,8 +240,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
         size = GGGGC_MINIMUM_OBJECT_SIZE;
 
     /* check if we already have a descriptor */
-    if (ggggc_descriptorDescriptors[size])
-        return ggggc_descriptorDescriptors[size];
+    if ((ret = GGGGC_READ_PUBLISHED(ggggc_descriptorDescriptors[size])))
+        return ret;
 
     /* need one description bit for every word in the object */
     ddSize = GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor) + GGGGC_DESCRIPTOR_WORDS_REQ(size) - 1;
@@ -279,7 +279,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
 #endif
 
     /* put it in the list */
-    ggggc_descriptorDescriptors[size] = ret;
+    GGGGC_PUBLISH(ggggc_descriptorDescriptors[size], ret);
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
@@ -470,7 +470,9 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 /* allocate a descriptor from a descriptor slot */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
-    if (slot->descriptor) return slot->descriptor;
+    struct GGGGC_Descriptor *ret;
+
+    if ((ret = GGGGC_READ_PUBLISHED(slot->descriptor))) return ret;
     while (ggc_mutex_trylock(&slot->lock) != 0)
         GGC_YIELD();
     if (slot->descriptor) {
@@ -478,7 +480,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
         return slot->descriptor;
     }
 
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    ret = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    GGGGC_PUBLISH(slot->descriptor, ret);
     ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 3a3a46b..878399e 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -25,6 +25,16 @@
 extern "C" {
 #endif
 
+/* read (publish) a pointer that other threads publish (read) without a lock:
+ * who sees the pointer also sees what it points to */
+#if defined(__GNUC__) && defined(__ATOMIC_ACQUIRE)
+#define GGGGC_READ_PUBLISHED(ptr) __atomic_load_n(&(ptr), __ATOMIC_ACQUIRE)
+#define GGGGC_PUBLISH(ptr, value) __atomic_store_n(&(ptr), (value), __ATOMIC_RELEASE)
+#else
+#define GGGGC_READ_PUBLISHED(ptr) (ptr)
+#define GGGGC_PUBLISH(ptr, value) ((ptr) = (value))
+#endif
+
 /* allocate an object, collecting if impossible. Descriptor is for protection
  * only */
 void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, ggc_size_t size);
-- 
2.43.0


From 1d4d099996dcd908916875a76b4a2919668e366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 34/48] fix: take the world barrier lock in turn, so that no
 thread waits forever for one that collects often

---
 collector/gembc.c       |  7 ++----
 collector/portablems.c  |  7 ++----
 ggggc-internals.h       | 10 +++++++--
 ggggc/threads-macosx.h  |  2 ++
 ggggc/threads-none.h    |  1 +
 ggggc/threads-posix.h   |  2 ++
 ggggc/threads-windows.h |  1 +
 threads.c               | 50 ++++++++++++++++++++++++++++++++---------
 threads/macosx.c        |  5 ++---
 threads/posix.c         |  5 ++---
 threads/windows.c       |  5 ++---
 11 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 868c33b..e732f9c 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -464,10 +464,7 @@ void ggggc_collect0(unsigned char gen)
 #endif
 
     /* first, make sure we stop the world */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0) {
-        /* somebody else is collecting */
-        GGC_YIELD();
-    }
+    ggggc_lockWorldBarrier(1);
 
     TOSEARCH_INIT();
 
@@ -769,7 +766,7 @@ postCollect:
 
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run our finalizers */
diff --git a/collector/portablems.c b/collector/portablems.c
index dc58d10..51cfcb4 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -180,10 +180,7 @@ static void stopTheWorld(
 #endif
 ) {
     /* first, make sure we stop the world */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0) {
-        /* somebody else is collecting */
-        GGC_YIELD();
-    }
+    ggggc_lockWorldBarrier(1);
 
     /* if nobody ever initialized the barrier, do so */
     if (ggggc_threadCount == (ggc_size_t) -1) {
@@ -230,7 +227,7 @@ static void restartTheWorld(struct FreeListNode *dead)
         dead->zero = 0;
     }
 
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 }
 
 /* getting the pool from an object is only needed by finalizers */
diff --git a/ggggc-internals.h b/ggggc-internals.h
index 878399e..ed4aaec 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -25,8 +25,8 @@
 extern "C" {
 #endif
 
-/* read (publish) a pointer that other threads publish (read) without a lock:
- * who sees the pointer also sees what it points to */
+/* read (publish) a value that other threads publish (read) without a lock:
+ * who sees it also sees what was written before it was published */
 #if defined(__GNUC__) && defined(__ATOMIC_ACQUIRE)
 #define GGGGC_READ_PUBLISHED(ptr) __atomic_load_n(&(ptr), __ATOMIC_ACQUIRE)
 #define GGGGC_PUBLISH(ptr, value) __atomic_store_n(&(ptr), (value), __ATOMIC_RELEASE)
@@ -80,6 +80,12 @@ void ggggc_collect0(unsigned char gen);
  */
 extern ggc_mutex_t ggggc_worldBarrierLock;
 
+/* ggggc_worldBarrierLock is taken in turn, as a thread that collects often would
+ * otherwise never leave it to the others. If yield, take part in others'
+ * collections while waiting. */
+void ggggc_lockWorldBarrier(int yield);
+void ggggc_unlockWorldBarrier(void);
+
 /* global world-stopping barrier */
 extern ggc_barrier_t ggggc_worldBarrier;
 
diff --git a/ggggc/threads-macosx.h b/ggggc/threads-macosx.h
index 5d18d95..6b03f5c 100644
--- a/ggggc/threads-macosx.h
+++ b/ggggc/threads-macosx.h
@@ -20,12 +20,14 @@
 #define GGGGC_THREADS_MACOSX_H 1
 
 #include <pthread.h>
+#include <sched.h>
 #include <dispatch/dispatch.h>
 
 /* functions */
 #define ggc_mutex_lock_raw              pthread_mutex_lock
 #define ggc_mutex_trylock               pthread_mutex_trylock
 #define ggc_mutex_unlock                pthread_mutex_unlock
+#define ggc_thread_relax                sched_yield
 
 /* types */
 #define ggc_mutex_t     pthread_mutex_t
diff --git a/ggggc/threads-none.h b/ggggc/threads-none.h
index db32b20..3da34eb 100644
--- a/ggggc/threads-none.h
+++ b/ggggc/threads-none.h
@@ -35,6 +35,7 @@
 #define ggc_sem_wait_raw(x)             0
 #define ggc_thread_create(x,y,z)        (-1)
 #define ggc_thread_join(x)              (-1)
+#define ggc_thread_relax()              0
 
 /* types */
 #define ggc_barrier_t   int
diff --git a/ggggc/threads-posix.h b/ggggc/threads-posix.h
index b2c0e7f..a4d8b3d 100644
--- a/ggggc/threads-posix.h
+++ b/ggggc/threads-posix.h
@@ -20,6 +20,7 @@
 #define GGGGC_THREADS_POSIX_H 1
 
 #include <pthread.h>
+#include <sched.h>
 #include <semaphore.h>
 
 /* functions */
@@ -35,6 +36,7 @@
 #define ggc_sem_init(x,y)               sem_init(x,0,y)
 #define ggc_sem_post                    sem_post
 #define ggc_sem_wait_raw                sem_wait
+#define ggc_thread_relax                sched_yield
 
 /* types */
 #if _POSIX_BARRIERS
diff --git a/ggggc/threads-windows.h b/ggggc/threads-windows.h
index 677ab5b..5ef90bf 100644
--- a/ggggc/threads-windows.h
+++ b/ggggc/threads-windows.h
@@ -25,6 +25,7 @@
 #define ggc_sem_init(sem,ct)            ((*(sem)=CreateSemaphore(NULL,0,(ct),NULL))?0:-1)
 #define ggc_sem_post(sem)               (!ReleaseSemaphore(*(sem),1,NULL))
 #define ggc_sem_wait_raw(sem)           (WaitForSingleObject(*(sem),INFINITE)==WAIT_FAILED)
+#define ggc_thread_relax                SwitchToThread
 
 /* types */
 #define ggc_mutex_t     HANDLE
diff --git a/threads.c b/threads.c
index fc8abec..de4a928 100644
--- a/threads.c
+++ b/threads.c
@@ -37,6 +37,37 @@ GGC_END_TYPE(ThreadInfo,
     GGC_PTR(ThreadInfo, arg)
     )
 
+/* whose turn it is to hold the world barrier lock, and the next turn to hand out */
+static ggc_mutex_t ggggc_worldBarrierTurnLock = GGC_MUTEX_INITIALIZER;
+static ggc_size_t ggggc_worldBarrierNextTurn = 0;
+static volatile ggc_size_t ggggc_worldBarrierTurn = 0;
+
+/* take the world barrier lock in turn */
+void ggggc_lockWorldBarrier(int yield)
+{
+    ggc_size_t turn;
+
+    ggc_mutex_lock_raw(&ggggc_worldBarrierTurnLock);
+    turn = ggggc_worldBarrierNextTurn++;
+    ggc_mutex_unlock(&ggggc_worldBarrierTurnLock);
+
+    while (GGGGC_READ_PUBLISHED(ggggc_worldBarrierTurn) != turn) {
+        /* somebody else is collecting */
+        if (yield) GGC_YIELD();
+        ggc_thread_relax();
+    }
+    ggc_mutex_lock_raw(&ggggc_worldBarrierLock);
+}
+
+/* and let the next one have it */
+void ggggc_unlockWorldBarrier()
+{
+    ggc_size_t turn = ggggc_worldBarrierTurn + 1;
+
+    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    GGGGC_PUBLISH(ggggc_worldBarrierTurn, turn);
+}
+
 /* set the thread count, and remake the world barrier to match. There is no
  * barrier before threads were first counted, or when every thread is blocked.
  * The world barrier lock must be held. */
@@ -56,15 +87,13 @@ static void *ggggcThreadWrapper(void *arg)
     GGC_PUSH_1(ti);
 
     /* use what exited threads left behind */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
     ggggc_adoptPools();
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
     GGC_RD(ti, func)(GGC_RP(ti, arg));
 
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
 
     /* leave behind its pools and globals, as others may use them */
     ggggc_abandonPools();
@@ -75,7 +104,7 @@ static void *ggggcThreadWrapper(void *arg)
 
     /* now remove this thread from the thread barrier */
     ggggc_setThreadCount(ggggc_threadCount - 1);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
     return 0;
 }
@@ -90,8 +119,7 @@ static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackL
 void ggc_pre_blocking()
 {
     /* get a lock on the thread count etc */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
 
     /* take ourselves out of contention */
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_setThreadCount(1);
@@ -111,7 +139,7 @@ void ggc_pre_blocking()
     ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
 #endif
 
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 }
 
 /* and this after */
@@ -124,7 +152,7 @@ void ggc_post_blocking()
 #endif
 
     /* get a lock on the thread count etc */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
+    ggggc_lockWorldBarrier(0);
     /* FIXME: can't yield here, as yielding waits for stop-the-world if
      * applicable. Perhaps something would be more ideal than a spin-loop
      * though. */
@@ -166,7 +194,7 @@ void ggc_post_blocking()
     }
 #endif
 
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 }
 
 #if defined(GGGGC_THREADS_POSIX)
diff --git a/threads/macosx.c b/threads/macosx.c
index d672f93..c57c8cb 100644
--- a/threads/macosx.c
+++ b/threads/macosx.c
@@ -76,12 +76,11 @@ int ggc_thread_create(
     GGC_WP(ti, arg, arg);
 
     /* update our thread barrier */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
     /* spawn the pthread */
     if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
diff --git a/threads/posix.c b/threads/posix.c
index aec3b5d..7d8ee90 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -72,8 +72,7 @@ int ggc_thread_create(
     GGC_WP(ti, arg, arg);
 
     /* update our thread barrier */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_setThreadCount(1);
     ggggc_setThreadCount(ggggc_threadCount + 1);
 
@@ -81,7 +80,7 @@ int ggc_thread_create(
      * thread that turns out not to exist. */
     if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
         ggggc_setThreadCount(ggggc_threadCount - 1);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
     errno = err;
     return err ? -1 : 0;
diff --git a/threads/windows.c b/threads/windows.c
index 15e82f7..b5dc04e 100644
--- a/threads/windows.c
+++ b/threads/windows.c
@@ -82,12 +82,11 @@ int ggc_thread_create(
     GGC_WP(ti, arg, arg);
 
     /* update our thread barrier */
-    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
-        GGC_YIELD();
+    ggggc_lockWorldBarrier(1);
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
-    ggc_mutex_unlock(&ggggc_worldBarrierLock);
+    ggggc_unlockWorldBarrier();
 
     /* spawn the thread */
     *thread = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE) ggggcThreadWrapper, ti, 0, NULL);
-- 
2.43.0


From efd6bf1eef7045caf9fc9e61c435f1683458fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 35/48] fix: share the pools exited threads leave behind in
 portablems, and reuse empty ones

---
 collector/portablems.c | 63 +++++++++++++++++++++++++++++-------------
 ggggc-internals.h      |  2 +-
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 51cfcb4..7f29158 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -137,29 +137,41 @@ retry:
     return ret;
 }
 
-/* the free list in the pools of exited threads */
-static struct FreeListNode *exitedFreeList = NULL;
-
 /* leave this thread's pools behind */
 void ggggc_abandonPools()
 {
     struct GGGGC_Pool **poolCur = &ggggc_exitedThreadPool0s.pool;
-    struct FreeListNode **freeListCur = &exitedFreeList;
     while (*poolCur) poolCur = &(*poolCur)->next;
     *poolCur = ggggc_gen0;
     ggggc_gen0 = ggggc_pool0 = NULL;
-    while (*freeListCur) freeListCur = &(*freeListCur)->next;
-    *freeListCur = freeList;
     freeList = NULL;
 }
 
-/* take over the pools of exited threads */
+/* take over a pool of an exited thread */
 void ggggc_adoptPools()
 {
-    ggggc_gen0 = ggggc_pool0 = ggggc_exitedThreadPool0s.pool;
-    ggggc_exitedThreadPool0s.pool = NULL;
-    freeList = exitedFreeList;
-    exitedFreeList = NULL;
+    struct GGGGC_Pool *pool = ggggc_exitedThreadPool0s.pool;
+    union {
+        ggc_size_t *w;
+        struct GGGGC_Header *obj;
+        struct FreeListNode *fl;
+    } cur;
+
+    if (!pool) return;
+    ggggc_exitedThreadPool0s.pool = pool->next;
+    pool->next = NULL;
+    ggggc_gen0 = ggggc_pool0 = pool;
+
+    /* find the free space in it */
+    for (cur.w = pool->start; cur.w < pool->end;) {
+        if (cur.fl->zero) {
+            cur.w += cur.obj->descriptor__ptr->size;
+        } else {
+            cur.fl->next = freeList;
+            freeList = cur.fl;
+            cur.w += cur.fl->size;
+        }
+    }
 }
 
 /* allocate an object */
@@ -215,8 +227,8 @@ static void stopTheWorld(
 }
 
 /* generalized restart-the-world, given the objects freed in blocked threads'
- * heaps */
-static void restartTheWorld(struct FreeListNode *dead)
+ * heaps and the pools to be given back */
+static void restartTheWorld(struct FreeListNode *dead, struct GGGGC_Pool *empty)
 {
     /* free the other threads */
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
@@ -226,6 +238,7 @@ static void restartTheWorld(struct FreeListNode *dead)
         dead->size = dead->zero;
         dead->zero = 0;
     }
+    ggggc_freeGeneration(empty);
 
     ggggc_unlockWorldBarrier();
 }
@@ -559,15 +572,17 @@ static void sweep(struct GGGGC_Pool *pool)
 
 /* sweep the heaps of blocked and exited threads, which can't do so themselves.
  * Their free lists are left as they are, so the space freed here will only be
- * used once they sweep. Returns a list of the objects freed, as sweep does. */
-static struct FreeListNode *sweepBlocked()
+ * used once they sweep. Returns a list of the objects freed, as sweep does.
+ * Pools of exited threads with nothing left in them are moved to empty. */
+static struct FreeListNode *sweepBlocked(struct GGGGC_Pool **empty)
 {
     struct FreeListNode *dead = NULL;
     struct GGGGC_PoolList *plCur;
-    struct GGGGC_Pool *pool;
+    struct GGGGC_Pool *pool, **poolP;
 
     for (plCur = ggggc_blockedThreadPool0s; plCur; plCur = plCur->next) {
-        for (pool = plCur->pool; pool; pool = pool->next) {
+        for (poolP = &plCur->pool; (pool = *poolP);) {
+            int used = 0;
             union {
                 ggc_size_t *w;
                 struct GGGGC_Header *obj;
@@ -584,6 +599,7 @@ static struct FreeListNode *sweepBlocked()
 
                 } else if (descriptorI & 1) {
                     /* marked, so still in use */
+                    used = 1;
                     descriptorI--;
                     cur.obj->descriptor__ptr =
                         (struct GGGGC_Descriptor *) (void *) descriptorI;
@@ -598,6 +614,14 @@ static struct FreeListNode *sweepBlocked()
 
                 }
             }
+
+            if (!used && plCur == &ggggc_exitedThreadPool0s) {
+                *poolP = pool->next;
+                pool->next = *empty;
+                *empty = pool;
+            } else {
+                poolP = &pool->next;
+            }
         }
     }
 
@@ -636,6 +660,7 @@ void ggggc_collect0(unsigned char gen)
     struct GGGGC_PointerStackList pointerStackNode, *pslCur;
     struct GGGGC_PointerStack *psCur;
     struct FreeListNode *dead;
+    struct GGGGC_Pool *empty = NULL;
     ggc_size_t i;
 #ifdef GGGGC_FEATURE_JITPSTACK
     struct GGGGC_JITPointerStackList jitPointerStackNode, *jpslCur;
@@ -743,7 +768,7 @@ void ggggc_collect0(unsigned char gen)
 
     /* sweep our own heap, and those of whoever is blocked */
     sweep(ggggc_gen0);
-    dead = sweepBlocked();
+    dead = sweepBlocked(&empty);
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
     {
@@ -753,7 +778,7 @@ void ggggc_collect0(unsigned char gen)
     }
 #endif
 
-    restartTheWorld(dead);
+    restartTheWorld(dead, empty);
 
     /* clear our freelist */
     clearFreeList();
diff --git a/ggggc-internals.h b/ggggc-internals.h
index ed4aaec..524f07c 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -60,7 +60,7 @@ void ggggc_freeGeneration(struct GGGGC_Pool *proto);
  * use what's in it. The world barrier lock must be held. */
 void ggggc_abandonPools(void);
 
-/* take over the pools, or a pool, of an exited thread, if there is one. This
+/* take over a pool of an exited thread, if there is one. This
  * thread may not have any yet. The world barrier lock must be held. */
 void ggggc_adoptPools(void);
 
-- 
2.43.0


From 281d71977a9ff10253a6017b6925da0856269ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 36/48] fix: allocate objects that leave too little space for a
 free list entry in portablems

---
 collector/portablems.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 7f29158..98b8642 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -37,6 +37,9 @@ struct FreeListNode {
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
 
+/* words between objects that are too few for a free list entry hold this */
+#define GGGGC_FILLER ((ggc_size_t) 2)
+
 /* create a pool and add it to the free list */
 static struct GGGGC_Pool *ggggc_newPoolFree(int mustSucceed)
 {
@@ -89,6 +92,15 @@ retry:
             *freeListCur = next;
             break;
 
+        } else if ((*freeListCur)->size > size) {
+            /* too little is left over for a free list entry */
+            ggc_size_t *filler = (ggc_size_t *) *freeListCur + size;
+            ggc_size_t *end = (ggc_size_t *) *freeListCur + (*freeListCur)->size;
+            ret = (struct GGGGC_Header *) (void *) *freeListCur;
+            *freeListCur = (*freeListCur)->next;
+            while (filler < end) *filler++ = GGGGC_FILLER;
+            break;
+
         }
     }
 
@@ -164,7 +176,9 @@ void ggggc_adoptPools()
 
     /* find the free space in it */
     for (cur.w = pool->start; cur.w < pool->end;) {
-        if (cur.fl->zero) {
+        if (cur.fl->zero == GGGGC_FILLER) {
+            cur.w++;
+        } else if (cur.fl->zero) {
             cur.w += cur.obj->descriptor__ptr->size;
         } else {
             cur.fl->next = freeList;
@@ -360,7 +374,9 @@ static void memoryCorruptionCheckPool(const char *when, struct GGGGC_Pool *pool)
 
     cur.w = (ggc_size_t *) pool->start;
     while (cur.w < (ggc_size_t *) pool->end) {
-        if (cur.fln->zero) {
+        if (cur.fln->zero == GGGGC_FILLER) {
+            cur.w++;
+        } else if (cur.fln->zero) {
             /* it's an allocated object */
             memoryCorruptionCheckObj(when, cur.obj);
             cur.w += cur.obj->descriptor__ptr->size;
@@ -530,6 +546,15 @@ static void sweep(struct GGGGC_Pool *pool)
                 continue;
             }
 
+            if (descriptorI == GGGGC_FILLER) {
+                /* it's free if what's before it is */
+                if (lastFree &&
+                    cur.w == ((ggc_size_t *) lastFree) + lastFree->zero)
+                    lastFree->zero++;
+                cur.w++;
+                continue;
+            }
+
             /* it's free */
             /* the size is in the same location as a descriptor's size, so we
              * use the zero space for the size temporarily, then put the size in
@@ -593,7 +618,10 @@ static struct FreeListNode *sweepBlocked(struct GGGGC_Pool **empty)
                 ggc_size_t descriptorI =
                     (ggc_size_t) (void *) cur.obj->descriptor__ptr;
 
-                if (!descriptorI) {
+                if (descriptorI == GGGGC_FILLER) {
+                    cur.w++;
+
+                } else if (!descriptorI) {
                     /* already free */
                     cur.w += cur.fl->size;
 
-- 
2.43.0


From afb4e494409075dc82b02f0ea1ccde4caa38472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 37/48] fix: do not expand generations for objects that are
 only waiting for their finalizers

---
 collector/gembc.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index e732f9c..96b7273 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -282,6 +282,10 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
+/* the state of checking finalizers when those that are ready, and what is only
+ * kept for them, are being found. None of that counts as surviving. */
+#define FINALIZERS_READY 2
+
 /* macro to sort a list of finalizers into surviving and ready finalizers.
  * survived(obj) must tell whether obj, with forwarding followed, survived */
 #define FINALIZER_LIST(list, survived) do { \
@@ -622,7 +626,10 @@ searchPointers:
             FOLLOW_FORWARDED_DESCRIPTOR(descriptor);
 
             /* mark it as surviving */
-            GGGGC_POOL_OF(obj)->survivors += descriptor->size;
+#ifdef GGGGC_FEATURE_FINALIZERS
+            if (finalizersChecked != FINALIZERS_READY)
+#endif
+                GGGGC_POOL_OF(obj)->survivors += descriptor->size;
 
             /* allocate in the new generation */
             nobj = (struct GGGGC_Header *) ggggc_mallocGen1(descriptor->size, gen + 1);
@@ -687,8 +694,13 @@ searchPointers:
         /* then make sure the finalizer queues get promoted */
         TOSEARCH_ADD((void **) &survivingFinalizers);
         TOSEARCH_ADD((void **) &survivingFinalizersTail);
+        goto searchPointers;
+
+    } else if (finalizersChecked != FINALIZERS_READY) {
+        finalizersChecked = FINALIZERS_READY;
         TOSEARCH_ADD((void **) &readyFinalizers);
         goto searchPointers;
+
     }
 
     /* preserve surviving finalizers */
@@ -964,7 +976,10 @@ markPointers:
 
             /* then mark it */
             MARK(obj);
-            GGGGC_POOL_OF(obj)->survivors += descriptor->size;
+#ifdef GGGGC_FEATURE_FINALIZERS
+            if (finalizersChecked != FINALIZERS_READY)
+#endif
+                GGGGC_POOL_OF(obj)->survivors += descriptor->size;
 
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
@@ -996,8 +1011,13 @@ markPointers:
 
         /* then make sure the finalizer queues survive */
         TOSEARCH_ADD((void **) &survivingFinalizers);
+        goto markPointers;
+
+    } else if (finalizersChecked != FINALIZERS_READY) {
+        finalizersChecked = FINALIZERS_READY;
         TOSEARCH_ADD((void **) &readyFinalizers);
         goto markPointers;
+
     }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 132ae9dfe3b71e4641e2768a83bfb37791b00254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 38/48] fix: do not count objects that are only waiting for
 their finalizers as survivors in portablems

---
 collector/portablems.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 98b8642..ec4585b 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -420,8 +420,13 @@ static void memoryCorruptionCheck(const char *when)
 }
 #endif
 
+/* Marked objects have MARK set in their descriptor pointers. MARK_READY is also
+ * set for what is only kept for a finalizer, which doesn't count as surviving. */
+#define MARK ((ggc_size_t) 1)
+#define MARK_READY ((ggc_size_t) 2)
+
 /* mark this object and all objects it refers to */
-static void mark(struct GGGGC_Header *obj)
+static void mark(struct GGGGC_Header *obj, ggc_size_t marks)
 {
     struct ToSearch *toSearch;
     struct GGGGC_Descriptor *descriptor;
@@ -449,13 +454,13 @@ static void mark(struct GGGGC_Header *obj)
         /* check if it's already marked */
         descriptor = obj->descriptor__ptr;
         descriptorI = (ggc_size_t) (void *) descriptor;
-        if (descriptorI & 1) {
+        if (descriptorI & MARK) {
             /* already marked */
             continue;
         }
 
         /* mark it */
-        descriptorI |= 1;
+        descriptorI |= marks;
         obj->descriptor__ptr = (struct GGGGC_Descriptor *) (void *) descriptorI;
 
         /* mark its descriptor */
@@ -536,11 +541,12 @@ static void sweep(struct GGGGC_Pool *pool)
 
             /* it's either a freelist entry already or an allocated object */
             descriptorI = (ggc_size_t) (void *) cur.obj->descriptor__ptr;
-            if (descriptorI & 1) {
+            if (descriptorI & MARK) {
                 /* it's marked, so still in use */
-                descriptorI--;
-                descriptor = (struct GGGGC_Descriptor *) (void *) descriptorI;
-                pool->survivors += descriptor->size;
+                descriptor = (struct GGGGC_Descriptor *) (void *)
+                    (descriptorI & ~(MARK | MARK_READY));
+                if (!(descriptorI & MARK_READY))
+                    pool->survivors += descriptor->size;
                 cur.obj->descriptor__ptr = descriptor;
                 cur.w += descriptor->size;
                 continue;
@@ -625,12 +631,12 @@ static struct FreeListNode *sweepBlocked(struct GGGGC_Pool **empty)
                     /* already free */
                     cur.w += cur.fl->size;
 
-                } else if (descriptorI & 1) {
+                } else if (descriptorI & MARK) {
                     /* marked, so still in use */
                     used = 1;
-                    descriptorI--;
                     cur.obj->descriptor__ptr =
-                        (struct GGGGC_Descriptor *) (void *) descriptorI;
+                        (struct GGGGC_Descriptor *) (void *)
+                        (descriptorI & ~(MARK | MARK_READY));
                     cur.w += cur.obj->descriptor__ptr->size;
 
                 } else {
@@ -720,7 +726,7 @@ void ggggc_collect0(unsigned char gen)
                 struct GGGGC_Header **h = (struct GGGGC_Header **)
                     psCur->pointers[i];
                 if (h && *h && !IS_TAGGED(*h))
-                    mark(*h);
+                    mark(*h, MARK);
             }
         }
     }
@@ -730,7 +736,7 @@ void ggggc_collect0(unsigned char gen)
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
             if (*jpsCur && !IS_TAGGED(*jpsCur))
-                mark(*jpsCur);
+                mark(*jpsCur, MARK);
 #else
             int wordIdx;
             size_t tags = *((ggc_size_t *) jpsCur);
@@ -744,7 +750,7 @@ void ggggc_collect0(unsigned char gen)
                 jpsCur++;
                 /* Lowest bit indicates pointer */
                 if ((tag & 0x1) == 0 && *jpsCur)
-                    mark(*jpsCur);
+                    mark(*jpsCur, MARK);
             }
 #endif /* GGGGC_FEATURE_EXTTAG */
         }
@@ -784,11 +790,11 @@ void ggggc_collect0(unsigned char gen)
         struct GGGGC_Pool *pool;
         for (pool = plCur->pool; pool; pool = pool->next) {
             if (pool->finalizers)
-                mark(pool->finalizers);
+                mark(pool->finalizers, MARK);
         }
     }
     if (readyFinalizers)
-        mark(&readyFinalizers->header);
+        mark(&readyFinalizers->header, MARK | MARK_READY);
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* indicate that we're now ready to sweep */
-- 
2.43.0


From 70af3f910261ca49c3c1adf2403790f72b80ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 39/48] fix: let C++ wrappers be returned as copies of other
 wrappers

---
 ggggc/gc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 156cf57..673cc46 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -522,9 +522,14 @@ template<typename T> class GGC {
         inline GGC<T>() : GGC<T>(nullptr) {}
 
         inline ~GGC<T>() {
-            if (ggggc_pointerStack != &ps.ps)
+            /* not necessarily the last one pushed: when one is returned as a
+             * copy of another, the copy is pushed before the other is popped */
+            struct GGGGC_PointerStack **cur = &ggggc_pointerStack;
+            while (*cur && *cur != &ps.ps)
+                cur = &(*cur)->next;
+            if (!*cur)
                 abort();
-            ggggc_pointerStack = ggggc_pointerStack->next;
+            *cur = ps.ps.next;
         }
 
         inline GGC<T> &operator=(T other) {
-- 
2.43.0


From fc9e93d372000364a3253f753528d5dc9e9ab3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 40/48] fix: compile portablems as C++ with JIT pointer stacks
 and finalizers

---
 collector/portablems.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index ec4585b..fdb9d1c 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -736,7 +736,7 @@ void ggggc_collect0(unsigned char gen)
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
             if (*jpsCur && !IS_TAGGED(*jpsCur))
-                mark(*jpsCur, MARK);
+                mark((struct GGGGC_Header *) *jpsCur, MARK);
 #else
             int wordIdx;
             size_t tags = *((ggc_size_t *) jpsCur);
@@ -750,7 +750,7 @@ void ggggc_collect0(unsigned char gen)
                 jpsCur++;
                 /* Lowest bit indicates pointer */
                 if ((tag & 0x1) == 0 && *jpsCur)
-                    mark(*jpsCur, MARK);
+                    mark((struct GGGGC_Header *) *jpsCur, MARK);
             }
 #endif /* GGGGC_FEATURE_EXTTAG */
         }
@@ -790,7 +790,7 @@ void ggggc_collect0(unsigned char gen)
         struct GGGGC_Pool *pool;
         for (pool = plCur->pool; pool; pool = pool->next) {
             if (pool->finalizers)
-                mark(pool->finalizers, MARK);
+                mark((struct GGGGC_Header *) pool->finalizers, MARK);
         }
     }
     if (readyFinalizers)
-- 
2.43.0


From 753c54a477ea663a481f80f853754b5b0f8ba5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 41/48] fix: let the C++ wrappers compile as C++20

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 673cc46..0c8e4d1 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -521,7 +521,7 @@ template<typename T> class GGC {
 
         inline GGC<T>() : GGC<T>(nullptr) {}
 
-        inline ~GGC<T>() {
+        inline ~GGC() {
             /* not necessarily the last one pushed: when one is returned as a
              * copy of another, the copy is pushed before the other is popped */
             struct GGGGC_PointerStack **cur = &ggggc_pointerStack;
-- 
2.43.0


From 2159474297dfd8e0b806eacf8ef8054d0a257884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 42/48] fix: pop what the library pushes when frames are not
 popped automatically

---
 allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/allocator.c b/allocator.c
index b776a22..143dc27 100644
--- a/allocator.c
+++ b/allocator.c
@@ -284,6 +284,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     /* pushing yields, so it may have moved */
@@ -488,6 +489,7 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlo
     {
         GGC_PUSH_1(slot->descriptor);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return slot->descriptor;
@@ -527,6 +529,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    GGC_POP();
 }
 
 /* and function for running finalizers */
@@ -546,6 +550,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    GGC_POP();
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 7913b97f66001585cb088d4d3a4a5752cf784975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 43/48] fix: compile where there are no POSIX barriers

---
 gen-barriers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..7bccb91 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -23,7 +23,8 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    static const ggc_mutex_t unlocked = GGC_MUTEX_INITIALIZER;
+    barrier->lock = unlocked;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From d7d38673eb72f8d57167e3281c4980cf2597b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 44/48] fix: do not destroy a barrier while its last thread is
 still waiting for the others to wake up

---
 gen-barriers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gen-barriers.c b/gen-barriers.c
index 7bccb91..9480730 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -18,6 +18,10 @@
 
 int ggc_barrier_destroy(ggc_barrier_t *barrier)
 {
+    /* the last one to arrive may still be waiting for the others to wake up */
+    ggc_mutex_lock_raw(&barrier->lock);
+    ggc_mutex_unlock(&barrier->lock);
+
     return ggc_sem_destroy(&barrier->waiters);
 }
 
-- 
2.43.0


From f0d4b42e822f42e0f0f71af50e51ef7dd381d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 45/48] fix: see the world barrier as it was when the stop was
 requested

---
 collector/gembc.c      | 4 ++--
 collector/portablems.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 96b7273..f7cf919 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -497,7 +497,7 @@ void ggggc_collect0(unsigned char gen)
     ggc_mutex_unlock(&ggggc_rootsLock);
 
     /* stop the world */
-    ggggc_stopTheWorld = 1;
+    GGGGC_PUBLISH(ggggc_stopTheWorld, 1);
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggggc_stopTheWorld = 0;
 
@@ -1384,7 +1384,7 @@ int ggggc_yield()
     struct GGGGC_JITPointerStackList jitPointerStackNode;
 #endif
 
-    if (ggggc_stopTheWorld) {
+    if (GGGGC_READ_PUBLISHED(ggggc_stopTheWorld)) {
         /* wait for the barrier once to stop the world */
         ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
diff --git a/collector/portablems.c b/collector/portablems.c
index fdb9d1c..a3cf093 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -232,7 +232,7 @@ static void stopTheWorld(
 #endif
 
     /* stop the world */
-    ggggc_stopTheWorld = 1;
+    GGGGC_PUBLISH(ggggc_stopTheWorld, 1);
     ggc_barrier_wait_raw(&ggggc_worldBarrier);
     ggggc_stopTheWorld = 0;
 
@@ -848,7 +848,7 @@ int ggggc_yield()
     struct GGGGC_JITPointerStackList jitPointerStackNode;
 #endif
 
-    if (ggggc_stopTheWorld) {
+    if (GGGGC_READ_PUBLISHED(ggggc_stopTheWorld)) {
         /* wait for the barrier once to stop the world */
         ggc_barrier_wait_raw(&ggggc_worldBarrier);
 
-- 
2.43.0


From 924acd00b39516ec32fd999458a470f10fbfdf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:57 +0000
Subject: [PATCH 46/48] fix: a signal doesn't let a thread through a generic
 barrier

---
 gen-barriers.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index 9480730..583cd50 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -36,6 +36,12 @@ int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
     return 0;
 }
 
+/* a signal may interrupt waiting for a semaphore, but doesn't end it */
+static void semWait(ggc_sem_t *sem)
+{
+    while (ggc_sem_wait_raw(sem));
+}
+
 int ggc_barrier_wait_raw(ggc_barrier_t *barrier)
 {
     ggc_mutex_lock_raw(&barrier->lock);
@@ -48,7 +54,7 @@ int ggc_barrier_wait_raw(ggc_barrier_t *barrier)
         for (i = 0; i < barrier->cur; i++) ggc_sem_post(&barrier->waiters);
 
         /* wait for them to wake up */
-        for (i = 0; i < barrier->cur; i++) ggc_sem_wait_raw(&barrier->leader);
+        for (i = 0; i < barrier->cur; i++) semWait(&barrier->leader);
 
         /* and reset the barrier */
         barrier->cur = 0;
@@ -59,7 +65,7 @@ int ggc_barrier_wait_raw(ggc_barrier_t *barrier)
     /* otherwise, wait on the others */
     barrier->cur++;
     ggc_mutex_unlock(&barrier->lock);
-    ggc_sem_wait_raw(&barrier->waiters);
+    semWait(&barrier->waiters);
     ggc_sem_post(&barrier->leader);
 
     return 0;
-- 
2.43.0


From f1d2487db66097dca7165decf4eb3bea32ecdd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 47/48] fix: portablems expands a tiny heap when nothing else
 helps

---
 collector/portablems.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index a3cf093..358a6ef 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -126,11 +126,9 @@ retry:
         if (retried < 2) {
             struct GGGGC_Pool *pool;
             retried = 2;
-            pool = ggggc_newPoolFree(0);
-            if (pool) {
-                pool->next = ggggc_gen0;
-                ggggc_gen0 = pool;
-            }
+            pool = ggggc_newPoolFree(1);
+            pool->next = ggggc_gen0;
+            ggggc_gen0 = pool;
             goto retry;
         }
 
-- 
2.43.0


From 128f64c0136314a1705cfeb8f95281d78ada2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 48/48] fix: portablems clears freed memory only once nobody is
 sweeping

---
 collector/portablems.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 358a6ef..e7a070f 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -802,7 +802,10 @@ void ggggc_collect0(unsigned char gen)
     sweep(ggggc_gen0);
     dead = sweepBlocked(&empty);
 
+    restartTheWorld(dead, empty);
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    /* nobody is sweeping now, so descriptors may be cleared */
     {
         struct FreeListNode *f;
         for (f = freeList; f; f = f->next)
@@ -810,8 +813,6 @@ void ggggc_collect0(unsigned char gen)
     }
 #endif
 
-    restartTheWorld(dead, empty);
-
     /* clear our freelist */
     clearFreeList();
 
-- 
2.43.0

