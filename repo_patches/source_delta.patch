From 956135e524a6cf65e12fe3e0bdd53799a82f6269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 01/48] fix: keep the vector capacity unchanged when the
 re-allocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 69a18ae163ee5927291ec40d7b700c14969f9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 02/48] fix: undo a vector emplacement when the element
 constructor fails

---
 src/Vector.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..137898f 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -518,13 +518,20 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     }
 
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
+    ++vector->size;
+
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again
+            ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, 1));
+            --vector->size;
+            return status;
+        }
     }
 
-    ++vector->size;
-
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From bd14d01853273ce1428bfc4f6537c04776ac5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 03/48] fix: reject vector ranges whose end overflows the index
 type

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 137898f..1ff65b2 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -583,7 +583,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -664,7 +664,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -709,7 +709,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 5634ee4a03b927708747248c76aee2bd8eb6d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 04/48] fix: searching an empty vector reports 'not found'
 instead of an error

---
 src/Vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 1ff65b2..6fd4a1c 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -664,7 +664,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index >= vector->size) || (count > vector->size - index))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 112a039e4489b116dec1d979c209f34f97dfa9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 05/48] fix: refuse vector and allocator requests that exceed
 the address space

---
 src/Allocator.c | 10 ++++++++++
 src/Vector.c    | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..9953ef1 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
diff --git a/src/Vector.c b/src/Vector.c
index 6fd4a1c..bb881f6 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,6 +111,11 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
+    if (capacity > (ZyanUSize)(-1) / vector->element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
         vector->element_size, capacity));
     vector->capacity = capacity;
@@ -198,6 +203,11 @@ ZyanStatus ZyanVectorInitEx(ZyanVector* vector, ZyanUSize element_size, ZyanUSiz
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_ASSERT(allocator->allocate);
 
     vector->allocator        = allocator;
@@ -463,6 +473,12 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     ZYAN_ASSERT(vector->element_size);
     ZYAN_ASSERT(vector->data);
 
+    if (count > (ZyanUSize)(-1) / vector->growth_factor - vector->size)
+    {
+        return vector->allocator ? ZYAN_STATUS_NOT_ENOUGH_MEMORY
+                                 : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
+    }
+
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
@@ -767,6 +783,12 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         return ZYAN_STATUS_SUCCESS;
     }
 
+    if (size > (ZyanUSize)(-1) / vector->growth_factor)
+    {
+        return vector->allocator ? ZYAN_STATUS_NOT_ENOUGH_MEMORY
+                                 : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
+    }
+
     if (vector->destructor && (size < vector->size))
     {
         for (ZyanUSize i = size; i < vector->size; ++i)
-- 
2.43.0


From 3d46e59db00396d4baeca8ea67c7313717bb87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 06/48] fix: do not report a failed automatic shrink after
 vector elements were already removed

---
 src/Vector.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index bb881f6..c86c6e2 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -620,8 +620,9 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     vector->size -= count;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The elements are already gone. Failing to release unused memory is not an error.
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -646,8 +647,9 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
     --vector->size;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The element is already gone. Failing to release unused memory is not an error.
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -801,7 +803,12 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        const ZyanStatus status = ZyanVectorReallocate(vector,
+            (ZyanUSize)(size * vector->growth_factor));
+        if (!ZYAN_SUCCESS(status) && ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
+        {
+            return status;
+        }
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From 2cb216880009efd8d8709efce0799fd589e10d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 07/48] fix: automatic shrinking must not enlarge the vector
 capacity

---
 src/Vector.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index c86c6e2..9a960f5 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -48,11 +48,13 @@
  * @param   size        The desired size of the vector.
  * @param   capacity    The current capacity of the vector.
  * @param   threshold   The shrink threshold.
+ * @param   growth      The growth factor that determines the capacity after shrinking.
  *
  * @return  `ZYAN_TRUE`, if the vector should shrink or `ZYAN_FALSE`, if not.
  */
-#define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold) \
-    (((threshold) != 0) && ((size) * (threshold) < (capacity)))
+#define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold, growth) \
+    (((threshold) != 0) && ((size) * (threshold) < (capacity)) && \
+     ((size) * (growth) < (capacity)))
 
 /**
  * Returns the offset of the element at the given `index`.
@@ -618,7 +620,8 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     }
 
     vector->size -= count;
-    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
+    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold,
+        vector->growth_factor))
     {
         // The elements are already gone. Failing to release unused memory is not an error.
         ZYAN_UNUSED(ZyanVectorReallocate(vector,
@@ -645,7 +648,8 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
     }
 
     --vector->size;
-    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
+    if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold,
+        vector->growth_factor))
     {
         // The element is already gone. Failing to release unused memory is not an error.
         ZYAN_UNUSED(ZyanVectorReallocate(vector,
@@ -800,7 +804,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
     }
 
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold,
+            vector->growth_factor))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
         const ZyanStatus status = ZyanVectorReallocate(vector,
-- 
2.43.0


From 03036e38319839b73871d6c8aa7255175631551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 08/48] fix: implement removal of list nodes

---
 src/List.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..076bf23 100644
--- a/src/List.c
+++ b/src/List.c
@@ -525,16 +525,58 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    // Make sure that `last` is not located in front of `first`
+    for (const ZyanListNode* node = first; node != last; node = node->next)
+    {
+        if (!node->next)
+        {
+            return ZYAN_STATUS_INVALID_ARGUMENT;
+        }
+    }
+
+    ZyanListNode* node       = (ZyanListNode*)first;
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const end  = last->next;
+
+    while (node != end)
+    {
+        ZyanListNode* const next = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
+        }
+
+        if (prev)
+        {
+            prev->next = next;
+        } else
+        {
+            list->head = next;
+        }
+        if (next)
+        {
+            next->prev = prev;
+        } else
+        {
+            list->tail = prev;
+        }
+        --list->size;
+
+        ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+        node = next;
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 85404b993e91164ad7b553d9702209caec81d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 09/48] fix: do not add a list element whose constructor failed

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index 076bf23..10d3ce7 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 62487d46b4eb6a855353004efc4f5593a692c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 10/48] fix: refuse list element sizes that overflow the node
 size

---
 src/List.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/List.c b/src/List.c
index 10d3ce7..88bd2b5 100644
--- a/src/List.c
+++ b/src/List.c
@@ -144,6 +144,10 @@ ZyanStatus ZyanListInitEx(ZyanList* list, ZyanUSize element_size, ZyanMemberProc
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
+    if (element_size > (ZyanUSize)(-1) - sizeof(ZyanListNode))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
 
     list->allocator     = allocator;
     list->size          = 0;
@@ -165,6 +169,10 @@ ZyanStatus ZyanListInitCustomBuffer(ZyanList* list, ZyanUSize element_size,
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
+    if (element_size > (ZyanUSize)(-1) - sizeof(ZyanListNode))
+    {
+        return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
+    }
 
     list->allocator    = ZYAN_NULL;
     list->size         = 0;
-- 
2.43.0


From 3381d8b599b1ba4a3ccea59ee847e4e650d6cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 11/48] fix: reserve space for the terminating NUL character in
 ZyanStringReserve

---
 src/String.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..b9dd405 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1038,7 +1038,13 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    // The terminating '\0' character needs one additional element
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From bbce5f1f9a2f1d63a87551a0aeeff0eff709210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 12/48] fix: refuse string sizes that overflow with the
 terminating NUL character

---
 src/String.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index b9dd405..300ebcd 100644
--- a/src/String.c
+++ b/src/String.c
@@ -69,6 +69,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
@@ -1025,6 +1030,12 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)(-1))
+    {
+        return (string->flags & ZYAN_STRING_HAS_FIXED_CAPACITY)
+            ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
@@ -1040,7 +1051,8 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
 
     if (capacity == (ZyanUSize)(-1))
     {
-        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+        return (string->flags & ZYAN_STRING_HAS_FIXED_CAPACITY)
+            ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_NOT_ENOUGH_MEMORY;
     }
 
     // The terminating '\0' character needs one additional element
-- 
2.43.0


From 515dee45143376b8cb2c66b8d72cafe707499a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 13/48] fix: reject string ranges whose end overflows the index
 type

---
 src/String.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/String.c b/src/String.c
index 300ebcd..7cbc1fb 100644
--- a/src/String.c
+++ b/src/String.c
@@ -272,7 +272,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -346,7 +346,7 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if (index >= string->string.vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -366,7 +366,7 @@ ZyanStatus ZyanStringGetCharMutable(ZyanString* string, ZyanUSize index, char**
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -382,7 +382,7 @@ ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if (index >= string->vector.size - 1)
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -439,7 +439,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -480,7 +481,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -506,7 +508,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -577,7 +579,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -646,7 +649,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -959,7 +963,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -1000,7 +1004,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 297338da74556e980564b5b828e87d8970e8de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 14/48] fix: refuse string insertion behind the terminating NUL
 character

---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 7cbc1fb..0eea963 100644
--- a/src/String.c
+++ b/src/String.c
@@ -401,7 +401,7 @@ ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const Zyan
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index == destination->vector.size)
+    if (index == destination->vector.size - 1)
     {
         return ZyanStringAppend(destination, source);
     }
@@ -427,7 +427,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (destination_index == destination->vector.size)
+    if (destination_index == destination->vector.size - 1)
     {
         return ZyanStringAppendEx(destination, source, source_index, count);
     }
-- 
2.43.0


From 27043f6648eedcdbdddab2fecd1f132b1c63bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 15/48] fix: a view of a part of a view must contain all
 requested characters

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 0eea963..2abdf6d 100644
--- a/src/String.c
+++ b/src/String.c
@@ -278,7 +278,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 8ecad3c1591c4aaf2af4c183618d994e9a79eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 16/48] fix: initialize all fields of a string view

---
 src/String.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/String.c b/src/String.c
index 2abdf6d..68f8b9b 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,26 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/* ============================================================================================== */
+/* Internal functions                                                                             */
+/* ============================================================================================== */
+
+/**
+ * Initializes all fields of a view that do not depend on the characters it designates.
+ *
+ * @param   view    A pointer to the `ZyanStringView` instance.
+ */
+static void ZyanStringViewInit(ZyanStringView* view)
+{
+    view->string.flags                   = 0;
+    view->string.vector.allocator        = ZYAN_NULL;
+    view->string.vector.growth_factor    = 1;
+    view->string.vector.shrink_threshold = 0;
+    view->string.vector.element_size     = sizeof(char);
+    view->string.vector.destructor       = ZYAN_NULL;
+    view->string.vector.capacity         = view->string.vector.size;
+}
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -260,6 +280,7 @@ ZyanStatus ZyanStringViewInsideView(ZyanStringView* view, const ZyanStringView*
 
     view->string.vector.data = source->string.vector.data;
     view->string.vector.size = source->string.vector.size;
+    ZyanStringViewInit(view);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -279,6 +300,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
     view->string.vector.size = count + 1;
+    ZyanStringViewInit(view);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -292,6 +314,7 @@ ZyanStatus ZyanStringViewInsideBuffer(ZyanStringView* view, const char* string)
 
     view->string.vector.data = (void*)string;
     view->string.vector.size = ZYAN_STRLEN(string) + 1;
+    ZyanStringViewInit(view);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -305,6 +328,7 @@ ZyanStatus ZyanStringViewInsideBufferEx(ZyanStringView* view, const char* buffer
 
     view->string.vector.data = (void*)buffer;
     view->string.vector.size = length + 1;
+    ZyanStringViewInit(view);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From ffc811323a49a8233ed7efb9f15bfe77b2c8e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 17/48] fix: left-hand substring search must honour the needle
 length and the searched range

---
 src/String.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/String.c b/src/String.c
index 68f8b9b..69ba555 100644
--- a/src/String.c
+++ b/src/String.c
@@ -618,7 +618,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const char* const e = (const char*)needle->string.vector.data + needle->string.vector.size - 1;
+    for (; s < (const char*)haystack->string.vector.data + index + count; ++s)
     {
         if (*s != *b)
         {
@@ -627,16 +628,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == e)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -688,7 +689,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const char* const e = (const char*)needle->string.vector.data + needle->string.vector.size - 1;
+    for (; s < (const char*)haystack->string.vector.data + index + count; ++s)
     {
         if ((*s != *b) && ((*s ^ 32) != *b))
         {
@@ -697,16 +699,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == e)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From cb2546509a523bb5e8d0db167cd6d948169fc1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 18/48] fix: case-insensitive search must compare characters
 other than letters exactly

---
 src/String.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 69ba555..02c79a3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -47,6 +47,18 @@
 /* Internal functions                                                                             */
 /* ============================================================================================== */
 
+/**
+ * Converts an upper-case ASCII letter to lower-case and keeps all other characters.
+ *
+ * @param   c   The character.
+ *
+ * @return  The converted character.
+ */
+static char ZyanCharToLower(char c)
+{
+    return ((c >= 'A') && (c <= 'Z')) ? (char)(c | 32) : c;
+}
+
 /**
  * Initializes all fields of a view that do not depend on the characters it designates.
  *
@@ -692,7 +704,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* const e = (const char*)needle->string.vector.data + needle->string.vector.size - 1;
     for (; s < (const char*)haystack->string.vector.data + index + count; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZyanCharToLower(*s) != ZyanCharToLower(*b))
         {
             continue;
         }
@@ -711,7 +723,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZyanCharToLower(c1) != ZyanCharToLower(c2))
             {
                 break;
             }
@@ -832,7 +844,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZyanCharToLower(*s) != ZyanCharToLower(*b))
         {
             continue;
         }
@@ -851,7 +863,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZyanCharToLower(c1) != ZyanCharToLower(c2))
             {
                 break;
             }
-- 
2.43.0


From cc650832c0d58028716de3b80bbca14c694166e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 19/48] fix: order strings by their first mismatching character

---
 src/String.c | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/String.c b/src/String.c
index 02c79a3..b856ea4 100644
--- a/src/String.c
+++ b/src/String.c
@@ -886,17 +886,6 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
@@ -909,13 +898,16 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    // If all characters of the shorter string match, the length decides
+    const ZyanBool e1 = (i + 1 >= s1->string.vector.size);
+    const ZyanBool e2 = (i + 1 >= s2->string.vector.size);
+    if (e1 && e2)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (!e2 && (e1 || ((ZyanU8)a[i] < (ZyanU8)b[i])))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
@@ -936,36 +928,28 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZyanCharToLower(a[i]) == ZyanCharToLower(b[i]))
         {
             continue;
         }
         break;
     }
 
-    if (a[i] == b[i])
+    // If all characters of the shorter string match, the length decides
+    const ZyanBool e1 = (i + 1 >= s1->string.vector.size);
+    const ZyanBool e2 = (i + 1 >= s2->string.vector.size);
+    if (e1 && e2)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (!e2 && (e1 || ((ZyanU8)ZyanCharToLower(a[i]) < (ZyanU8)ZyanCharToLower(b[i]))))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 800663bea0008f2750f8756112600de57e0f9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:00 +0000
Subject: [PATCH 20/48] fix: leave the string unchanged if memory for
 hexadecimal digits is refused

The padding and the digits were made room for by two separate resize operations. If the
second one failed, the string kept uninitialized characters, and the second size was
calculated on top of the first one.
---
 src/Format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..1e26028 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -193,7 +193,7 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
 
     if (remaining < (ZyanUSize)padding_length)
     {
-        ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
+        ZYAN_CHECK(ZyanStringReserve(string, len + padding_length - 1));
         remaining = padding_length;
     }
 
@@ -264,7 +264,7 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
 
     if (remaining < (ZyanUSize)padding_length)
     {
-        ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
+        ZYAN_CHECK(ZyanStringReserve(string, len + padding_length - 1));
         remaining = padding_length;
     }
 
-- 
2.43.0


From 85ac261fd580cf117bc6741680b48f18749fd4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 21/48] fix: keep the string intact if a formatted append does
 not fit

The argument list was consumed by the first formatting pass and reused for the second one,
the size passed to the second pass did not match the available space, large capacities
were truncated and the terminating NUL character was lost if the append was refused.
---
 src/Format.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 1e26028..7c4fab5 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -383,37 +383,34 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
 
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
-
-        ZYAN_VA_END(arglist);
         return ZYAN_STATUS_SUCCESS;
     }
 
     // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
-    const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
-    if (!ZYAN_SUCCESS(status))
-    {
-        ZYAN_VA_END(arglist);
-        return status;
-    }
+    ZYCORE_STRING_NULLTERMINATE(string);
+    ZYAN_CHECK(ZyanStringResize(string, len + w - 1));
 
+    ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT((ZyanUSize)w <= string->vector.capacity - len);
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 59006190613c2e373f7fae034cc1b337d0356ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 22/48] fix: provide storage for all bits of a bitset

The number of bytes was rounded down instead of up and truncated to 32 bits, so that the
bits of an incomplete last byte could not be accessed.
---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..e1c4500 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    ((x) / 8 + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From 559e24e6e92f7cce31ce8c3bf4b8dab52a914dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 23/48] fix: bitset aggregates must see exactly the bits of the
 bitset

Count, all, any and none used a wrong mask (or none at all) for the incomplete last byte.
---
 src/Bitset.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index e1c4500..50e8b6e 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns a mask for all bits in the last byte of a bitset that belong to the bitset.
+ *
+ * @param   size    The bitset size.
+ *
+ * @return  The mask for the last byte.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(((size) % 8) ? (0xFF << (8 - ((size) % 8))) : 0xFF))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -520,8 +534,6 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         *count += popcnt;
     }
 
-    *count = ZYAN_MIN(*count, bitset->size);
-
     return ZYAN_STATUS_SUCCESS;
 }
 
@@ -546,7 +558,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +590,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +622,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 01d8b52f82471af4795cbec7ce9c62da13761007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 24/48] fix: keep the bitset size if memory for a pushed bit is
 refused

---
 src/Bitset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 50e8b6e..f433576 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
-- 
2.43.0


From 41492b27f5cc3a7bc7ad5ac63cfe4264dff970d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 25/48] fix: refuse to remove a bit from an empty bitset

---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index f433576..e15b589 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -428,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_INVALID_OPERATION;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From ecc44775970be9fbcac08dab3eb827be6ddfc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 26/48] fix: reject null pointers in the bitset functions

---
 src/Bitset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index e15b589..e4b4fc1 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -458,11 +458,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
@@ -472,7 +482,7 @@ ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetGetSize(const ZyanBitset* bitset, ZyanUSize* size)
 {
-    if (!bitset)
+    if (!bitset || !size)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 0a4f9fab96f9f30823939505ed40cda79a98c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 27/48] fix: boolean single-dash arguments are no unnamed
 arguments

A token that only consisted of boolean single-dash arguments was additionally counted and
reported as an unnamed argument.
---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..16cd944 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // Continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 695035e2cde4bfd72ac1bd751234095b52786682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 28/48] fix: release the parsed arguments if memory is refused
 during argument parsing

---
 src/ArgParse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 16cd944..532b43f 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +159,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +229,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err))
+        {
+            goto failure;
+        }
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


From 352bbf48f8908f75c893ea0270878ff920eafdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 29/48] fix: aligning down must keep aligned values

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From f0a04e0255ecdc1ffdd2a46de952caa1263bf67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 30/48] fix: fallback strncmp must stop at the terminating NUL
 character

---
 include/Zycore/LibC.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..e74d05a 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -397,10 +397,15 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
 {
     while (n--)
     {
-        if (*s1++ != *s2++)
+        if (*s1 != *s2)
         {
-            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
+            return *(unsigned char*)s1 - *(unsigned char*)s2;
         }
+        if (!*s1)
+        {
+            return 0;
+        }
+        s1++, s2++;
     }
     return 0;
 }
-- 
2.43.0


From 3d5128dbb5364de29a6de7ac2a1a4e51d7d2f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 31/48] fix: fallback strstr must find an empty needle and not
 read beyond the string

---
 include/Zycore/LibC.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index e74d05a..d5896d7 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -465,13 +465,13 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
-    while (*s1)
+    do
     {
-        if (!ZYAN_MEMCMP(s1++, s2, n))
+        if (!ZYAN_STRNCMP(s1, s2, n))
         {
-            return (char*)(s1 - 1);
+            return (char*)s1;
         }
-    }
+    } while (*s1++);
     return 0;
 }
 
-- 
2.43.0


From 8017e94210ac6992f664d09c2ea5297acfde2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 32/48] fix: implement the fallback strcoll for the "C" locale

---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index d5896d7..edd569a 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // The "C" locale is the only one supported
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From 2a532df74601f85ea3e3b6ba98136fc622a80e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 33/48] fix: reject null outputs in the string functions

---
 src/String.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index b856ea4..3b2cae0 100644
--- a/src/String.c
+++ b/src/String.c
@@ -881,7 +881,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
 ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2, ZyanI32* result)
 {
-    if (!s1 || !s2)
+    if (!s1 || !s2 || !result)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -923,7 +923,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     // codes for 'a', 'b', 'c', .. 'z' are 97, 98, 99, .. 122 respectively. And codes for 'A',
     // 'B', 'C', .. 'Z' are 65, 66, .. 95 respectively.
 
-    if (!s1 || !s2)
+    if (!s1 || !s2 || !result)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -1101,7 +1101,7 @@ ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
 
 ZyanStatus ZyanStringGetCapacity(const ZyanString* string, ZyanUSize* capacity)
 {
-    if (!string)
+    if (!string || !capacity)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -1114,7 +1114,7 @@ ZyanStatus ZyanStringGetCapacity(const ZyanString* string, ZyanUSize* capacity)
 
 ZyanStatus ZyanStringGetSize(const ZyanString* string, ZyanUSize* size)
 {
-    if (!string)
+    if (!string || !size)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -1127,7 +1127,7 @@ ZyanStatus ZyanStringGetSize(const ZyanString* string, ZyanUSize* size)
 
 ZyanStatus ZyanStringGetData(const ZyanString* string, const char** value)
 {
-    if (!string)
+    if (!string || !value)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From d6f55ac5d282e1e7164ccbf9549e81dc8890c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 34/48] fix: reject null outputs in the list functions

---
 src/List.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/List.c b/src/List.c
index 88bd2b5..b3dfe92 100644
--- a/src/List.c
+++ b/src/List.c
@@ -231,7 +231,7 @@ ZyanStatus ZyanListDestroy(ZyanList* list)
 
 ZyanStatus ZyanListGetHeadNode(const ZyanList* list, const ZyanListNode** node)
 {
-    if (!list)
+    if (!list || !node)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -243,7 +243,7 @@ ZyanStatus ZyanListGetHeadNode(const ZyanList* list, const ZyanListNode** node)
 
 ZyanStatus ZyanListGetTailNode(const ZyanList* list, const ZyanListNode** node)
 {
-    if (!list)
+    if (!list || !node)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -289,7 +289,7 @@ const void* ZyanListGetNodeData(const ZyanListNode* node)
 
 ZyanStatus ZyanListGetNodeDataEx(const ZyanListNode* node, const void** value)
 {
-    if (!node)
+    if (!node || !value)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -311,7 +311,7 @@ void* ZyanListGetNodeDataMutable(const ZyanListNode* node)
 
 ZyanStatus ZyanListGetNodeDataMutableEx(const ZyanListNode* node, void** value)
 {
-    if (!node)
+    if (!node || !value)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -718,7 +718,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
 ZyanStatus ZyanListGetSize(const ZyanList* list, ZyanUSize* size)
 {
-    if (!list)
+    if (!list || !size)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From e80472498dda4bb81e602ee902107c6a1bcf811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 35/48] fix: refuse a string view whose size overflows with the
 terminating NUL character

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 3b2cae0..8b01f3d 100644
--- a/src/String.c
+++ b/src/String.c
@@ -333,7 +333,7 @@ ZyanStatus ZyanStringViewInsideBuffer(ZyanStringView* view, const char* string)
 
 ZyanStatus ZyanStringViewInsideBufferEx(ZyanStringView* view, const char* buffer, ZyanUSize length)
 {
-    if (!view || !buffer || !length)
+    if (!view || !buffer || !length || (length == (ZyanUSize)(-1)))
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 2f2cfe19e60ebdf0762e6da731ba4680066aa9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 36/48] fix: reject null outputs in the vector functions

---
 src/Vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 9a960f5..e524211 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -501,7 +501,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
 
 ZyanStatus ZyanVectorEmplace(ZyanVector* vector, void** element, ZyanMemberFunction constructor)
 {
-    if (!vector)
+    if (!vector || !element)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -512,7 +512,7 @@ ZyanStatus ZyanVectorEmplace(ZyanVector* vector, void** element, ZyanMemberFunct
 ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** element,
     ZyanMemberFunction constructor)
 {
-    if (!vector)
+    if (!vector || !element)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -682,7 +682,7 @@ ZyanStatus ZyanVectorFind(const ZyanVector* vector, const void* element, ZyanISi
 ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanISize* found_index,
     ZyanEqualityComparison comparison, ZyanUSize index, ZyanUSize count)
 {
-    if (!vector)
+    if (!vector || !found_index || !comparison)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -727,7 +727,7 @@ ZyanStatus ZyanVectorBinarySearch(const ZyanVector* vector, const void* element,
 ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* element,
     ZyanUSize* found_index, ZyanComparison comparison, ZyanUSize index, ZyanUSize count)
 {
-    if (!vector)
+    if (!vector || !found_index || !comparison)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -860,7 +860,7 @@ ZyanStatus ZyanVectorShrinkToFit(ZyanVector* vector)
 
 ZyanStatus ZyanVectorGetCapacity(const ZyanVector* vector, ZyanUSize* capacity)
 {
-    if (!vector)
+    if (!vector || !capacity)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
@@ -872,7 +872,7 @@ ZyanStatus ZyanVectorGetCapacity(const ZyanVector* vector, ZyanUSize* capacity)
 
 ZyanStatus ZyanVectorGetSize(const ZyanVector* vector, ZyanUSize* size)
 {
-    if (!vector)
+    if (!vector || !size)
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-- 
2.43.0


From 9012a6fa90b297ea327aa06f959fce00dc1c1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 37/48] fix: declare the memory and process functions with C
 linkage for C++ callers

---
 include/Zycore/API/Memory.h  | 8 ++++++++
 include/Zycore/API/Process.h | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/Zycore/API/Memory.h b/include/Zycore/API/Memory.h
index de61ffe..48f7b20 100644
--- a/include/Zycore/API/Memory.h
+++ b/include/Zycore/API/Memory.h
@@ -46,6 +46,10 @@
 #   error "Unsupported platform detected"
 #endif
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 /* ============================================================================================== */
 /* Enums and types                                                                                */
 /* ============================================================================================== */
@@ -132,6 +136,10 @@ ZYCORE_EXPORT ZyanStatus ZyanMemoryVirtualFree(void* address, ZyanUSize size);
 
 /* ============================================================================================== */
 
+#ifdef __cplusplus
+}
+#endif
+
 #endif /* ZYAN_NO_LIBC */
 
 #endif /* ZYCORE_API_MEMORY_H */
diff --git a/include/Zycore/API/Process.h b/include/Zycore/API/Process.h
index f8e1e4f..9117e21 100644
--- a/include/Zycore/API/Process.h
+++ b/include/Zycore/API/Process.h
@@ -37,6 +37,10 @@
 
 #ifndef ZYAN_NO_LIBC
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 /* ============================================================================================== */
 /* Enums and types                                                                                */
 /* ============================================================================================== */
@@ -65,6 +69,10 @@ ZYCORE_EXPORT ZyanStatus ZyanProcessFlushInstructionCache(void* address, ZyanUSi
 
 /* ============================================================================================== */
 
+#ifdef __cplusplus
+}
+#endif
+
 #endif /* ZYAN_NO_LIBC */
 
 #endif /* ZYCORE_API_PROCESS_H */
-- 
2.43.0


From 23887b55bec9bf84e6a7aa6a5e960f72b3756c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:53 +0000
Subject: [PATCH 38/48] fix: aligning must not truncate values wider than the
 alignment operand

---
 include/Zycore/Defines.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index e1bb7f8..5feeb67 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -468,7 +468,8 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_UP(x, align) (((x) + (align) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_UP(x, align) \
+    (((x) + (align) - 1) - (((x) + (align) - 1) & ((align) - 1)))
 
 /**
  * Aligns the value to the nearest given alignment boundary (by rounding it down).
@@ -480,7 +481,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) - ((x) & ((align) - 1)))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From 5d4a61af396b68dc17ff3dd46039bdc8d8af0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 39/48] fix: version macros must accept any expression

---
 include/Zycore/Zycore.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Zycore/Zycore.h b/include/Zycore/Zycore.h
index f73b8be..9258e9f 100644
--- a/include/Zycore/Zycore.h
+++ b/include/Zycore/Zycore.h
@@ -62,28 +62,28 @@ extern "C" {
  *
  * @param   version The zycore version value
  */
-#define ZYCORE_VERSION_MAJOR(version) (ZyanU16)((version & 0xFFFF000000000000) >> 48)
+#define ZYCORE_VERSION_MAJOR(version) (ZyanU16)(((version) & 0xFFFF000000000000) >> 48)
 
 /**
  * Extracts the minor-part of the zycore version.
  *
  * @param   version The zycore version value
  */
-#define ZYCORE_VERSION_MINOR(version) (ZyanU16)((version & 0x0000FFFF00000000) >> 32)
+#define ZYCORE_VERSION_MINOR(version) (ZyanU16)(((version) & 0x0000FFFF00000000) >> 32)
 
 /**
  * Extracts the patch-part of the zycore version.
  *
  * @param   version The zycore version value
  */
-#define ZYCORE_VERSION_PATCH(version) (ZyanU16)((version & 0x00000000FFFF0000) >> 16)
+#define ZYCORE_VERSION_PATCH(version) (ZyanU16)(((version) & 0x00000000FFFF0000) >> 16)
 
 /**
  * Extracts the build-part of the zycore version.
  *
  * @param   version The zycore version value
  */
-#define ZYCORE_VERSION_BUILD(version) (ZyanU16)(version & 0x000000000000FFFF)
+#define ZYCORE_VERSION_BUILD(version) (ZyanU16)((version) & 0x000000000000FFFF)
 
 /* ---------------------------------------------------------------------------------------------- */
 
-- 
2.43.0


From 69be20574451eae1d941729ca9cdd49a809aca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 40/48] fix: let ZYAN_VECTOR_FOREACH_MUTABLE be used from C++

The loop variable was initialised with a void pointer, which C++ does not
convert implicitly.
---
 include/Zycore/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Vector.h b/include/Zycore/Vector.h
index 3bf7cbc..86764a9 100644
--- a/include/Zycore/Vector.h
+++ b/include/Zycore/Vector.h
@@ -192,7 +192,7 @@ typedef struct ZyanVector_
             ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name); \
             ++ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)) \
         { \
-            type* const item_name = ZyanVectorGetMutable(vector, \
+            type* const item_name = (type*)ZyanVectorGetMutable(vector, \
                 ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)); \
             body \
         } \
-- 
2.43.0


From 95fe3f3593f041022cbb05473c15ad7369cbae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 41/48] fix: let the C library substitutes be compiled as C++

---
 include/Zycore/LibC.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index edd569a..9bb52fa 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -249,7 +249,7 @@ ZYAN_INLINE void* ZYAN_MEMCHR(const void* str, int c, ZyanUSize n)
 
 ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 {
-    const ZyanU8* p1 = s1, *p2 = s2;
+    const ZyanU8* p1 = (const ZyanU8*)s1, *p2 = (const ZyanU8*)s2;
     while (n--)
     {
         if (*p1 != *p2)
@@ -263,8 +263,8 @@ ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* dp = dst;
-    const ZyanU8* sp = src;
+    volatile ZyanU8* dp = (volatile ZyanU8*)dst;
+    const ZyanU8* sp = (const ZyanU8*)src;
     while (n--)
     {
         *dp++ = *sp++;
@@ -274,8 +274,8 @@ ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* pd = dst;
-    const ZyanU8* ps = src;
+    volatile ZyanU8* pd = (volatile ZyanU8*)dst;
+    const ZyanU8* ps = (const ZyanU8*)src;
     if (ps < pd)
     {
         for (pd += n, ps += n; n--;)
@@ -294,7 +294,7 @@ ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMSET(void* dst, int val, ZyanUSize n)
 {
-    volatile ZyanU8* p = dst;
+    volatile ZyanU8* p = (volatile ZyanU8*)dst;
     while (n--)
     {
         *p++ = (unsigned char)val;
-- 
2.43.0


From c6599f417e7cbc9648b98f26b16bf0f5171d12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 42/48] fix: let the atomic increment and decrement macros be
 used in expressions

---
 include/Zycore/Atomic.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/Atomic.h b/include/Zycore/Atomic.h
index f5dcf27..dbdc63e 100644
--- a/include/Zycore/Atomic.h
+++ b/include/Zycore/Atomic.h
@@ -85,13 +85,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT(destination) \
-    ZyanAtomicIncrement((ZyanAtomicPointer*)&(destination));
+    ZyanAtomicIncrement((ZyanAtomicPointer*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT(destination) \
-    ZyanAtomicDecrement((ZyanAtomicPointer*)&(destination));
+    ZyanAtomicDecrement((ZyanAtomicPointer*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 /* 32-bit                                                                                         */
@@ -107,13 +107,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT32(destination) \
-    ZyanAtomicIncrement32((ZyanAtomic32*)&(destination));
+    ZyanAtomicIncrement32((ZyanAtomic32*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT32(destination) \
-    ZyanAtomicDecrement32((ZyanAtomic32*)&(destination));
+    ZyanAtomicDecrement32((ZyanAtomic32*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 /* 64-bit                                                                                         */
@@ -129,13 +129,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT64(destination) \
-    ZyanAtomicIncrement64((ZyanAtomic64*)&(destination));
+    ZyanAtomicIncrement64((ZyanAtomic64*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT64(destination) \
-    ZyanAtomicDecrement64((ZyanAtomic64*)&(destination));
+    ZyanAtomicDecrement64((ZyanAtomic64*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 
-- 
2.43.0


From fa456f33f2cfdac43eba9394f3b596cbf761094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 43/48] fix: let the static initializers be used from C++

---
 include/Zycore/List.h   | 10 +++++-----
 include/Zycore/String.h |  4 ++--
 include/Zycore/Vector.h |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/Zycore/List.h b/include/Zycore/List.h
index 86244b8..53d6fc3 100644
--- a/include/Zycore/List.h
+++ b/include/Zycore/List.h
@@ -137,15 +137,15 @@ typedef struct ZyanList_
  */
 #define ZYAN_LIST_INITIALIZER \
     { \
-        /* allocator        */ ZYAN_NULL, \
+        /* allocator        */ (ZyanAllocator*)ZYAN_NULL, \
         /* size             */ 0, \
         /* element_size     */ 0, \
-        /* head             */ ZYAN_NULL, \
-        /* destructor       */ ZYAN_NULL, \
-        /* tail             */ ZYAN_NULL, \
+        /* destructor       */ (ZyanMemberProcedure)ZYAN_NULL, \
+        /* head             */ (ZyanListNode*)ZYAN_NULL, \
+        /* tail             */ (ZyanListNode*)ZYAN_NULL, \
         /* buffer           */ ZYAN_NULL, \
         /* capacity         */ 0, \
-        /* first_unused     */ ZYAN_NULL \
+        /* first_unused     */ (ZyanListNode*)ZYAN_NULL \
     }
 
 /* ---------------------------------------------------------------------------------------------- */
diff --git a/include/Zycore/String.h b/include/Zycore/String.h
index 7bffaa6..911ef57 100644
--- a/include/Zycore/String.h
+++ b/include/Zycore/String.h
@@ -179,13 +179,13 @@ typedef struct ZyanStringView_
             /* flags  */ 0, \
             /* vector */ \
             { \
-                /* allocator        */ ZYAN_NULL, \
+                /* allocator        */ (ZyanAllocator*)ZYAN_NULL, \
                 /* growth_factor    */ 1, \
                 /* shrink_threshold */ 0, \
                 /* size             */ sizeof(string), \
                 /* capacity         */ sizeof(string), \
                 /* element_size     */ sizeof(char), \
-                /* destructor       */ ZYAN_NULL, \
+                /* destructor       */ (ZyanMemberProcedure)ZYAN_NULL, \
                 /* data             */ (char*)(string) \
             } \
         } \
diff --git a/include/Zycore/Vector.h b/include/Zycore/Vector.h
index 86764a9..a9fca6c 100644
--- a/include/Zycore/Vector.h
+++ b/include/Zycore/Vector.h
@@ -121,13 +121,13 @@ typedef struct ZyanVector_
  */
 #define ZYAN_VECTOR_INITIALIZER \
     { \
-        /* allocator        */ ZYAN_NULL, \
+        /* allocator        */ (ZyanAllocator*)ZYAN_NULL, \
         /* growth_factor    */ 0, \
         /* shrink_threshold */ 0, \
         /* size             */ 0, \
         /* capacity         */ 0, \
         /* element_size     */ 0, \
-        /* destructor       */ ZYAN_NULL, \
+        /* destructor       */ (ZyanMemberProcedure)ZYAN_NULL, \
         /* data             */ ZYAN_NULL \
     }
 
-- 
2.43.0


From 2da09af4a8266aecaae0ac288d280f29db498a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 44/48] fix: capacity calculations of the vector must not wrap
 around

In 32-bit programs, the product of the vector size and the growth factor (or
the shrink threshold) exceeds ZyanUSize long before the memory is used up: a
byte vector of 17 million elements with a growth factor of 255 got a capacity
below its size and wrote past its buffer.
---
 src/Vector.c | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index e524211..f13f2a6 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -53,8 +53,8 @@
  * @return  `ZYAN_TRUE`, if the vector should shrink or `ZYAN_FALSE`, if not.
  */
 #define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold, growth) \
-    (((threshold) != 0) && ((size) * (threshold) < (capacity)) && \
-     ((size) * (growth) < (capacity)))
+    (((threshold) != 0) && ((size) <= ((capacity) - 1) / (threshold)) && \
+     ((size) <= ((capacity) - 1) / (growth)))
 
 /**
  * Returns the offset of the element at the given `index`.
@@ -75,6 +75,28 @@
 /* Helper functions                                                                               */
 /* ---------------------------------------------------------------------------------------------- */
 
+/**
+ * Returns the capacity of a vector that was resized to hold `size` elements.
+ *
+ * @param   vector  A pointer to the `ZyanVector` instance.
+ * @param   size    The desired size of the vector.
+ *
+ * @return  The product of size and growth factor or the highest capacity, if it can't be
+ *          represented.
+ */
+static ZyanUSize ZyanVectorCalcCapacity(const ZyanVector* vector, ZyanUSize size)
+{
+    ZYAN_ASSERT(vector);
+    ZYAN_ASSERT(vector->growth_factor >= 1);
+
+    if (size > (ZyanUSize)(-1) / vector->growth_factor)
+    {
+        return (ZyanUSize)(-1);
+    }
+
+    return size * vector->growth_factor;
+}
+
 /**
  * Reallocates the internal buffer of the vector.
  *
@@ -444,7 +466,7 @@ ZyanStatus ZyanVectorPushBack(ZyanVector* vector, const void* element)
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size + 1))));
     }
 
     void* const offset = ZYCORE_VECTOR_OFFSET(vector, vector->size);
@@ -475,7 +497,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     ZYAN_ASSERT(vector->element_size);
     ZYAN_ASSERT(vector->data);
 
-    if (count > (ZyanUSize)(-1) / vector->growth_factor - vector->size)
+    if (count > (ZyanUSize)(-1) - vector->size)
     {
         return vector->allocator ? ZYAN_STATUS_NOT_ENOUGH_MEMORY
                                  : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
@@ -484,7 +506,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + count) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size + count))));
     }
 
     if (index < vector->size)
@@ -527,7 +549,7 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZyanVectorCalcCapacity(vector, vector->size + 1))));
     }
 
     if (index < vector->size)
@@ -789,12 +811,6 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         return ZYAN_STATUS_SUCCESS;
     }
 
-    if (size > (ZyanUSize)(-1) / vector->growth_factor)
-    {
-        return vector->allocator ? ZYAN_STATUS_NOT_ENOUGH_MEMORY
-                                 : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-    }
-
     if (vector->destructor && (size < vector->size))
     {
         for (ZyanUSize i = size; i < vector->size; ++i)
@@ -807,9 +823,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold,
             vector->growth_factor))
     {
-        ZYAN_ASSERT(vector->growth_factor >= 1);
         const ZyanStatus status = ZyanVectorReallocate(vector,
-            (ZyanUSize)(size * vector->growth_factor));
+            ZyanVectorCalcCapacity(vector, size));
         if (!ZYAN_SUCCESS(status) && ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
         {
             return status;
-- 
2.43.0


From 859731aa315ad595c400a614aeaf5ba28e2443bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:21 +0000
Subject: [PATCH 45/48] fix: atomics are available with MSVC on ARM and ARM64

---
 include/Zycore/Internal/AtomicMSVC.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/Internal/AtomicMSVC.h b/include/Zycore/Internal/AtomicMSVC.h
index f4dc1e6..ffe2ef7 100644
--- a/include/Zycore/Internal/AtomicMSVC.h
+++ b/include/Zycore/Internal/AtomicMSVC.h
@@ -46,7 +46,7 @@ extern "C" {
 /* Pointer sized                                                                                  */
 /* ---------------------------------------------------------------------------------------------- */
 
-#if defined(ZYAN_X86)
+#if defined(ZYAN_X86) || defined(ZYAN_ARM)
 
 static ZYAN_INLINE ZyanUPointer ZyanAtomicCompareExchange(ZyanAtomicPointer* destination,
     ZyanUPointer comparand, ZyanUPointer value)
@@ -64,7 +64,7 @@ static ZYAN_INLINE ZyanUPointer ZyanAtomicDecrement(ZyanAtomicPointer* destinati
     return (ZyanUPointer)ZyanAtomicDecrement32((ZyanAtomic32*)destination);
 }
 
-#elif defined(ZYAN_X64)
+#elif defined(ZYAN_X64) || defined(ZYAN_AARCH64)
 
 static ZYAN_INLINE ZyanUPointer ZyanAtomicCompareExchange(ZyanAtomicPointer* destination,
     ZyanUPointer comparand, ZyanUPointer value)
-- 
2.43.0


From 71fe7b4da6ba588c855e9005c4cc766032753945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:21 +0000
Subject: [PATCH 46/48] fix: a stale errno must not make a valid stream look
 closed on Windows

---
 src/API/Terminal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/API/Terminal.c b/src/API/Terminal.c
index 382bd78..b7a5dcd 100644
--- a/src/API/Terminal.c
+++ b/src/API/Terminal.c
@@ -137,6 +137,8 @@ ZyanStatus ZyanTerminalIsTTY(ZyanStandardStream stream)
     }
 #endif
 
+    // `_isatty` does not touch `errno` for valid descriptors that are not bound to a terminal
+    ZYAN_ERRNO = 0;
 #ifdef ZYAN_WINDOWS
     if (_isatty(file))
 #else
-- 
2.43.0


From bb719debc0340130e8c0c2323b6c5d454c3069cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 47/48] fix: searching backwards ends with the searched range

ZyanStringRPosEx and ZyanStringRPosIEx went on to the start of the
string where the first character did not occur, however small the
count. The documented maximum is count characters.
---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 8b01f3d..4226708 100644
--- a/src/String.c
+++ b/src/String.c
@@ -771,7 +771,7 @@ ZyanStatus ZyanStringRPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index - 1;
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
-    for (; s >= (const char*)haystack->string.vector.data; --s)
+    for (; s >= (const char*)haystack->string.vector.data + index - count; --s)
     {
         if (*s != *b)
         {
@@ -842,7 +842,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index - 1;
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
-    for (; s >= (const char*)haystack->string.vector.data; --s)
+    for (; s >= (const char*)haystack->string.vector.data + index - count; --s)
     {
         if (ZyanCharToLower(*s) != ZyanCharToLower(*b))
         {
-- 
2.43.0


From 6d8cac2a66c97cd5a3bb3b429115ad69c8d27bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:20 +0000
Subject: [PATCH 48/48] fix: a list stays valid if a node cannot be released
 while it shrinks

---
 src/List.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/List.c b/src/List.c
index b3dfe92..925430d 100644
--- a/src/List.c
+++ b/src/List.c
@@ -644,6 +644,17 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
             if (is_dynamic)
             {
+                // Unlink the node first, the deallocation might fail
+                list->head = next;
+                if (next)
+                {
+                    next->prev = ZYAN_NULL;
+                } else
+                {
+                    list->tail = ZYAN_NULL;
+                }
+                --list->size;
+
                 ZYAN_CHECK(list->allocator->deallocate(list->allocator, node,
                     sizeof(ZyanListNode) + list->element_size, 1));
             }
@@ -688,7 +699,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
         }
     } else
     {
-        for (ZyanUSize i = size; i < list->size; ++i)
+        while (list->size > size)
         {
             ZyanListNode* const node = list->tail;
 
@@ -703,10 +714,11 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
                 list->tail->next = ZYAN_NULL;
             }
 
+            // Update the size first, the deallocation might fail
+            --list->size;
+
             ZYAN_CHECK(ZyanListDeallocateNode(list, node));
         }
-
-        list->size = size;
     }
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0

