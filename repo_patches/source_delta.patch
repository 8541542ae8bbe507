From 099d53d5d3792a97290a105db818d31db8108c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 01/42] fix: map requests of 2 GiB and more in full

Page_Create() passed the length to mmap() as an int: malloc(5 GiB) got a
1 GiB mapping and the program faulted inside of its own block.
---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 189cc4693a55f8d47828ec3224d6485512dd1b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 02/42] fix: refuse requests whose size wraps around

malloc(SIZE_MAX) returned the address of a tiny mapping, malloc(-1 MiB) and
alignments beyond 4 GiB aborted in mprotect() on foreign pages: the internal
size overflowed size_t, and the power of 2 check looked at an int only.
---
 src/duma.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..09c06c6 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1408,7 +1408,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
@@ -1417,6 +1417,18 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 #endif
     }
 
+    /*
+     * The sums below would wrap around for such a request,
+     * no system can satisfy it anyway.
+     */
+    if (userSize > ((size_t)-1) / 4 || alignment > ((size_t)-1) / 4) {
+      if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+        DUMA_Abort("Allocating %d byte(s) with alignment %d failed: too big",
+                   (DUMA_SIZE)userSize, (DUMA_SIZE)alignment);
+      errno = ENOMEM;
+      return (void *)userAddr;
+    }
+
     /*
      * If protectBelow is set, all addresses returned by malloc()
      * and company will be page-aligned.
-- 
2.43.0


From 25da87cfe03ef52f07b6171958a461bffc0254a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 03/42] fix: calloc() fails when nelem * elsize overflows

It returned a block of the wrapped around size.
---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 09c06c6..5b3bad4 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2044,6 +2044,12 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
+  /* a product that overflows has to fail, not to wrap around */
+  if (elsize && nelem > ((size_t)-1) / elsize) {
+    nelem = (size_t)-1;
+    elsize = 1;
+  }
+
   return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From 9a04ec1121401f86f3bc892a20806d46e9ab0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 04/42] fix: honour DUMA_MALLOC_FAILEXIT also with
 DUMA_PROTECT_FREE=0

The final, reporting attempt was made only when freed memory is protected:
with DUMA_PROTECT_FREE=0 a failing malloc() silently returned NULL although
the program is to be stopped by default.
---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 5b3bad4..5723310 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1580,12 +1580,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress = Page_Create(
             chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
       _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-- 
2.43.0


From a0f2e2dc0020203b161877e052ba57558553e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/42] fix: open only own pages for big alignments with
 DUMA_PROTECT_BELOW

The length of the accessible part was computed from the protected page, not
from the start of the allocation. With an alignment above the page size pages
behind the block - of other, perhaps freed blocks - were made accessible.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 5723310..19be5d9 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1672,7 +1672,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - intAddr));
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From 8368f5f00ca0db883c19a683e2c61b6df7b7f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 06/42] fix: account for all of the released protected memory

reduceProtectedMemory() never counted the slots it emptied as unused, so the
slot table grew by a page for every few frees with DUMA_PROTECT_FREE=N, and
it kept counting released memory as protected when it found less than
requested, so that the limit was reached for ever.
---
 duma_hlp.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..000eeef 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
@@ -89,6 +90,10 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* not as much as requested, but that much is no more protected */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
+
   return 0;
 }
 
-- 
2.43.0


From 0ff50a90d82c5e0486893de9d61d1207cfa8aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 07/42] fix: take the lock in malloc_usable_size()

It opened and closed the slot table without the lock: another thread inside
of malloc() or free() got a segmentation fault.
---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 19be5d9..3e44ea7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2215,6 +2215,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr))) {
@@ -2225,6 +2228,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From 769752bdbe507773921cafcc1af84bd265095451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 08/42] fix: read the slot table's address under the lock in
 DUMA_delFrame()

When another thread makes the table grow meanwhile, the old address is
unmapped.
---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 3e44ea7..8e0c051 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2554,8 +2554,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2565,6 +2565,8 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From 15b65ab00368e1941c63b23269ab9d00334dbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/42] fix: count allocations under the lock

Concurrent allocations were lost in the count printed with DUMA_SHOW_ALLOC.
---
 src/duma.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 8e0c051..3557086 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1349,7 +1349,15 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   userAddr = 0;
 
   /* count and show allocation, if requested */
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_GET_SEMAPHORE();
+  }
   _duma_s.numAllocs++;
+  if (protectAllocList) {
+    IF__DUMA_INIT_DONE
+    DUMA_RELEASE_SEMAPHORE(0);
+  }
   if (_duma_s.SHOW_ALLOC) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Print("\nDUMA: Allocating %d byte(s) at %s(%i).", (DUMA_SIZE)userSize,
-- 
2.43.0


From 3519f064a8c16a293728b1c662ef987fe79312a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 10/42] fix: DUMA_OUTPUT_FILE is not a leak of the program

The copy of the file name was allocated like the program's own strdup() with
source information, and every run reported it as a leak.
---
 src/duma.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 3557086..15bb48c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,33 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* Function: duma_strdup_internal
+ *
+ * duplicate a string for DUMA's own use: it is in use until the end
+ * of the program and thus must not get reported as the program's leak.
+ */
+static char *duma_strdup_internal(const char *str) {
+  size_t size = strlen(str) + 1;
+  size_t i;
+#ifndef DUMA_NO_LEAKDETECTION
+  char *dup = (char *)_duma_allocate(1 /*=alignment*/, size,
+                                     0 /*=protectBelow*/, -1 /*=fillByte*/,
+                                     1 /*=protectAllocList*/, EFA_INT_ALLOC,
+                                     DUMA_FAIL_ENV, __FILE__, __LINE__);
+#else
+  char *dup = (char *)_duma_allocate(1 /*=alignment*/, size,
+                                     0 /*=protectBelow*/, -1 /*=fillByte*/,
+                                     1 /*=protectAllocList*/, EFA_INT_ALLOC,
+                                     DUMA_FAIL_ENV);
+#endif
+
+  if (dup)
+    for (i = 0; i < size; ++i)
+      dup[i] = str[i];
+
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -900,11 +927,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_strdup_internal(string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -936,11 +959,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_strdup_internal(string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From 92a23bf5022d72d4ad55dd5ba2dc453864b4b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 11/42] fix: strncpy() onto the source's terminator is an
 overlap

With dest == src + strlen(src) the copy destroyed the terminator before it was
read, and went on copying what it had just written.
---
 src/duma.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 15bb48c..4c535e2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2400,7 +2400,10 @@ char *_duma_strncpy(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
   size_t i, srclen;
 
+  /* number of characters read from src: including the terminator, if any */
   srclen = _duma_strnlen(src, size);
+  if (srclen < size)
+    ++srclen;
 
   if (size > 0 && ((src < dest && dest < src + srclen) ||
                    (dest < src && src < dest + size))) {
-- 
2.43.0


From 3baf9c68399efe476f87c049252782c425b7a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 12/42] fix: copy strings and memory of 4 GiB and more

memcpy(), strdup(), strcat() and strncat() never came to an end: the unsigned
index wraps around before it reaches such a size.
---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 4c535e2..11a3e28 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2269,7 +2269,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2304,7 +2304,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2440,7 +2440,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2471,7 +2471,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 0e878adb8d8d6b7b94887a7865f16dac49ec98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 13/42] fix: realloc() accepts the shared address of zero size
 blocks

With MALLOC_0_STRATEGY=2 the address returned by malloc(0) was refused with
'address not from malloc()' by realloc(), whereas free() accepts it.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 11a3e28..454b35b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2163,7 +2163,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!oldBuffer) {
+  if (!oldBuffer || (_duma_g.null_addr == oldBuffer && newSize > 0)) {
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, duma_tls->FILL,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
-- 
2.43.0


From ed0829124f618263b6bb5eaf8892813176559bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 14/42] fix: do not swap the new_handler just to read it

Another thread failing at the same time got the temporary handler, which does
nothing: it retried for ever, or reinstalled it for good.
---
 src/dumapp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index ba9ea03..bd7eee9 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -147,6 +147,8 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
 #ifdef _MSC_VER
       _PNH h = _set_new_handler(duma_new_handler);
       _set_new_handler(h);
+#elif __cplusplus >= 201103L
+      std::new_handler h = std::get_new_handler();
 #else
       std::new_handler h = std::set_new_handler(duma_new_handler);
       std::set_new_handler(h);
-- 
2.43.0


From bf67da0db7fbde39e45865b657eabc63bba69350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 15/42] fix: stop with a message when the first mapping fails

_duma_init() tried to release protected memory before there was a slot table,
and crashed on the NULL address instead of telling that mmap() failed.
---
 src/duma.c | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 454b35b..4202fb3 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1150,21 +1150,7 @@ void
    * be marked free.
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-      size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+      size, 1 /*=exitonfail*/, 1 /*=printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


From abbd5582f0580d673dc6e46a62c918cbb11cbb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 16/42] fix: keep messages inside of their buffer

A file name of about 4 KiB passed by the program made every message about the
block overwrite the stack of DUMA_Print() and DUMA_Abort().
---
 src/print.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..727984f 100644
--- a/src/print.c
+++ b/src/print.c
@@ -90,7 +90,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, long number, long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, size_t size, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -101,6 +102,12 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 #define STRING_BUFFER_SIZE 4096
 
+/*
+ * part of the buffer, that strings inserted with %s do not use up: enough for
+ * the pattern itself and its numbers
+ */
+#define PATTERN_RESERVE 1024
+
 /* Function: sprintAddr
  *
  * internal function to print a DUMA_ADDR into a buffer
@@ -154,7 +161,8 @@ static int sprintLong(char *dest, long value, long base) {
 /* Function: DUMA_vsprintf
  *
  * internal function to print a formatted string into a buffer
- * int sprintf(char* buffer, const char *pattern, va_list args)
+ * int sprintf(char* buffer, size_t size, const char *pattern, va_list args)
+ * strings too long for the buffer of given size are cut
  * allowed format specifier are:
  *
  *   %a = adress of type DUMA_ADDR
@@ -165,7 +173,8 @@ static int sprintLong(char *dest, long value, long base) {
  *   %s = string teminated with '\0'
  *   %c = char
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, size_t size, const char *pattern,
+                         va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
@@ -222,13 +231,14 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         size_t length;
 
         string = va_arg(args, char *);
-        if (string) {
-          length = strlen(string);
-          strcpy(&buffer[len], string);
-        } else {
-          length = 4; /* = strlen("NULL") */
-          strcpy(&buffer[len], "NULL");
-        }
+        if (!string)
+          string = "NULL";
+        length = strlen(string);
+        if (length + len + PATTERN_RESERVE > size)
+          length = (len + PATTERN_RESERVE < size)
+                       ? size - len - PATTERN_RESERVE
+                       : 0;
+        memcpy(&buffer[len], string, length);
         len += length;
         break;
       }
@@ -263,7 +273,8 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], sizeof(buffer) - PATTERN_RESERVE - lena, pattern,
+                args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -295,7 +306,7 @@ void DUMA_Print(const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, sizeof(buffer), pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -340,7 +351,8 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], sizeof(buffer) - PATTERN_RESERVE - lena, pattern,
+                args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -362,7 +374,7 @@ void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, (size_t)-1, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From d95902fc105dbf34c83a27996fa9844e11baa392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 17/42] fix: provide aligned_alloc() and pvalloc()

The C library's versions stayed in use: free() - and C++17's delete of over-
aligned types - aborted correct programs with 'address not from DUMA'.
---
 src/duma.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 4202fb3..90b89d2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2525,6 +2525,17 @@ void *realloc(void *oldBuffer, size_t newSize) {
 
 void *valloc(size_t size) { return _duma_valloc(size DUMA_PARAMS_UK); }
 
+void *aligned_alloc(size_t alignment, size_t size) {
+  return _duma_memalign(alignment, size DUMA_PARAMS_UK);
+}
+
+void *pvalloc(size_t size) {
+  /* whole pages */
+  if (size <= ((size_t)-1) - DUMA_PAGE_SIZE)
+    size = (size + DUMA_PAGE_SIZE - 1) & ~((size_t)DUMA_PAGE_SIZE - 1);
+  return _duma_valloc(size DUMA_PARAMS_UK);
+}
+
 size_t malloc_usable_size(void *ptr) {
   return _duma_malloc_usable_size(ptr DUMA_PARAMS_UK);
 }
-- 
2.43.0


From b355534c189f28520987d9aca3bc68369a9448b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 18/42] fix: read DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY

These are the documented names; only the names without prefix were read.
---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 90b89d2..e666946 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -852,7 +852,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for malloc(0).
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -861,7 +862,8 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   /*
    * See what strategy the user wants for C++ operator new with size zero.
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From d96cc506d0662c7b1c443e87097e82d74a614fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 19/42] fix: keep the address hint when mmap() fails

MAP_FAILED + size wrapped around, and the next mapping was requested at that
low address.
---
 paging.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 5193dfa..c5c7b3d 100644
--- a/paging.h
+++ b/paging.h
@@ -167,7 +167,8 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * Someone please tell me when it is probable to assume that most
    * of those systems that were running 9.01 have been upgraded.
    */
-  startAddr = allocation + size;
+  if (allocation != (void *)-1)
+    startAddr = allocation + size;
 #endif
 
   if (allocation == (void *)-1) {
@@ -201,7 +202,8 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
   allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
-  startAddr = allocation + size;
+  if (allocation != (void *)-1)
+    startAddr = allocation + size;
 
   if (allocation == (void *)-1) {
     allocation = (void *)0;
-- 
2.43.0


From a95cd648fdef005f0f51cc44a0ca589919f29bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 20/42] fix: access the lock's owner atomically

A thread waiting for the lock reads the owner while another one changes it:
a data race on a plain variable.
---
 src/sem_inc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sem_inc.c b/src/sem_inc.c
index 98c91d3..3274c8a 100644
--- a/src/sem_inc.c
+++ b/src/sem_inc.c
@@ -77,6 +77,15 @@
 #ifndef DUMA_SEMAPHORES
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static pthread_t mutextid = 0;
+
+/* other threads may read the owner while it changes */
+#ifdef __GNUC__
+#define GET_MUTEXTID() __atomic_load_n(&mutextid, __ATOMIC_RELAXED)
+#define SET_MUTEXTID(ID) __atomic_store_n(&mutextid, (ID), __ATOMIC_RELAXED)
+#else
+#define GET_MUTEXTID() (mutextid)
+#define SET_MUTEXTID(ID) (mutextid = (ID))
+#endif
 static int locknr = 0;
 #else
 static sem_t DUMA_sem = {0};
@@ -129,21 +138,21 @@ static int semDepth = 0; /* not really used, but avoids more ifdefs below */
 
 static void lock() {
   if (pthread_mutex_trylock(&mutex)) {
-    if (mutextid == pthread_self()) {
+    if (GET_MUTEXTID() == pthread_self()) {
       ++locknr;
       return;
     } else {
       pthread_mutex_lock(&mutex);
     }
   }
-  mutextid = pthread_self();
+  SET_MUTEXTID(pthread_self());
   locknr = 1;
 }
 
 static void unlock() {
   --locknr;
   if (!locknr) {
-    mutextid = 0;
+    SET_MUTEXTID(0);
     pthread_mutex_unlock(&mutex);
   }
 }
-- 
2.43.0


From a90e97a9dfeaf6add4fbf13260c948065e821a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 21/42] fix: DUMA_SET_ALIGNMENT(0) means no alignment

As documented for DUMA_ALIGNMENT, whose value 0 in the environment worked.
Set at run time it made malloc() compute the address 0 for every block.
---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index e666946..bccb438 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1414,6 +1414,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       DUMA_SIZE a = (DUMA_SIZE)duma_tls->ALIGNMENT;
       DUMA_SIZE s = (DUMA_SIZE)userSize;
 
+      /* 0 means: no alignment */
+      if (!a)
+        a = 1;
+
       if (s < a) {
         /* to next lower power of 2 */
         for (a = s; a & (a - 1); a &= a - 1)
-- 
2.43.0


From 0995baff6bba13012ac333aecfca8e48da4502d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 22/42] fix: deny access to the unused rest of newly created
 memory

---
 src/duma.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index bccb438..7d37624 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1611,6 +1611,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       fullSlot->internalSize = chunkSize * numChunks;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
+
+      /* what remains unused of it must not be accessible */
+      Page_DenyAccess(fullSlot->internalAddress, fullSlot->internalSize);
     }
   } /* end if ( !fullSlot ) */
 
-- 
2.43.0


From c0fc9d3d32a65d728c21fe599a4aaafb95357491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 23/42] fix: DUMA_CHECK() of the shared zero-size address is
 valid

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 7d37624..e6a5062 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1962,7 +1962,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 void duma_check(void *address) {
   struct _DUMA_Slot *slot;
 
-  if (0 == address)
+  if (0 == address || _duma_g.null_addr == address)
     return;
 
   IF__DUMA_INIT_DONE
-- 
2.43.0


From 9353dedcf07f562fcbb9cac022918c56c5700516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 24/42] fix: the start of unused pool memory is no valid block
 address

---
 duma_hlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index 000eeef..b87db01 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -106,7 +106,7 @@ static struct _DUMA_Slot *slotForUserAddress(void *address) {
   size_t count = _duma_s.slotCount;
 
   for (; count > 0; --count, ++slot)
-    if (slot->userAddress == address)
+    if (slot->userAddress == address && DUMAST_FREE != slot->state)
       return slot;
   return 0;
 }
-- 
2.43.0


From e0717e150d75a502e4e81234fb9634c57814c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 25/42] fix: refuse requests when the table of slots cannot
 grow

---
 src/duma.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index e6a5062..00f68ce 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1309,6 +1309,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   DUMA_ADDR intAddr, userAddr, protAddr, endAddr;
   size_t internalSize;
   int allocationStrategy;
+  int noSlots = 0;
 #if defined(WIN32) && !defined(__CYGWIN__) && !defined(__MINGW32__) &&         \
     !defined(__MINGW64__)
   char stacktrace[601];
@@ -1496,8 +1497,11 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * I don't have enough slots left to make an allocation.
    */
   if (DUMAAT_INTERNAL != _duma_allocDesc[allocator].type &&
-      _duma_s.unUsedSlots < 7)
+      _duma_s.unUsedSlots < 7) {
     allocateMoreSlots();
+    /* no memory for more: keep the last ones for the next attempt */
+    noSlots = (_duma_s.unUsedSlots < 4);
+  }
 
   /*
    * Iterate through all of the slot structures. Attempt to find a slot
@@ -1536,7 +1540,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
-  if (!fullSlot) {
+  if (noSlots) {
+    if (DUMA_FAIL_ENV == fail && _duma_s.MALLOC_FAILEXIT)
+      DUMA_Abort("Allocating %d bytes failed: No memory for more slots.",
+                 (DUMA_SIZE)userSize);
+    fullSlot = 0;
+  } else if (!fullSlot) {
     /*
      * I get here if I haven't been able to find a free buffer
      * with all of the memory I need. I'll have to create more
@@ -1617,7 +1626,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   } /* end if ( !fullSlot ) */
 
-  if (fullSlot->internalSize) {
+  if (fullSlot && fullSlot->internalSize) {
 
 #if !defined(WIN32)
     /*
-- 
2.43.0


From cc428aa7b70ee9694be6b99930fc0a9ec65e1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 26/42] fix: keep the state of delete expressions per thread

The delete macro held the allocator's lock while destructors ran: a
destructor that waits for a thread which allocates never ended. A plain
delete in another thread read the state without the lock and reported
file and line of the wrong expression.
---
 duma.h         | 19 ++++++++++++++++---
 dumapp.h       | 46 +++++++++++++++++++++++-----------------------
 src/duma.c     | 17 ++++++++---------
 src/dumapp.cpp | 20 ++++++++------------
 4 files changed, 55 insertions(+), 47 deletions(-)

diff --git a/duma.h b/duma.h
index 6c28ca2..f5fef0d 100644
--- a/duma.h
+++ b/duma.h
@@ -136,14 +136,23 @@ typedef struct {
    * initialisation to 0!
    */
   int FILL;
+} DUMA_TLSVARS_T;
 
-#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
+/* thread-local storage class, where the compiler has one */
+#if defined(__GNUC__) && !defined(WIN32)
+#define DUMA_HAVE_THREAD_LOCAL 1
+#define DUMA_THREAD_LOCAL __thread
+#else
+#define DUMA_THREAD_LOCAL
+#endif
+
+/* the delete expressions which are being executed by a thread */
+typedef struct {
   int Magic;
   int DelPtr;
   const char *DelFile[DUMA_MAX_DEL_DEPTH];
   int DelLine[DUMA_MAX_DEL_DEPTH];
-#endif
-} DUMA_TLSVARS_T;
+} DUMA_DELVARS_T;
 #endif
 
 #ifndef DUMA_GLOBALS_DEFINED
@@ -177,6 +186,10 @@ typedef struct {
 
 DUMA_EXTERN_C DUMA_GLOBALVARS_T _duma_g;
 
+#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
+DUMA_EXTERN_C DUMA_THREAD_LOCAL DUMA_DELVARS_T _duma_del;
+#endif
+
 #endif /* DUMA_GLOBALS_DEFINED */
 
 #define GET_DUMA_TLSVARS() (&_duma_g.TLS)
diff --git a/dumapp.h b/dumapp.h
index de00918..ab137f3 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -157,50 +157,50 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 #endif /* DUMA_OLD_NEW_MACRO */
 
 #ifdef DUMA_OLD_DEL_MACRO
-/* always use _duma_g.TLS.DelPtr/DUMA_DeleteFile/DUMA_DeleteLine
+/* always use _duma_del.DelPtr/DUMA_DeleteFile/DUMA_DeleteLine
  * to allow best possible filename/line reports when
  * non-DUMA deallocations are called from destructors
  */
 /* non-throwing */
 #define DEL_ELEM(PTR)                                                          \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
+  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
+       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
   operator delete(PTR, __FILE__, __LINE__)
 
 #define DEL_ARRAY(PTR)                                                         \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
+  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
+       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
   operator delete[](PTR, __FILE__, __LINE__)
 /* explicitly non-throwing */
 #define DEL_ELEM_NOTHROW(PTR)                                                  \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
+  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
+       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
   operator delete(PTR, std::nothrow, __FILE__, __LINE__)
 #define DEL_ARRAY_NOTHROW(PTR)                                                 \
-  for (++_duma_g.TLS.DelPtr, _duma_g.TLS.Magic = 1; _duma_g.TLS.Magic;         \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
+  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
+       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
   operator delete[](PTR, std::nothrow, __FILE__, __LINE__)
 #else
-#ifndef DUMA_NO_THREAD_SAFETY
+#if !defined(DUMA_NO_THREAD_SAFETY) && !defined(DUMA_HAVE_THREAD_LOCAL)
 /* define a thread safe delete */
 #define delete                                                                 \
-  for (DUMA_GET_SEMAPHORE(), DUMA_GET_SEMAPHORE(), ++_duma_g.TLS.DelPtr,       \
-       DUMA_ASSERT(_duma_g.TLS.DelPtr < DUMA_MAX_DEL_DEPTH),                   \
-       _duma_g.TLS.Magic = 1,                                                  \
-       _duma_g.TLS.DelFile[_duma_g.TLS.DelPtr] = __FILE__,                     \
-       _duma_g.TLS.DelLine[_duma_g.TLS.DelPtr] = __LINE__;                     \
-       DUMA_RELEASE_SEMAPHORE(_duma_g.TLS.Magic);                              \
-       _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)                            \
+  for (DUMA_GET_SEMAPHORE(), DUMA_GET_SEMAPHORE(), ++_duma_del.DelPtr,         \
+       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
+       _duma_del.Magic = 1,                                                    \
+       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
+       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
+       DUMA_RELEASE_SEMAPHORE(_duma_del.Magic);                                \
+       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
   delete
 #else
 /* also thread safe by using TLS variables */
 #define delete                                                                 \
-  for (++_duma_g.TLS.DelPtr,                                                   \
-       DUMA_ASSERT(_duma_g.TLS.DelPtr < DUMA_MAX_DEL_DEPTH),                   \
-       _duma_g.TLS.Magic = 1,                                                  \
-       _duma_g.TLS.DelFile[_duma_g.TLS.DelPtr] = __FILE__,                     \
-       _duma_g.TLS.DelLine[_duma_g.TLS.DelPtr] = __LINE__;                     \
-       _duma_g.TLS.Magic; _duma_g.TLS.Magic = 0, --_duma_g.TLS.DelPtr)         \
+  for (++_duma_del.DelPtr,                                                     \
+       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
+       _duma_del.Magic = 1,                                                    \
+       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
+       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
+       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
   delete
 #endif /* DUMA_NO_THREAD_SAFETY */
 #endif /* DUMA_OLD_DEL_MACRO */
diff --git a/src/duma.c b/src/duma.c
index 00f68ce..41fd65b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -625,21 +625,20 @@ DUMA_GLOBALVARS_T _duma_g = {
      0 /* PROTECT_BELOW */
      ,
      255 /* FILL */
-#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
-     ,
-     0 /* Magic */
-     ,
-     0 /* DelPtr */
-     ,
-     {0},
-     {0}
-#endif
     }
 
     ,
     "Global Protection Space Back" /* Protection Space B */
 };
 
+#if !defined(DUMA_NO_CPP_SUPPORT) && !defined(DUMA_NO_LEAKDETECTION)
+/* Variable: _duma_del
+ *
+ * _duma_del holds file and line of the delete expressions being executed
+ */
+DUMA_THREAD_LOCAL DUMA_DELVARS_T _duma_del;
+#endif
+
 /* Variable: DUMA_OUTPUT_DEBUG
  *
  * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index bd7eee9..4c6d2b2 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -209,10 +209,9 @@ void *DUMA_CDECL operator new(DUMA_SIZE_T size,
  */
 void DUMA_CDECL operator delete(void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+                   _duma_del.DelFile[_duma_del.DelPtr],
+                   _duma_del.DelLine[_duma_del.DelPtr]);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -225,10 +224,9 @@ void DUMA_CDECL operator delete(void *ptr) throw() {
  */
 void DUMA_CDECL operator delete(void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+                   _duma_del.DelFile[_duma_del.DelPtr],
+                   _duma_del.DelLine[_duma_del.DelPtr]);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ELEM DUMA_PARAMS_UK);
 #endif
@@ -265,10 +263,9 @@ void *DUMA_CDECL operator new[](DUMA_SIZE_T size,
  */
 void DUMA_CDECL operator delete[](void *ptr) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+                   _duma_del.DelFile[_duma_del.DelPtr],
+                   _duma_del.DelLine[_duma_del.DelPtr]);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
@@ -281,10 +278,9 @@ void DUMA_CDECL operator delete[](void *ptr) throw() {
  */
 void DUMA_CDECL operator delete[](void *ptr, const std::nothrow_t &) throw() {
 #ifndef DUMA_NO_LEAKDETECTION
-  DUMA_TLSVARS_T &duma_tls = *GET_DUMA_TLSVARS();
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY,
-                   duma_tls.DelFile[duma_tls.DelPtr],
-                   duma_tls.DelLine[duma_tls.DelPtr]);
+                   _duma_del.DelFile[_duma_del.DelPtr],
+                   _duma_del.DelLine[_duma_del.DelPtr]);
 #else
   _duma_deallocate(ptr, 1 /*=protectAllocList*/, EFA_DEL_ARRAY DUMA_PARAMS_UK);
 #endif
-- 
2.43.0


From 49fa253e0a4e36178dd086c5b230edc8bd5fd69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 27/42] fix: read the table's address atomically outside of the
 lock

---
 duma.h         |  8 ++++++++
 src/duma.c     | 27 ++++++++++++++++-----------
 src/dumapp.cpp |  2 +-
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/duma.h b/duma.h
index f5fef0d..7193c43 100644
--- a/duma.h
+++ b/duma.h
@@ -194,6 +194,14 @@ DUMA_EXTERN_C DUMA_THREAD_LOCAL DUMA_DELVARS_T _duma_del;
 
 #define GET_DUMA_TLSVARS() (&_duma_g.TLS)
 
+/* is the library initialised? other threads may move the table meanwhile */
+#ifdef __GNUC__
+#define DUMA_IS_INITIALIZED()                                                  \
+  (__atomic_load_n(&_duma_g.allocList, __ATOMIC_RELAXED) != 0)
+#else
+#define DUMA_IS_INITIALIZED() (_duma_g.allocList != 0)
+#endif
+
 #ifndef DUMA_SET_ALIGNMENT
 #define DUMA_SET_ALIGNMENT(V) GET_DUMA_TLSVARS()->ALIGNMENT = (V)
 #endif
diff --git a/src/duma.c b/src/duma.c
index 41fd65b..e5a178c 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1255,7 +1255,12 @@ static void allocateMoreSlots(void) {
   memcpy(newAllocation, _duma_g.allocList, _duma_s.allocListSize);
   memset(&(((char *)newAllocation)[_duma_s.allocListSize]), 0, DUMA_PAGE_SIZE);
 
+#ifdef __GNUC__
+  __atomic_store_n(&_duma_g.allocList, (struct _DUMA_Slot *)newAllocation,
+                   __ATOMIC_RELAXED);
+#else
   _duma_g.allocList = (struct _DUMA_Slot *)newAllocation;
+#endif
   _duma_s.allocListSize = newSize;
   _duma_s.slotCount += _duma_s.slotsPerPage;
   _duma_s.unUsedSlots += _duma_s.slotsPerPage;
@@ -1327,7 +1332,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     break;
   }
 
-  DUMA_ASSERT(0 != _duma_g.allocList);
+  DUMA_ASSERT(DUMA_IS_INITIALIZED());
 
 #if defined(WIN32) && !defined(__CYGWIN__) && !defined(__MINGW32__) &&         \
     !defined(__MINGW64__)
@@ -1780,7 +1785,7 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
-  if (0 == _duma_g.allocList) {
+  if (!DUMA_IS_INITIALIZED()) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
     DUMA_Print("DUMA_Warning: free() called before first malloc().");
@@ -2050,7 +2055,7 @@ void duma_checkAll() {
 void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2068,7 +2073,7 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2090,7 +2095,7 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
  * A version of free.
  */
 void _duma_free(void *baseAdr DUMA_PARAMLIST_FL) {
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2104,7 +2109,7 @@ void _duma_free(void *baseAdr DUMA_PARAMLIST_FL) {
 void *_duma_memalign(size_t alignment, size_t size DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2127,7 +2132,7 @@ int _duma_posix_memalign(void **memptr, size_t alignment,
   if ((alignment & (alignment - 1)) || alignment < sizeof(void *))
     return EINVAL;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2155,7 +2160,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
   void *ptr;
   DUMA_TLSVARS_T *duma_tls;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2213,7 +2218,7 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
 void *_duma_valloc(size_t size DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
@@ -2235,7 +2240,7 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
   if (0 == ptr || _duma_g.null_addr == ptr)
     return 0;
 
-  if (0 == _duma_g.allocList) {
+  if (!DUMA_IS_INITIALIZED()) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
     DUMA_Print("DUMA_Warning: malloc_usable_size() called before first malloc().");
@@ -2274,7 +2279,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
   size_t i;
 
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
          ... */
 
diff --git a/src/dumapp.cpp b/src/dumapp.cpp
index 4c6d2b2..e27e813 100644
--- a/src/dumapp.cpp
+++ b/src/dumapp.cpp
@@ -120,7 +120,7 @@ void *duma_new_operator(DUMA_SIZE_T userSize, enum _DUMA_Allocator allocator,
 #endif
 
   // initialize duma?
-  if (_duma_g.allocList == 0)
+  if (!DUMA_IS_INITIALIZED())
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
                  ... */
 
-- 
2.43.0


From d633b8368ed915e207e9003b105d1dd219f5e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 28/42] fix: end the program by SIGILL from the thread that
 found the error

---
 src/print.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 727984f..3def499 100644
--- a/src/print.c
+++ b/src/print.c
@@ -281,11 +281,13 @@ void DUMA_Abort(const char *pattern, ...) {
 
 #ifndef WIN32
   /*
-   * I use kill(getpid(), SIGILL) instead of abort() because some
+   * I use raise(SIGILL) instead of abort() because some
    * mis-guided implementations of abort() flush stdio, which can
-   * cause malloc() or free() to be called.
+   * cause malloc() or free() to be called. The signal goes to the
+   * calling thread: kill(getpid(), SIGILL) may deliver it to another
+   * one, and this thread could then _exit() below before it is acted on.
    */
-  kill(getpid(), SIGILL);
+  raise(SIGILL);
 #else
   /* Windows doesn't have a kill() */
   abort();
-- 
2.43.0


From c1661862fd6d6dc5fae6e9d0627f4aeeb42aa4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 29/42] fix: write messages completely when a signal interrupts
 the write

---
 src/print.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/print.c b/src/print.c
index 3def499..e8d9f44 100644
--- a/src/print.c
+++ b/src/print.c
@@ -31,6 +31,7 @@
 #define _POSIX_C_SOURCE 200809L
 #endif
 
+#include <errno.h>
 #include <signal.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -296,6 +297,21 @@ void DUMA_Abort(const char *pattern, ...) {
   _exit(-1);
 }
 
+/* write the whole message, also when signals interrupt writing it */
+static void writeAll(int fd, const char *buffer, int len) {
+  int done;
+
+  while (len > 0) {
+    done = (int)write(fd, buffer, len);
+    if (done < 0 && EINTR == errno)
+      continue;
+    if (done <= 0)
+      break;
+    buffer += done;
+    len -= done;
+  }
+}
+
 /* Function: DUMA_Print
  *
  * external print function
@@ -317,10 +333,10 @@ void DUMA_Print(const char *pattern, ...) {
 #endif
 
   if (DUMA_OUTPUT_STDOUT)
-    write(1, buffer, len);
+    writeAll(1, buffer, len);
 
   if (DUMA_OUTPUT_STDERR)
-    write(2, buffer, len);
+    writeAll(2, buffer, len);
 
   if (DUMA_OUTPUT_FILE != NULL) {
 #if defined(WIN32) && !defined(__CYGWIN__)
@@ -329,7 +345,7 @@ void DUMA_Print(const char *pattern, ...) {
     fd = open(DUMA_OUTPUT_FILE, O_APPEND | O_CREAT | O_WRONLY, 0600);
 #endif
     if (fd >= 0) {
-      write(fd, buffer, len);
+      writeAll(fd, buffer, len);
 #if defined(WIN32) && !defined(__CYGWIN__)
       _close(fd);
 #else
-- 
2.43.0


From 58360b3619aad3a59b462f2f4566c80fa66443c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 30/42] fix: free() and the reduction of protected memory leave
 errno alone

---
 duma_hlp.h | 3 ++-
 src/duma.c | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/duma_hlp.h b/duma_hlp.h
index b87db01..6a856b9 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -46,7 +46,8 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       newSize = (char *)slot->userAddress - (char *)slot->internalAddress;
       newSize = (newSize + DUMA_PAGE_SIZE) & ~(DUMA_PAGE_SIZE - 1);
       delSize = slot->internalSize - newSize;
-      Page_Delete((char *)slot->internalAddress + newSize, delSize);
+      if (delSize) /* nothing to delete with a guard below the user space */
+        Page_Delete((char *)slot->internalAddress + newSize, delSize);
       alreadyReducekB += (delSize + 1023) >> 10;
       slot->state = DUMAST_BEGIN_PROTECTED;
       /* but keep the slot and userAddr */
diff --git a/src/duma.c b/src/duma.c
index e5a178c..f3310dc 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1784,6 +1784,7 @@ void _duma_deallocate(void *address, int protectAllocList,
                       enum _DUMA_Allocator allocator DUMA_PARAMLIST_FL) {
   struct _DUMA_Slot *slot;
   long internalSizekB;
+  int savedErrno = errno; /* releasing memory does not alter errno */
 
   if (!DUMA_IS_INITIALIZED()) {
 #ifdef DUMA_DETOURS
@@ -1965,6 +1966,8 @@ void _duma_deallocate(void *address, int protectAllocList,
     IF__DUMA_INIT_DONE
     DUMA_RELEASE_SEMAPHORE(0);
   }
+
+  errno = savedErrno;
 }
 
 /* Function: duma_check
-- 
2.43.0


From 0db12366c69c032e5a325f0f8f140f36331e8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 31/42] fix: several references to one checked array in an
 expression

CA_REF() kept the index in a variable belonging to the array. With two
references in one expression, as in CA_REF(a,i) = CA_REF(a,j), both wrote
to it unsequenced: gcc stored the element into itself. References from
several threads had the same conflict. Let a function check the index.
---
 duma.h     | 24 +++++++++++++-----------
 src/duma.c | 12 ++++++++++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/duma.h b/duma.h
index 7193c43..55944e7 100644
--- a/duma.h
+++ b/duma.h
@@ -252,6 +252,11 @@ enum _DUMA_FailReturn { DUMA_FAIL_NULL, DUMA_FAIL_ENV };
 DUMA_EXTERN_C void _duma_init(void);
 DUMA_EXTERN_C void _duma_assert(const char *exprstr, const char *filename,
                                 int lineno);
+DUMA_EXTERN_C unsigned long _duma_checked_index(unsigned long idx,
+                                                unsigned long size,
+                                                const char *exprstr,
+                                                const char *filename,
+                                                int lineno);
 
 DUMA_EXTERN_C void duma_check(void *address);
 DUMA_EXTERN_C void duma_checkAll();
@@ -422,23 +427,20 @@ DUMA_EXTERN_C char *_duma_strncat(char *dest, const char *src, size_t size);
  * when using CA_REF()
  */
 #define CA_DECLARE(NAME, SIZE)                                                 \
-  const unsigned long NAME##_checkedsize = (SIZE);                             \
-  unsigned long NAME##_checkedidx
+  const unsigned long NAME##_checkedsize = (SIZE)
 
-/* definition of a checked array adds definitions for its size and an extra
- * temporary. every array gets its own temporary to avoid problems with
- * threading a global temporary would have.
- */
+/* definition of a checked array adds a definition for its size */
 #define CA_DEFINE(TYPE, NAME, SIZE)                                            \
   TYPE NAME[SIZE];                                                             \
   CA_DECLARE(NAME, SIZE)
 
-/* every access to a checked array is preceded an assert() on the index;
- * the index parameter is stored to a temporary to avoid double execution of
- * index, when index contains f.e. a "++".
+/* the index of every access to a checked array is checked by a function:
+ * this evaluates the index once and keeps references to the same array within
+ * one expression, or from several threads, independent of each other.
  */
 #define CA_REF(NAME, INDEX)                                                    \
-  NAME[DUMA_ASSERT((NAME##_checkedidx = (INDEX)) < NAME##_checkedsize),        \
-       NAME##_checkedidx]
+  NAME[_duma_checked_index((INDEX), NAME##_checkedsize,                        \
+                           "(" #INDEX ") < " #NAME "_checkedsize", __FILE__,   \
+                           __LINE__)]
 
 #endif /* end ifdef DUMA_NO_DUMA */
diff --git a/src/duma.c b/src/duma.c
index f3310dc..6186a7e 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -728,6 +728,18 @@ void _duma_assert(const char *exprstr, const char *filename, int lineno) {
     *pcAddr++ = 0;
 }
 
+/* Function: _duma_checked_index
+ *
+ * Check index of a reference to a checked array. See CA_REF()
+ */
+unsigned long _duma_checked_index(unsigned long idx, unsigned long size,
+                                  const char *exprstr, const char *filename,
+                                  int lineno) {
+  if (idx >= size)
+    _duma_assert(exprstr, filename, lineno);
+  return idx;
+}
+
 #ifndef DUMA_PREFER_GETENV
 
 extern char **environ;
-- 
2.43.0


From 471a9bbb1b5f6ef847b06033fecb9880188ac7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 32/42] fix: with DUMA_NO_DUMA define all macros, usable in the
 same places

DUMA_FN_PROT_*() were not defined at all, DUMA_ASSERT() and the checks
could not be used in expressions, CA_DECLARE() not at file scope: sources
that compile with DUMA did not compile for release, contrary to README.
---
 duma.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/duma.h b/duma.h
index 55944e7..50d22c3 100644
--- a/duma.h
+++ b/duma.h
@@ -72,20 +72,23 @@
   do {                                                                         \
   } while (0)
 
-#define DUMA_ASSERT(EXPR)                                                      \
-  do {                                                                         \
-  } while (0)
+#define DUMA_ASSERT(EXPR) ((void)0)
+#define DUMA_CHECK(BASEADR) ((void)0)
+#define DUMA_CHECKALL() ((void)0)
 
-#define DUMA_CHECK(BASEADR)                                                    \
+#define DUMA_FN_PROT_START {
+#define DUMA_FN_PROT_END }
+#define DUMA_FN_PROT_RET(EXPR)                                                 \
   do {                                                                         \
+    return (EXPR);                                                             \
   } while (0)
-#define DUMA_CHECKALL()                                                        \
+#define DUMA_FN_PROT_RET_VOID()                                                \
   do {                                                                         \
+    return;                                                                    \
   } while (0)
 
-#define CA_DECLARE(NAME, SIZE)                                                 \
-  do {                                                                         \
-  } while (0)
+/* also allowed at file scope */
+#define CA_DECLARE(NAME, SIZE) struct NAME##_checked
 #define CA_DEFINE(TYPE, NAME, SIZE) TYPE NAME[SIZE]
 #define CA_REF(NAME, INDEX) NAME[INDEX]
 
-- 
2.43.0


From 5a3e0155caba79a613a0c6c6ebfa1c46ec777fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 33/42] fix: dumapp.h could not be compiled with DUMA_NO_DUMA

It redefined delete by DUMA's per thread state, which is not declared then.
Define the macros without special functionality, as without C++ support,
and the missing variants of them.
---
 dumapp.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index ab137f3..6aced45 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -43,14 +43,18 @@
 /* remove previous macro definitions */
 #include "noduma.h"
 
-#if (defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION))
+#if (defined(DUMA_NO_DUMA) || defined(DUMA_NO_CPP_SUPPORT) ||                  \
+     defined(DUMA_NO_LEAKDETECTION))
 /* define macros as wrapper without special functionality */
 #define NEW_ELEM(TYPE) new TYPE
 #define NEW_ARRAY(TYPE, COUNT) new TYPE[COUNT]
+#define NEW_ELEM_NOTHROW(TYPE) new (std::nothrow) TYPE
+#define NEW_ARRAY_NOTHROW(TYPE, COUNT) new (std::nothrow) TYPE[COUNT]
 #define DEL_ELEM(PTR) delete PTR
 #define DEL_ARRAY(PTR) delete[] PTR
-#endif /* ( defined(DUMA_NO_CPP_SUPPORT) || defined(DUMA_NO_LEAKDETECTION) )   \
-        */
+#define DEL_ELEM_NOTHROW(PTR) delete PTR
+#define DEL_ARRAY_NOTHROW(PTR) delete[] PTR
+#endif /* DUMA_NO_DUMA || DUMA_NO_CPP_SUPPORT || DUMA_NO_LEAKDETECTION */
 
 #ifndef DUMA_CDECL
 #ifdef _MSC_VER
@@ -74,7 +78,7 @@
 #define NEW_THROW_SPEC
 #endif
 
-#ifndef DUMA_NO_CPP_SUPPORT
+#if !defined(DUMA_NO_DUMA) && !defined(DUMA_NO_CPP_SUPPORT)
 
 #ifndef DUMA_CPP_OPERATORS_DECLARED /* && !defined(DUMA_NO_CPP_SUPPORT) */
 #define DUMA_CPP_OPERATORS_DECLARED
-- 
2.43.0


From 49a2babb33b1a8c06603b930d6cf291ccd2d2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 34/42] fix: DEL_ELEM() and DEL_ARRAY() of DUMA_OLD_DEL_MACRO
 called no destructors

They called operator delete directly: destructors were left out, and
DEL_ARRAY() of a class with destructor stopped the program, because the
array's address was not the block's.
---
 dumapp.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index 6aced45..d363230 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -167,23 +167,24 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
  */
 /* non-throwing */
 #define DEL_ELEM(PTR)                                                          \
-  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
-       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
-  operator delete(PTR, __FILE__, __LINE__)
-
+  for (++_duma_del.DelPtr,                                                     \
+       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
+       _duma_del.Magic = 1,                                                    \
+       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
+       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
+       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
+  delete PTR
 #define DEL_ARRAY(PTR)                                                         \
-  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
-       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
-  operator delete[](PTR, __FILE__, __LINE__)
+  for (++_duma_del.DelPtr,                                                     \
+       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
+       _duma_del.Magic = 1,                                                    \
+       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
+       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
+       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
+  delete[] PTR
 /* explicitly non-throwing */
-#define DEL_ELEM_NOTHROW(PTR)                                                  \
-  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
-       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
-  operator delete(PTR, std::nothrow, __FILE__, __LINE__)
-#define DEL_ARRAY_NOTHROW(PTR)                                                 \
-  for (++_duma_del.DelPtr, _duma_del.Magic = 1; _duma_del.Magic;               \
-       _duma_del.Magic = 0, --_duma_del.DelPtr)                                \
-  operator delete[](PTR, std::nothrow, __FILE__, __LINE__)
+#define DEL_ELEM_NOTHROW(PTR) DEL_ELEM(PTR)
+#define DEL_ARRAY_NOTHROW(PTR) DEL_ARRAY(PTR)
 #else
 #if !defined(DUMA_NO_THREAD_SAFETY) && !defined(DUMA_HAVE_THREAD_LOCAL)
 /* define a thread safe delete */
-- 
2.43.0


From 644478b015e6c3722baec80ac533dab56dd17dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 35/42] fix: fork() while other threads are inside of the
 library

---
 src/sem_inc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sem_inc.c b/src/sem_inc.c
index 3274c8a..0e83481 100644
--- a/src/sem_inc.c
+++ b/src/sem_inc.c
@@ -157,6 +157,9 @@ static void unlock() {
   }
 }
 
+/* called around fork(): no other thread may be inside of the library then */
+static void releaseAfterFork(void) { DUMA_rel_sem(0); }
+
 #endif
 #endif
 
@@ -166,6 +169,16 @@ void DUMA_init_sem(void) {
   SEM_NAME_TYPE acPID[16];
   DWORD pid;
 #endif
+#if HAVE_PTHREADS && !defined(DUMA_SEMAPHORES)
+  static int forkHandled = 0;
+
+  /* the child of a fork() needs a consistent heap and an unlocked mutex,
+   * whatever the other threads of its parent are doing */
+  if (!forkHandled) {
+    forkHandled = 1;
+    pthread_atfork(DUMA_get_sem, releaseAfterFork, releaseAfterFork);
+  }
+#endif
 
   /* avoid recursive call to sem_init(),
    * when sem_init() calls malloc() or other allocation function
-- 
2.43.0


From 4f9982f72dd9940c2cad7f1d6fb8c30c007ad052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 36/42] fix: read settings when there is no environment

---
 src/duma.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 6186a7e..bb9a481 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -758,6 +758,10 @@ static const char *duma_getenv(const char *varname) {
   if (varname[0] == '\0')
     return ret;
 
+  /* not yet set up, or removed by clearenv() */
+  if (!environ)
+    return ret;
+
   while (environ[varno]) {
     const char *v = environ[varno++];
     int idx = 0;
-- 
2.43.0


From 658548bcd38d756065faa129263949882df6dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 37/42] fix: operator delete of a null pointer before the first
 allocation

---
 src/duma.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index bb9a481..8338107 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1802,6 +1802,10 @@ void _duma_deallocate(void *address, int protectAllocList,
   long internalSizekB;
   int savedErrno = errno; /* releasing memory does not alter errno */
 
+  /* releasing nothing is valid at any time */
+  if (0 == address)
+    return;
+
   if (!DUMA_IS_INITIALIZED()) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1812,7 +1816,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
+  if (_duma_g.null_addr == address)
     return;
 
   if (protectAllocList) {
-- 
2.43.0


From dd38a6bfa907c5b87325abe34539ac437ad5adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 38/42] fix: realloc() of freed memory reports the error
 instead of crashing

---
 src/duma.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 8338107..b88fa33 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2215,6 +2215,22 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
+      /* there is nothing left to copy from */
+      if (DUMAST_ALL_PROTECTED == slot->state ||
+          DUMAST_BEGIN_PROTECTED == slot->state) {
+#ifndef DUMA_NO_LEAKDETECTION
+        if (DUMAFS_ALLOCATION == slot->fileSource)
+          DUMA_Abort("realloc(%a): memory already freed; allocated from %s(%i)",
+                     (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
+        else if (DUMAFS_DEALLOCATION == slot->fileSource)
+          DUMA_Abort("realloc(%a): memory already freed at %s(%i)",
+                     (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
+        else
+#endif
+          DUMA_Abort("realloc(%a): memory already freed.",
+                     (DUMA_ADDR)oldBuffer);
+      }
+
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
         memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
-- 
2.43.0


From 3015b236f3a09be212a4e5e6685aa16636c24a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 39/42] fix: realloc() of an invalid address that its new block
 happened to get went unnoticed

---
 src/duma.c | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index b88fa33..1c59b6b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2203,33 +2203,36 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
+    struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
+
+    /* check before allocating: the new block may get this very address */
+    if (slot == 0)
+      DUMA_Abort("realloc(%a, %d): address not from malloc().",
+                 (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
+
+    /* there is nothing left to copy from */
+    if (DUMAST_ALL_PROTECTED == slot->state ||
+        DUMAST_BEGIN_PROTECTED == slot->state) {
+#ifndef DUMA_NO_LEAKDETECTION
+      if (DUMAFS_ALLOCATION == slot->fileSource)
+        DUMA_Abort("realloc(%a): memory already freed; allocated from %s(%i)",
+                   (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
+      else if (DUMAFS_DEALLOCATION == slot->fileSource)
+        DUMA_Abort("realloc(%a): memory already freed at %s(%i)",
+                   (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
+      else
+#endif
+        DUMA_Abort("realloc(%a): memory already freed.", (DUMA_ADDR)oldBuffer);
+    }
+
     ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
                          0 /*=protectAllocList*/, EFA_REALLOC,
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
     if (ptr) {
-      struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
-
-      if (slot == 0)
-        DUMA_Abort("realloc(%a, %d): address not from malloc().",
-                   (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
-
-      /* there is nothing left to copy from */
-      if (DUMAST_ALL_PROTECTED == slot->state ||
-          DUMAST_BEGIN_PROTECTED == slot->state) {
-#ifndef DUMA_NO_LEAKDETECTION
-        if (DUMAFS_ALLOCATION == slot->fileSource)
-          DUMA_Abort("realloc(%a): memory already freed; allocated from %s(%i)",
-                     (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
-        else if (DUMAFS_DEALLOCATION == slot->fileSource)
-          DUMA_Abort("realloc(%a): memory already freed at %s(%i)",
-                     (DUMA_ADDR)oldBuffer, slot->filename, slot->lineno);
-        else
-#endif
-          DUMA_Abort("realloc(%a): memory already freed.",
-                     (DUMA_ADDR)oldBuffer);
-      }
+      /* the table may have been moved */
+      slot = slotForUserAddress(oldBuffer);
 
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
-- 
2.43.0


From fe3f7c96c12d4e120916bf857b385c0b2f2e24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 40/42] fix: leak report reads the totals of the log while
 holding the lock

---
 src/duma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1c59b6b..7bceb7b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2707,14 +2707,14 @@ void DUMA_delFrame(void) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  IF__DUMA_INIT_DONE
-  DUMA_RELEASE_SEMAPHORE(0);
-
   if (_duma_s.SHOW_ALLOC)
     DUMA_Print(
         "\nDUMA:   Allocation(s): %l"
         "\nDUMA: Deallocation(s): %l\n",
         _duma_s.numAllocs, _duma_s.numDeallocs);
+
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
 }
 
 /* Function: _duma_exit
-- 
2.43.0


From 7a2d1458a19e6a491db404d861af8a0493363bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 41/42] fix: cancelling a thread while it prints a message left
 the library locked

---
 src/print.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/print.c b/src/print.c
index e8d9f44..a0ac064 100644
--- a/src/print.c
+++ b/src/print.c
@@ -39,6 +39,7 @@
 
 #ifndef WIN32
 #include <fcntl.h>
+#include <pthread.h>
 #include <sys/mman.h>
 #include <sys/param.h>
 #include <unistd.h>
@@ -322,6 +323,12 @@ void DUMA_Print(const char *pattern, ...) {
   char buffer[STRING_BUFFER_SIZE];
   int len, fd;
   va_list args;
+#if !defined(WIN32) && !defined(DUMA_NO_THREAD_SAFETY)
+  int cancelState;
+
+  /* the thread must not be cancelled in here: it may hold the semaphore */
+  pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancelState);
+#endif
 
   va_start(args, pattern);
   len = DUMA_vsprintf(buffer, sizeof(buffer), pattern, args);
@@ -353,6 +360,10 @@ void DUMA_Print(const char *pattern, ...) {
 #endif
     }
   }
+
+#if !defined(WIN32) && !defined(DUMA_NO_THREAD_SAFETY)
+  pthread_setcancelstate(cancelState, NULL);
+#endif
 }
 
 /* Function: DUMA_Exit
-- 
2.43.0


From 9d08e95fc9b384d7c078bd2c7ed0a388565a9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 42/42] fix: a delete expression left by an exception keeps its
 position on the stack

The delete macros push file and line and pop them after the expression.
When a destructor or the operand throws, the position stays: reports name
it for later releases, and after 255 of them the program is stopped.
---
 dumapp.h | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/dumapp.h b/dumapp.h
index d363230..0148644 100644
--- a/dumapp.h
+++ b/dumapp.h
@@ -167,20 +167,12 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
  */
 /* non-throwing */
 #define DEL_ELEM(PTR)                                                          \
-  for (++_duma_del.DelPtr,                                                     \
-       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
-       _duma_del.Magic = 1,                                                    \
-       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
-       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
-       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
+  for (duma_delete_position duma_del_pos(__FILE__, __LINE__);                  \
+       duma_del_pos.Pending; duma_del_pos.Pending = 0)                         \
   delete PTR
 #define DEL_ARRAY(PTR)                                                         \
-  for (++_duma_del.DelPtr,                                                     \
-       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
-       _duma_del.Magic = 1,                                                    \
-       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
-       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
-       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
+  for (duma_delete_position duma_del_pos(__FILE__, __LINE__);                  \
+       duma_del_pos.Pending; duma_del_pos.Pending = 0)                         \
   delete[] PTR
 /* explicitly non-throwing */
 #define DEL_ELEM_NOTHROW(PTR) DEL_ELEM(PTR)
@@ -200,12 +192,8 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 #else
 /* also thread safe by using TLS variables */
 #define delete                                                                 \
-  for (++_duma_del.DelPtr,                                                     \
-       DUMA_ASSERT(_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH),                     \
-       _duma_del.Magic = 1,                                                    \
-       _duma_del.DelFile[_duma_del.DelPtr] = __FILE__,                         \
-       _duma_del.DelLine[_duma_del.DelPtr] = __LINE__;                         \
-       _duma_del.Magic; _duma_del.Magic = 0, --_duma_del.DelPtr)               \
+  for (duma_delete_position duma_del_pos(__FILE__, __LINE__);                  \
+       duma_del_pos.Pending; duma_del_pos.Pending = 0)                         \
   delete
 #endif /* DUMA_NO_THREAD_SAFETY */
 #endif /* DUMA_OLD_DEL_MACRO */
@@ -215,3 +203,27 @@ void DUMA_CDECL operator delete[](void *, const std::nothrow_t &, const char *,
 #endif /* end ifdef DUMA_NO_CPP_SUPPORT */
 
 #include "duma.h"
+
+#if (!defined(DUMA_NO_DUMA) && !defined(DUMA_NO_CPP_SUPPORT) &&                \
+     !defined(DUMA_NO_LEAKDETECTION))
+#ifndef DUMA_DELETE_POSITION_DEFINED
+#define DUMA_DELETE_POSITION_DEFINED
+
+/* file and line of a delete expression while it is being executed:
+ * no longer when it gets left by an exception, too
+ */
+struct duma_delete_position {
+  int Pending;
+
+  duma_delete_position(const char *filename, int lineno) : Pending(1) {
+    ++_duma_del.DelPtr;
+    if (_duma_del.DelPtr >= DUMA_MAX_DEL_DEPTH)
+      _duma_assert("_duma_del.DelPtr < DUMA_MAX_DEL_DEPTH", filename, lineno);
+    _duma_del.DelFile[_duma_del.DelPtr] = filename;
+    _duma_del.DelLine[_duma_del.DelPtr] = lineno;
+  }
+  ~duma_delete_position() { --_duma_del.DelPtr; }
+};
+
+#endif /* DUMA_DELETE_POSITION_DEFINED */
+#endif
-- 
2.43.0

