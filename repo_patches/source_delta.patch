From 31c5285c1d9998d9a86f830deea04ef4f801cbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 001/164] fix: initialise Base64Decoder's input length
 (uninitialised chunk size)

---
 src/Pipes/BufferAccepter/Base64/C3P_B64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.h b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
index 9f970a2..c7795a1 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.h
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.h
@@ -103,7 +103,7 @@ class Base64Encoder : public BufferCoDec {
 */
 class Base64Decoder : public BufferCoDec {
   public:
-    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff) {};
+    Base64Decoder(BufferAccepter* eff = nullptr) : BufferCoDec(eff), _input_length(0) {};
     ~Base64Decoder() {};
 
     /* Implementation of BufferAccepter. */
-- 
2.43.0


From db526b8499e2e664b85119ba9952654b9f3d3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 002/164] fix: StringBuilder::concatHandoffLimit() took too
 much with a limit of 1, spliced a short leading fragment wrongly, and left
 the remainder unterminated

---
 src/StringBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 86eea3a..830ff59 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -693,7 +693,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
     donar->_root = nullptr;          // Inform the donar instance...
     int offset = (len_limit - 1);    // Get the StrLL containing the last byte to be transfered.
     StrLL* ll_with_byte = _get_ll_containing_offset(old_root, &offset);
-    if ((nullptr != ll_with_byte) & (0 < offset)) {
+    if (nullptr != ll_with_byte) {
       // We're going to leave some data with the donor. How much?
       if ((ll_with_byte->len - 1) == offset) {
         // The requested length fit neatly on a fragment boundary.
@@ -717,6 +717,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
             *(ll_with_byte->str + i) = *(ll_with_byte->str + i + LEN_LEFT);
           }
           ll_with_byte->len = LEN_RIGHT;
+          *(ll_with_byte->str + LEN_RIGHT) = 0;  // Restore null-termination.
           donar->_root = ll_with_byte;    // Inform the donar instance...
 
           // Seek through the input and find the point where we need to snip.
@@ -726,7 +727,7 @@ void StringBuilder::concatHandoffLimit(StringBuilder* donar, unsigned int len_li
           }
           // To the extent that we can simply move memory references around, do
           //   so. All leading StrLL that fits within the limit is taken directly.
-          if (current != old_root) {
+          if (ll_with_byte != old_root) {
             current->next = split_left;       // Snip the list where we left it.
             _stack_str_onto_list(old_root);   // Attach the fragment list before
           }
-- 
2.43.0


From c1dc64b197429fc84611e77b3a9ef3b0fd22b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 003/164] fix: StringBuilder::locate() retried a failed partial
 match from the wrong place in fragmented strings

---
 src/StringBuilder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 830ff59..325528e 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1110,7 +1110,7 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
     int strll_offset   = start_offset;
     StrLL* src_ll      = _get_ll_containing_offset(_root, &strll_offset);
     StrLL* retrace_ll  = src_ll;
-    int retrace_offset = start_offset;
+    int retrace_offset = strll_offset;   // Offset within retrace_ll.
     while ((nullptr != src_ll) & (-1 == ret)) {
       if (*(src_ll->str + strll_offset) == *(NEEDLE + match_length++)) {
         if (match_length == NEEDLE_LEN) {
@@ -1120,14 +1120,13 @@ int StringBuilder::locate(const uint8_t* NEEDLE, int NEEDLE_LEN, int start_offse
           // First hit on the needle. Store the current search state just in
           //   case we need to roll back to it after a failure to find a long needle.
           retrace_ll  = src_ll;
-          retrace_offset = search_offset;
+          retrace_offset = strll_offset;
         }
       }
       else {
         if (match_length > 1) {
-          search_offset = retrace_offset;
-          strll_offset  = search_offset;
-          src_ll = _get_ll_containing_offset(retrace_ll, &strll_offset);
+          strll_offset = retrace_offset;
+          src_ll       = retrace_ll;
         }
         search_offset++;
         match_length  = 0;
-- 
2.43.0


From b7742c4cd38483fe98830aed47397830312f7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 004/164] fix: StringBuilder::replace() missed matches that
 begin within a failed partial match

---
 src/StringBuilder.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 325528e..e901756 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1221,6 +1221,9 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     int intra_frag_idx    = 0;      // Offset within the current source fragment.
     StrLL* src_cpy_ll     = src_ll; // If the source needs to be copied for mutation, start here.
     int src_cpy_ll_idx    = 0;      // If the source needs to be copied for mutation, start here within the LL.
+    StrLL* retrace_ll     = src_ll; // If a partial match fails, resume the search here.
+    int retrace_frag_idx  = 0;      // Offset within retrace_ll.
+    int retrace_remaining = 0;      // The value of remaining_search_len at that place.
     int src_cpy_total_idx = 0;      // If the source needs to be copied for mutation, start here within the full length.
     bool allocation_failure = false;
     // Haystack search loop. If the source string were collapsed, this would
@@ -1231,6 +1234,11 @@ int StringBuilder::replace(const char* needle, const char* replace) {
     while ((!allocation_failure) & (remaining_search_len-- > 0) & (nullptr != src_ll)) {
       if (*(src_ll->str + intra_frag_idx++) == *(needle + search_hit_idx++)) {
         // Bytes match.
+        if (1 == search_hit_idx) {   // If it is the start of a match, note the
+          retrace_ll        = src_ll;                 //   location of the byte
+          retrace_frag_idx  = intra_frag_idx;         //   that follows it.
+          retrace_remaining = remaining_search_len;
+        }
         if (NEEDLE_LEN == search_hit_idx) {  // If it is the conclusion of a match...
           // Create a copy of the string up-to the first byte of the needle...
           const int NEXT_BYTE_OFFSET  = (HAYSTACK_LEN - remaining_search_len);
@@ -1270,10 +1278,11 @@ int StringBuilder::replace(const char* needle, const char* replace) {
         }
       }
       else {                       // Bytes disagree.
-        if (1 < search_hit_idx) {  // If we were into a search, back out of our
-          remaining_search_len++;  //   postfixed iterator actions so the
-          intra_frag_idx--;        //   current byte gets compared against the
-        }                          //   first needle byte.
+        if (1 < search_hit_idx) {  // If we were into a search, resume it from
+          src_ll               = retrace_ll;          //   the byte following the
+          intra_frag_idx       = retrace_frag_idx;    //   start of the failed
+          remaining_search_len = retrace_remaining;   //   match.
+        }
         search_hit_idx = 0;        // Reset the search.
       }
 
-- 
2.43.0


From 593914472fe4dfe41b760929764e0a8e989bcc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 005/164] fix: StringBuilder::implode() refused a string of two
 one-byte tokens

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index e901756..c181e20 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -1340,7 +1340,7 @@ int StringBuilder::implode(const char* delim) {
     const int DELIM_LEN     = strlen(delim);
     const int TOKD_STR_LEN  = length();
     const int TOK_COUNT     = count();
-    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 2) & (TOK_COUNT > 1)) {
+    if ((DELIM_LEN > 0) & (TOKD_STR_LEN > 1) & (TOK_COUNT > 1)) {
       // In order for this operation to make sense, we need to have at least
       //   two tokens, and a total string length of at least 2 characters.
       const int TOTAL_STR_LEN = ((TOK_COUNT-1) * DELIM_LEN) + TOKD_STR_LEN;
-- 
2.43.0


From ad1435652ee2bbc7ba1d28972e233a6eabe1956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 006/164] fix: StringBuilder::position_as_uint64() kept 8
 digits of a hex token with over 16

---
 src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index c181e20..e5d0b43 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -494,7 +494,7 @@ uint64_t StringBuilder::position_as_uint64(int pos) {
       len -= 2;
       temp += 2;
       // Only so big an int we can handle...
-      int max_bytes = (len > 16) ? 8 : len;
+      int max_bytes = (len > 16) ? 16 : len;
       for (int i = 0; i < max_bytes; i++) {
         switch (*(temp + i)) {
           case '0':  case '1':  case '2':  case '3':  case '4':
-- 
2.43.0


From 73d7a9e5d0f924eaf5c873effd0422dda5de104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 007/164] fix: StringBuilder::concat(double) overran its buffer
 for large magnitudes

---
 src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index e5d0b43..96c4b66 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -895,9 +895,9 @@ void StringBuilder::concat(unsigned int nu) {
   concat(temp);
 }
 void StringBuilder::concat(double nu) {
-  char temp[24];
+  char temp[328];   // The longest finite double takes 309 digits before the point.
   memset(temp, 0, sizeof(temp));
-  sprintf(temp, "%f", nu);
+  snprintf(temp, sizeof(temp), "%f", nu);
   concat(temp);
 }
 
-- 
2.43.0


From 3efb428198c78e22e6aa5489d53da67127c38914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 008/164] fix: StringBuilder::concatf() overran its buffer when
 the output exceeded the estimate

---
 src/StringBuilder.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index 96c4b66..c9f78f8 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -947,15 +947,30 @@ int StringBuilder::concatf(const char* format, ...) {
 */
 int StringBuilder::concatf(const char* format, va_list args) {
   int len = strlen(format);
-  unsigned short f_codes = 0;  // Count how many format codes are in use...
-  for (unsigned short i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
+  int f_codes = 0;  // Count how many format codes are in use...
+  for (int i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
   // Allocate (hopefully) more space than we will need....
-  const int est_len = len + 512 + (f_codes * 15);   // TODO: Iterate on failure of vsprintf().
+  const int est_len = len + 512 + (f_codes * 15);
   char temp[est_len];
   memset(temp, 0, est_len);
   int ret = 0;
-  ret = vsprintf(temp, format, args);
-  if (ret > 0) concat((char *) temp);
+  va_list retry_args;
+  va_copy(retry_args, args);
+  ret = vsnprintf(temp, est_len, format, args);
+  if (ret >= est_len) {
+    // The estimate was too small. Now that we know the real length, use the heap.
+    char* heap_temp = (char*) malloc(ret + 1);
+    if (nullptr != heap_temp) {
+      vsnprintf(heap_temp, ret + 1, format, retry_args);
+      concat(heap_temp);
+      free(heap_temp);
+    }
+    else {
+      ret = -1;
+    }
+  }
+  else if (ret > 0) concat((char *) temp);
+  va_end(retry_args);
   return ret;
 }
 
-- 
2.43.0


From 92e04a5f530b6c330426fe1bd00e393d0399dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 009/164] fix: LinkedList::remove(T) stopped after a match at
 the head, leaving later matches

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index b8ba35f..55231c8 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -268,7 +268,7 @@ template <class T> bool LinkedList<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From b0cd9d0d6fdc7be2ba27dd1f7a1cc823b0dc5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 010/164] fix: PriorityQueue::remove(T) stopped after a match
 at the head, leaving later matches

---
 src/PriorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index f9004c8..89851a5 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -563,7 +563,7 @@ template <class T> bool PriorityQueue<T>::remove(T test_data) {
       free(current);
       element_count--;
       return_value = true;
-      current = (nullptr == prior) ? nullptr : prior->next;
+      current = (nullptr == prior) ? root : prior->next;
     }
     else {
       prior = current;
-- 
2.43.0


From 14aa9b40dd2f90b56baee5482e65068a5b89dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 011/164] fix: LinkedList::clear() did not count purged
 elements whose data is zero

---
 src/LightLinkedList.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index 55231c8..ba3f261 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -104,7 +104,8 @@ template <class T> LinkedList<T>::~LinkedList() {
 template <class T> int LinkedList<T>::clear(void) {
   int return_value = 0;
   while (root != nullptr) {
-    if (remove()) return_value++;
+    remove();
+    return_value++;
   }
   return return_value;
 };
-- 
2.43.0


From de04cf77ad7b6660696b231b83bd8d66885966ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 012/164] fix: LinkedList::insert() returns the position of the
 new element, as documented

---
 src/LightLinkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LightLinkedList.h b/src/LightLinkedList.h
index ba3f261..9a8eda6 100644
--- a/src/LightLinkedList.h
+++ b/src/LightLinkedList.h
@@ -131,7 +131,7 @@ template <class T> int LinkedList<T>::insert(T d) {
   current->next = nullptr;
   current->data = d;
   element_count++;
-  return 1;
+  return (element_count - 1);
 }
 
 
-- 
2.43.0


From 7256d318e87ef0a51134ca1c8e7c3c8cd4e54daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 013/164] fix: PriorityQueue::insertIfAbsent() reported the
 position before that of the inserted element

---
 src/PriorityQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PriorityQueue.h b/src/PriorityQueue.h
index 89851a5..c7065b1 100644
--- a/src/PriorityQueue.h
+++ b/src/PriorityQueue.h
@@ -220,6 +220,7 @@ template <class T> int PriorityQueue<T>::insertIfAbsent(T d, int nu_pri) {
     else {
       nu->next = insert_pointer->next;
       insert_pointer->next = nu;
+      return_value++;   // We were inserted after the last node we counted.
     }
     element_count++;
   }
-- 
2.43.0


From e7bd8981ba61765a364732d8770aa16bfc0eed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 014/164] fix: RingBuffer::peek() returned stale elements for
 indices beyond the content

---
 src/RingBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RingBuffer.h b/src/RingBuffer.h
index f39eeab..2fd6c82 100644
--- a/src/RingBuffer.h
+++ b/src/RingBuffer.h
@@ -244,7 +244,7 @@ template <class T> T RingBuffer<T>::_get(bool also_remove) {
 * @return T(0) on failure, or the data at the given index.
 */
 template <class T> T RingBuffer<T>::peek(unsigned int idx, bool absolute_index) {
-  if (!allocated() || (0 == _count) || (idx > _CAPAC)) {
+  if (!allocated() || (0 == _count) || (idx >= (absolute_index ? _CAPAC : _count))) {
     return (T)0;
   }
   T* return_value = (T*) (_pool + ((((absolute_index ? 0 : _r) + idx) % _CAPAC) * _E_SIZE));
-- 
2.43.0


From 6fbdc519244bc3254257fcbc4b408e8fd7ed7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 015/164] fix: ElementPool::take() overdrew instead of
 allocating the pool on first use

---
 src/ElementPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index f268029..c2189b8 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -193,7 +193,7 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 * @return a reference to the preallocated element.
 */
 template <class T> T* ElementPool<T>::take() {
-  T* ret = _list.get();
+  T* ret = (allocated() ? _list.get() : nullptr);
   if (nullptr == ret) {
     ret = new T();
     _overdraws++;
-- 
2.43.0


From 83695343346a7ffe2a89aac7699e0cfebad403bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 016/164] fix: ElementPool::take() ignored the overdraw limit

---
 src/ElementPool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index c2189b8..0f9603d 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -190,11 +190,12 @@ template <class T> bool ElementPool<T>::inPool(T* e) {
 /**
 * Remove an item from the preallocation pool an return it.
 *
-* @return a reference to the preallocated element.
+* @return a reference to the element, or nullptr if the pool is empty and the
+*   overdraw limit has been reached.
 */
 template <class T> T* ElementPool<T>::take() {
   T* ret = (allocated() ? _list.get() : nullptr);
-  if (nullptr == ret) {
+  if ((nullptr == ret) && (_overdraws_outstanding() < _overdraw_limit)) {
     ret = new T();
     _overdraws++;
   }
-- 
2.43.0


From fed5638e8feed11743bd3faf1d1a5c2728a44bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 017/164] fix: StopWatch::markStop() read an uninitialised
 start time in a watch that was never started

---
 src/TimerTools/StopWatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/StopWatch.cpp b/src/TimerTools/StopWatch.cpp
index 3f8b4af..47f8eb6 100644
--- a/src/TimerTools/StopWatch.cpp
+++ b/src/TimerTools/StopWatch.cpp
@@ -28,7 +28,7 @@ limitations under the License.
 /**
 * Constructor
 */
-StopWatch::StopWatch(uint32_t _t) : _tag(_t) {
+StopWatch::StopWatch(uint32_t _t) : _tag(_t), _start_micros(0) {
   reset();
 }
 
-- 
2.43.0


From c2ee64d2b8e02c36702f9640dc35f9a298699df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 018/164] fix: C3PTrace's action field was defined beyond the
 end of the trace word

---
 src/TimerTools/C3PTrace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.h b/src/TimerTools/C3PTrace.h
index bed446e..c588bb5 100644
--- a/src/TimerTools/C3PTrace.h
+++ b/src/TimerTools/C3PTrace.h
@@ -75,7 +75,7 @@ class StringBuilder;
 #define C3P_TRACE_WORD_LINE_OFFSET  (0)
 #define C3P_TRACE_WORD_FILE_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS)
 #define C3P_TRACE_WORD_PATH_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS)
-#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + C3P_TRACE_WORD_PATH_OFFSET)
+#define C3P_TRACE_WORD_ACTN_OFFSET  (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + CONFIG_C3P_TRACE_WORD_PATH_BITS)
 
 // Define mask values for each field in the trace word.
 #define C3P_TRACE_WORD_LINE_MASK    ((0xFFFFFFFF >> (32 - CONFIG_C3P_TRACE_WORD_LINE_BITS)) << C3P_TRACE_WORD_LINE_OFFSET)
-- 
2.43.0


From e672be5fc26f98d9d3c2cc61e2d412cc85e05e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 019/164] fix: C3PTrace took the action and path of a trace
 from the file and line bits, so paths were never profiled

---
 src/TimerTools/C3PTrace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index bc07e50..0247351 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -52,7 +52,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
   const unsigned int NOW = micros();
   if (recording()) {
     const uint32_t SPATIAL_WORD = (C3P_TRACE_WORD_SPATIAL_MASK & TRACE_WORD);
-    const TraceAction ACTION = (const TraceAction) (TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK);
+    const TraceAction ACTION = (const TraceAction) ((TRACE_WORD & C3P_TRACE_WORD_ACTN_MASK) >> C3P_TRACE_WORD_ACTN_OFFSET);
     if (0 == _trace_points.vacancy()) {
       _trace_points.get();
     }
@@ -62,7 +62,7 @@ ISR_FUNC void C3PTrace::leave_trace(const uint32_t TRACE_WORD) {
       case TraceAction::PATH_START:
       case TraceAction::PATH_STOP:
         {
-          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_SPATIAL_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
+          const uint8_t  PATH_ID    = (uint8_t) ((TRACE_WORD & C3P_TRACE_WORD_PATH_MASK) >> C3P_TRACE_WORD_PATH_OFFSET);
           bool path_root_created = false;
           TracePath* path_container = _trace_paths.getByPriority((int32_t) PATH_ID);
           if (nullptr == path_container) {
@@ -188,7 +188,7 @@ int TracePath::serialize(StringBuilder* out, const TCode FORMAT) {
           StringBuilder::styleHeader2(out, (char*) tmp.string());
           StopWatch::printDebugHeader(out);
           for (int i = 0; i < ENDPOINT_COUNT; i++) {
-            StopWatch* path_stopwatch = _pathways.getByPriority((int32_t) _start_point.trace_word);
+            StopWatch* path_stopwatch = _pathways.get(i);
             if (nullptr != path_stopwatch) {
               TracePoint end_point(0, path_stopwatch->tag());
               tmp.clear();
-- 
2.43.0


From cb5b2ad412915f32260b72a03f7779378a6f9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 020/164] fix: TracePath::recordStop() freed a StopWatch that
 it had just queued at position 0

---
 src/TimerTools/C3PTrace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimerTools/C3PTrace.cpp b/src/TimerTools/C3PTrace.cpp
index 0247351..b0f029e 100644
--- a/src/TimerTools/C3PTrace.cpp
+++ b/src/TimerTools/C3PTrace.cpp
@@ -254,7 +254,7 @@ ISR_FUNC bool TracePath::recordStop(const uint32_t TRACE_WORD, const TracePoint*
     if (nullptr != path_stopwatch) {
       ret = path_stopwatch->addRuntime((uint32_t) _start_point.ts_micros, (uint32_t) POINT->ts_micros);
       if (path_timing_created) {
-        ret &= (_pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
+        ret &= (0 <= _pathways.insert(path_stopwatch, (int32_t) POINT->trace_word));
       }
     }
     if (path_timing_created & !ret) {  // Clean up any mess we might have left
-- 
2.43.0


From 89c44c1da92992bba9e1856c9dca0455df1b83ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 021/164] fix: PeriodicTimeout::remaining() wrapped around if
 the timeout expired between its two clock reads

---
 src/TimerTools/TimerTools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimerTools/TimerTools.h b/src/TimerTools/TimerTools.h
index 0469d71..e09a501 100644
--- a/src/TimerTools/TimerTools.h
+++ b/src/TimerTools/TimerTools.h
@@ -81,7 +81,8 @@ class PeriodicTimeout {
     inline bool enabled() {                return (0 < _period);            };
     inline unsigned long period() {        return _period;                  };
     inline unsigned long remaining() {
-      return (expired() ? 0 : _until(_mark + _period));
+      const unsigned long ELAPSED = _since(_mark);
+      return ((ELAPSED < _period) ? (_period - ELAPSED) : 0);
     };
     inline bool     expired() {
       return ((0 == _period) || (_period <= _since(_mark)));
-- 
2.43.0


From 7cf8d0878e14a78d51dfe890cd676827156d31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 022/164] fix: stringToTimestamp() lost the leap day of the
 preceding leap year in years that are not leap years

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 9fd5626..4317ed8 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -79,7 +79,7 @@ uint64_t stringToTimestamp(const char* str) {
 
   if (year >= 1972) {
     // Check for leap year.
-    days += ((year - 1972) >> 2);  // Extra days caused by leap-years.
+    days += ((year - 1969) >> 2);  // Extra days caused by leap-years.
     if ((((year - 1972) % 4) == 0) && (month > 2)) {
       // If it is at-least March of this year, and this year is a leap-year, add another 86400.
       days++;
-- 
2.43.0


From b4755e4d21106975c3a24d8b2ec8ccd8fa9572d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 023/164] fix: randomArt() indexed the terminator of its 17
 symbols, which cut lines short

---
 src/CppPotpourri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CppPotpourri.cpp b/src/CppPotpourri.cpp
index 4317ed8..9cb720b 100644
--- a/src/CppPotpourri.cpp
+++ b/src/CppPotpourri.cpp
@@ -196,7 +196,7 @@ int randomArt(uint8_t* dgst_raw, unsigned int dgst_raw_len, const char* title, S
   line_buf[20] = '\0';
   for (uint8_t i = 0; i < YLIM; i++) {
     for (uint8_t j = 0; j < XLIM; j++) {
-      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 18);
+      *(line_buf + j + 1) = *(ra_symbols + array[j + (XLIM * i)] % 17);
     }
     temp.concatf(line_buf);
   }
-- 
2.43.0


From 1ea1ab260332b50e75158201171e35c75a497615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 024/164] fix: C3PLogger lost or reordered log when its sink
 took part of a buffer

---
 src/AbstractPlatform.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index d4494d2..79c98d1 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -484,11 +484,13 @@ void C3PLogger::_store_or_forward(StringBuilder* log_line) {
   if (nullptr != _sink) {
     bool backlog_remaining = !_log.isEmpty();
     if (backlog_remaining) {
-      backlog_remaining = (0 != _sink->pushBuffer(&_log));
+      _sink->pushBuffer(&_log);
+      backlog_remaining = !_log.isEmpty();
     }
-    if (!backlog_remaining && (0 == _sink->pushBuffer(log_line))) {
-      // NOTE: Short-circuit evaluation above is important for ordering.
-      store_to_buffer = false;
+    if (!backlog_remaining) {
+      // NOTE: Pushing only when there is no backlog is important for ordering.
+      _sink->pushBuffer(log_line);
+      store_to_buffer = !log_line->isEmpty();
     }
   }
   if (store_to_buffer) {
-- 
2.43.0


From 1ac14b45ec3fc49ea35e1acef19af8f19af3ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 025/164] fix: Vector3::length() truncated to the component
 type, so angle() of integer vectors was not a number

---
 src/Vector3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index e77d4bc..b19ef93 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -162,7 +162,7 @@ template <typename T> class Vector3 {
     T length_squared() const {  return (T)(*this * *this);       }
 
     // gets the length of this vector
-    float length() const {      return (T)sqrt(*this * *this);   }
+    float length() const {      return (float) sqrt((double) (*this * *this));   }
 
     // normalizes this vector
     float normalize(){
-- 
2.43.0


From a9240ca0b06db91e7f342baca1228f79eec0648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 026/164] fix: Vector3::angle() and angle_normalized() were not
 a number when rounding left the domain of acosf()

---
 src/Vector3.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Vector3.h b/src/Vector3.h
index b19ef93..601dc37 100644
--- a/src/Vector3.h
+++ b/src/Vector3.h
@@ -211,15 +211,17 @@ template <typename T> class Vector3 {
     static float angle(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT    = (float) (v1*v2);
       const float LEN_PROD = (float) (v1.length()*v2.length());
-      return ((0 != LEN_PROD) ? acosf(V_DOT / LEN_PROD) : 0.0f);
+      if (0 == LEN_PROD) return 0.0f;
+      const float V_COS    = (V_DOT / LEN_PROD);
+      return acosf((V_COS >= 1.0f) ? 1.0f : ((V_COS <= -1.0f) ? -1.0f : V_COS));
     };
 
     // computes the angle between 2 arbitrary normalized vectors
-    // NOTE: The minimum check is to prevent floating point rounding from
+    // NOTE: The range check is to prevent floating point rounding from
     //   causing a domain error in acosf().
     static float angle_normalized(const Vector3<T> &v1, const Vector3<T> &v2) {
       const float V_DOT = (float) (v1*v2);
-      return acosf(((V_DOT <= 1.0f) ? V_DOT : 1.0f));
+      return acosf((V_DOT >= 1.0f) ? 1.0f : ((V_DOT <= -1.0f) ? -1.0f : V_DOT));
     };
 
 };
-- 
2.43.0


From e7ee41327da6fe7fc351f75372ccbb9fff62606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 027/164] fix: C3PLogger's format setters passed their flag and
 value in the wrong order

---
 src/C3PLogger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/C3PLogger.h b/src/C3PLogger.h
index fa4a05b..d870f4d 100644
--- a/src/C3PLogger.h
+++ b/src/C3PLogger.h
@@ -67,9 +67,9 @@ class C3PLogger {
     inline bool    printSeverity() {         return _class_flag(LOGGER_FLAG_PRINT_LEVEL);    };
     inline bool    printTime() {             return _class_flag(LOGGER_FLAG_PRINT_TIME);     };
     inline bool    printTag() {              return _class_flag(LOGGER_FLAG_PRINT_TAG);      };
-    inline void    printSeverity(bool x) {   _class_set_flag(LOGGER_FLAG_PRINT_LEVEL, x);    };
-    inline void    printTime(bool x) {       _class_set_flag(LOGGER_FLAG_PRINT_TIME, x);     };
-    inline void    printTag(bool x) {        _class_set_flag(LOGGER_FLAG_PRINT_TAG, x);      };
+    inline void    printSeverity(bool x) {   _class_set_flag(x, LOGGER_FLAG_PRINT_LEVEL);    };
+    inline void    printTime(bool x) {       _class_set_flag(x, LOGGER_FLAG_PRINT_TIME);     };
+    inline void    printTag(bool x) {        _class_set_flag(x, LOGGER_FLAG_PRINT_TAG);      };
 
 
   private:
-- 
2.43.0


From d6f25b8b5758142519c89e06ccbc60d7139a4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 028/164] fix: Quaternion::setDown() gave a null quaternion for
 (0, 0, -1)

---
 src/Quaternion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Quaternion.cpp b/src/Quaternion.cpp
index c91fa1f..38a7836 100644
--- a/src/Quaternion.cpp
+++ b/src/Quaternion.cpp
@@ -69,7 +69,7 @@ void Quaternion::setDown(float n_x, float n_y, float n_z) {
   float cp_z = 0;
 
   // Normalize the cross-product...
-  float len = sqrt(cp_x*cp_x + cp_y*cp_y + cp_z+cp_z);
+  float len = sqrt(cp_x*cp_x + cp_y*cp_y + cp_z*cp_z);
   if (0 != len) {
     if (len != 1.0f) {
       float inv_len = 1.0f/len;
@@ -78,6 +78,9 @@ void Quaternion::setDown(float n_x, float n_y, float n_z) {
       cp_z *= inv_len;
     }
   }
+  else {
+    cp_x = 1;  // (Anti)parallel. Any perpendicular axis will do.
+  }
 
   float sin_theta = sin(angle / 2.0);
   w = cos(angle / 2.0);
-- 
2.43.0


From 072db78b62e9d8d46a3319ca85e2798684086cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 029/164] fix: setting a UINT8 from a UINT16 that is too large
 read it as a UINT32

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d351aa5..d78ed03 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1047,6 +1047,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::set_from(void* dest, const T
         *d = (uint8_t) *((uint16_t*) src);
         return 0;
       }
+      break;
     case TCode::UINT32:
       if (*((uint32_t*) src) <= UINT8_MAX) {
         *d = (uint8_t) *((uint32_t*) src);
-- 
2.43.0


From 7fd9e77e69484d041535be9db97fcbc8e02ff371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 030/164] fix: setting a UINT32 from a negative INT64 succeeded
 with a truncated value

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index d78ed03..be7b9fb 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1300,7 +1300,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::set_from(void* dest, const
       }
       break;
     case TCode::INT64:
-      if (*((int64_t*) src) <= UINT32_MAX) {
+      if ((*((int64_t*) src) <= UINT32_MAX) & (*((int64_t*) src) >= 0)) {
         *d = (uint32_t) *((int64_t*) src);
         return 0;
       }
-- 
2.43.0


From 1b6e6150d27383ec81ae55c7169fcc21d7842422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 031/164] fix: setting an INT64 from a UINT64 over INT64_MAX
 succeeded with a negative value

---
 src/C3PValue/C3PType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index be7b9fb..21d79fd 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -893,7 +893,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::set_from(void* dest, const T
     case TCode::UINT64:
       {
         int64_t s = _load_from_mem(src);
-        if (s <= INT64_MAX) {
+        if (s >= 0) {  // Any larger source will have had its high-bit read as a sign.
           d = s;
           ret = 0;
         }
-- 
2.43.0


From 6dd8305bc343b4cd810b97080a84f0c3b3550bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 032/164] fix: 64-bit integers were printed truncated where
 long has 32 bits

---
 src/C3PValue/C3PType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 21d79fd..8a581e8 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -853,7 +853,7 @@ template <> int         C3PTypeConstraint<int32_t>::deserialize(void* obj, Strin
 ///
 template <> void        C3PTypeConstraint<int64_t>::to_string(void* obj, StringBuilder* out) {
   int64_t yuck = _load_from_mem(obj);
-  out->concatf("%ld", yuck);
+  out->concatf("%lld", (long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<int64_t>::representable_by(const TCode DEST_TYPE) {
@@ -1399,7 +1399,7 @@ template <> int         C3PTypeConstraint<uint32_t>::deserialize(void* obj, Stri
 ///
 template <> void        C3PTypeConstraint<uint64_t>::to_string(void* obj, StringBuilder* out) {
   uint64_t yuck = _load_from_mem(obj);
-  out->concatf("%lu", yuck);
+  out->concatf("%llu", (unsigned long long) yuck);
 }
 
 template <> int8_t C3PTypeConstraint<uint64_t>::representable_by(const TCode DEST_TYPE) {
-- 
2.43.0


From 1b1c6694185d64b306f249ee1ba2831a03a9c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 033/164] fix: FLOAT and DOUBLE declared themselves
 representable by BOOLEAN, but refused the conversion

---
 src/C3PValue/C3PType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 8a581e8..cf1c66d 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1700,6 +1700,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
         memcpy(dest, (void*) &s_d, sizeOfType(TCode::DOUBLE));
       }
       return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
@@ -1790,6 +1791,7 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
 template <> int8_t      C3PTypeConstraint<double>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
     case TCode::DOUBLE:     memcpy(dest, src, FIXED_LEN);   return 0;
+    case TCode::BOOLEAN:    *((bool*) dest) = (0 != _load_from_mem(src));  return 0;
     default:  break;
   }
   return -1;
-- 
2.43.0


From 698f949df94ec2625e55631f1dfd9390ba97ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 034/164] fix: get_as_bool() tested the storage pointer of
 values that are not in it, and stale bytes of those narrower than it

---
 src/C3PValue/C3PValue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 5eaeb8c..17514d7 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -458,8 +458,13 @@ int64_t C3PValue::get_as_int64(int8_t* success) {
 
 /* Casts the value into (!/= 0). */
 bool C3PValue::get_as_bool(int8_t* success) {
+  bool ret = (0 != _target_mem);
   if (success) {  *success = true;  }
-  return (0 != _target_mem);
+  if (is_numeric()) {
+    // The value of a numeric type may be elsewhere, or not fill the pointer.
+    get_as(TCode::BOOLEAN, (void*) &ret);
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 97756b2e0994fe67efaf5af020eac3815fd14fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 035/164] fix: C3PValue::set() of a string stored the address
 of its own argument

---
 src/C3PValue/C3PValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.h b/src/C3PValue/C3PValue.h
index c3ab4f1..bd7f6a5 100644
--- a/src/C3PValue/C3PValue.h
+++ b/src/C3PValue/C3PValue.h
@@ -181,8 +181,8 @@ class C3PValue {
     inline int8_t set(bool x) {          return set_from(TCode::BOOLEAN,      (void*) &x);  };
     inline int8_t set(float x) {         return set_from(TCode::FLOAT,        (void*) &x);  };
     inline int8_t set(double x) {        return set_from(TCode::DOUBLE,       (void*) &x);  };
-    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) &x);  };
-    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) &x);  };
+    inline int8_t set(const char* x) {   return set_from(TCode::STR,          (void*) x);  };
+    inline int8_t set(char* x) {         return set_from(TCode::STR,          (void*) x);  };
     inline int8_t set(Vector3u32* x) {   return set_from(TCode::VECT_3_UINT32, (void*) x);  };
     inline int8_t set(Vector3u16* x) {   return set_from(TCode::VECT_3_UINT16, (void*) x);  };
     inline int8_t set(Vector3u8*  x) {   return set_from(TCode::VECT_3_UINT8,  (void*) x);  };
-- 
2.43.0


From bb3273cd9d500be3e12498548c14f6646e46ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 036/164] fix: the STR_BUILDER type took the content of the
 StringBuilder for a pointer to it

---
 src/C3PValue/C3PType.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index cf1c66d..1e0cce0 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2479,11 +2479,7 @@ template <> uint32_t    C3PTypeConstraint<StringBuilder*>::length(void* obj) {
 
 template <> void        C3PTypeConstraint<StringBuilder*>::to_string(void* obj, StringBuilder* out) {
   if (nullptr != obj) {
-    StringBuilder* o = nullptr;
-    memcpy((void*) &o, obj, sizeof(StringBuilder*));
-    if (nullptr != o) {
-      out->concat(o);
-    }
+    out->concat((StringBuilder*) obj);
   }
 }
 
@@ -2494,10 +2490,8 @@ template <> int8_t      C3PTypeConstraint<StringBuilder*>::set_from(void* dest,
     switch (SRC_TYPE) {
       //case TCode::STR:     d = *((char**) src);    return 0;
       case TCode::STR_BUILDER:
-        if (nullptr != dest) {
-          memcpy(dest, src, sizeof(StringBuilder*));
-          ret = 0;
-        }
+        *((StringBuilder**) dest) = (StringBuilder*) src;
+        ret = 0;
         break;
       default:  break;
     }
@@ -2543,12 +2537,11 @@ template <> int         C3PTypeConstraint<StringBuilder*>::serialize(void* obj,
       break;
 
     case TCode::CBOR:
-      {
+      if (nullptr != obj) {
         cbor::output_stringbuilder output(out);
         cbor::encoder encoder(output);
-        StringBuilder* o = nullptr;
-        memcpy((void*) &o, obj, sizeof(StringBuilder*));
-        encoder.write_string((char*) o->string());
+        StringBuilder* o = (StringBuilder*) obj;
+        encoder.write_string((char*) o->string(), o->length());
         ret = 0;   // TODO: Safe SB API.
       }
       break;
-- 
2.43.0


From 7c4cdfb480bb2108e3d1900e65408c18a958cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 037/164] fix: BINARY values constructed without content had an
 uninitialised pointer and length

---
 src/C3PValue/C3PValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 17514d7..d917cca 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -163,6 +163,8 @@ C3PValue::C3PValue(const TCode TC, void* ptr, uint8_t mem_flgs)
       //   single reference. That shim will be heap allocated.
       _target_mem = malloc(sizeof(C3PBinBinder));
       if (nullptr != _target_mem) {
+        ((C3PBinBinder*) _target_mem)->buf = nullptr;
+        ((C3PBinBinder*) _target_mem)->len = 0;
         //((C3PBinBinder*) _target_mem)->tcode = TC;
         _set_flags(true, C3PVAL_MEM_FLAG_VALUE_BY_REF);
         // TODO: Is this the correct choice? We know that we are responsible for
-- 
2.43.0


From 6ddbebc44ad57f84fc4fb0f4592655ec729aee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 038/164] fix: setting a BINARY value from another wrote over
 the pointer to its shim, and the member behind it

---
 src/C3PValue/C3PValue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index d917cca..9a4766f 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -340,6 +340,10 @@ void* C3PValue::_type_pun_set() {
     //   into a separate allocation. Return that pointer.
     return _target_mem;
   }
+  else if (is_ptr_len()) {
+    // Pointer-length types are written through their shim.
+    return _target_mem;
+  }
   else {
     return &_target_mem;
   }
-- 
2.43.0


From a494819bacc577c2bfdc848c83b81c4dac49812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 039/164] fix: the pointer-length accessors of C3PValue
 dereferenced values of any other type

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 9a4766f..4288313 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -388,7 +388,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
   int8_t ret = -1;
   if ((nullptr != v) & (nullptr != l)) {
     ret--;
-    if (nullptr != _target_mem) {
+    if ((nullptr != _target_mem) && is_ptr_len()) {
       *v = ((C3PBinBinder*) _target_mem)->buf;
       *l = ((C3PBinBinder*) _target_mem)->len;
       ret = 0;
@@ -400,7 +400,7 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 // TODO: Audit. Might be wrong-headed.
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
-  if (nullptr != _target_mem) {
+  if ((nullptr != _target_mem) && is_ptr_len()) {
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From 5ae8d780c90eb350a10fba86828a3679299f1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 040/164] fix: C3PValue::drop() forgot its destruct argument
 beyond the first value

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 4288313..95e103f 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -620,7 +620,7 @@ int8_t C3PValue::drop(C3PValue** prior, C3PValue* drop, bool destruct) {
     }
     return 0;
   }
-  return (_next) ? _next->drop(&_next, drop) : -1;
+  return (_next) ? _next->drop(&_next, drop, destruct) : -1;
 }
 
 
-- 
2.43.0


From 713834bcde9ce34da29cbfac06b9f1a1f7b6c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 041/164] fix: the CBOR encoder dropped the low byte of 64-bit
 integers with 16-bit values

---
 src/cbor-cpp/cbor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 2d01cdc..dbfbc71 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -349,6 +349,7 @@ void encoder::write_type_value64(int major_type, uint64_t value) {
   else if(value < 65536ULL) {
     _out->put_byte((uint8_t) (major_type | 25));
     _out->put_byte((uint8_t) (value >> 8));
+    _out->put_byte((uint8_t) value);
   }
   else if(value < 4294967296ULL) {
     _out->put_byte((uint8_t) (major_type | 26));
-- 
2.43.0


From c82485eab9b39048174251c710cc4ec264548e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 042/164] fix: cbor::input_stringbuilder read 16-bit fields in
 the wrong byte order

---
 src/cbor-cpp/cbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index dbfbc71..624f98b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -70,8 +70,8 @@ uint16_t input_stringbuilder::get_short() {
   if (nullptr != _str_bldr) {
     uint8_t buf[2] = {0, 0};
     const int THIS_SIZE = _str_bldr->copyToBuffer(buf, 2, _offset);
-    value |= ((uint16_t) buf[1] << 8);
-    value |= ((uint16_t) buf[0]);
+    value |= ((uint16_t) buf[0] << 8);
+    value |= ((uint16_t) buf[1]);
     _update_local_vars(THIS_SIZE);
   }
   return value;
-- 
2.43.0


From 776b95ea86658b1326a857c3b821e01f0485ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 043/164] fix: cbor::output_static deleted a buffer that it had
 allocated with malloc()

---
 src/cbor-cpp/cbor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 624f98b..4afc846 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -208,7 +208,7 @@ output_static::output_static(uint32_t cap, uint8_t* buf) : _buffer(buf), _capaci
 
 output_static::~output_static() {
   if (_should_free & (nullptr != _buffer)) {
-    delete _buffer;
+    free(_buffer);
     _buffer = nullptr;
   }
 }
-- 
2.43.0


From b2ad7a40fa84b016ab5b9469c7076ad64d2a4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 044/164] fix: C3PValueDecoder took the missing elements of a
 truncated array for zeros

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 95e103f..4e30fb4 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -828,7 +828,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
   uint32_t local_offset  = *offset;
   bool consume_without_value = false;
 
-  if (INPUT_LEN > 0) {
+  if (INPUT_LEN > local_offset) {
     uint64_t _length_extra  = 0;   // Length of data specified by the length field above.
     const uint8_t C_TYPE    = _in->byteAt(local_offset++);   // The first byte
     const uint8_t MAJORTYPE = (uint8_t) (C_TYPE >> 5);
-- 
2.43.0


From 6d88d85a9b5a5fd30e175ac4c405ee942d5d1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 045/164] fix: length checks of C3PValueDecoder overflowed,
 letting it write out of bounds, and it refused empty strings

---
 src/C3PValue/C3PValue.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 4e30fb4..6c9dfa7 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -857,7 +857,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = ((_length_extra > 0) & (INPUT_LEN >= (local_offset + _length_extra32)));
+    const bool HAVE_EXTRA_LEN = (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + _length_extra));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -907,9 +907,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
       case 2:  // Raw bytes
         if (HAVE_EXTRA_LEN) {
-          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32);
+          uint8_t* new_buf = (uint8_t*) malloc(_length_extra32 ? _length_extra32 : 1);
           if (nullptr != new_buf) {
-            if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+            if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
               value = new C3PValue(new_buf, _length_extra32);
               if (nullptr != value) {
                 value->reapValue(true);
@@ -928,7 +928,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           // If there are enough bytes to satisfy the parse...
           uint8_t new_buf[_length_extra32+1];
           *(new_buf + _length_extra32) = '\0';
-          if ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset)) {
+          if ((0 == _length_extra32) || ((int32_t) _length_extra32 == _in->copyToBuffer(new_buf, _length_extra32, local_offset))) {
             value = new C3PValue((char*) new_buf);
             if (nullptr != value) {
               local_offset += _length_extra32;
@@ -942,7 +942,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (INPUT_LEN >= (local_offset + (_length_extra32 * 2))) {
+        if (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + (((uint64_t) _length_extra32) * 2))) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
@@ -1053,10 +1053,10 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (INPUT_LEN >= (local_offset + len_key + 1)) {  // +1 for the value byte.
+        if (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + len_key64 + 1)) {  // +1 for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
-          if ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset)) {
+          if ((0 == len_key) || ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset))) {
             local_offset += len_key;
             // Now the dangerous part. Recurse into next(), and parse out the
             //  next C3PValue.
-- 
2.43.0


From 85589ce4d0f1c696851933eaf1ecbac74d9765b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 046/164] fix: C3PValueDecoder took the value of a CBOR special
 for a length

---
 src/C3PValue/C3PValue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6c9dfa7..99382fd 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -970,9 +970,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
           case 23:  value = new C3PValue(TCode::NONE);  break;  // CBOR "undefined"
 
           case 24:  case 25:
-            if (HAVE_EXTRA_LEN) {
-              consume_without_value = true;  //_listener->on_special(_length_extra);
-            }
+            consume_without_value = true;  //_listener->on_special(_length_extra);
             break;
           case 26:  value = new C3PValue(*((float*)(void*) &_length_extra32));  break;
           case 27:  value = new C3PValue(*((double*)(void*) &_length_extra));   break;
-- 
2.43.0


From 89c93f7a24fa8beb53bea9f8addd725afef5fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 047/164] fix: C3PValueDecoder wrapped negative integers below
 INT64_MIN

---
 src/C3PValue/C3PValue.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 99382fd..993a05d 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -894,7 +894,12 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
             else {                                 value = new C3PValue((int64_t) -(_length_extra+1));  }
             break;
           case 27:
-            value = new C3PValue((int64_t) -(_length_extra+1));
+            if (_length_extra <= INT64_MAX) {
+              value = new C3PValue((int64_t) -((int64_t) _length_extra) - 1);
+            }
+            else {  // Not representable.
+              consume_without_value = true;
+            }
             break;
           default:
             if (MINORTYPE < 24) {
-- 
2.43.0


From 199401fc1cc006a8b5563731bebc144cbb98865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 048/164] fix: byte strings in CBOR maps were leaked by
 C3PValueDecoder

---
 src/C3PValue/C3PValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 993a05d..2acb892 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1087,6 +1087,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
                   if (tmp_kvp) {
                     const int8_t SET_RET = tmp_kvp->set(value);
                     if (0 == SET_RET) {
+                      tmp_kvp->reapValue(value->reapValue());
                       // We might have just taken something with its own
                       //   life-cycle from the parser. We don't want it to be
                       //   free'd when its container is reaped.
-- 
2.43.0


From 1f127e3412f3f6f086690ad69e73199dd41d7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 049/164] fix: C3PValueDecoder ignored the length of inner tags
 and mismatches of the tagged value, and freed strings it had handed out

---
 src/C3PValue/C3PValue.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 2acb892..4ea9ba3 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1182,9 +1182,12 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
     }
     else if (6 == MAJOR) {
       // If it wasn't a map, but was a nested tag, it means we should recurse.
-      local_offset++;  // TODO: This is not correct, and only works because of coincidence.
-      local_offset++;  //   Need to handle differrent tag lengths differently.
-      C3PValue* inner_tagged_val = _next(&local_offset);
+      uint64_t inner_tag = 0;
+      local_offset++;
+      C3PValue* inner_tagged_val = nullptr;
+      if (_get_length_field(&local_offset, &inner_tag, (CTYPE & 31))) {
+        inner_tagged_val = _next(&local_offset);
+      }
       if (nullptr != inner_tagged_val) {
         //StringBuilder tmp_sb;
         //tmp_sb.concatf("Decoded %s (Nested tag 0x%02x):", t_helper->NAME, CTYPE);
@@ -1192,8 +1195,18 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         //c3p_log(LOG_LEV_DEBUG, LOCAL_LOG_TAG, &tmp_sb);
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
-          // TODO: Hopefully C3PValue knows what to do with this?
-          ret->set(inner_tagged_val);
+          if (0 == ret->set(inner_tagged_val)) {
+            if (ret->tcode() == inner_tagged_val->tcode()) {
+              // Anything taken by reference will be owned by the new value.
+              ret->reapValue(inner_tagged_val->reapValue());
+              inner_tagged_val->reapValue(false);
+            }
+          }
+          else {
+            c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "%s can't be set from %s.", t_helper->NAME, typecodeToStr(inner_tagged_val->tcode()));
+            delete ret;
+            ret = nullptr;
+          }
         }
         delete inner_tagged_val;
       }
-- 
2.43.0


From 342b0ebf9cfc58bd8e0a51f8a07a2a46ec84a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 050/164] fix: vectors set from a BINARY value of another
 length read out of its bounds

---
 src/C3PValue/C3PType.cpp | 56 ++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 1e0cce0..e96b222 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -1847,7 +1847,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f64>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f64**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1913,7 +1918,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -1979,7 +1989,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i8>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i8**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2050,7 +2065,12 @@ template <> int8_t      C3PTypeConstraint<Vector3f>::set_from(void* dest, const
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3f**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2134,7 +2154,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2200,7 +2225,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i32>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i32**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2266,7 +2296,12 @@ template <> int8_t      C3PTypeConstraint<Vector3u16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3u16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
@@ -2332,7 +2367,12 @@ template <> int8_t      C3PTypeConstraint<Vector3i16>::set_from(void* dest, cons
       //   case relies on the storage order of that shim. Provided that
       //   assumption holds, the following should be true:
       //         *((Vector3f**) src)  ==  *(((C3PBinBinder*) src)->buf)
-      case TCode::BINARY:           _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));   return 0;
+      case TCode::BINARY:
+        if (FIXED_LEN == ((C3PBinBinder*) src)->len) {
+          _store_in_mem(dest, _load_from_mem(*((Vector3i16**) src)));
+          return 0;
+        }
+        break;
       default:  break;
     }
   }
-- 
2.43.0


From 960ebe6b37c788965197de6b43a5aa903fae323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 051/164] fix: cbor::decoder delivered wrong values for
 negative integers

-256 and -65536 came out as 0, values near INT32_MIN were wrong or given up
to on_extra_integer(), and 64-bit ones came out positive and left the decoder
in the wrong state.
---
 src/cbor-cpp/cbor.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index 4afc846..c8e6f2b 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -677,8 +677,8 @@ void decoder::run() {
         switch(_currentLength) {
           case 1:
           {
-            uint8_t diff = _in->get_byte()+1;
-            if (diff < 128u) {
+            const int32_t diff = ((int32_t) _in->get_byte()) + 1;
+            if (diff <= 128) {
               _listener->on_integer((int8_t) -(diff));
             }
             else {
@@ -689,8 +689,8 @@ void decoder::run() {
           break;
           case 2:
           {
-            uint16_t diff = _in->get_short()+1;
-            if (diff < 32768u) {
+            const int32_t diff = ((int32_t) _in->get_short()) + 1;
+            if (diff <= 32768) {
               _listener->on_integer((int16_t) -(diff));
             }
             else {
@@ -702,16 +702,23 @@ void decoder::run() {
           case 4:
           temp = _in->get_int();
           if(temp <= INT32_MAX) {
-            _listener->on_integer(((int32_t) -(temp+1)));
-          } else if(temp == 2147483648u) {
-            _listener->on_integer((int32_t) INT32_MIN);
+            _listener->on_integer(((int32_t) (-1 - ((int32_t) temp))));
           } else {
-            _listener->on_extra_integer(temp, -1);
+            _listener->on_integer(((int64_t) (-1 - ((int64_t) temp))));
           }
           _state = STATE_TYPE;
           break;
           case 8:
-          _listener->on_integer(_in->get_long());
+          {
+            const uint64_t temp64 = _in->get_long();
+            if (temp64 <= (uint64_t) INT64_MAX) {
+              _listener->on_integer(((int64_t) (-1 - ((int64_t) temp64))));
+            }
+            else {
+              _listener->on_extra_integer(temp64, -1);
+            }
+          }
+          _state = STATE_TYPE;
           break;
         }
       } else break;
-- 
2.43.0


From a3c37bcc38f9f8b01d2c0f5960ca79890ff5e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 052/164] fix: cbor::decoder took lengths of 2^31 and above for
 negative ones

A negative length passed has_bytes(), and sized a variable-length array.
---
 src/cbor-cpp/cbor.cpp | 46 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/cbor-cpp/cbor.cpp b/src/cbor-cpp/cbor.cpp
index c8e6f2b..fb013d5 100644
--- a/src/cbor-cpp/cbor.cpp
+++ b/src/cbor-cpp/cbor.cpp
@@ -734,8 +734,15 @@ void decoder::run() {
           _state = STATE_BYTES_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_BYTES_DATA;
+          temp = _in->get_int();
+          if (temp < (uint32_t) INT32_MAX) {
+            _currentLength = (int) temp;
+            _state = STATE_BYTES_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long bytes");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -745,7 +752,7 @@ void decoder::run() {
       } else break;
     } else if(_state == STATE_BYTES_DATA) {
       if(_in->has_bytes(_currentLength)) {
-        uint8_t data[_currentLength] = {0, };
+        uint8_t data[_currentLength + 1];   // Never a zero-length array.
         _in->get_bytes(data, _currentLength);
         _state = STATE_TYPE;
         _listener->on_bytes(data, _currentLength);
@@ -762,8 +769,15 @@ void decoder::run() {
           _state = STATE_STRING_DATA;
           break;
           case 4:
-          _currentLength = _in->get_int();
-          _state = STATE_STRING_DATA;
+          temp = _in->get_int();
+          if (temp < (uint32_t) INT32_MAX) {
+            _currentLength = (int) temp;
+            _state = STATE_STRING_DATA;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long string");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -791,8 +805,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_array(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= (uint32_t) INT32_MAX) {
+            _listener->on_array((int) temp);
+            _state = STATE_TYPE;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long array");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
@@ -812,8 +833,15 @@ void decoder::run() {
           _state = STATE_TYPE;
           break;
           case 4:
-          _listener->on_map(_in->get_int());
-          _state = STATE_TYPE;
+          temp = _in->get_int();
+          if (temp <= (uint32_t) INT32_MAX) {
+            _listener->on_map((int) temp);
+            _state = STATE_TYPE;
+          }
+          else {
+            _state = STATE_ERROR;
+            _listener->on_error("extra long map");
+          }
           break;
           case 8:
           _state = STATE_ERROR;
-- 
2.43.0


From 15d5bdf16615f74990939c4c9e0a612c10d29503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 053/164] fix: KeyValuePair::unserialize() leaked keys and
 vectors, lost bare strings, and kept pointers to the decoder's stack

---
 src/C3PValue/KeyValuePair.cpp | 55 ++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 1891d2c..bf8b592 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -419,13 +419,11 @@ void CBORArgListener::_caaa(KeyValuePair* nu) {
   if (0 < _wait_map) {
     _wait_map--;
     if (nullptr != _wait) {
-      nu->setKey(_wait);
+      nu->setKey(_wait);   // Deep-copies the key.
+      free(_wait);
       _wait = nullptr;
     }
   }
-  else {
-    nu->set(_wait);
-  }
 
   if (0 < _wait_array) _wait_array--;
 
@@ -478,7 +476,14 @@ void CBORArgListener::on_bytes(uint8_t* data, int size) {
     _pending_c3p_tag = TCode::NONE;
   }
   else {
-    _caaa(new KeyValuePair(data, size));
+    // The given memory belongs to the decoder. The value needs its own copy.
+    uint8_t* temp = (uint8_t*) malloc((0 < size) ? size : 1);
+    if (nullptr != temp) {
+      memcpy(temp, data, size);
+      KeyValuePair* nu_kvp = new KeyValuePair(temp, size);
+      nu_kvp->reapValue(true);
+      _caaa(nu_kvp);
+    }
   }
 };
 
@@ -562,28 +567,52 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
     //case TCode::VECT_2_INT32:
     //case TCode::VECT_2_UINT32:
     case TCode::VECT_3_FLOAT:
-      ret = new KeyValuePair(new Vector3<float>(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8))));
+      {
+        Vector3<float> vect(*((float*)(data+0)), *((float*)(data+4)), *((float*)(data+8)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_DOUBLE:
-      ret = new KeyValuePair(new Vector3<double>(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16))));
+      {
+        Vector3<double> vect(*((double*)(data+0)), *((double*)(data+8)), *((double*)(data+16)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_INT8:
-      ret = new KeyValuePair(new Vector3<int8_t>(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2))));
+      {
+        Vector3<int8_t> vect(*((int8_t*)(data+0)), *((int8_t*)(data+1)), *((int8_t*)(data+2)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_UINT8:
-      ret = new KeyValuePair(new Vector3<uint8_t>(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2))));
+      {
+        Vector3<uint8_t> vect(*((uint8_t*)(data+0)), *((uint8_t*)(data+1)), *((uint8_t*)(data+2)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_INT16:
-      ret = new KeyValuePair(new Vector3<int16_t>(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4))));
+      {
+        Vector3<int16_t> vect(*((int16_t*)(data+0)), *((int16_t*)(data+2)), *((int16_t*)(data+4)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_UINT16:
-      ret = new KeyValuePair(new Vector3<uint16_t>(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4))));
+      {
+        Vector3<uint16_t> vect(*((uint16_t*)(data+0)), *((uint16_t*)(data+2)), *((uint16_t*)(data+4)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_INT32:
-      ret = new KeyValuePair(new Vector3<int32_t>(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8))));
+      {
+        Vector3<int32_t> vect(*((int32_t*)(data+0)), *((int32_t*)(data+4)), *((int32_t*)(data+8)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     case TCode::VECT_3_UINT32:
-      ret = new KeyValuePair(new Vector3<uint32_t>(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8))));
+      {
+        Vector3<uint32_t> vect(*((uint32_t*)(data+0)), *((uint32_t*)(data+4)), *((uint32_t*)(data+8)));
+        ret = new KeyValuePair(&vect);   // Copied by value.
+      }
       break;
     //case TCode::VECT_4_FLOAT:
     //case TCode::URL:
-- 
2.43.0


From ba57da829b353e4ecfd2757b38532a076c89a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 054/164] fix: C3PValueDecoder truncated 64-bit counts and tags
 to 32 bits

---
 src/C3PValue/C3PValue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 4ea9ba3..12a0acc 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -942,17 +942,21 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         break;
 
-      case 4:  value = _handle_array(&local_offset, _length_extra32);  break;
+      case 4:
+        if (_length_extra <= (uint64_t) UINT32_MAX) {
+          value = _handle_array(&local_offset, _length_extra32);
+        }
+        break;
       case 5:
         // Only bother parsing further if we have enough bytes to satisfy the
         //   minimum length requirement for a map of the stated length, assuming
         //   two bytes per map entry. TODO: Are 0-length string allowed here?
-        if (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + (((uint64_t) _length_extra32) * 2))) {
+        if (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + (((uint64_t) _length_extra32) * 2)) && (_length_extra <= (uint64_t) UINT32_MAX)) {
           value = _handle_map(&local_offset, _length_extra32);
         }
         break;
       case 6:
-        if (C3P_CBOR_VENDOR_CODE == (_length_extra32 & 0xFFFFFF00)) {
+        if (((uint64_t) C3P_CBOR_VENDOR_CODE) == (_length_extra & ~((uint64_t) 0xFF))) {
           // We noticed our vendor code, mask it off and see if see have a type
           //   helper for it.
           const TCode TC = IntToTcode(_length_extra32 & 0x000000FF);
-- 
2.43.0


From f33fcac4585322861e1ed5a52227cb1ad62d7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 055/164] fix: printing a nested KeyValuePair that isn't first
 in its list read another value as one

---
 src/C3PValue/KeyValuePair.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index bf8b592..b82868b 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -360,7 +360,7 @@ int8_t KeyValuePair::_encode_to_printable(StringBuilder* out, const unsigned int
         {
           // If the value is a KVP, recurse with a deeper indentation to
           //   render it.
-          KeyValuePair* tmp = (KeyValuePair*) _type_pun_get();
+          KeyValuePair* tmp = (KeyValuePair*) src->_type_pun_get();
           if (nullptr != tmp) {
             out->concat("{\n");
             tmp->_encode_to_printable(out, (LEVEL+1));
-- 
2.43.0


From 03d8030fae02d76ee3fc012112e9eb4aa7881970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 056/164] fix: BINARY values were encoded to CBOR as the memory
 around their shim

The type-blind serializer read length() bytes from the address of the
pointer-length shim, rather than from the buffer it refers to.
---
 src/C3PValue/C3PType.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index e96b222..63df25d 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2626,6 +2626,27 @@ template <> void        C3PTypeConstraint<C3PBinBinder>::to_string(void* obj, St
   }
 }
 
+template <> int         C3PTypeConstraint<C3PBinBinder>::serialize(void* obj, StringBuilder* out, const TCode FORMAT) {
+  int8_t ret = -1;
+  if (_pointer_safety_check(obj)) {
+    switch (FORMAT) {
+      case TCode::CBOR:
+        {
+          // CBOR has a native type for this.
+          const C3PBinBinder* o = (const C3PBinBinder*) obj;
+          cbor::output_stringbuilder output(out);
+          cbor::encoder encoder(output);
+          encoder.write_bytes(o->buf, ((nullptr != o->buf) ? o->len : 0));
+          ret = 0;   // TODO: Safe SB API.
+        }
+        break;
+
+      default:  break;
+    }
+  }
+  return ret;
+}
+
 template <> int8_t      C3PTypeConstraint<C3PBinBinder>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
   if ((nullptr != src) & (nullptr != dest)) {
     switch (SRC_TYPE) {
-- 
2.43.0


From 217281b09935462cf987b6b45f3356d659e697d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 057/164] fix: constructing a TimeSeries from CBOR wrote values
 of whatever type was received over its locals

valueWithKey(key, void*) writes the type of the received value. A 64-bit "tc"
smashed the stack, and an integer "n" became a pointer.
---
 src/TimeSeries/TimeSeries.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.cpp b/src/TimeSeries/TimeSeries.cpp
index 1245479..0c65c23 100644
--- a/src/TimeSeries/TimeSeries.cpp
+++ b/src/TimeSeries/TimeSeries.cpp
@@ -256,17 +256,21 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
   if ((nullptr != _obj) & (nullptr != kvp)) {
     ret--;
     // Always take win, because it may indicate a re-windowing.
+    // NOTE: Values are read as the type we need. The type that was encoded might
+    //   be anything.
     uint32_t win_sz = 0;
-    const bool CONTAINED_WIN_KEY = (0 == kvp->valueWithKey("win", &win_sz));
+    KeyValuePair* kvp_win = kvp->valueWithKey("win");
+    const bool CONTAINED_WIN_KEY = ((nullptr != kvp_win) && (0 == kvp_win->get_as(&win_sz)));
 
     TimeSeriesBase* obj = *((TimeSeriesBase**) _obj);
     if (nullptr == obj) {
       // TimeSeriesBase requires tc in order to allocate, and having windowSize
       //   up-front is also helpful (but not required). If the key isn't in the
       //   received structure, it will be left as zero.
-      TCode tc_val = TCode::NONE;
-      if (0 == kvp->valueWithKey("tc", (uint8_t*) &tc_val)) {
-        switch (tc_val) {
+      uint8_t tc_val = 0;
+      KeyValuePair* kvp_tc = kvp->valueWithKey("tc");
+      if ((nullptr != kvp_tc) && (0 == kvp_tc->get_as(&tc_val))) {
+        switch (IntToTcode(tc_val)) {
           case TCode::UINT8:   obj = (TimeSeriesBase*) new TimeSeries<uint8_t>(win_sz);   break;
           case TCode::UINT16:  obj = (TimeSeriesBase*) new TimeSeries<uint16_t>(win_sz);  break;
           case TCode::UINT32:  obj = (TimeSeriesBase*) new TimeSeries<uint32_t>(win_sz);  break;
@@ -296,8 +300,10 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
       // First: Do the order invariant things.
       char* name_val   = nullptr;
       char* unit_val   = nullptr;
-      kvp->valueWithKey("n", &name_val);
-      kvp->valueWithKey("u", &unit_val);
+      KeyValuePair* kvp_name = kvp->valueWithKey("n");
+      KeyValuePair* kvp_unit = kvp->valueWithKey("u");
+      if (nullptr != kvp_name) {  kvp_name->get_as(&name_val);  }
+      if (nullptr != kvp_unit) {  kvp_unit->get_as(&unit_val);  }
       if (name_val) {  obj->name(name_val);             }
       if (unit_val) {  obj->units((SIUnit*) unit_val);  }
 
@@ -307,11 +313,13 @@ template <> int8_t C3PTypeConstraint<TimeSeriesBase*>::construct(void* _obj, Key
         obj->windowSize(win_sz);  // This will initialize, as well.
       }
 
-      kvp->valueWithKey("ttl", &(obj->_samples_total));
+      KeyValuePair* kvp_ttl = kvp->valueWithKey("ttl");
+      if (nullptr != kvp_ttl) {  kvp_ttl->get_as(&(obj->_samples_total));  }
 
       uint32_t idx_val = 0;
       C3PValue* dat_val = kvp->valueWithKey("dat");
-      const bool CONTAINED_IDX_KEY = (0 == kvp->valueWithKey("idx", &idx_val));
+      KeyValuePair* kvp_idx = kvp->valueWithKey("idx");
+      const bool CONTAINED_IDX_KEY = ((nullptr != kvp_idx) && (0 == kvp_idx->get_as(&idx_val)));
       if (CONTAINED_IDX_KEY & (nullptr != dat_val)) {
         // The dat and idx keys go together, and refer to the (samples)
         //   beginning at the (absolute index), respectively.
-- 
2.43.0


From 03971d5159b97009da7040ad05c5bbe00d09fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 058/164] fix: TimeSeries could allocate less than its window
 for very large windows

---
 src/TimeSeries/TimeSeries.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 350956a..4992d76 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -354,7 +354,8 @@ template <class T> int8_t TimeSeries<T>::_reallocate_sample_window(uint32_t win)
         samples = nullptr;
       }
       if (win > 0) {
-        samples = (T*) malloc(win * sizeof(T));
+        // A window too large for the address space is a failed allocation.
+        samples = ((win <= (SIZE_MAX / sizeof(T))) ? (T*) malloc(win * sizeof(T)) : nullptr);
         if (nullptr != samples) {
           _window_size = win;
           ret = _zero_samples();
-- 
2.43.0


From 37900cd4f99ff7147da201f2cf064e054ad61b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 059/164] fix: median of a TimeSeries overflowed for large
 samples

---
 src/TimeSeries/TimeSeries.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 4992d76..d0f1988 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -640,7 +640,16 @@ template <class T> int8_t TimeSeries<T>::_calculate_median() {
       // ...otherwise, we take the mean to the two middle values.
       uint32_t lower = (_window_size-1) >> 1;
       uint32_t upper = lower + 1;
-      _median = (sorted[upper] + sorted[lower]) / 2;
+      //   Take care not to overflow T.
+      if ((sorted[lower] < T(0)) && (sorted[upper] >= T(0))) {
+        _median = (sorted[upper] + sorted[lower]) / 2;
+      }
+      else if (sorted[lower] < T(0)) {
+        _median = sorted[upper] - ((sorted[upper] - sorted[lower]) / 2);
+      }
+      else {
+        _median = sorted[lower] + ((sorted[upper] - sorted[lower]) / 2);
+      }
     }
     _set_flags(true, TIMESERIES_FLAG_VALID_MEDIAN);
   }
-- 
2.43.0


From 1d6975c54004379ccd82c6fe189911c348dd9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 060/164] fix: TimeSeries reported zero for the median and RMS
 of a window of one sample

---
 src/TimeSeries/TimeSeries.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index d0f1988..4ca08b4 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -563,7 +563,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_mean() {
 */
 template <class T> int8_t TimeSeries<T>::_calculate_rms() {
   int8_t ret = -1;
-  if ((_window_size > 1) & windowFull()) {
+  if ((_window_size > 0) & windowFull()) {
     ret = 0;
     double squared_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
@@ -611,7 +611,7 @@ template <class T> int8_t TimeSeries<T>::_calculate_stdev() {
 */
 template <class T> int8_t TimeSeries<T>::_calculate_median() {
   int8_t ret = -1;
-  if ((_window_size > 1) & windowFull()) {
+  if ((_window_size > 0) & windowFull()) {
     ret = 0;
     T sorted[_window_size];
     for (uint32_t i = 0; i < _window_size; i++) {
-- 
2.43.0


From 98305e2c70a416dcc7bddf254986c08c9b77793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 061/164] fix: TimeSeries::copyValueRange() of the most recent
 samples was off by one

---
 src/TimeSeries/TimeSeries.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeSeries/TimeSeries.h b/src/TimeSeries/TimeSeries.h
index 4ca08b4..5c0271d 100644
--- a/src/TimeSeries/TimeSeries.h
+++ b/src/TimeSeries/TimeSeries.h
@@ -496,7 +496,7 @@ template <class T> int8_t TimeSeries<T>::copyValueRange(T* buf, const uint32_t C
     if (COUNT > 0) {
       ret--;
       if (_samples_total >= (COUNT + OFFSET)) {  // Do so many samples exist?
-        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - (COUNT+1)));
+        const uint32_t PRE_MOD_IDX = (ABS_IDX ? OFFSET : ((windowSize() + OFFSET + _sample_idx) - COUNT));
         markClean();  // Do this here (specifically) to minimize concurrency grief.
         // TODO: Inefficient for the sake of expediency. Should be a split copy
         //   and a single modulus operation.
-- 
2.43.0


From f65a165b6366290234d07f1dac91839e7e98eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 062/164] fix: conversions to DOUBLE were rounded to float
 where literals are single-precision

---
 src/C3PValue/C3PType.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 63df25d..9a1e519 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -522,7 +522,7 @@ template <> int8_t      C3PTypeConstraint<int8_t>::get_as(void* src, const TCode
       break;
     case TCode::BOOLEAN:    *((bool*) dest) = (0 != s);         return 0;
     case TCode::FLOAT:      *((float*) dest) = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -666,7 +666,7 @@ template <> int8_t      C3PTypeConstraint<int16_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -811,7 +811,7 @@ template <> int8_t      C3PTypeConstraint<int32_t>::get_as(void* src, const TCod
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);       return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);     return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);     return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);     return 0;
     default:  break;
   }
   return -1;
@@ -955,7 +955,7 @@ template <> int8_t      C3PTypeConstraint<int64_t>::get_as(void* src, const TCod
       }
       break;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1084,7 +1084,7 @@ template <> int8_t      C3PTypeConstraint<uint8_t>::get_as(void* src, const TCod
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1218,7 +1218,7 @@ template <> int8_t      C3PTypeConstraint<uint16_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1358,7 +1358,7 @@ template <> int8_t      C3PTypeConstraint<uint32_t>::get_as(void* src, const TCo
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;  return 0;
     case TCode::BOOLEAN:    *((bool*) dest)   = (0 != s);        return 0;
     case TCode::FLOAT:      *((float*) dest)  = (s * 1.0F);      return 0;
-    case TCode::DOUBLE:     *((double*) dest) = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest) = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1510,7 +1510,7 @@ template <> int8_t      C3PTypeConstraint<uint64_t>::get_as(void* src, const TCo
       break;
     case TCode::UINT64:     *((uint64_t*) dest) = (uint64_t) s;    return 0;
     case TCode::BOOLEAN:    *((bool*) dest)     = (0 != s);        return 0;
-    case TCode::DOUBLE:     *((double*) dest)   = (s * 1.0D);      return 0;
+    case TCode::DOUBLE:     *((double*) dest)   = ((double) s);      return 0;
     default:  break;
   }
   return -1;
@@ -1696,7 +1696,7 @@ template <> int8_t      C3PTypeConstraint<float>::get_as(void* src, const TCode
     case TCode::FLOAT:      memcpy(dest, src, FIXED_LEN);  return 0;
     case TCode::DOUBLE:
       {
-        double s_d = (1.0d * _load_from_mem(src));
+        double s_d = ((double) _load_from_mem(src));
         memcpy(dest, (void*) &s_d, sizeOfType(TCode::DOUBLE));
       }
       return 0;
@@ -1762,20 +1762,20 @@ template <> int8_t      C3PTypeConstraint<double>::set_from(void* dest, const TC
   int8_t ret = -1;
   double d = 0.0d;
   switch (SRC_TYPE) {
-    case TCode::INT8:     d = (1.0d * *((int8_t*) src));        ret = 0;   break;
-    case TCode::INT16:    d = (1.0d * *((int16_t*) src));       ret = 0;   break;
-    case TCode::INT32:    d = (1.0d * *((int32_t*) src));       ret = 0;   break;
-    case TCode::INT64:    d = (1.0d * *((int64_t*) src));       ret = 0;   break;
-    case TCode::UINT8:    d = (1.0d * *((uint8_t*) src));       ret = 0;   break;
-    case TCode::UINT16:   d = (1.0d * *((uint16_t*) src));      ret = 0;   break;
-    case TCode::UINT32:   d = (1.0d * *((uint32_t*) src));      ret = 0;   break;
-    case TCode::UINT64:   d = (1.0d * *((uint64_t*) src));      ret = 0;   break;
+    case TCode::INT8:     d = ((double) *((int8_t*) src));        ret = 0;   break;
+    case TCode::INT16:    d = ((double) *((int16_t*) src));       ret = 0;   break;
+    case TCode::INT32:    d = ((double) *((int32_t*) src));       ret = 0;   break;
+    case TCode::INT64:    d = ((double) *((int64_t*) src));       ret = 0;   break;
+    case TCode::UINT8:    d = ((double) *((uint8_t*) src));       ret = 0;   break;
+    case TCode::UINT16:   d = ((double) *((uint16_t*) src));      ret = 0;   break;
+    case TCode::UINT32:   d = ((double) *((uint32_t*) src));      ret = 0;   break;
+    case TCode::UINT64:   d = ((double) *((uint64_t*) src));      ret = 0;   break;
     case TCode::BOOLEAN:  d = (*((bool*) src) ? 1.0d : 0.0d);   ret = 0;   break;
     case TCode::FLOAT:
       {
         float s = 0.0f;
         memcpy((void*) &s, src, sizeOfType(TCode::FLOAT));
-        d = (1.0d * *((float*) src));
+        d = ((double) *((float*) src));
         ret = 0;
       }
       break;
-- 
2.43.0


From eb8a5335e63467c4f997764aeb6a829ebbc05e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 063/164] fix: C3PValueDecoder took strings of reserved and
 indefinite length for empty ones

---
 src/C3PValue/C3PValue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 12a0acc..6c163cc 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -850,6 +850,9 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
         }
         else {
           c3p_log(LOG_LEV_WARN, LOCAL_LOG_TAG, "Invalid MAJ/MIN combination (0x%02x/0x%02x)", MAJORTYPE, MINORTYPE);
+          if (7 != MAJORTYPE) {
+            return nullptr;   // There is no length to be had.
+          }
         }
         break;
     }
-- 
2.43.0


From e8b6232148a5bc5c7933a277e93c3517ea08372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 064/164] fix: KeyValuePair::serialize() wrote a malformed map,
 and reported success, if a value could not be serialized

---
 src/C3PValue/KeyValuePair.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index b82868b..fcdb56b 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -263,6 +263,7 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
     case TCode::CBOR:
       {
         uint32_t kvp_count = 0;
+        bool     failed    = false;
         cbor::output_stringbuilder output(&local_output);
         cbor::encoder local_encoder(output);
         while (nullptr != src) {
@@ -270,9 +271,16 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           if (nullptr != t_helper) {
             char* tmp_key = src->getKey();
             if ((nullptr != tmp_key) && (strlen(tmp_key) > 0)) {
-              local_encoder.write_string(tmp_key);
-              ret = t_helper->serialize(src->_type_pun_get(), &local_output, FORMAT);
-              kvp_count++;
+              // A key without a value would ruin the map.
+              StringBuilder local_value;
+              if (0 == t_helper->serialize(src->_type_pun_get(), &local_value, FORMAT)) {
+                local_encoder.write_string(tmp_key);
+                local_output.concatHandoff(&local_value);
+                kvp_count++;
+              }
+              else {
+                failed = true;
+              }
             }
             else {
               // Peacefully ignore KVPs without keys.
@@ -280,7 +288,12 @@ int8_t KeyValuePair::serialize(StringBuilder* out, const TCode FORMAT) {
           }
           src = src->_next_sib_with_key();
         }
-        if (kvp_count > 0) {
+        if (failed) {
+          local_output.clear();
+          ret = -2;
+        }
+        else if (kvp_count > 0) {
+          ret = 0;
           cbor::output_stringbuilder top_output(out);
           cbor::encoder top_encoder(top_output);
           top_encoder.write_map(kvp_count);  // This is a map.
-- 
2.43.0


From bbcb4bbe3ac1bc49f1282945c1a54fadd2ccdd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 065/164] fix: Image::deserialize() did not read what
 Image::serialize() writes

---
 src/Image/Image.cpp | 51 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index d59501c..ad72999 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -703,32 +703,31 @@ int8_t Image::serializeWithoutBuffer(uint8_t* buf, uint32_t* len) {
 */
 int8_t Image::deserialize(uint8_t* buf, uint32_t len) {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) {
-    // TODO: This is awful, and will absolutely wreck someone later.
-    //   Shunt this responsibility to C3PType.
-    const uint8_t PIX_AND_FMT_LEN = (sizeof(PixUInt) + 1);
-    if (len > PIX_AND_FMT_LEN) {
-      #if(9 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = (PixUInt) *(buf + 0);
-        PixUInt temp_y = (PixUInt) *(buf + 1);
-      #elif(17 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 8) | ((PixUInt) *(buf + 1));
-        PixUInt temp_y = ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-      #elif(33 > CONFIG_C3P_IMG_COORD_BITS)
-        PixUInt temp_x = ((PixUInt) *(buf + 0) << 24) | ((PixUInt) *(buf + 1) << 16) | ((PixUInt) *(buf + 2) << 8) | ((PixUInt) *(buf + 3));
-        PixUInt temp_y = ((PixUInt) *(buf + 4) << 24) | ((PixUInt) *(buf + 5) << 16) | ((PixUInt) *(buf + 6) << 8) | ((PixUInt) *(buf + 7));
-      #else
-        #error Integers for holding pixel addresses cannot be larger than 32-bit.
-      #endif
-      ImgBufferFormat temp_fmt = (ImgBufferFormat) *(buf + (PIX_AND_FMT_LEN-1));
-      uint32_t temp_f = *(buf + PIX_AND_FMT_LEN);
-      uint32_t proposed_size = (_bits_per_pixel(temp_fmt) * temp_x * temp_y) >> 3;
-      if (proposed_size == (len - (PIX_AND_FMT_LEN+1))) {
-        // The derived and declared sizes match.
-        _x = temp_x;
-        _y = temp_y;
-        _buf_fmt  = temp_fmt;
-        _imgflags = temp_f;
-        return setBufferByCopy(buf + (PIX_AND_FMT_LEN+1)) ? 0 : -2;
+    // The serialized form has 32-bit dimensions, regardless of the configured
+    //   size of pixel addresses. See serialize().
+    // TODO: Shunt this responsibility to C3PType.
+    const uint32_t HEADER_LEN = 10;
+    if (len > HEADER_LEN) {
+      const uint32_t TEMP_X = ((uint32_t) *(buf + 0) << 24) | ((uint32_t) *(buf + 1) << 16) | ((uint32_t) *(buf + 2) << 8) | ((uint32_t) *(buf + 3));
+      const uint32_t TEMP_Y = ((uint32_t) *(buf + 4) << 24) | ((uint32_t) *(buf + 5) << 16) | ((uint32_t) *(buf + 6) << 8) | ((uint32_t) *(buf + 7));
+      const ImgBufferFormat TEMP_FMT = (ImgBufferFormat) *(buf + 8);
+      const uint8_t  BPP = _bits_per_pixel(TEMP_FMT);
+      const uint64_t PAYLOAD_LEN = (len - HEADER_LEN);
+      // Dimensions that don't fit a pixel address can't be held. The limit on the
+      //   pixel count (a pixel is never smaller than one bit) avoids overflows.
+      const bool DIMS_OK  = (((PixUInt) TEMP_X) == TEMP_X) && (((PixUInt) TEMP_Y) == TEMP_Y);
+      const uint64_t PIXEL_COUNT = ((uint64_t) TEMP_X * (uint64_t) TEMP_Y);
+      if (DIMS_OK && (0 < BPP) && (PIXEL_COUNT <= (PAYLOAD_LEN * 8))) {
+        if ((((PIXEL_COUNT * BPP) + 7) >> 3) == PAYLOAD_LEN) {
+          // The derived and declared sizes match. The flags about the buffer
+          //   describe the memory of the Image that was serialized, and not ours.
+          const uint8_t FLAGS_NOT_CARRIED = (C3P_IMG_FLAG_BUFFER_OURS | C3P_IMG_FLAG_BUFFER_LOCKED);
+          _x = TEMP_X;
+          _y = TEMP_Y;
+          _buf_fmt  = TEMP_FMT;
+          _imgflags = ((_imgflags & FLAGS_NOT_CARRIED) | (*(buf + 9) & ~FLAGS_NOT_CARRIED));
+          return setBufferByCopy(buf + HEADER_LEN) ? 0 : -2;
+        }
       }
     }
   }
-- 
2.43.0


From 8348c1467523681cdd4f9f4fc6fe93852bbd5fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 066/164] fix: A C3PValue could not hold an Image, and
 serialized one as two CBOR items

---
 src/C3PValue/C3PType.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 9a1e519..000f99e 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2868,6 +2868,7 @@ template <> void        C3PTypeConstraint<Image*>::to_string(void* obj, StringBu
 
 template <> int8_t      C3PTypeConstraint<Image*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
   switch (SRC_TYPE) {
+    case TCode::IMAGE:       *((uint8_t**) dest) = ((uint8_t*) src);         return 0;
     default:  break;
   }
   return -1;
@@ -2875,6 +2876,7 @@ template <> int8_t      C3PTypeConstraint<Image*>::set_from(void* dest, const TC
 
 template <> int8_t      C3PTypeConstraint<Image*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
+    case TCode::IMAGE:       *((uint8_t**) dest) = ((uint8_t*) src);        return 0;
     default:  break;
   }
   return -1;
@@ -2898,10 +2900,15 @@ template <> int         C3PTypeConstraint<Image*>::serialize(void* obj, StringBu
           if (0 == img->serializeWithoutBuffer(intermediary, &nb_buf)) {
             cbor::output_stringbuilder output(out);
             cbor::encoder encoder(output);
-            encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
-            encoder.write_bytes(intermediary, nb_buf);   // TODO: This might cause two discrete CBOR objects.
-            encoder.write_bytes(img->buffer(), sz_buf);
-            ret = 0;   // TODO: Safe SB API.
+            // The header and the buffer have to be a single byte string. Anything
+            //   else would be two CBOR items.
+            StringBuilder payload(intermediary, (int) nb_buf);
+            payload.concat(img->buffer(), (int) sz_buf);
+            if ((int) (nb_buf + sz_buf) == payload.length()) {
+              encoder.write_tag(C3P_CBOR_VENDOR_CODE | TcodeToInt(TCODE));
+              encoder.write_bytes(payload.string(), (nb_buf + sz_buf));
+              ret = 0;   // TODO: Safe SB API.
+            }
           }
         }
       }
-- 
2.43.0


From 55625d317dbf597f15877f80534951af4459875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 067/164] fix: Values that were inflated from CBOR into objects
 were leaked

---
 src/C3PValue/KeyValuePair.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index fcdb56b..5fb1a27 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -550,6 +550,7 @@ void CBORArgListener::on_extra_special(unsigned long long tag) {}
 
 KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const TCode TC) {
   KeyValuePair* ret = nullptr;
+  bool must_reap = false;
   if (typeIsFixedLength(TC)) {
     if (size != sizeOfType(TC)) {
       return ret;
@@ -646,6 +647,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         KeyValuePair* tmp = KeyValuePair::unserialize(data, size, TCode::CBOR);
         if (tmp) {
           ret = new KeyValuePair(tmp);
+          must_reap = true;
         }
       }
       break;
@@ -668,10 +670,13 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
         {
           Image* tmp = new Image();
           if (tmp) {
-            tmp->deserialize(data, size);
-            if (tmp->allocated()) {
+            if (0 == tmp->deserialize(data, size)) {
+              ret = new KeyValuePair(tmp);
+              must_reap = true;
+            }
+            else {
+              delete tmp;
             }
-            ret = new KeyValuePair(tmp);
           }
         }
         break;
@@ -686,7 +691,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
   // If we can't fit the value into the KVP class, it means we new'd it.
   if (nullptr != ret) {
     ret->reapContainer(true);
-    ret->reapValue(!typeIsPointerPunned(TC));
+    ret->reapValue(must_reap || !typeIsPointerPunned(TC));
   }
   return ret;
 }
-- 
2.43.0


From e3f81cfbc4676365c6c69c415bb895121870ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 068/164] fix: C3PValueDecoder's test for sufficient input
 overflowed, given lengths near UINT64_MAX

---
 src/C3PValue/C3PValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 6c163cc..ca6f2bf 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -860,7 +860,7 @@ C3PValue* C3PValueDecoder::_next(uint32_t* offset) {
 
     // For types that observe _length_extra, they will generally also want to
     //   know if there are enough bytes to satisfy the parse.
-    const bool HAVE_EXTRA_LEN = (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + _length_extra));
+    const bool HAVE_EXTRA_LEN = ((INPUT_LEN >= local_offset) && (_length_extra <= ((uint64_t) (INPUT_LEN - local_offset))));
 
     // Second pass. Form a return object, if possible.
     switch (MAJORTYPE) {
@@ -1063,7 +1063,7 @@ C3PValue* C3PValueDecoder::_handle_map(uint32_t* offset, uint32_t count) {
       uint64_t len_key64 = 0;
       if (_get_length_field(&local_offset, &len_key64, MINOR)) {
         len_key = (uint32_t) len_key64;
-        if (((uint64_t) INPUT_LEN) >= (((uint64_t) local_offset) + len_key64 + 1)) {  // +1 for the value byte.
+        if ((INPUT_LEN > local_offset) && (len_key64 < ((uint64_t) (INPUT_LEN - local_offset)))) {  // Strictly less: +1 for the value byte.
           uint8_t buf_key[len_key+1];
           *(buf_key + len_key) = '\0';
           if ((0 == len_key) || ((int32_t) len_key == _in->copyToBuffer(buf_key, len_key, local_offset))) {
-- 
2.43.0


From cd766263d183f25b461307733cb10f8c38d77932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 069/164] fix: A value decoded under a CBOR tag referred to
 memory that had been freed

---
 src/C3PValue/C3PValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index ca6f2bf..1d0736d 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -1203,7 +1203,7 @@ C3PValue* C3PValueDecoder::_handle_tag(uint32_t* offset, C3PType* t_helper) {
         ret = new C3PValue(t_helper->TCODE, nullptr, MEM_FLGS);
         if (nullptr != ret) {
           if (0 == ret->set(inner_tagged_val)) {
-            if (ret->tcode() == inner_tagged_val->tcode()) {
+            if ((ret->tcode() == inner_tagged_val->tcode()) || (ret->is_ptr_len() && inner_tagged_val->is_ptr_len())) {
               // Anything taken by reference will be owned by the new value.
               ret->reapValue(inner_tagged_val->reapValue());
               inner_tagged_val->reapValue(false);
-- 
2.43.0


From a94ae86c04f02db0136b6d5f3f78b79a647d357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 070/164] fix: purging a SensorFilter left its position, and a
 SensorFilter3 full

---
 src/TimeSeries/SensorFilter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2b0d1c2..0b7fb86 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -318,6 +318,7 @@ template <class T> int8_t SensorFilter<T>::_reallocate_sample_window(uint32_t wi
 template <class T> int8_t SensorFilter<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
   last_value = T(0);
   min_value  = T(0);
   max_value  = T(0);
@@ -654,7 +655,12 @@ template <class T> int8_t SensorFilter3<T>::_reallocate_sample_window(uint32_t w
 template <class T> int8_t SensorFilter3<T>::_zero_samples() {
   int8_t ret = -1;
   _samples_total = 0;
+  _sample_idx    = 0;
+  invalidateStats();
+  _window_full   = false;
   last_value(T(0), T(0), T(0));
+  min_value(T(0), T(0), T(0));
+  max_value(T(0), T(0), T(0));
   _mean(T(0), T(0), T(0));
   _rms(T(0), T(0), T(0));
   _stdev(T(0), T(0), T(0));
-- 
2.43.0


From 23ebed449037639806147966b1e3b7d58fd2e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 071/164] fix: a SensorFilter with a window of one never took
 its sample

---
 src/TimeSeries/SensorFilter.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 0b7fb86..f0715ef 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -420,6 +420,8 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
       }
     }
     else {   // This is a null filter with extra steps.
+      if (nullptr != samples) {  samples[0] = val;  }
+      _samples_total++;
       last_value = val;
       _window_full = true;
       ret = 1;
@@ -782,6 +784,9 @@ template <class T> int8_t SensorFilter3<T>::feedFilter(T x, T y, T z) {
       }
     }
     else {   // This is a null filter with extra steps.
+      if (nullptr != samples) {  samples[0](x, y, z);  }
+      _samples_total++;
+      _window_full = true;
       last_value(x, y, z);
       ret = 1;
     }
-- 
2.43.0


From c8b80cfd8c4377e68e81d60bce74cda226883819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 072/164] fix: statistics of a SensorFilter with a window of
 zero dereferenced null

---
 src/TimeSeries/SensorFilter.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index f0715ef..b243643 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -456,7 +456,7 @@ template <class T> T SensorFilter<T>::value() {
 * Updates the private cache variable.
 */
 template <class T> void SensorFilter<T>::_calculate_minmax() {
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     min_value = samples[0];   // Start with a baseline.
     max_value = samples[0];   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -475,7 +475,7 @@ template <class T> void SensorFilter<T>::_calculate_minmax() {
 * @return the mean of the contents of the filter.
 */
 template <class T> double SensorFilter<T>::_calculate_mean() {
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     double summed_samples = 0.0;
     for (uint32_t i = 0; i < _window_size; i++) {
       summed_samples += (double) samples[i];
@@ -533,8 +533,9 @@ template <class T> double SensorFilter<T>::_calculate_stdev() {
 * @return the median of the contents of the filter.
 */
 template <class T> T SensorFilter<T>::_calculate_median() {
-  T sorted[_window_size];
   T ret = T(0);
+  if ((0 == _window_size) || (nullptr == samples)) {  return ret;  }
+  T sorted[_window_size];
   for (uint32_t i = 0; i < _window_size; i++) {
     sorted[i] = samples[i];
   }
@@ -821,7 +822,7 @@ template <class T> Vector3<T>* SensorFilter3<T>::value() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_minmax() {
   int8_t ret = -1;
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     Vector3<T> tmp_min(&samples[0]);   // Start with a baseline.
     Vector3<T> tmp_max(&samples[0]);   // Start with a baseline.
     for (uint32_t i = 1; i < _window_size; i++) {
@@ -845,7 +846,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_minmax() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_mean() {
   int8_t ret = -1;
-  if (_filter_initd && _window_full) {
+  if ((_window_size > 0) && _filter_initd && _window_full) {
     Vector3f64 summed_samples;
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 tmp((double) samples[i].x, (double) samples[i].y, (double) samples[i].z);
-- 
2.43.0


From be01031ddbf1b78d59b2740039e52580d3929011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 073/164] fix: SensorFilter3 took the RMS and deviation of
 windows that weren't full, and kept them

---
 src/TimeSeries/SensorFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index b243643..2095089 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -873,7 +873,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_mean() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_rms() {
   int8_t ret = -1;
-  if (windowSize() > 0) {
+  if ((windowSize() > 0) && _window_full) {
     Vector3f64 squared_samples;
     for (uint32_t i = 0; i < _window_size; i++) {
       Vector3f64 tmp((double) samples[i].x, (double) samples[i].y, (double) samples[i].z);
@@ -904,7 +904,7 @@ template <class T> int8_t SensorFilter3<T>::_calculate_rms() {
 */
 template <class T> int8_t SensorFilter3<T>::_calculate_stdev() {
   int8_t ret = -1;
-  if ((_window_size > 1) && (nullptr != samples)) {
+  if ((_window_size > 1) && (nullptr != samples) && _window_full) {
     Vector3f64 deviation_sum;
     if (_stale_mean) _calculate_mean();
     for (uint32_t i = 0; i < _window_size; i++) {
-- 
2.43.0


From 3a9aa6edb9a36226a0516328b39419665c714a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 074/164] fix: the moving average of negative integers in a
 SensorFilter was computed unsigned

---
 src/TimeSeries/SensorFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index 2095089..eae4712 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -410,7 +410,8 @@ template <class T> int8_t SensorFilter<T>::feedFilter(T val) {
             break;
           case FilteringStrategy::MOVING_AVG:
             // Calculate the moving average...
-            last_value = ((last_value * (_window_size-1)) + val) / _window_size;
+            // NOTE: As double. The window size would make negative integers unsigned.
+            last_value = (T) ((((double) last_value * (_window_size-1)) + (double) val) / _window_size);
             break;
           case FilteringStrategy::MOVING_MED:
             // Calculate the moving median...
-- 
2.43.0


From 80532c7629b897966b2bf3b52166d3549309cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:43 +0000
Subject: [PATCH 075/164] fix: the median of a SensorFilter overflowed for
 large samples

---
 src/TimeSeries/SensorFilter.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/TimeSeries/SensorFilter.h b/src/TimeSeries/SensorFilter.h
index eae4712..7bb12c2 100644
--- a/src/TimeSeries/SensorFilter.h
+++ b/src/TimeSeries/SensorFilter.h
@@ -563,7 +563,16 @@ template <class T> T SensorFilter<T>::_calculate_median() {
     // ...otherwise, we take the mean to the two middle values.
     uint32_t lower = (_window_size-1) >> 1;
     uint32_t upper = lower + 1;
-    ret = (sorted[upper] + sorted[lower]) / 2;
+    //   Take care not to overflow T.
+    if ((sorted[lower] < T(0)) && (sorted[upper] >= T(0))) {
+      ret = (sorted[upper] + sorted[lower]) / 2;
+    }
+    else if (sorted[lower] < T(0)) {
+      ret = sorted[upper] - ((sorted[upper] - sorted[lower]) / 2);
+    }
+    else {
+      ret = sorted[lower] + ((sorted[upper] - sorted[lower]) / 2);
+    }
   }
   return ret;
 }
-- 
2.43.0


From 048ce7266ed8653a86303bb91f01e9749e255caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 076/164] fix: C3PType deleted a TimeSeries as an incomplete
 type, without destroying it

---
 src/C3PValue/C3PType.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 000f99e..05b7838 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -28,6 +28,7 @@ This file contains the implementation of type constraints for our wrapped types.
 #include "KeyValuePair.h"
 #include "../StringBuilder.h"
 #include "../TimerTools/TimerTools.h"
+#include "../TimeSeries/TimeSeries.h"   // Values of this type are deleted here.
 
 /* CBOR support should probably be required to parse/pack. */
 #if defined(CONFIG_C3P_CBOR)
-- 
2.43.0


From 17c73c452c1fe18feb7f4823136c23178ef16123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 077/164] fix: BufferAccepterFork dereferenced a null buffer

Every other BufferAccepter in the library rejects it.
---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index deff6d9..5fbda0b 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -59,7 +59,7 @@ int32_t StringBuilderSink::bufferAvailable() {
 
 int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
-  const int32_t BYTES_OFFERED = buf->length();
+  const int32_t BYTES_OFFERED = ((nullptr != buf) ? buf->length() : 0);
   const int32_t BYTES_TO_TAKE = strict_min(bufferAvailable(), BYTES_OFFERED);
   if (0 < BYTES_TO_TAKE) {
     // We could be risky at this point, but we do a pedantic deep-copy instead.
-- 
2.43.0


From 34ec3858a889771ceb551686d716c744504c4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 078/164] fix: BufferAccepterFork lost track of which hand was
 ahead

The drift was computed with its sign inverted. After one hand took more than
the other, the next push to it began before the start of the buffer.
---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index 5fbda0b..dbfc6e3 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -66,8 +66,9 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     // Note the drift distance for each side of the fork.
     const int32_t LEFT_OFFER_LEN  = (BYTES_TO_TAKE - _left_drift);
     const int32_t RIGHT_OFFER_LEN = (BYTES_TO_TAKE - _right_drift);
-    int32_t left_range_covered  = BYTES_TO_TAKE;
-    int32_t right_range_covered = BYTES_TO_TAKE;
+    // A hand that already has everything on offer covers what it has been given.
+    int32_t left_range_covered  = strict_max(BYTES_TO_TAKE, _left_drift);
+    int32_t right_range_covered = strict_max(BYTES_TO_TAKE, _right_drift);
     if ((nullptr != _left_hand) & (LEFT_OFFER_LEN > 0)) {
       StringBuilder deep_copy(buf->string() + _left_drift, LEFT_OFFER_LEN);
       _left_hand->pushBuffer(&deep_copy);
@@ -78,10 +79,10 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
       _right_hand->pushBuffer(&deep_copy);
       right_range_covered -= deep_copy.length();
     }
-    const int32_t TOTAL_TAKEN = strict_min(left_range_covered, right_range_covered);
-    buf->cull(TOTAL_TAKEN);
-    _left_drift  = (TOTAL_TAKEN - left_range_covered);
-    _right_drift = (TOTAL_TAKEN - right_range_covered);
+    const int32_t TOTAL_TAKEN = strict_min(BYTES_TO_TAKE, strict_min(left_range_covered, right_range_covered));
+    if (TOTAL_TAKEN > 0) {  buf->cull(TOTAL_TAKEN);  }
+    _left_drift  = (left_range_covered - TOTAL_TAKEN);
+    _right_drift = (right_range_covered - TOTAL_TAKEN);
 
     ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
   }
-- 
2.43.0


From 4eedd60c0c5ab94f3383089ae767c8c855e134ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:38 +0000
Subject: [PATCH 079/164] fix: BufferAccepterFork returned 0 after claiming
 nothing

The contract is that a push that takes nothing returns -1.
---
 src/Pipes/BufferAccepter/BufferAccepter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/BufferAccepter.cpp b/src/Pipes/BufferAccepter/BufferAccepter.cpp
index dbfc6e3..0217bfa 100644
--- a/src/Pipes/BufferAccepter/BufferAccepter.cpp
+++ b/src/Pipes/BufferAccepter/BufferAccepter.cpp
@@ -84,7 +84,9 @@ int8_t BufferAccepterFork::pushBuffer(StringBuilder* buf) {
     _left_drift  = (left_range_covered - TOTAL_TAKEN);
     _right_drift = (right_range_covered - TOTAL_TAKEN);
 
-    ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    if (TOTAL_TAKEN > 0) {
+      ret = (BYTES_OFFERED == TOTAL_TAKEN) ? 1 : 0;
+    }
   }
   return ret;
 }
-- 
2.43.0


From 355bdd99ebe35415993b6cc39e7efdd24761a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 080/164] fix: Base64 lost the output that didn't fit
 downstream

The scaling of the space downstream was wrong (and inverted), and what the
efferant did with the output was ignored. So a push could be claimed while its
encoding (or decoding) was truncated or refused.
---
 src/Pipes/BufferAccepter/Base64/C3P_B64.cpp | 54 +++++++++++----------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
index 9decb13..9a5e92b 100644
--- a/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
+++ b/src/Pipes/BufferAccepter/Base64/C3P_B64.cpp
@@ -40,11 +40,6 @@ I have reproduced his original commentary, where it still applies. And may have
 
 #include "C3P_B64.h"
 
-// TODO: These are wrong. Calulate the real values once it works.
-#define BASE64_DECODE_SCALING_FACTOR 0.8
-#define BASE64_ENCODE_SCALING_FACTOR 1.2
-
-
 /*******************************************************************************
 *      _______.___________.    ___   .___________. __    ______     _______.
 *     /       |           |   /   \  |           ||  |  /      |   /       |
@@ -128,18 +123,19 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
   if (nullptr != _efferant) {
     const int32_t PUSH_LEN      = ((nullptr != buf) ? buf->length() : 0);
-    const int32_t AVAILABLE_LEN = bufferAvailable();
+    const int32_t AVAILABLE_LEN = _efferant->bufferAvailable();
     const int32_t TAKE_LEN      = ((0 == _input_length) ? PUSH_LEN : _input_length);
+    // Each triplet of bytes (and any remainder) becomes four characters.
+    const int32_t TRIPLETS      = ((TAKE_LEN / 3) + ((TAKE_LEN % 3) ? 1 : 0));
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
       // If the pushed length is more than 0, and at least the size we need, make
       //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
+      if (TRIPLETS <= (AVAILABLE_LEN / 4)) {
         // Take the bytes, and transform them.
         StringBuilder tmp_src;
         StringBuilder tmp_dest;
         tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _encode(&tmp_src, &tmp_dest)) {
-          _efferant->pushBuffer(&tmp_dest);
+        if ((0 == _encode(&tmp_src, &tmp_dest)) && (-1 != _efferant->pushBuffer(&tmp_dest))) {
           ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
         }
         else {
@@ -155,7 +151,8 @@ int8_t Base64Encoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Encoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_ENCODE_SCALING_FACTOR;
+    // Four characters are needed to represent three bytes.
+    ret = strict_max((int32_t) 0, (_efferant->bufferAvailable() / 4)) * 3;
   }
   return ret;
 }
@@ -345,24 +342,28 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
   int8_t ret = -1;
   if (nullptr != _efferant) {
     const int32_t PUSH_LEN      = ((nullptr != buf) ? buf->length() : 0);
-    const int32_t AVAILABLE_LEN = bufferAvailable();
+    const int32_t AVAILABLE_LEN = _efferant->bufferAvailable();
     const int32_t TAKE_LEN      = ((0 == _input_length) ? PUSH_LEN : _input_length);
     if ((TAKE_LEN > 0) && (TAKE_LEN <= PUSH_LEN)) {
-      // If the pushed length is more than 0, and at least the size we need, make
-      //   sure we'll have space for the result.
-      if (TAKE_LEN < AVAILABLE_LEN) {
-        // Take the bytes, and transform them.
-        StringBuilder tmp_src;
-        StringBuilder tmp_dest;
-        tmp_src.concatHandoffLimit(buf, TAKE_LEN);
-        if (0 == _decode(&tmp_src, &tmp_dest)) {
-          _efferant->pushBuffer(&tmp_dest);
-          ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
-        }
-        else {
-          buf->prependHandoff(&tmp_src);
+      // The pushed length is more than 0, and at least the size we need. Take the
+      //   bytes, and transform them.
+      bool claimed = false;
+      StringBuilder tmp_src;
+      StringBuilder tmp_dest;
+      tmp_src.concatHandoffLimit(buf, TAKE_LEN);
+      if (0 == _decode(&tmp_src, &tmp_dest)) {
+        // The length of the result depends on the padding. Only push it if there
+        //   is space for it.
+        if (tmp_dest.length() <= AVAILABLE_LEN) {
+          claimed = (-1 != _efferant->pushBuffer(&tmp_dest));
         }
       }
+      if (claimed) {
+        ret = (PUSH_LEN == TAKE_LEN) ? 1 : 0;
+      }
+      else {
+        buf->prependHandoff(&tmp_src);
+      }
     }
   }
   return ret;
@@ -372,7 +373,10 @@ int8_t Base64Decoder::pushBuffer(StringBuilder* buf) {
 int32_t Base64Decoder::bufferAvailable() {
   int32_t ret = 0;
   if (nullptr != _efferant) {
-    ret = _efferant->bufferAvailable() * BASE64_DECODE_SCALING_FACTOR;
+    // Four characters will never become more than three bytes.
+    const int32_t MAX_QUADS = (INT32_MAX / 4);
+    const int32_t QUADS     = (_efferant->bufferAvailable() / 3);
+    ret = strict_max((int32_t) 0, strict_min(MAX_QUADS, QUADS)) * 4;
   }
   return ret;
 }
-- 
2.43.0


From a3e9b40f94a669aaa12fbed970980f0f83c7dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 081/164] fix: C3PTypePipeSink returned 0 (or 1) after claiming
 nothing

The contract is that a push that takes nothing returns -1. Also reject a null
buffer, and keep byteCount() (which was never updated).
---
 src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
index ffcefcd..83bb74f 100644
--- a/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
+++ b/src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp
@@ -128,7 +128,7 @@ C3PTypePipeSink::~C3PTypePipeSink() {
 int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
   int8_t ret = -1;
   C3PValue* val_to_emit = nullptr;
-  if (nullptr != _value_cb) {
+  if ((nullptr != _value_cb) & (nullptr != incoming)) {
     const uint32_t INCOMING_LEN = incoming->length();
     const uint32_t SAFE_LEN     = strict_min(_MAX_BUFFER, INCOMING_LEN);
     do {
@@ -142,9 +142,13 @@ int8_t C3PTypePipeSink::pushBuffer(StringBuilder* incoming) {
         incoming->prependHandoff(&tmp_stbldr);
       }
     } while (nullptr != val_to_emit);
-    return (incoming->isEmpty(true) ? 1: 0);
+    const uint32_t CLAIMED_LEN = (INCOMING_LEN - (uint32_t) incoming->length());
+    if (CLAIMED_LEN > 0) {
+      _byte_count += CLAIMED_LEN;
+      ret = (incoming->isEmpty(true) ? 1: 0);
+    }
   }
-  return -1;
+  return ret;
 }
 
 
-- 
2.43.0


From be983e82b7b5a7f1c207cefa8e33eaee29c8a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 082/164] fix: TripleAxisTerminus reported failure for every
 vector it took

pushVector() is documented to return 0 on success. Forks and other upstream
stages act on it.
---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 3c9906b..318a6ce 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -183,6 +183,7 @@ int8_t TripleAxisTerminus::getDataWithErr(Vector3f* d, Vector3f* e, uint32_t* c)
 FAST_FUNC int8_t TripleAxisTerminus::pushVector(const SpatialSense s, Vector3f* data, Vector3f* error) {
   int8_t ret = -1;
   if (_SENSE == s) {
+    ret = 0;
     _last_update = millis();
     _update_count++;
     _DATA.set(data);
-- 
2.43.0


From 98128b1a290b753a13642fac97ff0eea0f811b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 083/164] fix: TripleAxisSingleFilter dereferenced null

Both the error figure and the next stage are optional. A vector without an
error figure was a crash, as was one of another sense with nothing downstream.
The return code of a relay is the one from downstream, and an error figure
isn't reported downstream if there isn't one.
---
 src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
index 318a6ce..5abea1e 100644
--- a/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
+++ b/src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp
@@ -271,7 +271,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
   if (initialized()) {
     ret = -1;
     if (_SENSE == s) {
-      Vector3f tmp_err(error);
+      Vector3f tmp_err;
+      if (nullptr != error) {  tmp_err.set(error);  }
       ret = 0;
       switch (feedFilter(data)) {
         case 0:    // Value accepted into filter. No new result.
@@ -307,7 +308,7 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
           if (nullptr != _NXT) {
             // If the vector was pushed downstream, we consider it noted. If it
             //   was rejected, we leave the class marked dirty.
-            _filter_dirty = (0 > _NXT->pushVector(s, value(), &_ERR));
+            _filter_dirty = (0 > _NXT->pushVector(s, value(), (_has_error ? &_ERR : nullptr)));
           }
           break;
         default:   // Catch-all error case. Should never happen with the earlier init().
@@ -317,8 +318,8 @@ FAST_FUNC int8_t TripleAxisSingleFilter::pushVector(const SpatialSense s, Vector
     }
     else {
       // We blindly relay vectors of SpatialSense's we aren't configured for.
-      if (0 == _NXT->pushVector(s, data, error)) {
-        ret = -5;
+      if (nullptr != _NXT) {
+        ret = _NXT->pushVector(s, data, error);
       }
     }
   }
-- 
2.43.0


From 88c6da91783e223ac1c1594a1732f7668e31b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 084/164] fix: concatf(fmt, char*) used the string as a va_list

Where va_list is a char* (as it is on x86-32, the platform of the unit tests), a
call with a single argument of type char* was resolved to the overload that
takes a va_list, and the string's content was used as the arguments. Many
printPipe() functions (and the console's history) crashed. Overloads can't tell
the two apart, so the va_list form has a name of its own.
---
 src/AbstractPlatform.cpp | 2 +-
 src/StringBuilder.cpp    | 4 ++--
 src/StringBuilder.h      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AbstractPlatform.cpp b/src/AbstractPlatform.cpp
index 79c98d1..f131080 100644
--- a/src/AbstractPlatform.cpp
+++ b/src/AbstractPlatform.cpp
@@ -423,7 +423,7 @@ void c3p_log(uint8_t severity, const char* tag, const char* fmt, ...) {
   StringBuilder msg;
   va_list args;
   va_start(args, fmt);
-  int8_t ret = (0 <= msg.concatf(fmt, args)) ? 0:-1;
+  int8_t ret = (0 <= msg.vconcatf(fmt, args)) ? 0:-1;
   va_end(args);
   if (0 == ret) {
     c3p_log(severity, tag, &msg);
diff --git a/src/StringBuilder.cpp b/src/StringBuilder.cpp
index c9f78f8..fbd5d27 100644
--- a/src/StringBuilder.cpp
+++ b/src/StringBuilder.cpp
@@ -932,7 +932,7 @@ int StringBuilder::concatf(const char* format, ...) {
   va_list args;
   int ret = 0;
   va_start(args, format);
-  ret = concatf(format, args);
+  ret = vconcatf(format, args);
   va_end(args);
   return ret;
 }
@@ -945,7 +945,7 @@ int StringBuilder::concatf(const char* format, ...) {
 * @param args is a discrete parameter that contains the optional variadics.
 * @return the byte count written to this StringBuilder, or negative on failure.
 */
-int StringBuilder::concatf(const char* format, va_list args) {
+int StringBuilder::vconcatf(const char* format, va_list args) {
   int len = strlen(format);
   int f_codes = 0;  // Count how many format codes are in use...
   for (int i = 0; i < len; i++) {  if (*(format+i) == '%') f_codes++; }
diff --git a/src/StringBuilder.h b/src/StringBuilder.h
index a1bcb35..c903a89 100644
--- a/src/StringBuilder.h
+++ b/src/StringBuilder.h
@@ -147,7 +147,7 @@ class StringBuilder {
 
     /* Variadic concat. Semantics are the same as printf. */
     int concatf(const char* format, ...);
-    int concatf(const char* format, va_list);
+    int vconcatf(const char* format, va_list);
 
     void concat(StringBuilder* src);
     void concat(char nu);
-- 
2.43.0


From 091cee93cbd0d0e16f19a7b27ac18da30a126125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 085/164] fix: ParsingConsole executed incomplete lines

If a push had a line terminator in it, whatever followed the last terminator was
executed as well, although the rest of that line was still to come. Also, with
CRLF either character ended a line, and with ZEROBYTE no line ever ended.
---
 src/Console/C3PConsole.cpp | 48 ++++++++++++++++----------------------
 src/Console/C3PConsole.h   |  2 +-
 2 files changed, 21 insertions(+), 29 deletions(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index b231db8..05f50c9 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -207,10 +207,12 @@ int8_t ParsingConsole::_process_buffer() {
     _buffer.clear();
     ret = -2;
   }
-  else if (_line_ending_rxd()) {
-    while (0 < _buffer.count()) {
-      StringBuilder tmp_str_bldr(_buffer.position_trimmed(0));
-      _buffer.drop_position(0);
+  else {
+    StringBuilder line;
+    while (_take_line(&line)) {
+      StringBuilder line_copy(line.string(), line.length());
+      StringBuilder tmp_str_bldr(line_copy.position_trimmed(0));
+      line.clear();
       if (!tmp_str_bldr.isEmpty()) {
         ret = (0 != ret) ? ret : 0;
         _history_idx = _max_history;
@@ -422,35 +424,25 @@ void ParsingConsole::printHistory(StringBuilder* output) {
 
 
 /**
-* Checks for the configured terminator in the input stream, and tokenizes the
-*   line if found.
+* Checks for the configured terminator in the input stream, and takes the first
+*   line (without its terminator) if found. Whatever follows it stays buffered.
 *
-* @return true if there is a line-ending in the buffer.
+* @param line receives the content of the line.
+* @return true if there was a complete line in the buffer.
 */
-bool ParsingConsole::_line_ending_rxd() {
-  const char* const L_TERM = lineTerminatorLiteralStr(_rx_terminator);
-  const int L_TERM_LEN = strlen(L_TERM);
+bool ParsingConsole::_take_line(StringBuilder* line) {
+  const uint8_t* const L_TERM = (const uint8_t*) lineTerminatorLiteralStr(_rx_terminator);
+  const int L_TERM_LEN = lineTerminatorLength(_rx_terminator);
   bool ret = false;
-  bool buf_has_lterm = false;
-  switch (L_TERM_LEN) {
-    case 2:
-      buf_has_lterm = _buffer.contains(L_TERM);
-      break;
-    case 1:
-      buf_has_lterm = _buffer.contains(L_TERM[0]);
-      break;
-    case 0:
-    default:
-      break;
-  }
-
-  if (buf_has_lterm) {
-    if (0 < _buffer.split(L_TERM)) {
+  if (0 < L_TERM_LEN) {
+    const int LINE_LEN = _buffer.locate(L_TERM, L_TERM_LEN);
+    if (0 <= LINE_LEN) {
+      if (0 < LINE_LEN) {
+        line->concatHandoffLimit(&_buffer, LINE_LEN);
+      }
+      _buffer.cull(L_TERM_LEN);
       ret = true;
     }
-    else {
-      _buffer.clear();
-    }
   }
   return ret;
 }
diff --git a/src/Console/C3PConsole.h b/src/Console/C3PConsole.h
index fb86877..398469f 100644
--- a/src/Console/C3PConsole.h
+++ b/src/Console/C3PConsole.h
@@ -171,7 +171,7 @@ class ParsingConsole : public C3PConsole, public BufferCoDec {
     void   _append_to_history(StringBuilder*);  // Appends a command to the history.
     void   _cull_history();                     // Trims the history list back to bounds.
 
-    bool _line_ending_rxd();
+    bool _take_line(StringBuilder*);            // Takes the next complete line, if there is one.
     int8_t _process_buffer();
 
     /* Flag manipulation inlines */
-- 
2.43.0


From 42bc4897b853fa896e12a78ff5a7f16cb0740ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 086/164] fix: ParsingConsole dereferenced a null buffer

And it returned a full claim for an empty one.
---
 src/Console/C3PConsole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 05f50c9..9ba5e17 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -159,6 +159,9 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
   // TODO: Implement cursor keys.
   //   U: 0x1b, 0x5b, 0x41   D: 0x1b, 0x5b, 0x42
   //   L: 0x1b, 0x5b, 0x44   R: 0x1b, 0x5b, 0x43
+  if ((nullptr == incoming) || (0 >= incoming->length())) {
+    return -1;   // Nothing was given, so nothing can be claimed.
+  }
   uint8_t first_byte = *(incoming->string());
   if (localEcho()) {
     _response.concat(incoming);  // We do it this way to copy the buffer. printToLog() will take it.
-- 
2.43.0


From 856472ca651824322990e468652dbf53e1951baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 087/164] fix: ParsingConsole returned a full claim after
 taking only a backspace

The rest of the buffer was left with the caller, who was told it was claimed.
---
 src/Console/C3PConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 9ba5e17..30ce1c5 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -183,7 +183,7 @@ int8_t ParsingConsole::pushBuffer(StringBuilder* incoming) {
     _buffer.concatHandoff(incoming);  // Take the buffer.
     _process_buffer();  // TODO: Observe return code.
   }
-  return 1;
+  return (incoming->isEmpty() ? 1 : 0);
 }
 
 
-- 
2.43.0


From 2140244b9c14672b3cf9e250a1ca6dc1670ab573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:42 +0000
Subject: [PATCH 088/164] fix: the console's history sub-command turned the
 prompt off

---
 src/Console/C3PConsole.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console/C3PConsole.cpp b/src/Console/C3PConsole.cpp
index 30ce1c5..4cfdf79 100644
--- a/src/Console/C3PConsole.cpp
+++ b/src/Console/C3PConsole.cpp
@@ -518,7 +518,6 @@ int8_t ParsingConsole::console_handler_conf(StringBuilder* text_return, StringBu
   }
   else if (0 == StringBuilder::strcasecmp(cmd, "history")) {
     if (1 < args->count()) {
-      emitPrompt(0 != arg1);
       char* subcmd = args->position_trimmed(1);
       if (0 == StringBuilder::strcasecmp(subcmd, "clear")) {
         clearHistory();
-- 
2.43.0


From 9e959f760bcc2102394089a079ed5989ff82c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 089/164] fix: M2MLink messages with long payloads were cut
 short

The total length of a message didn't count the second and third bytes of
its length field, so that payload_length() came out too short, and the
last bytes of the payload were parsed as the next message.
---
 src/M2MLink/M2MMsgHdr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsgHdr.cpp b/src/M2MLink/M2MMsgHdr.cpp
index 6316f1a..bfd0cef 100644
--- a/src/M2MLink/M2MMsgHdr.cpp
+++ b/src/M2MLink/M2MMsgHdr.cpp
@@ -58,7 +58,7 @@ M2MMsgHdr::M2MMsgHdr(M2MMsgCode m, uint8_t pl_len, uint8_t f, uint32_t i) :
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // The minimum header has one length byte.
     chk_byte = (uint8_t) (flags + msg_len + (uint8_t)msg_code + M2MLINK_SERIALIZATION_VERSION);
   }
 }
@@ -102,7 +102,7 @@ bool M2MMsgHdr::set_payload_length(uint32_t pl_len) {
   if (needed_total_sz > 0x0000FFFE) calcd_len_sz++;
   if (needed_total_sz <= 0x00FFFFFD) {  // Anything larger than this is invalid.
     flags = ((flags & ~M2MMSGHDR_FLAG_ENCODES_LENGTH_BYTES) | (calcd_len_sz << 4));
-    msg_len = needed_total_sz;
+    msg_len = needed_total_sz + (calcd_len_sz - 1);  // The minimum header has one length byte.
     chk_byte = calc_hdr_chcksm();
     ret = true;
   }
-- 
2.43.0


From 89749c8d53baa1a49eb224e257337357d0e288b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 090/164] fix: M2MMsg::attempt_header_parse() accepted
 impossible lengths

A header without a length field, or with a total length that is less than
its own, was accepted if its checksum matched. The latter became a message
that never completes, and swallows all the link's input.
---
 src/M2MLink/M2MMsg.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 9def5e4..fe51a3e 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -60,13 +60,19 @@ int8_t M2MMsg::attempt_header_parse(M2MMsgHdr* hdr, StringBuilder* dat_in) {
 
     const uint8_t len_l = hdr->len_length();
     const uint8_t id_l  = hdr->id_length();
-    if (hdr->header_length() <= AVAILABLE_LEN) {
+    if (0 == len_l) {
+      ret = -3;   // The length is a required field.
+    }
+    else if (hdr->header_length() <= AVAILABLE_LEN) {
       // Write the multibyte value as big-endian.
       for (uint8_t i = 0; i < len_l; i++) hdr->msg_len = ((hdr->msg_len << 8) | *(tmp_buf++));
       for (uint8_t i = 0; i < id_l; i++)  hdr->msg_id  = ((hdr->msg_id << 8)  | *(tmp_buf++));
       hdr->chk_byte = *(tmp_buf++);
       ret = -3;
-      if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {       // Does the checksum match?
+      if (hdr->payload_length() < 0) {
+        // No message is shorter than its own header.
+      }
+      else if (hdr->chk_byte == hdr->calc_hdr_chcksm()) {  // Does the checksum match?
         ret = 1;
         if (0 < hdr->payload_length()) {
           ret = (hdr->total_length() > AVAILABLE_LEN) ? 0 : 2;
-- 
2.43.0


From e37cc0b7b1ba92784246cc77cea46fba28895829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 091/164] fix: M2MMsg::serialize() gave nothing for a second
 call without payload

It marked the accumulator as holding the message after writing to some
other buffer, so that a retry of a message without a payload sent nothing.
---
 src/M2MLink/M2MMsg.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index fe51a3e..97b2629 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -349,7 +349,10 @@ int M2MMsg::serialize(StringBuilder* buf) {
         if (!payload.isEmpty()) {
           buf->concatHandoff(&payload);
         }
-        _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        if (buf == &_accumulator) {
+          // Only now does the accumulator contain the complete message.
+          _class_set_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
+        }
         ret = 0;
       }
     }
-- 
2.43.0


From c7533d5e03ac55411821879d5a9b7a9d20168f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 092/164] fix: M2MMsg leaked the payload that it received

The KVP that accumulate() inflates was never freed. And reply() kept a
reference to its argument, for as long as the message existed.
---
 src/M2MLink/M2MLink.h  |  2 ++
 src/M2MLink/M2MMsg.cpp | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 4a503b4..11f3a1a 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -409,6 +409,8 @@ class M2MMsg {
     KeyValuePair* _kvp    = nullptr;
     StringBuilder _accumulator;
 
+    void _drop_kvp();
+
     /* Flag manipulation inlines */
     inline uint8_t _class_flags() {                return _flags;           };
     inline bool _class_flag(uint8_t _flag) {       return (_flags & _flag); };
diff --git a/src/M2MLink/M2MMsg.cpp b/src/M2MLink/M2MMsg.cpp
index 97b2629..d140ca4 100644
--- a/src/M2MLink/M2MMsg.cpp
+++ b/src/M2MLink/M2MMsg.cpp
@@ -136,6 +136,7 @@ M2MMsg::M2MMsg(M2MMsgHdr* hdr, BusOpcode d) : _header(hdr), _op(d) {
 * Destructor.
 */
 M2MMsg::~M2MMsg() {
+  _drop_kvp();
 }
 
 
@@ -162,6 +163,18 @@ void M2MMsg::wipe() {
   _flags       = 0;
   _header.wipe();
   _accumulator.clear();
+  _drop_kvp();
+}
+
+
+/*
+* The only KVP this class holds beyond a function call is one that it inflated
+*   from received data. So it owns it.
+*/
+void M2MMsg::_drop_kvp() {
+  KeyValuePair* tmp = _kvp;
+  _kvp = nullptr;
+  if (nullptr != tmp) delete tmp;
 }
 
 
@@ -240,11 +253,13 @@ int M2MMsg::reply(KeyValuePair* kvp, bool reply_expected) {
     _header.expectsReply(reply_expected);
     _header.isReply(true);
     _accumulator.clear();
+    _drop_kvp();
     _kvp = kvp;
     _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
     if (0 == serialize(&_accumulator)) {
       ret = 0;
     }
+    _kvp = nullptr;   // The payload remains the property of the caller.
   }
   return ret;
 }
@@ -282,6 +297,7 @@ int M2MMsg::setPayload(KeyValuePair* payload) {
       // NOTE: No break;
     case BusOpcode::TX:
       _accumulator.clear();
+      _drop_kvp();
       _class_clear_flag(M2MMSG_FLAG_ACCUMULATOR_COMPLETE);
       _kvp = payload;
       ret = (0 == serialize(&_accumulator)) ? 0 : -2;
-- 
2.43.0


From 4bfbff927fd844a4b9cc7bc07169c5eaef8ff3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 093/164] fix: M2MLink leaked messages and payloads

Answered messages, CONNECT requests, dropped inbound messages, and the
payloads of LOG and WHO messages were never freed.
---
 src/M2MLink/M2MLink.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6ad4df1..f6d0db7 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -709,7 +709,9 @@ int8_t M2MLink::_churn_inbound() {
         }
         else if (temp->expectsReply()) {
           if (0 == temp->ack()) {
-            gc_message = false;
+            // The reply goes out immediately, and the message is then done.
+            StringBuilder temp_out;
+            if (0 == temp->serialize(&temp_out)) _relay_to_output_target(&temp_out);
           }
           else if (_verbosity >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Link 0x%08x Failed to reply to CONNECT\n", _session_tag);
           //if (_verbosity >= LOG_LEV_INFO) {
@@ -718,9 +720,6 @@ int8_t M2MLink::_churn_inbound() {
           //  temp->printDebug(&tmp_log);
           //  c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, &tmp_log);
           //}
-          StringBuilder temp_out;
-          temp->serialize(&temp_out);
-          _relay_to_output_target(&temp_out);
         }
         break;
 
@@ -781,6 +780,8 @@ int8_t M2MLink::_churn_inbound() {
               }
             }
           }
+          delete kvps_rxd;
+          kvps_rxd = nullptr;
         }
 
         if (temp->isReply()) {
@@ -795,8 +796,8 @@ int8_t M2MLink::_churn_inbound() {
           // We are being queried about our Identity.
           if (_id_loc) {
             // If we have one assigned, serialize and relay it as a reply.
-            KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-            int8_t ret_local = temp->reply(a, true);
+            KeyValuePair a("ident", _id_loc);
+            int8_t ret_local = temp->reply(&a, true);
             const uint8_t VERB_LEV = (0 > ret_local) ? LOG_LEV_ERROR : LOG_LEV_INFO;
             if (_verbosity >= VERB_LEV) {
               c3p_log(VERB_LEV, __PRETTY_FUNCTION__, "Link 0x%08x reply to WHO returns %u.\n", _session_tag, ret_local);
@@ -956,6 +957,8 @@ int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
       if (id == temp->uniqueId()) {
         temp->markACKd();
         _outbound_messages.remove(temp);
+        _reclaim_m2mmsg(temp);
+        i--;   // The rest of the queue moved up.
         ret = 1;
       }
     }
@@ -985,7 +988,7 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
       else {
         if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to decompose LOG message.\n", _session_tag);
       }
-      //delete inbound_kvp;
+      delete inbound_kvp;
     }
     else {
       if (LOG_LEV_NOTICE <= _verbosity) c3p_log(LOG_LEV_NOTICE, __PRETTY_FUNCTION__, "Link 0x%08x failed to find LOG payload.\n", _session_tag);
@@ -1232,6 +1235,7 @@ int8_t M2MLink::_process_input_buffer() {
             }
             else {
               c3p_log(LOG_LEV_WARN, __PRETTY_FUNCTION__, "Link 0x%08x inbound message queue flood.\n", _session_tag);
+              _reclaim_m2mmsg(_working);
             }
           }
           else {
@@ -1474,8 +1478,8 @@ int8_t M2MLink::_send_who_message() {
   if (nullptr != msg) {
     ret--;
     if (_id_loc) {
-      KeyValuePair* a = new KeyValuePair("ident", _id_loc);
-      msg->setPayload(a);
+      KeyValuePair a("ident", _id_loc);
+      msg->setPayload(&a);
     }
     if (0 == _send_msg(msg)) {
       ret = 0;
-- 
2.43.0


From 59b8de0c9da3f8f597f89d54a91b05fcab556574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 094/164] fix: a C3PValue would not give up the Identity that
 it held

---
 src/C3PValue/C3PType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C3PValue/C3PType.cpp b/src/C3PValue/C3PType.cpp
index 05b7838..4df2529 100644
--- a/src/C3PValue/C3PType.cpp
+++ b/src/C3PValue/C3PType.cpp
@@ -2685,6 +2685,7 @@ template <> void        C3PTypeConstraint<Identity*>::to_string(void* obj, Strin
 
 template <> int8_t      C3PTypeConstraint<Identity*>::set_from(void* dest, const TCode SRC_TYPE, void* src) {
   switch (SRC_TYPE) {
+    case TCode::IDENTITY:    *((Identity**) dest) = ((Identity*) src);       return 0;
     default:  break;
   }
   return -1;
@@ -2692,6 +2693,7 @@ template <> int8_t      C3PTypeConstraint<Identity*>::set_from(void* dest, const
 
 template <> int8_t      C3PTypeConstraint<Identity*>::get_as(void* src, const TCode DEST_TYPE, void* dest) {
   switch (DEST_TYPE) {
+    case TCode::IDENTITY:    *((Identity**) dest) = ((Identity*) src);       return 0;
     default:  break;
   }
   return -1;
-- 
2.43.0


From c70dbfc97ce6eb2ad58219019b226536445aed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 095/164] fix: an Identity inflated from CBOR was leaked

---
 src/C3PValue/KeyValuePair.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C3PValue/KeyValuePair.cpp b/src/C3PValue/KeyValuePair.cpp
index 5fb1a27..0dccc89 100644
--- a/src/C3PValue/KeyValuePair.cpp
+++ b/src/C3PValue/KeyValuePair.cpp
@@ -659,6 +659,7 @@ KeyValuePair* CBORArgListener::_inflate_c3p_type(uint8_t* data, int size, const
           Identity* tmp = Identity::fromBuffer(data, size);
           if (tmp) {
             ret = new KeyValuePair(tmp);
+            must_reap = true;
           }
         }
         break;
-- 
2.43.0


From 0429f223208f60d511e953c6b3dd48599874994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 096/164] fix: Identity::fromBuffer() read beyond a malformed
 buffer

---
 src/Identity/Identity.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index 3d2b991..dbee256 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -104,8 +104,8 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
     uint16_t ident_flg = (((uint16_t) *(buf+2)) << 8) + *(buf+3);
     IdentFormat fmt = (IdentFormat) *(buf+4);
 
-    if (ident_len <= len) {
-      len -= (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
+    if ((ident_len <= len) && (ident_len > IDENTITY_BASE_PERSIST_LENGTH)) {
+      len = (ident_len - (IDENTITY_BASE_PERSIST_LENGTH - 1));  // Incur deficit for null-term.
       buf += (IDENTITY_BASE_PERSIST_LENGTH - 1);  // Incur deficit for null-term.
 
       // TODO: I now have a better way of doing this. Implementation will have to wait.
@@ -114,7 +114,13 @@ Identity* Identity::fromBuffer(uint8_t* buf, int len) {
           // TODO: Ill-conceived? Why persist a hardware serial number???
           break;
         case IdentFormat::UUID:
-          return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+          {
+            // The handle must be terminated, and followed by an entire UUID.
+            uint8_t* handle_end = (uint8_t*) memchr(buf, 0, len);
+            if ((nullptr != handle_end) && ((len - (int) (handle_end - buf)) > (int) sizeof(UUID))) {
+              return_value = (Identity*) new IdentityUUID(buf, (uint16_t) len);
+            }
+          }
           break;
         case IdentFormat::L2_MAC:
           // TODO: This
-- 
2.43.0


From bbaff805e7d5bfd3607189c11fff0479e639743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 097/164] fix: M2MLink kept waiting for a reply which wanted a
 reply itself

---
 src/M2MLink/M2MLink.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index f6d0db7..286e7fc 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -675,6 +675,12 @@ int8_t M2MLink::_churn_inbound() {
       c3p_log(LOG_LEV_INFO, __PRETTY_FUNCTION__, &tmp_log);
     }
 
+    // Any reply satisfies the message that was waiting for it. This must happen
+    //   before the reply might itself be turned into a reply with the same ID.
+    if (temp->isReply()) {
+      _clear_waiting_send_by_id(temp->uniqueId());
+    }
+
     switch (temp->msgCode()) {
       case M2MMsgCode::SYNC_KEEPALIVE:
         // We got a sync message. Is it a reply?
@@ -863,9 +869,6 @@ int8_t M2MLink::_churn_inbound() {
     }
 
     if (gc_message) {
-      if (temp->isReply()) {
-        _clear_waiting_send_by_id(temp->uniqueId());
-      }
       _reclaim_m2mmsg(temp);
     }
   }
-- 
2.43.0


From 19fdaad132ead89f6e41af37d98deeaa3686277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:45 +0000
Subject: [PATCH 098/164] fix: M2MLink leaked the remote identity

---
 src/M2MLink/M2MLink.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 286e7fc..236ac73 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -190,6 +190,10 @@ M2MLink::~M2MLink() {
     _reclaim_m2mmsg(_working);
     _working = nullptr;
   }
+  if (nullptr != _id_remote) {
+    delete _id_remote;
+    _id_remote = nullptr;
+  }
 }
 
 
-- 
2.43.0


From 82089f13c02c449f85f2fb37022065910526cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 099/164] fix: M2MLink discarded unsent messages when a sync
 reply arrived

---
 src/M2MLink/M2MLink.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 236ac73..621f663 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -961,7 +961,9 @@ int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
   for (int i = 0; i < _outbound_messages.size(); i++) {
     M2MMsg* temp = _outbound_messages.get(i);
     if (nullptr != temp) {
-      if (id == temp->uniqueId()) {
+      // Only a message that was sent, and which wants a reply, is waiting for
+      //   one. Sync replies (for one) bear no ID, and satisfy nothing.
+      if ((id == temp->uniqueId()) && temp->expectsReply() && temp->wasSent()) {
         temp->markACKd();
         _outbound_messages.remove(temp);
         _reclaim_m2mmsg(temp);
-- 
2.43.0


From 97a2a96c51c3b2d52837fc0f41ad56612d976480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:50 +0000
Subject: [PATCH 100/164] fix: M2MLink stalled on the last bytes of a
 fragmented message

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 621f663..cf489c3 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1207,7 +1207,8 @@ int8_t M2MLink::_process_input_buffer() {
   }
 
   if (proc_fallthru) {
-    if (_inbound_buf.length() >= 4) {
+    // A header takes at least four bytes. The rest of a payload might be shorter.
+    if (_inbound_buf.length() >= ((nullptr == _working) ? 4 : 1)) {
       if (nullptr == _working) {
         M2MMsgHdr _header;
         int8_t ret_header = M2MMsg::attempt_header_parse(&_header, &_inbound_buf);
-- 
2.43.0


From f085b135b0a935b33eddfe376008ebfee1d959bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 101/164] fix: M2MLink waited forever for the reply to a
 CONNECT that was missed

---
 src/M2MLink/M2MLink.cpp | 27 ++++++++++++++++-----------
 src/M2MLink/M2MLink.h   |  1 +
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index cf489c3..92a5f79 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -278,6 +278,13 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
           _send_sync_packet(true);
         }
       }
+      // The counterparty might have been looking for sync (and so, discarding
+      //   everything else) when we sent our CONNECT. Try again.
+      if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+        if (millis_since(_ms_last_connect) > _opts.ms_keepalive) {
+          _send_connect_message();
+        }
+      }
       break;
   }
   int8_t ret = _fsm_poll();                 // Poll the link's FSM.
@@ -702,18 +709,14 @@ int8_t M2MLink::_churn_inbound() {
 
       case M2MMsgCode::CONNECT:
         if (temp->isReply()) {
-          if (!_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-            if (_fsm_is_stable()) {   // Ensures we are in SYNC_TENTATIVE.
-              if (_flags.value(M2MLINK_FLAG_AUTH_REQUIRED)) {
-                _fsm_append_route(2, M2MLinkState::PENDING_AUTH, M2MLinkState::LIVE);
-              }
-              else {
-                _fsm_append_route(1, M2MLinkState::LIVE);
-              }
+          // There might be several replies, but only one of them moves us along.
+          if ((M2MLinkState::SYNC_TENTATIVE == currentState()) && _fsm_is_stable()) {
+            if (!_flags.value(M2MLINK_FLAG_ESTABLISHED) && _flags.value(M2MLINK_FLAG_AUTH_REQUIRED)) {
+              _fsm_append_route(2, M2MLinkState::PENDING_AUTH, M2MLinkState::LIVE);
+            }
+            else {
+              _fsm_append_route(1, M2MLinkState::LIVE);
             }
-          }
-          else {
-            _fsm_append_route(1, M2MLinkState::LIVE);
           }
           _flags.set(M2MLINK_FLAG_ESTABLISHED);
         }
@@ -1033,6 +1036,7 @@ void M2MLink::_reset_class() {
   _session_tag    = 0;
   _ms_last_send   = 0;
   _ms_last_rec    = 0;
+  _ms_last_connect = 0;
   _seq_parse_errs = 0;
   _seq_ack_fails  = 0;
   _sync_losses    = 0;
@@ -1420,6 +1424,7 @@ int8_t M2MLink::_send_sync_packet(bool need_reply) {
 */
 int8_t M2MLink::_send_connect_message() {
   int8_t ret = -1;
+  _ms_last_connect = millis();
   // TODO: For now, this will just send a connection message directly to the transport.
   StringBuilder connect_packet;
   M2MMsgHdr connect_header(M2MMsgCode::CONNECT, 0, true);
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index 11f3a1a..f0cf34c 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -527,6 +527,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     uint32_t        _session_tag    = 0;        // Allows the application to keep track of our callbacks.
     uint32_t        _ms_last_send   = 0;        // At what time did the last message go out?
     uint32_t        _ms_last_rec    = 0;        // At what time did the last message come in?
+    uint32_t        _ms_last_connect = 0;       // At what time did we last send a CONNECT?
     uint16_t        _sync_losses    = 0;        // How many times this session have we lost sync?
     uint16_t        _unackd_sends   = 0;        // How many messages that needed an ACK failed to get one?
     M2MMsg*         _working        = nullptr;  // If we are in the middle of receiving a message,
-- 
2.43.0


From ec05e661f3bdbed81ee41b1ae539c7eaf907423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 102/164] fix: M2MLink read beyond its list of services

---
 src/M2MLink/M2MLink.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 92a5f79..1b12b1b 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1145,16 +1145,15 @@ int8_t M2MLink::_invoke_msg_callback(M2MMsg* msg) {
 int8_t M2MLink::_offer_msg_to_service(uint8_t slot, M2MMsg* msg) {
   int8_t ret = -1;
   if (CONFIG_C3PLINK_SERVICE_SLOTS > slot) {
-    ret++;
-  }
-  if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
-    ret++;
-    _svc_list[slot]->_handle_msg(_session_tag, msg);
-    if (BusOpcode::TX == msg->direction()) {
-      // If the message is now marked as TX, it means the application wants to
-      //   reply. This might just be an ACK, or it may be the next step in dialog,
-      //   itself demanding a reply.
-      ret++;
+    if (nullptr != _svc_list[slot]) {   // Call the callback, if it is set.
+      ret = 1;
+      _svc_list[slot]->_handle_msg(_session_tag, msg);
+      if (BusOpcode::TX == msg->direction()) {
+        // If the message is now marked as TX, it means the application wants to
+        //   reply. This might just be an ACK, or it may be the next step in dialog,
+        //   itself demanding a reply.
+        ret++;
+      }
     }
   }
   return ret;
-- 
2.43.0


From b8e39b6806c69abb7a8f1ae7a6fd3fd128f45035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 103/164] fix: M2MLink dereferenced the missing payload of a
 LOG message

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 1b12b1b..1f5a5e8 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -991,7 +991,8 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
   if (_flags.value(M2MLINK_FLAG_ALLOW_LOG_WRITE)) {   // Will we allow a write to our log?
     ret++;
     KeyValuePair* inbound_kvp = nullptr;
-    if (0 == msg->getPayload(&inbound_kvp)) {
+    msg->getPayload(&inbound_kvp);
+    if (nullptr != inbound_kvp) {
       char* inbound_log = nullptr;
       if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
-- 
2.43.0


From 69a89d2aa288f199e33d39bfca4f67722ea0aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 104/164] fix: M2MLink might dereference a null message when
 logging

---
 src/M2MLink/M2MLink.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 1f5a5e8..4069bcf 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1436,7 +1436,6 @@ int8_t M2MLink::_send_connect_message() {
     if (_verbosity >= LOG_LEV_CRIT) {
       StringBuilder tmp_log;
       tmp_log.concatf("Link 0x%08x failed to serialize a connect header.\n", _session_tag);
-      _working->printDebug(&tmp_log);
       c3p_log(LOG_LEV_CRIT, __PRETTY_FUNCTION__, &tmp_log);
     }
   }
-- 
2.43.0


From f825ff00f7b813d217f0eae8c246c247df839cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 105/164] fix: M2MLink::writeRemoteLog() kept its buffer, and
 returned other codes than documented

---
 src/M2MLink/M2MLink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 4069bcf..a2623fb 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -383,8 +383,8 @@ int8_t M2MLink::reset() {
 int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
   int8_t ret = -1;
   if (!outbound_log->isEmpty()) {
+    ret--;
     if (_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-      ret--;
       M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0));
       M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
       ret--;
@@ -402,10 +402,10 @@ int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
             ret = 0;
           }
         }
-        outbound_log->clear();  // Free the original buffer.
         if (gc_message) _reclaim_m2mmsg(msg);
       }
     }
+    outbound_log->clear();  // Free the original buffer.
   }
   return ret;
 }
-- 
2.43.0


From ec28b630d998a194181716575ff12d86718727c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:01 +0000
Subject: [PATCH 106/164] fix: a forced hangup of a M2MLink waited for the
 counterparty

---
 src/M2MLink/M2MLink.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index a2623fb..6710fe7 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -269,6 +269,7 @@ int8_t M2MLink::poll(StringBuilder* log_ret) {
     case M2MLinkState::HUNGUP:
       break;
     default:
+      if (_flags.value(M2MLINK_FLAG_ON_HOOK)) break;   // Forced hangup. Nothing else matters.
       _process_input_buffer();
       _churn_inbound();
       _churn_outbound();
@@ -337,7 +338,11 @@ int8_t M2MLink::hangup(bool graceful) {
     //   with the PENDING_HANGUP state. Obliterate the existing dialogs.
     _purge_inbound();
     _purge_outbound();
-    ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+    ret = 0;
+    if (M2MLinkState::HUNGUP != currentState()) {
+      ret = _fsm_set_route(1, M2MLinkState::HUNGUP);
+      _flags.set(M2MLINK_FLAG_ON_HOOK);   // Nothing else needs to happen first.
+    }
   }
   return ret;
 }
@@ -1585,6 +1590,11 @@ int8_t M2MLink::_fsm_poll() {
       break;
   }
 
+  // A forced hangup doesn't wait for anything from the counterparty.
+  if (_flags.value(M2MLINK_FLAG_ON_HOOK) && _fsm_is_next_pos(M2MLinkState::HUNGUP)) {
+    fsm_advance = true;
+  }
+
   // If the current state's exit criteria is met, we advance the FSM.
   if (fsm_advance & (-1 != ret)) {
     ret = (0 == _fsm_advance()) ? 1 : 0;
-- 
2.43.0


From 73e1194f62611fd4def738d8b6923e60f3b63be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 107/164] fix: M2MLink took any value in a LOG message for a
 string

---
 src/M2MLink/M2MLink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 6710fe7..f64ae90 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -999,7 +999,8 @@ int8_t M2MLink::_handle_msg_log(M2MMsg* msg) {
     msg->getPayload(&inbound_kvp);
     if (nullptr != inbound_kvp) {
       char* inbound_log = nullptr;
-      if (0 == inbound_kvp->valueWithKey("b", &inbound_log)) {
+      KeyValuePair* log_kvp = inbound_kvp->valueWithKey("b");
+      if ((nullptr != log_kvp) && (0 == log_kvp->get_as(&inbound_log))) {
         // TODO: Surround with randomly-generated tags to prevent confusion.
         _remote_log.concatf("Link 0x%08x counterparty says:\n%s\n", _session_tag, inbound_log);
       }
-- 
2.43.0


From bc6f8bfeed25ff9d72b00e23434b0636faf381f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:07 +0000
Subject: [PATCH 108/164] fix: M2MLink stopped looking for sync after losing it
 repeatedly

---
 src/M2MLink/M2MLink.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index f64ae90..402a952 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -1711,10 +1711,13 @@ int8_t M2MLink::_fsm_set_position(M2MLinkState new_state) {
 
 int8_t M2MLink::_fsm_insert_sync_states() {
   int8_t ret = -1;
-  if (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE)) {
-    if (0 == _fsm_prepend_state(M2MLinkState::SYNC_RESYNC)) {
-      ret = 0;
-    }
+  if (_fsm_is_next_pos(M2MLinkState::SYNC_RESYNC)) {
+    ret = 0;   // We are already headed there.
+  }
+  // If we lost sync while looking for it, the rest of the route is still good.
+  //   Repeating it would eventually leave no space for SYNC_RESYNC.
+  else if (_fsm_is_next_pos(M2MLinkState::SYNC_TENTATIVE) || (0 == _fsm_prepend_state(M2MLinkState::SYNC_TENTATIVE))) {
+    ret = _fsm_prepend_state(M2MLinkState::SYNC_RESYNC);
   }
   return ret;
 }
-- 
2.43.0


From 95c93dce1dc757207086101f3d0ae6aef342d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:50 +0000
Subject: [PATCH 109/164] fix: Identity::getIdentity() never found an identity
 by its name

---
 src/Identity/Identity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Identity/Identity.cpp b/src/Identity/Identity.cpp
index dbee256..56043e5 100644
--- a/src/Identity/Identity.cpp
+++ b/src/Identity/Identity.cpp
@@ -307,7 +307,7 @@ Identity* Identity::getIdentity(IdentFormat fmt) {
 * @return     An instance of Identity that is of the given format.
 */
 Identity* Identity::getIdentity(const char* nom) {
-  if (nom == _handle) {  // TODO: Direct comparison won't work here.
+  if ((nullptr != nom) && (0 == strcmp(nom, getHandle()))) {
     return this;
   }
   else if (_next) {
-- 
2.43.0


From 6bcc03135569f341bc3a44e88113d6dda1734413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:57 +0000
Subject: [PATCH 110/164] fix: a C3PValue leaked the owned value that was
 replaced, and freed the replacement

---
 src/C3PValue/C3PValue.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/C3PValue/C3PValue.cpp b/src/C3PValue/C3PValue.cpp
index 1d0736d..1310f91 100644
--- a/src/C3PValue/C3PValue.cpp
+++ b/src/C3PValue/C3PValue.cpp
@@ -360,7 +360,16 @@ int8_t C3PValue::set_from(const TCode SRC_TYPE, void* src) {
   int8_t ret = -1;
   C3PType* t_helper = getTypeHelper(_TCODE);
   if (nullptr != t_helper) {
+    // If a reference to something that we own is replaced, it must be released.
+    //   We don't own the replacement, unless told otherwise.
+    const bool  BY_LEN    = (t_helper->is_ptr_len() && (nullptr != _target_mem));
+    void* const PRIOR_REF = (BY_LEN ? (void*) ((C3PBinBinder*) _target_mem)->buf : _target_mem);
     ret = t_helper->set_from(_type_pun_set(), SRC_TYPE, src);
+    void* const NEW_REF   = (BY_LEN ? (void*) ((C3PBinBinder*) _target_mem)->buf : _target_mem);
+    if (_is_val_by_ref() && reapValue() && (nullptr != PRIOR_REF) && (PRIOR_REF != NEW_REF)) {
+      if (BY_LEN || (0 > t_helper->destruct(PRIOR_REF))) {  free(PRIOR_REF);  }
+      reapValue(false);
+    }
   }
   if (0 == ret) {
     _set_trace++;
@@ -401,6 +410,11 @@ int8_t C3PValue::get_as(uint8_t** v, uint32_t* l) {
 int8_t C3PValue::set(uint8_t* src, uint32_t l, const TCode SRC_TYPE) {
   int8_t ret = -1;
   if ((nullptr != _target_mem) && is_ptr_len()) {
+    uint8_t* const PRIOR_BUF = ((C3PBinBinder*) _target_mem)->buf;
+    if ((nullptr != PRIOR_BUF) && (PRIOR_BUF != src) && reapValue()) {
+      free(PRIOR_BUF);    // We don't own the replacement, unless told otherwise.
+      reapValue(false);
+    }
     ((C3PBinBinder*) _target_mem)->buf = src;
     ((C3PBinBinder*) _target_mem)->len = l;
     _set_trace++;
-- 
2.43.0


From ead617a832020072798486fe0dd8c398943512c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 111/164] fix: the hash of a SimpleDataRecord ignored its
 content

---
 src/Storage/SimpleDataRecord.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8c20fda..a0b1907 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -16,7 +16,13 @@ uint32_t static_hash_wrapper_fxn(const uint8_t* BUF, const uint32_t LEN) {
       // But we'll fall back to something simple if we don't have one.
       // https://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
     #endif  // __HAS_CRYPT_WRAPPER
-  return (0xAAAAAAAA ^ LEN);  // TODO
+  // The 32-bit FNV-1a hash.
+  uint32_t ret = 0x811C9DC5;
+  for (uint32_t i = 0; i < LEN; i++) {
+    ret ^= BUF[i];
+    ret *= 0x01000193;
+  }
+  return ret;
 }
 
 
-- 
2.43.0


From 7c58aecf7b9a60a400339a2ac019724f283c80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 112/164] fix: a SimpleDataRecord refused names with lengths
 that are multiples of 256

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index a0b1907..5afd328 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -250,7 +250,7 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t SimpleDataRecord::_sanitize_name(const char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = (uint8_t) strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From cf3298ef92aaa85c8e7a0f3a5f2cdc62d2a5abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 113/164] fix: a DataRecord refused names with lengths that are
 multiples of 256

---
 src/Storage/DataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/DataRecord.cpp b/src/Storage/DataRecord.cpp
index 63b8e0e..b7fe661 100644
--- a/src/Storage/DataRecord.cpp
+++ b/src/Storage/DataRecord.cpp
@@ -461,7 +461,7 @@ int8_t DataRecord::_fill_from_descriptor_block(uint8_t* buf) {
 * @return 0 on success. -1 on failure of rule-check.
 */
 int8_t DataRecord::_sanitize_name(char* name) {
-  const uint8_t NAME_LENGTH = strict_min((uint8_t) sizeof(_key), (uint8_t) strlen(name));
+  const uint8_t NAME_LENGTH = (uint8_t) strict_min((uint32_t) sizeof(_key), (uint32_t) strlen(name));
   int8_t ret = -1;
   if (NAME_LENGTH > 0) {
     for (uint8_t i = 0; i < sizeof(_key); i++) {
-- 
2.43.0


From 0ffb296c3f6c5b05960db12f2c918d8bd510cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 114/164] fix: SimpleDataRecord::printDebug() read beyond a
 name of full length

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 5afd328..0b12964 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -39,7 +39,7 @@ SimpleDataRecord::SimpleDataRecord(uint32_t storage_tag, StorageRecordType rtype
 
 void SimpleDataRecord::printDebug(StringBuilder* output) {
   output->concatf("\t Tag:\t 0x%08x\n", _storage_tag);
-  output->concatf("\t Key:\t %s\n", _key);
+  output->concatf("\t Key:\t %.*s\n", (int) sizeof(_key), (const char*) _key);   // Might not be terminated.
   output->concatf("\t Dirty:\t %c\n", isDirty() ? 'y':'n');
   output->concatf("\t Type:\t 0x%02x\n", recordType());
   output->concatf("\t Hash:\t 0x%08x\n", _hash);
-- 
2.43.0


From 8ad492fc072914f0008be71704a055b429b8d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 115/164] fix: SimpleDataRecord::save() took the prior content
 of its buffer for the record

---
 src/Storage/SimpleDataRecord.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 0b12964..8d82b3f 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -162,11 +162,14 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
   if (0 == _sanitize_name(name)) {
     ret--;
     _storage_tag = storage_tag;
-    if (0 == serialize(outbound_buf, _format)) {
+    // The buffer might have content already. The record is added to it.
+    StringBuilder record_buf;
+    if (0 == serialize(&record_buf, _format)) {
       ret--;
-      _hash = static_hash_wrapper_fxn(outbound_buf->string(), outbound_buf->length());
-      _data_length = outbound_buf->length();
-      if (0 == _descriptor_serialize(outbound_buf)) {
+      _hash = static_hash_wrapper_fxn(record_buf.string(), record_buf.length());
+      _data_length = record_buf.length();
+      if (0 == _descriptor_serialize(&record_buf)) {
+        outbound_buf->concatHandoff(&record_buf);
         ret = 0;
       }
     }
-- 
2.43.0


From 33b4e925aad503db781a3e830016a1fad4f483a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 116/164] fix: SimpleDataRecord::load() read beyond a short
 buffer, and took what follows a record for content

---
 src/Storage/SimpleDataRecord.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 8d82b3f..6a2798e 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -224,9 +224,13 @@ int8_t SimpleDataRecord::load(uint32_t storage_tag, StringBuilder* inbound_buf)
     ret--;
     if (_storage_tag == storage_tag) {
       ret--;
-      if (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length)) {
+      const uint32_t PAYLOAD_LENGTH = (uint32_t) (inbound_buf->length() - DATARECORD_BASE_SIZE);
+      if ((PAYLOAD_LENGTH >= _data_length) && (_hash == static_hash_wrapper_fxn((inbound_buf->string()+DATARECORD_BASE_SIZE), _data_length))) {
         // Hash matches. Cull the useless edges of the buffer...
         inbound_buf->cull(DATARECORD_BASE_SIZE);
+        if (PAYLOAD_LENGTH > _data_length) {
+          inbound_buf->cull(0, _data_length);
+        }
         ret--;
         if (0 == deserialize(inbound_buf, _format)) {
           _dr_set_flag(DATA_RECORD_FLAG_WAS_LOADED);
-- 
2.43.0


From 243afd189f99530670721c43cd9270e3a9bb62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 117/164] fix: SimpleDataRecord::load() refused a record
 without content

---
 src/Storage/SimpleDataRecord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index 6a2798e..ab8203b 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -187,7 +187,7 @@ int8_t SimpleDataRecord::save(uint32_t storage_tag, const char* name, StringBuil
 */
 int8_t SimpleDataRecord::load(uint32_t storage_tag, uint8_t* inbound_buf, uint32_t buf_len) {
   int8_t ret = -1;
-  if (buf_len > DATARECORD_BASE_SIZE) {
+  if (buf_len >= DATARECORD_BASE_SIZE) {
     StringBuilder desc_container(inbound_buf, DATARECORD_BASE_SIZE);
     if (0 == _descriptor_deserialize(&desc_container)) {
       ret--;
-- 
2.43.0


From 69e496121b9bb791c81be23840eafaab41797e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 118/164] fix: ConfRecord::serialize() wrote malformed CBOR

---
 src/Storage/RecordTypes/ConfRecord.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index a1a89c7..d9a3cee 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -266,10 +266,25 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
         encoder.write_map(2);
           serialize_cbor_kvp_for_record(&encoder);  // Accounts for the first KVP.
           encoder.write_string(_list_name());    // Accounts for the second KVP.
-          encoder.write_array(_key_count());
-          _kvp->serialize(out, format);
 
-        ret = 0;  // TODO: Error handling?
+        // The configuration itself is a map. Values that can't be serialized
+        //   (strings that were never set) are left out of it.
+        StringBuilder map_content;
+        uint32_t      map_count = 0;
+        cbor::output_stringbuilder map_output(&map_content);
+        cbor::encoder map_encoder(map_output);
+        for (KeyValuePair* kvp = _kvp; nullptr != kvp; kvp = kvp->nextKVP()) {
+          StringBuilder value_content;
+          C3PValue value_ref(kvp->tcode());   // Serializes without the key.
+          if ((0 == value_ref.set((C3PValue*) kvp)) && (0 == value_ref.serialize(&value_content, format))) {
+            map_encoder.write_string(kvp->getKey());
+            map_content.concatHandoff(&value_content);
+            map_count++;
+          }
+        }
+        encoder.write_map(map_count);
+        out->concatHandoff(&map_content);
+        ret = 0;
       }
       #endif
       break;
-- 
2.43.0


From ec3aa2d356cfa9ccebbeec1c541ee6e5153739e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 119/164] fix: ConfRecord::deserialize() did not read what
 serialize() writes

---
 src/Storage/RecordTypes/ConfRecord.cpp | 36 +++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/Storage/RecordTypes/ConfRecord.cpp b/src/Storage/RecordTypes/ConfRecord.cpp
index d9a3cee..9cf40d0 100644
--- a/src/Storage/RecordTypes/ConfRecord.cpp
+++ b/src/Storage/RecordTypes/ConfRecord.cpp
@@ -300,18 +300,48 @@ int8_t ConfRecord::serialize(StringBuilder* out, TCode format) {
 
 int8_t ConfRecord::deserialize(StringBuilder* raw, TCode format) {
   int8_t ret = -1;
-  if (!allocated()) {
+  if (!allocated(true)) {
     return ret;  // TODO: Return contract spec'd where?
   }
   switch (format) {
     case TCode::CBOR:
       #if defined(__BUILD_HAS_CBOR)
       {
-        CBORArgListener cl(&_kvp);
+        KeyValuePair* inbound = nullptr;
+        CBORArgListener cl(&inbound);
         cbor::input_static input(raw->string(), raw->length());
         cbor::decoder decoder(input, cl);
         decoder.run();
-        ret = (decoder.failed() ? -2 : 0);
+        ret = -2;
+        if (!decoder.failed()) {
+          // The configuration follows the name of the list, which has no key.
+          KeyValuePair* values = inbound;
+          while ((nullptr != values) && (nullptr != values->getKey())) {
+            values = values->nextKVP();
+          }
+          const char* list_name = nullptr;
+          if ((nullptr != values) && (0 == values->get_as(&list_name)) && (nullptr != list_name)) {
+            if (0 == strcmp(list_name, _list_name())) {
+              ret = 0;
+              for (KeyValuePair* kvp = _kvp; nullptr != kvp; kvp = kvp->nextKVP()) {
+                KeyValuePair* value = values->valueWithKey(kvp->getKey());
+                if (nullptr != value) {
+                  if (0 != kvp->set((C3PValue*) value)) {
+                    ret = -2;   // The value doesn't fit the type of the key.
+                  }
+                  else if ((value->tcode() == kvp->tcode()) && value->reapValue()) {
+                    // Take ownership of anything held by reference.
+                    kvp->reapValue(true);
+                    value->reapValue(false);
+                  }
+                }
+              }
+            }
+          }
+        }
+        if (nullptr != inbound) {
+          delete inbound;
+        }
       }
       #endif
       break;
-- 
2.43.0


From 8e4bbfc052bbfd4831d630c89277437f9c73aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 120/164] fix: the size of a large Image overflowed

---
 src/Image/Image.cpp | 4 ++--
 src/Image/Image.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index ad72999..a9148f3 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -568,9 +568,9 @@ uint32_t Image::bytesUsed() {
   if (ImgBufferFormat::UNALLOCATED == _buf_fmt) return 0;
   const uint32_t PIXEL_COUNT  = pixels();
   const uint8_t  BPP          = _bits_per_pixel();
-  const uint32_t TOTAL_BITS   = (PIXEL_COUNT * BPP);
+  const uint64_t TOTAL_BITS   = ((uint64_t) PIXEL_COUNT * BPP);
   const uint32_t PADDING_BYTE = ((TOTAL_BITS & 7) ? 1:0);
-  return ((TOTAL_BITS >> 3) + PADDING_BYTE);
+  return (uint32_t) ((TOTAL_BITS >> 3) + PADDING_BYTE);
 };
 
 
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 26f10c3..a920943 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -219,7 +219,7 @@ class Image {
     inline uint8_t*        buffer() {         return _buffer;                                };
     inline ImgBufferFormat format() {         return _buf_fmt;                               };
     inline bool            allocated() {      return (nullptr != _buffer);                   };
-    inline uint32_t        pixels() {         return (_x * _y);                              };
+    inline uint32_t        pixels() {         return ((uint32_t) _x * (uint32_t) _y);        };
 
     inline uint8_t         bitsPerPixel() {   return _bits_per_pixel(_buf_fmt);              };
     inline bool            isFrameBuffer() {  return _img_flag(C3P_IMG_FLAG_IS_FRAMEBUFFER); };
-- 
2.43.0


From 01a089fb5738b3afd5930adfb155b41881e7b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 121/164] fix: a refused change of an Image's size or format
 left it at odds with its buffer

---
 src/Image/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index a9148f3..6eef26c 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -536,6 +536,7 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
         memcpy(_buffer, buf, bytesUsed());
         return true;
       }
+      _buf_fmt = old_fmt;   // The existing buffer (if any) still has the old format.
     }
   }
   else {
@@ -550,6 +551,9 @@ bool Image::setBufferByCopy(uint8_t* buf, ImgBufferFormat fmt) {
 
 
 bool Image::setSize(PixUInt x, PixUInt y) {
+  if (allocated() && !_is_ours()) {
+    return false;   // The size of a buffer that isn't ours can't be changed.
+  }
   _x = x;
   _y = y;
   return (0 == _buffer_allocator());
-- 
2.43.0


From ac600ce5999d8c346a5518f763cc4614c3ea25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 122/164] fix: 24-bit Images were written beyond their buffer,
 and at the wrong pixels

---
 src/Image/Image.cpp | 6 +++---
 src/Image/Image.h   | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 6eef26c..7db1ec7 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1936,9 +1936,9 @@ void Image::fill(uint32_t color) {
       break;
     case 24:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *(_buffer + (i << 2) + 0) = (uint8_t) (color >> 16) & 0xFF;
-        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
-        *(_buffer + (i << 2) + 2) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i * 3) + 0) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i * 3) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i * 3) + 2) = (uint8_t) (color & 0xFF);
       }
       break;
     case 16:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index a920943..f98bd9b 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -311,8 +311,10 @@ class Image {
       *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
-      // TODO: Wrong.
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* px = (_buffer + (_pixel_number(x, y) * 3));
+      *(px + 0) = (uint8_t) (c >> 16);
+      *(px + 1) = (uint8_t) (c >> 8);
+      *(px + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
       *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
-- 
2.43.0


From f0e84cdf26e9d85e3116c2f88b67bb8e6ba02b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 123/164] fix: setPixel() and fill() wrote other byte orders
 than getPixel() reads

---
 src/Image/Image.cpp |  8 ++++++--
 src/Image/Image.h   | 10 ++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 7db1ec7..be48523 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1931,7 +1931,10 @@ void Image::fill(uint32_t color) {
   switch (_bits_per_pixel()) {
     case 32:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint32_t*) (_buffer + (i << 2))) = (uint32_t) color;
+        *(_buffer + (i << 2) + 0) = (uint8_t) (color & 0xFF);
+        *(_buffer + (i << 2) + 1) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i << 2) + 2) = (uint8_t) (color >> 16) & 0xFF;
+        *(_buffer + (i << 2) + 3) = (uint8_t) (color >> 24) & 0xFF;
       }
       break;
     case 24:
@@ -1943,7 +1946,8 @@ void Image::fill(uint32_t color) {
       break;
     case 16:
       for (uint32_t i=0; i < (_x * _y); i++) {
-        *((uint16_t*) (_buffer + (i << 1))) = (uint16_t) color;
+        *(_buffer + (i << 1) + 0) = (uint8_t) (color >> 8) & 0xFF;
+        *(_buffer + (i << 1) + 1) = (uint8_t) (color & 0xFF);
       }
       break;
     case 8:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index f98bd9b..aa304e9 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -308,7 +308,11 @@ class Image {
     void _remap_for_orientation(PixUInt* x, PixUInt* y);
 
     inline void _set_pixel_32(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint32_t*) (_buffer + (_pixel_number(x, y) << 2))) = c;
+      uint8_t* px = (_buffer + (_pixel_number(x, y) << 2));   // Little-endian. See getPixel().
+      *(px + 0) = (uint8_t) c;
+      *(px + 1) = (uint8_t) (c >> 8);
+      *(px + 2) = (uint8_t) (c >> 16);
+      *(px + 3) = (uint8_t) (c >> 24);
     };
     inline void _set_pixel_24(PixUInt x, PixUInt y, uint32_t c) {
       uint8_t* px = (_buffer + (_pixel_number(x, y) * 3));
@@ -317,7 +321,9 @@ class Image {
       *(px + 2) = (uint8_t) c;
     };
     inline void _set_pixel_16(PixUInt x, PixUInt y, uint32_t c) {
-      *((uint16_t*) (_buffer + (_pixel_number(x, y) << 1))) = (uint16_t) c;
+      uint8_t* px = (_buffer + (_pixel_number(x, y) << 1));   // Big-endian. See getPixel().
+      *(px + 0) = (uint8_t) (c >> 8);
+      *(px + 1) = (uint8_t) c;
     };
     inline void _set_pixel_8(PixUInt x, PixUInt y, uint32_t c) {
       *(_buffer + _pixel_number(x, y)) = (uint8_t) c;
-- 
2.43.0


From 8375dacc0d6f38232ef53331581b8322aaf69d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 124/164] fix: pixels out of an Image's bounds were written to
 memory, or to other pixels

---
 src/Image/Image.cpp | 16 ++++++++++------
 src/Image/Image.h   |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index be48523..27ba482 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -901,11 +901,10 @@ void Image::_remap_for_orientation(PixUInt* xn, PixUInt* yn) {
 */
 uint32_t Image::getPixel(PixUInt x, PixUInt y) {
   uint32_t ret = 0;
-  uint32_t sz = bytesUsed();
   _remap_for_orientation(&x, &y);
   uint32_t offset = _pixel_offset(x, y);
 
-  if (offset < sz) {
+  if (_pixel_in_buffer(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::R8_G8_B8_ALPHA:    // 32-bit color
         // TODO: Presumption of little-endian framebuffer.
@@ -1045,6 +1044,9 @@ uint32_t Image::getPixelAsFormat(PixUInt x, PixUInt y, ImgBufferFormat target_fm
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
   _remap_for_orientation(&x, &y);
+  if (!_pixel_in_buffer(x, y)) {
+    return false;
+  }
   switch (_buf_fmt) {
     case ImgBufferFormat::R3_G3_B2:          // 8-bit color
     case ImgBufferFormat::GREY_8:            // 8-bit greyscale
@@ -1072,9 +1074,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::UNALLOCATED:       // Buffer unallocated
     default:
-      break;;
+      return false;
   }
-  return false;
+  return true;
 }
 
 
@@ -1083,9 +1085,8 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
 */
 bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
   _remap_for_orientation(&x, &y);
-  uint32_t sz = bytesUsed();
   uint32_t offset = _pixel_offset(x, y);
-  if (offset < sz) {
+  if (_pixel_in_buffer(x, y)) {
     switch (_buf_fmt) {
       case ImgBufferFormat::GREY_24:           // 24-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R8_G8_B8:          // 24-bit color
@@ -1927,6 +1928,9 @@ void Image::drawBitmap(PixUInt x, PixUInt y, const uint8_t* bitmap, PixUInt w, P
 */
 void Image::fill(uint32_t color) {
   //uint8_t bpp = _bits_per_pixel();
+  if (!allocated()) {
+    return;
+  }
   _lock(true);
   switch (_bits_per_pixel()) {
     case 32:
diff --git a/src/Image/Image.h b/src/Image/Image.h
index aa304e9..53d2dad 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -332,6 +332,9 @@ class Image {
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
+    /* Is there memory for the pixel? */
+    inline bool _pixel_in_buffer(PixUInt x, PixUInt y) {     return (allocated() && (x < _x) && (y < _y));    };
+
     /* Returns the byte offset in the buffer that holds the pixel. */
     inline uint32_t _pixel_offset(PixUInt x, PixUInt y) {    return ((_pixel_number(x, y) * _bits_per_pixel()) >> 3);  };
 
-- 
2.43.0


From 026aa9332ae9e95d82066fab234d9eab832c0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 125/164] fix: setPixel() by channels kept the wrong bits in
 16-bit and 8-bit Images

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 27ba482..c4c700f 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1096,12 +1096,12 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::GREY_16:           // 16-bit greyscale   TODO: Wrong. Has to be.
       case ImgBufferFormat::R5_G6_B5:          // 16-bit color
-        *(_buffer + offset + 0) = ((uint16_t) ((r << 3) & 0xF8) << 8) | ((g >> 3) & 0x07);
-        *(_buffer + offset + 1) = ((uint16_t) ((g << 5) & 0xE0) << 8) | ((b >> 3) & 0x1F);
+        *(_buffer + offset + 0) = (uint8_t) ((r & 0xF8) | (g >> 5));
+        *(_buffer + offset + 1) = (uint8_t) (((g << 3) & 0xE0) | (b >> 3));
         break;
       case ImgBufferFormat::GREY_8:            // 8-bit greyscale    TODO: Wrong. Has to be.
       case ImgBufferFormat::R3_G3_B2:          // 8-bit color
-        *(_buffer + offset) = ((uint8_t) (r << 6) & 0xE0) | ((uint8_t) (g << 2) & 0x1C) | (b & 0x07);
+        *(_buffer + offset) = (uint8_t) ((r & 0xE0) | ((g >> 3) & 0x1C) | (b >> 6));
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-- 
2.43.0


From ea79bcea73e457465943a7852f94c01234caf763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 126/164] fix: pixels of monochrome Images were lost, or
 aliased, unless the height was a multiple of 8

---
 src/Image/Image.cpp | 22 +++++++++++-----------
 src/Image/Image.h   |  6 ++++++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index c4c700f..bb1cd4f 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -929,9 +929,9 @@ uint32_t Image::getPixel(PixUInt x, PixUInt y) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const uint32_t term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t BIT_NUMBER = _mono_bit_number(x, y);
+          const uint8_t bit_mask = 1 << (BIT_NUMBER & 0x07);
+          offset = (BIT_NUMBER >> 3);
           uint8_t byte_group = *(_buffer + offset);
           // Full saturation on boolean pixel value.
           ret = (byte_group & bit_mask) ? 0xFFFFFFFF : 0;
@@ -1065,9 +1065,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint32_t c) {
       break;
     case ImgBufferFormat::MONOCHROME:        // Monochrome
       {
-        const PixUInt term0 = (_y >> 3);
-        const uint32_t offset = x * term0 + (term0 - (y >> 3) - 1);
-        const uint8_t bit_mask = 1 << (7 - (y & 0x07));
+        const uint32_t BIT_NUMBER = _mono_bit_number(x, y);
+        const uint32_t offset = (BIT_NUMBER >> 3);
+        const uint8_t bit_mask = 1 << (BIT_NUMBER & 0x07);
         uint8_t byte_group = *(_buffer + offset);
         *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == c) ? 0 : bit_mask);
       }
@@ -1105,9 +1105,9 @@ bool Image::setPixel(PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {
         break;
       case ImgBufferFormat::MONOCHROME:        // Monochrome
         {
-          const PixUInt term0 = (_y >> 3);
-          const uint8_t bit_mask = 1 << (7 - (y & 0x07));
-          offset = x * term0 + (term0 - (y >> 3) - 1);
+          const uint32_t BIT_NUMBER = _mono_bit_number(x, y);
+          const uint8_t bit_mask = 1 << (BIT_NUMBER & 0x07);
+          offset = (BIT_NUMBER >> 3);
           uint8_t byte_group = *(_buffer + offset);
           *(_buffer + offset) = (byte_group & ~bit_mask) | ((0 == ((uint16_t) r + g + b)) ? 0 : bit_mask);
         }
@@ -1959,8 +1959,8 @@ void Image::fill(uint32_t color) {
         *(_buffer + i) = (uint8_t) color;
       }
       break;
-    case 1:   // NOTE: Assumes a pixel count of mod(8).
-      for (uint32_t i=0; i < (uint32_t) ((_x * _y) >> 3); i++) {
+    case 1:
+      for (uint32_t i=0; i < bytesUsed(); i++) {
         *(_buffer + i) = (0 != color) ? 0xFF : 0x00;
       }
       break;
diff --git a/src/Image/Image.h b/src/Image/Image.h
index 53d2dad..14cb86f 100644
--- a/src/Image/Image.h
+++ b/src/Image/Image.h
@@ -332,6 +332,12 @@ class Image {
     /* Linearizes the X/y value in preparation for array indexing. */
     inline uint32_t _pixel_number(uint32_t x, uint32_t y) {      return ((y * _x) + x);    };
 
+    /*
+    * Monochrome images are stored by columns, from the bottom to the top, and
+    *   from the least-significant bit of each byte.
+    */
+    inline uint32_t _mono_bit_number(uint32_t x, uint32_t y) {   return ((x * _y) + (_y - 1 - y));   };
+
     /* Is there memory for the pixel? */
     inline bool _pixel_in_buffer(PixUInt x, PixUInt y) {     return (allocated() && (x < _x) && (y < _y));    };
 
-- 
2.43.0


From ca7dcd60a27dad5d250b17a45b706ebedb23a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 127/164] fix: Image shapes without extent, or across the top
 or left edge, filled other pixels

---
 src/Image/Image.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index bb1cd4f..c3ae13e 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1525,7 +1525,9 @@ void Image::drawFastVLine(PixUInt x, PixUInt y, PixUInt h, uint32_t color) {
   // Can be just drawLine(x, y, x, y+h-1, color);
   // or fillRect(x, y, 1, h, color);
   _lock(true);
-  drawLine(x, y, x, y+h-1, color);
+  for (PixUInt i = 0; i < h; i++) {   // Addresses beyond the edges (or wrapped) are clipped.
+    setPixel(x, y+i, color);
+  }
   _lock(false);
 }
 
@@ -1542,7 +1544,9 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
   // Example: drawLine(x, y, x+w-1, y, color);
   // or fillRect(x, y, w, 1, color);
   _lock(true);
-  drawLine(x, y, x+w-1, y, color);
+  for (PixUInt i = 0; i < w; i++) {   // Addresses beyond the edges (or wrapped) are clipped.
+    setPixel(x+i, y, color);
+  }
   _lock(false);
 }
 
@@ -1557,8 +1561,10 @@ void Image::drawFastHLine(PixUInt x, PixUInt y, PixUInt w, uint32_t color) {
 */
 void Image::fillRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t color) {
   _lock(true);
-  for (uint32_t i=x; i<x+w; i++) {
-    drawLine(i, y, i, y+h-1, color);
+  for (PixUInt i = 0; i < w; i++) {   // Addresses beyond the edges (or wrapped) are clipped.
+    for (PixUInt j = 0; j < h; j++) {
+      setPixel(x+i, y+j, color);
+    }
   }
   _lock(false);
 }
-- 
2.43.0


From 20d8fa4dc9a3060505263fef218bc03279dba179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 128/164] fix: Image::drawLine() never returned from the last
 pixel address

---
 src/Image/Image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index c3ae13e..549dda6 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1999,7 +1999,7 @@ void Image::drawLine(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, uint32_t co
   const int8_t   ystep = (y0 < y1) ? 1 : -1;
   int32_t err = (int32_t) (dx >> 1);  // NOTE: Imposes width limit of 2,147,483,648 pixels.
 
-  while (x0 <= x1) {
+  for (uint32_t i = x0; i <= x1; i++) {   // Wider than PixUInt, so that it can exceed x1.
     if (steep) {
       setPixel(y0, x0, color);
     }
-- 
2.43.0


From 160452de6cccc146ee5c6d752c4735d8c4f67b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 129/164] fix: Image::fillTriangle() failed on edges that go
 left, and on a flat top at zero

---
 src/Image/Image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 549dda6..6926310 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1658,7 +1658,7 @@ void Image::drawTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     @param    color 16-bit 5-6-5 Color to fill/draw with
 */
 void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt x2, PixUInt y2, uint32_t color) {
-  PixUInt a, b, y, last;
+  int32_t a, b, y, last;   // Signed, since edges might go left, and last might be -1.
   // Sort coordinates by Y order (y2 >= y1 >= y0)
   if (y0 > y1) {
     strict_swap(&y0, &y1);
@@ -1683,9 +1683,9 @@ void Image::fillTriangle(PixUInt x0, PixUInt y0, PixUInt x1, PixUInt y1, PixUInt
     return;
   }
 
-  PixUInt dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
+  const int32_t dx01 = x1 - x0, dy01 = y1 - y0, dx02 = x2 - x0, dy02 = y2 - y0,
           dx12 = x2 - x1, dy12 = y2 - y1;
-  PixUInt sa = 0, sb = 0;
+  int32_t sa = 0, sb = 0;
 
   // For upper part of triangle, find scanline crossings for segments
   // 0-1 and 0-2.  If y1=y2 (flat-bottomed triangle), the scanline y1
-- 
2.43.0


From 641348b49555982e7d64e727f5ae74861de51c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 130/164] fix: two forms of Image::getTextBounds() gave wrong
 bounds, or none

---
 src/Image/Image.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 6926310..ab53759 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1472,6 +1472,9 @@ void Image::getTextBounds(StringBuilder* str, PixUInt x, PixUInt y, PixUInt* x1,
   if (str->length() != 0) {
     getTextBounds((const uint8_t*) str->string(), x, y, x1, y1, w, h);
   }
+  else {
+    getTextBounds("", x, y, x1, y1, w, h);
+  }
 }
 
 
@@ -1494,8 +1497,8 @@ void Image::getTextBounds(const uint8_t* str, PixUInt x, PixUInt y, PixUInt* x1,
 
   PixUInt minx = _x;
   PixUInt miny = _y;
-  PixUInt maxx = -1;
-  PixUInt maxy = -1;
+  PixUInt maxx = 0;
+  PixUInt maxy = 0;
 
   while((c = *s++)) {
     _char_bounds(c, &x, &y, &minx, &miny, &maxx, &maxy);
-- 
2.43.0


From f9a9c2fe36c620e79ed3cffab0a193e404aa973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 131/164] fix: Image::fillRoundRect() left out the ends of a
 rectangle two pixels wide or high

---
 src/Image/Image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index ab53759..f860f27 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1625,6 +1625,7 @@ void Image::drawRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r,
 void Image::fillRoundRect(PixUInt x, PixUInt y, PixUInt w, PixUInt h, PixUInt r, uint32_t color) {
   PixUInt max_radius = ((w < h) ? w : h) >> 1; // 1/2 minor axis
   if (r > max_radius) r = max_radius;
+  if ((1 == r) && ((2 == w) || (2 == h))) r = 0;  // No room for corners: No pixel of the ends would remain.
   // smarter version
   fillRect(x + r, y, w - 2 * r, h, color);
   // draw four corners
-- 
2.43.0


From 5270f9a430d70b06c8fbc05c1980c7bc556292b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 132/164] fix: Image::getTextBounds() took a tab for one
 character

---
 src/Image/Image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index f860f27..56e3ca1 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1399,6 +1399,10 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
       }
     }
   }
+  else if (c == '\t') {  // The default font writes two spaces.
+    _char_bounds(' ', x, y, minx, miny, maxx, maxy);
+    _char_bounds(' ', x, y, minx, miny, maxx, maxy);
+  }
   else { // Default font
     if(c == '\n') {                   // Newline?
       *x  = 0;                        // Reset x to zero,
-- 
2.43.0


From a18c2fd112663df355344a2ebd4170a4217aa5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 133/164] fix: Image::getTextBounds() went wrong on spaces of a
 custom font

---
 src/Image/Image.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Image/Image.cpp b/src/Image/Image.cpp
index 56e3ca1..78a7632 100644
--- a/src/Image/Image.cpp
+++ b/src/Image/Image.cpp
@@ -1382,19 +1382,21 @@ void Image::_char_bounds(char c, PixUInt* x, PixUInt* y, PixUInt* minx, PixUInt*
         uint8_t xa = glyph->xAdvance;
         int8_t  xo = glyph->xOffset;
         int8_t  yo = glyph->yOffset;
-        if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
-          *x  = 0; // Reset x to zero, advance y by one line
-          *y += _textsize * (uint8_t) _gfxFont->yAdvance;
-        }
         int16_t ts = (int16_t) _textsize;
-        PixUInt x1 = *x + xo * ts;
-        PixUInt y1 = *y + yo * ts;
-        PixUInt x2 = x1 + gw * ts - 1;
-        PixUInt y2 = y1 + gh * ts - 1;
-        if(x1 < *minx) *minx = x1;
-        if(y1 < *miny) *miny = y1;
-        if(x2 > *maxx) *maxx = x2;
-        if(y2 > *maxy) *maxy = y2;
+        if ((gw > 0) && (gh > 0)) { // A space has no pixels, and writeChar() doesn't wrap it.
+          if(textWrap() && ((*x+(((int16_t)xo+gw) * _textsize)) > _x)) {
+            *x  = 0; // Reset x to zero, advance y by one line
+            *y += _textsize * (uint8_t) _gfxFont->yAdvance;
+          }
+          PixUInt x1 = *x + xo * ts;
+          PixUInt y1 = *y + yo * ts;
+          PixUInt x2 = x1 + gw * ts - 1;
+          PixUInt y2 = y1 + gh * ts - 1;
+          if(x1 < *minx) *minx = x1;
+          if(y1 < *miny) *miny = y1;
+          if(x2 > *maxx) *maxx = x2;
+          if(y2 > *maxy) *maxy = y2;
+        }
         *x += xa * ts;
       }
     }
-- 
2.43.0


From 245cf9d14c3b3fbcf5dce5873e31cb8e20b155d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 134/164] fix: ImageScaler filled a reduced image with one
 pixel of its source

---
 src/Image/ImageUtils/ImageScalers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageScalers.cpp b/src/Image/ImageUtils/ImageScalers.cpp
index fc77a98..55f1410 100644
--- a/src/Image/ImageUtils/ImageScalers.cpp
+++ b/src/Image/ImageUtils/ImageScalers.cpp
@@ -62,6 +62,7 @@ int8_t ImageScaler::apply() {
       if ((_target->x() >= TGT_X_RANGE_END) && (_target->y() >= TGT_Y_RANGE_END)) {
         ret = 0;
         if (_scale < 1.0f) {
+          const PixUInt SAMPLE_STEP = (PixUInt) (1.0f / _scale);
           PixUInt source_x = SRC_X_RANGE_START;
           PixUInt source_y = SRC_Y_RANGE_START;
           // If source area is larger than target area, we will need to sample an
@@ -72,9 +73,9 @@ int8_t ImageScaler::apply() {
             for (PixUInt j = TGT_Y_RANGE_START; j < TGT_Y_RANGE_END; j++) {
               uint32_t color = _source->getPixelAsFormat(source_x, source_y, _target->format());
               _target->setPixel(i, j, color);
-              source_y += SQUARE_SIZE;
+              source_y += SAMPLE_STEP;
             }
-            source_x += SQUARE_SIZE;
+            source_x += SAMPLE_STEP;
             source_y = SRC_Y_RANGE_START;
           }
         }
-- 
2.43.0


From 1c82faea9112e241881a5c640ff8c1a2fa1d0511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 135/164] fix: M2MLink must not give one ID to two messages
 that await replies

---
 src/M2MLink/M2MLink.cpp | 29 +++++++++++++++++++++++++----
 src/M2MLink/M2MLink.h   |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/M2MLink/M2MLink.cpp b/src/M2MLink/M2MLink.cpp
index 402a952..4c0a7a0 100644
--- a/src/M2MLink/M2MLink.cpp
+++ b/src/M2MLink/M2MLink.cpp
@@ -390,7 +390,7 @@ int8_t M2MLink::writeRemoteLog(StringBuilder* outbound_log, bool need_reply) {
   if (!outbound_log->isEmpty()) {
     ret--;
     if (_flags.value(M2MLINK_FLAG_ESTABLISHED)) {
-      M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0));
+      M2MMsgHdr hdr(M2MMsgCode::LOG, 0, (need_reply ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0), (need_reply ? _unused_msg_id() : 0));
       M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
       ret--;
       if (nullptr != msg) {
@@ -568,7 +568,7 @@ int M2MLink::send(KeyValuePair* kvp, bool need_reply) {
       return -4;
   }
 
-  M2MMsgHdr hdr(M2MMsgCode::APPLICATION, 0, need_reply);
+  M2MMsgHdr hdr(M2MMsgCode::APPLICATION, 0, need_reply, (need_reply ? _unused_msg_id() : 0));
   M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
   if (nullptr != msg) {
     ret = 0;
@@ -984,6 +984,27 @@ int8_t M2MLink::_clear_waiting_send_by_id(uint32_t id) {
 }
 
 
+/**
+* A reply is matched to its message by ID alone. So no two messages that are
+*   waiting in the outbound queue may bear the same one, and zero means "no ID".
+*
+* @return an ID that is suitable for a new message that wants a reply.
+*/
+uint32_t M2MLink::_unused_msg_id() {
+  uint32_t ret = (0x00FFFFFF & randomUInt32());
+  bool in_use = true;
+  while (in_use) {
+    in_use = (0 == ret);
+    for (int i = 0; (!in_use) & (i < _outbound_messages.size()); i++) {
+      M2MMsg* temp = _outbound_messages.get(i);
+      in_use = ((nullptr != temp) && (ret == temp->uniqueId()));
+    }
+    if (in_use) ret = (0x00FFFFFF & (ret + 1));
+  }
+  return ret;
+}
+
+
 /**
 * This handler deals with the specifics of receiving a LOG message.
 *
@@ -1471,7 +1492,7 @@ int8_t M2MLink::_send_connect_message() {
 */
 int8_t M2MLink::_send_hangup_message(bool graceful) {
   int8_t ret = -1;
-  M2MMsgHdr hdr(M2MMsgCode::HANGUP, 0, true);
+  M2MMsgHdr hdr(M2MMsgCode::HANGUP, 0, true, _unused_msg_id());
   M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
   if (nullptr != msg) {
     ret--;
@@ -1493,7 +1514,7 @@ int8_t M2MLink::_send_hangup_message(bool graceful) {
 */
 int8_t M2MLink::_send_who_message() {
   int8_t ret = -1;
-  M2MMsgHdr hdr(M2MMsgCode::WHO, 0, true);
+  M2MMsgHdr hdr(M2MMsgCode::WHO, 0, true, _unused_msg_id());
   M2MMsg* msg = _allocate_m2mmsg(&hdr, BusOpcode::TX);
   if (nullptr != msg) {
     ret--;
diff --git a/src/M2MLink/M2MLink.h b/src/M2MLink/M2MLink.h
index f0cf34c..ee52ab0 100644
--- a/src/M2MLink/M2MLink.h
+++ b/src/M2MLink/M2MLink.h
@@ -545,6 +545,7 @@ class M2MLink : public StateMachine<M2MLinkState>, public BufferCoDec {
     int8_t _churn_inbound();
     int8_t _churn_outbound();
     int8_t _clear_waiting_send_by_id(uint32_t);
+    uint32_t _unused_msg_id();
 
     /* Internal handlers for receiving messages confined to this class. */
     int8_t   _handle_msg_log(M2MMsg*);
-- 
2.43.0


From be854820f0b86cea2c22bc9fa661865e910c1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 136/164] fix: UARTAdapter::write() must not report 4294967295
 bytes taken by a full buffer

---
 src/BusQueue/UARTAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/UARTAdapter.cpp b/src/BusQueue/UARTAdapter.cpp
index 051a09c..950f9ee 100644
--- a/src/BusQueue/UARTAdapter.cpp
+++ b/src/BusQueue/UARTAdapter.cpp
@@ -244,7 +244,8 @@ uint32_t UARTAdapter::write(StringBuilder* buf) {
 uint32_t UARTAdapter::write(uint8_t* buf, uint32_t len) {
   uint32_t ret = 0;
   if (txCapable()) {
-    ret = _tx_buffer.insert(buf, len);
+    const int INSERT_COUNT = _tx_buffer.insert(buf, len);
+    ret = ((INSERT_COUNT > 0) ? (uint32_t) INSERT_COUNT : 0);
   }
   return ret;
 }
-- 
2.43.0


From 2885f4749b137baaadcda541517eb457584dc9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 137/164] fix: I2CAdapter::queue_io_job() reported failure for
 jobs that it began, and let them overtake the queue

---
 src/BusQueue/I2CAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/I2CAdapter.cpp b/src/BusQueue/I2CAdapter.cpp
index c4fecb5..434bbd8 100644
--- a/src/BusQueue/I2CAdapter.cpp
+++ b/src/BusQueue/I2CAdapter.cpp
@@ -167,11 +167,12 @@ FAST_FUNC int8_t I2CAdapter::queue_io_job(BusOp* op) {
   //nu->setVerbosity(getVerbosity());
   nu->setAdapter(this);
 
-  if ((nullptr == current_job) && _pf_dispatch_on_queue() && busOnline()) {
+  if (busIdle() && _pf_dispatch_on_queue() && busOnline()) {
     // Bus is idle, and the platform has decided that we ought to start I/O
     //   immediately under this condition.
     // Put this work item in the active slot and start the bus operations.
     current_job = nu;
+    ret = 0;   // The job was accepted. Any fault is for its callback to find.
     if (XferFault::NONE != nu->begin()) {
       c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "I2C%u:\tFailed to begin transfer while short-circuiting the queue.\n", ADAPTER_NUM);
     }
-- 
2.43.0


From a56bba14fad510d521903fae417835147c24c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 138/164] fix: purge_queued_work_by_dev() skipped the job after
 each one it purged

---
 src/BusQueue/BusQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index ec1e43d..dcf87b3 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -428,7 +428,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     */
     int8_t purge_queued_work_by_dev(BusOpCallback* cb_obj) {
       int8_t ret = 0;
-      for (int i = 0; i < work_queue.size(); i++) {
+      int i = 0;
+      while (i < work_queue.size()) {
         T* current = work_queue.get(i);
         if ((nullptr != current) && (current->callback == cb_obj)) {
           ret++;
@@ -439,6 +440,7 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
           }
           _reclaim_queue_item(current);   // Delete the queued work AND its buffer.
         }
+        else i++;   // Only if nothing was removed. Otherwise, the next job moved here.
       }
       return ret;
     };
-- 
2.43.0


From 78a73adc4afad0d99572909948a5d80662611a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 139/164] fix: I2CDevice must not dereference a bus op that it
 could not get

---
 src/BusQueue/I2CDevice.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 1ea6144..842a105 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -98,6 +98,9 @@ bool I2CDevice::writeX(int sub_addr, uint16_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::TX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
@@ -110,6 +113,9 @@ bool I2CDevice::readX(int sub_addr, uint8_t len, uint8_t *buf) {
     return false;
   }
   I2CBusOp* nu = _bus->new_op(BusOpcode::RX, this);
+  if (nullptr == nu) {
+    return false;
+  }
   nu->dev_addr = _dev_addr;
   nu->sub_addr = (int16_t) sub_addr;
   nu->setBuffer(buf, len);
-- 
2.43.0


From 9671ef164e2290dc46be7e7696dc3805760675a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 140/164] fix: I2CDevice left its job in progress with a
 callback to the destroyed device

---
 src/BusQueue/I2CDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BusQueue/I2CDevice.cpp b/src/BusQueue/I2CDevice.cpp
index 842a105..89afb34 100644
--- a/src/BusQueue/I2CDevice.cpp
+++ b/src/BusQueue/I2CDevice.cpp
@@ -39,6 +39,10 @@ I2CDevice::I2CDevice(uint8_t addr) : _dev_addr(addr) {
 I2CDevice::~I2CDevice() {
   if (_bus) {
     _bus->purge_queued_work_by_dev(this);
+    I2CBusOp* current = _bus->currentJob();
+    if ((nullptr != current) && (this == current->callback)) {
+      current->callback = nullptr;   // The job runs on, without us.
+    }
   }
 };
 
-- 
2.43.0


From 322dba5a6731db182d6c2292a1f62996f3157a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 141/164] fix: I2CBusOp's constructor lost the addresses it was
 given

---
 src/BusQueue/I2CBusOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BusQueue/I2CBusOp.cpp b/src/BusQueue/I2CBusOp.cpp
index b8cb977..5445616 100644
--- a/src/BusQueue/I2CBusOp.cpp
+++ b/src/BusQueue/I2CBusOp.cpp
@@ -47,8 +47,8 @@ I2CBusOp::I2CBusOp(BusOpcode nu_op, BusOpCallback* requester) : I2CBusOp() {
 *   under the exclusive control of the caller.
 */
 I2CBusOp::I2CBusOp(BusOpcode nu_op, uint8_t dev_addr, int16_t sub_addr, uint8_t* buffer, uint16_t len) : I2CBusOp() {
-  dev_addr     = dev_addr;
-  sub_addr     = sub_addr;
+  this->dev_addr = dev_addr;
+  this->sub_addr = sub_addr;
   set_opcode(nu_op);
   setBuffer(buffer, len);
 };
-- 
2.43.0


From 3e2e4137833ae37804d79008046a8e650321e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 142/164] fix: BusAdapter::_memory_init() dereferenced null, or
 never returned

---
 src/BusQueue/BusQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index dcf87b3..3a6227d 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -511,7 +511,9 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
     int8_t _memory_init() {
       int8_t ret = -1;
       if (preallocated.allocated()) {
-        for (uint8_t i = 0; i < preallocated.capacity(); i++) {
+        // Ops that are still outstanding were already given this treatment.
+        const uint32_t OP_COUNT = preallocated.available();
+        for (uint32_t i = 0; i < OP_COUNT; i++) {
           T* pa_busop = preallocated.take();
           pa_busop->shouldReap(false);
           preallocated.give(pa_busop);
-- 
2.43.0


From 5ce0eee5722e69033f405b3fa7ebc7fe9eefde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 143/164] fix: BusAdapter let one job's buffer-free order carry
 over to the next job

---
 src/BusQueue/BusQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BusQueue/BusQueue.h b/src/BusQueue/BusQueue.h
index 3a6227d..7f986a8 100644
--- a/src/BusQueue/BusQueue.h
+++ b/src/BusQueue/BusQueue.h
@@ -541,8 +541,8 @@ template <class T> class BusAdapter : public BusOpCallback, public C3PPollable {
         //   marked for reap, do so at this point.
         free(op->buffer());
         op->setBuffer(nullptr, 0);
-        op->shouldFreeBuffer(false);
       }
+      op->shouldFreeBuffer(false);   // Must not outlive this use of the op.
 
       if (op->shouldReap() || preallocated.inPool(op)) {
         // If we are in this block, it means obj was preallocated. wipe and reclaim it.
-- 
2.43.0


From 34ffd4a919f87ebf829ca86b0521873d329b16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 144/164] fix: SPIBusOp::wipe() left one job's frequency to the
 next

---
 src/BusQueue/SPIBusOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BusQueue/SPIBusOp.cpp b/src/BusQueue/SPIBusOp.cpp
index 4eefa26..5b56ff1 100644
--- a/src/BusQueue/SPIBusOp.cpp
+++ b/src/BusQueue/SPIBusOp.cpp
@@ -248,6 +248,8 @@ FAST_FUNC int8_t SPIBusOp::_assert_cs(bool asrt) {
 FAST_FUNC void SPIBusOp::wipe() {
   BusOp::_busop_wipe(this);
   // Flags that deal with memory management are untouched.
+  _bus        = nullptr;
+  _max_freq   = 0;
   _cs_pin     = 255;
   _param_len  = 0;
   xfer_params[0] = 0;
-- 
2.43.0


From f1fc5a934ced3796bae3f6f5b38108262d7bfb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 145/164] fix: ElementPool refused all overdraws after it was
 given an object that it didn't make

---
 src/ElementPool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ElementPool.h b/src/ElementPool.h
index 0f9603d..bdc8c6e 100644
--- a/src/ElementPool.h
+++ b/src/ElementPool.h
@@ -157,7 +157,10 @@ template <class T> int8_t ElementPool<T>::give(T* e) {
   }
   else {
     // We were created because our prealloc was starved. we are therefore a transient heap object.
-    _overdraws_freed++;
+    //   Or we came from outside, and don't figure in the count.
+    if (_overdraws_outstanding() > 0) {
+      _overdraws_freed++;
+    }
     delete e;
     return 0;
   }
-- 
2.43.0


From 6a21e75066050acc689bf6f5ede5dc7870019248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 146/164] fix: GPSWrapper counted rejected sentences as parsed,
 and repeated its callback for them

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index c878c85..372b925 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -221,12 +221,12 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 bool GPSWrapper::_attempt_parse() {
   if (_accumulator.split("\n") == 0) return false;
   char* line = nullptr;
-  bool local_success = false;
-  bool emit_callback = false;
 
   // Always assume that the last token in the accumulator is an incomplete line.
   while (_accumulator.count() > 1) {
     line = _accumulator.position(0);
+    bool local_success = false;
+    bool emit_callback = false;
     enum minmea_sentence_id id = _sentence_id(line, false);
     switch (id) {
       case MINMEA_SENTENCE_GSA:
-- 
2.43.0


From 0ec00c01d9509f2add24042fc370df683051a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 147/164] fix: GPSWrapper merged a complete line with the line
 that followed it in the next buffer

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 372b925..9866e7d 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -219,11 +219,13 @@ enum minmea_sentence_id GPSWrapper::_sentence_id(const char *sentence, bool stri
 
 
 bool GPSWrapper::_attempt_parse() {
+  // The split drops the delimiters, so note first if the last line is complete.
+  const bool LAST_IS_COMPLETE = ('\n' == (char) _accumulator.byteAt(_accumulator.length() - 1));
   if (_accumulator.split("\n") == 0) return false;
   char* line = nullptr;
 
-  // Always assume that the last token in the accumulator is an incomplete line.
-  while (_accumulator.count() > 1) {
+  // Without a line break at its end, the last token is an incomplete line.
+  while (_accumulator.count() > (LAST_IS_COMPLETE ? 0 : 1)) {
     line = _accumulator.position(0);
     bool local_success = false;
     bool emit_callback = false;
-- 
2.43.0


From 7ecdb29a91281ac63fb83b2d21d24526e9332ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 148/164] fix: GPSWrapper dropped an unfinished line after a
 large buffer

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 9866e7d..5e92925 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -149,11 +149,11 @@ static inline float minmea_tocoord(struct minmea_float *f) {
 */
 int8_t GPSWrapper::pushBuffer(StringBuilder* buf) {
   _accumulator.concatHandoff(buf);
-  const int32_t ACC_LEN = _accumulator.length();
-  if (MINMEA_MAX_LENGTH < ACC_LEN) {
+  if (MINMEA_MAX_LENGTH < _accumulator.length()) {
     _attempt_parse();
   }
 
+  const int32_t ACC_LEN = _accumulator.length();   // What remains after parsing.
   if (ACC_LEN > GPSWRAPPER_MAX_ACCUMULATOR_LEN) {
     _accumulator.cull(ACC_LEN - GPSWRAPPER_MAX_ACCUMULATOR_LEN);
   }
-- 
2.43.0


From 45e3d1e084f9a4cd496ee061965558e7ead33f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 149/164] fix: GPSWrapper turned an altitude or speed that
 wasn't given into an arbitrary number

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 5e92925..1586732 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -281,7 +281,10 @@ bool GPSWrapper::_attempt_parse() {
           if (_parse_gga(&frame, line)) {
             _loc_frame.sat_count = frame.satellites_tracked;
             switch (frame.altitude_units) {
-              case 'M': _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);   break;
+              case 'M':
+                // An altitude that isn't given changes nothing.
+                if (0 != frame.altitude.scale) _loc_frame.altitude = (int) (minmea_tofloat(&frame.altitude) * 1000.0);
+                break;
               default:  break;
             }
             //_log.concatf("$xxGGA: fix quality: %d\n", frame.fix_quality);
@@ -330,7 +333,9 @@ bool GPSWrapper::_attempt_parse() {
           struct minmea_sentence_vtg frame;
           if (_parse_vtg(&frame, line)) {
             _loc_frame.mag_bearing = minmea_tofloat(&frame.magnetic_track_degrees);
-            _loc_frame.speed       = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            if ((0 != frame.speed_kph.scale) && (0 <= frame.speed_kph.value)) {   // Likewise, for a speed that isn't given.
+              _loc_frame.speed     = (minmea_tofloat(&frame.speed_kph) * 1000000) / 3600;  // Convert to mm/sec
+            }
             local_success = true;
             emit_callback = true;
           }
-- 
2.43.0


From 8dc6f7e74852a4a7d19c4b8e681465d6527843bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 150/164] fix: GPSWrapper overflowed on numbers with many
 decimal places

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 1586732..e44a27f 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -128,9 +128,11 @@ static inline float minmea_tofloat(struct minmea_float *f) {
 */
 static inline float minmea_tocoord(struct minmea_float *f) {
   if (f->scale == 0) {     return NAN;     }
-  int_least32_t degrees = f->value / (f->scale * 100);
-  int_least32_t minutes = f->value % (f->scale * 100);
-  return (float) degrees + (float) minutes / (60 * f->scale);
+  // A scale of many decimal places would overflow 32 bits.
+  const int64_t SCALE = f->scale;
+  int_least32_t degrees = (int_least32_t) (f->value / (SCALE * 100));
+  int_least32_t minutes = (int_least32_t) (f->value % (SCALE * 100));
+  return (float) degrees + (float) minutes / (60 * SCALE);
 }
 
 
@@ -500,7 +502,7 @@ bool GPSWrapper::_scan(const char *sentence, const char *format, ...) {
                             int digit = *field - '0';
                             if (value == -1)
                                 value = 0;
-                            if (value > (INT_LEAST32_MAX-digit) / 10) {
+                            if ((value > (INT_LEAST32_MAX-digit) / 10) || (scale > (INT_LEAST32_MAX / 10))) {
                                 /* we ran out of bits, what do we do? */
                                 if (scale) {
                                     /* truncate extra precision */
-- 
2.43.0


From 8a59eb96b03368ffa49d364d3edaf723dd1725b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 151/164] fix: GPSWrapper::haversineDistance() returned half of
 the distance

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index e44a27f..9ddf8c7 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -82,8 +82,9 @@ int32_t GPSWrapper::haversineDistance(LocationFrame* p0, LocationFrame* p1) {
   double half_delta_theta  = sin(delta_theta / 2);
   double half_delta_lambda = sin(delta_lambda / 2);
   double haversine_angle   = (half_delta_theta * half_delta_theta) + cos(theta0) * cos(theta1) * (half_delta_lambda * half_delta_lambda);
+  haversine_angle = strict_min(haversine_angle, (double) 1.0);   // Rounding might exceed the range.
   double haversine_arctan  = atan2(sqrt(haversine_angle), sqrt(1 - haversine_angle));
-  ret = (int32_t) (MEAN_RADIUS_OF_EARTH * haversine_arctan);
+  ret = (int32_t) (MEAN_RADIUS_OF_EARTH * 2 * haversine_arctan);
   return ret;
 }
 
-- 
2.43.0


From 538ec3053dbff49df70bc7762c59f4786cd2270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 152/164] fix: GPSWrapper took the UTC of its sentences for
 local time

---
 .../BufferAccepter/GPSWrapper/GPSWrapper.cpp  | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index 9ddf8c7..ca617cb 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -887,19 +887,13 @@ bool GPSWrapper::_parse_vtg(struct minmea_sentence_vtg *frame, const char *sente
 
 int GPSWrapper::_gettime(struct timespec *ts, const struct minmea_date* dval, const struct minmea_time* tval) {
   if (dval->year != -1 && tval->hours != -1) {
-    struct tm tm;
-    memset(&tm, 0, sizeof(tm));
-    tm.tm_year = 2000 + dval->year - 1900;
-    tm.tm_mon  = dval->month - 1;
-    tm.tm_mday = dval->day;
-    tm.tm_hour = tval->hours;
-    tm.tm_min  = tval->minutes;
-    tm.tm_sec  = tval->seconds;
-
-    //time_t timestamp = timegm(&tm); /* See README.md if your system lacks timegm(). */
-    time_t timestamp = mktime(&tm); /* See README.md if your system lacks timegm(). */
-    if (timestamp != -1) {
-      ts->tv_sec = timestamp;
+    // GPS time is UTC. But mktime() takes local time, and timegm() isn't everywhere.
+    if ((dval->month >= 1) && (dval->month <= 12)) {
+      const uint16_t DAYS_BEFORE_MONTH[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+      const int Y = dval->year;    // Years since 2000, which was a leap year.
+      int32_t days = 10957 + (365 * Y) + ((Y + 3) / 4) + DAYS_BEFORE_MONTH[dval->month - 1] + (dval->day - 1);
+      if ((dval->month > 2) && (0 == (Y % 4))) days++;
+      ts->tv_sec  = (time_t) (((int64_t) days * 86400) + (tval->hours * 3600) + (tval->minutes * 60) + tval->seconds);
       ts->tv_nsec = tval->microseconds * 1000;
       return 0;
     }
-- 
2.43.0


From 272e474fad204acfc392f25d7182be1bec835773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 153/164] fix: LocationFrame::printDebug() passed a 64-bit
 timestamp to a 32-bit format

---
 src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
index ca617cb..cb7e5c7 100644
--- a/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
+++ b/src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp
@@ -38,7 +38,7 @@ extern "C" {
 *******************************************************************************/
 
 void LocationFrame::printDebug(StringBuilder* output) {
-  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", timestamp, sat_count);
+  output->concatf("\tTimestamp: %u\n\tSat count: %u\n", (uint32_t) timestamp, sat_count);
   output->concatf("\t(%.6f, %.6f) heading %.2f at %u m/s\n", (double) lat, (double) lon, (double) mag_bearing, (speed / 1000));
   output->concatf("\tDOP horiz: %.3f\n\tDOP vert:  %.3f\n", (double) dop_horiz, (double) dop_vert);
 }
-- 
2.43.0


From 614690f4fe8bfa3e0639875e01e3da16ac66561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 154/164] fix: CryptOp: a job that failed to advance reports
 its fault

---
 src/CryptoBurrito/CryptoBurritoUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoBurrito/CryptoBurritoUtils.cpp b/src/CryptoBurrito/CryptoBurritoUtils.cpp
index 4a531a2..5ea58ad 100644
--- a/src/CryptoBurrito/CryptoBurritoUtils.cpp
+++ b/src/CryptoBurrito/CryptoBurritoUtils.cpp
@@ -115,6 +115,7 @@ CryptoFault CryptOp::advance() {
       break;
   }
   if (CryptoFault::NONE != ret) {
+    _op_fault = ret;   // The callback, and the counts of jobs, depend on this.
     _op_state = CryptOpState::COMPLETE;
   }
   return ret;
-- 
2.43.0


From 8e107879f94d5195942a619d8f5792bf203e5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 155/164] fix: CryptoProcessor: purge_queued_work_by_dev()
 skipped the job after each that it purged

---
 src/CryptoBurrito/CryptoBurritoUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoBurrito/CryptoBurritoUtils.cpp b/src/CryptoBurrito/CryptoBurritoUtils.cpp
index 5ea58ad..8f6bfd6 100644
--- a/src/CryptoBurrito/CryptoBurritoUtils.cpp
+++ b/src/CryptoBurrito/CryptoBurritoUtils.cpp
@@ -367,6 +367,7 @@ int8_t CryptoProcessor::purge_queued_work_by_dev(CryptOpCallback* cb_obj) {
       current->_exec_call_back();
       _reclaim_queue_item(current);
       ret++;
+      i--;   // The rest of the queue moved up.
     }
   }
   return ret;
-- 
2.43.0


From 392c2523ca95a3f2a84a12a23cd028d9bd68f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 156/164] fix: CryptoProcessor: a job that is used again began
 with the fault of its last run

---
 src/CryptoBurrito/CryptoBurritoUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoBurrito/CryptoBurritoUtils.cpp b/src/CryptoBurrito/CryptoBurritoUtils.cpp
index 8f6bfd6..97e8748 100644
--- a/src/CryptoBurrito/CryptoBurritoUtils.cpp
+++ b/src/CryptoBurrito/CryptoBurritoUtils.cpp
@@ -309,6 +309,7 @@ int8_t CryptoProcessor::queue_job(CryptOp* op, int priority) {
     }
     else {
       ret = 0;
+      op->_op_fault = CryptoFault::NONE;   // It might be a job from an earlier run.
       op->_op_state = CryptOpState::QUEUED;
     }
   }
-- 
2.43.0


From 18333972fea3f824b675d5425e54c0f00db5cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 157/164] fix: CryptoProcessor: count the jobs that the full
 queue refused

---
 src/CryptoBurrito/CryptoBurritoUtils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoBurrito/CryptoBurritoUtils.cpp b/src/CryptoBurrito/CryptoBurritoUtils.cpp
index 97e8748..c6fa97a 100644
--- a/src/CryptoBurrito/CryptoBurritoUtils.cpp
+++ b/src/CryptoBurrito/CryptoBurritoUtils.cpp
@@ -301,6 +301,7 @@ int8_t CryptoProcessor::queue_job(CryptOp* op, int priority) {
     ret--;
     if (!roomInQueue()) {
       if (verbosity() >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "Queue at max size. Dropping transaction.");
+      _queue_floods++;
       op->abort(CryptoFault::QUEUE_FLUSH);
       callback_queue.insertIfAbsent(op, priority);
     }
-- 
2.43.0


From 8c6c2a11d8078298a97c4380b05d052145dae428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 158/164] fix: SPIAdapter: count the jobs that the full queue
 refused

---
 src/BusQueue/SPIAdapter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BusQueue/SPIAdapter.cpp b/src/BusQueue/SPIAdapter.cpp
index 2a6ad4e..71e8604 100644
--- a/src/BusQueue/SPIAdapter.cpp
+++ b/src/BusQueue/SPIAdapter.cpp
@@ -90,6 +90,7 @@ FAST_FUNC int8_t SPIAdapter::queue_io_job(BusOp* _op, int priority) {
       if (_adapter_flag(SPI_FLAG_QUEUE_GUARD) && !roomInQueue()) {
         ret = -1;
         if (getVerbosity() >= LOG_LEV_ERROR) c3p_log(LOG_LEV_ERROR, __PRETTY_FUNCTION__, "SPI%u:\t Bus queue at max size. Dropping transaction.", ADAPTER_NUM);
+        _queue_floods++;
         op->abort(XferFault::QUEUE_FLUSH);
         callback_queue.insertIfAbsent(op, priority);
       }
-- 
2.43.0


From 52ca98a4d5eaa1b2efab3fe5c12a4eeb44bdd5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 159/164] fix: graphs of traces without data, or without width,
 read beyond the dataset

---
 src/Image/ImageUtils/ImageGraph.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 56db5dd..5371f57 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -34,7 +34,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       const PixUInt TXT_PIXEL_HEIGHT = img->getFontHeight();
       const PixUInt TXT_PIXEL_WIDTH  = img->getFontWidth();
       trace0.findBounds(GRAPH_W, GRAPH_H);
@@ -184,7 +184,7 @@ template <> void ImageGraph<uint32_t>::drawGraph(Image* img, const PixUInt POS_X
         img->writeString(&tmp_val_str);
         tmp_val_str.clear();
       }
-      if (trace0.show_value) {
+      if (trace0.show_value && (0 < SAFE_WIDTH)) {
         const uint32_t FINAL_DATUM = *(tmp_ptr + (SAFE_WIDTH-1));
         uint32_t tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
@@ -222,7 +222,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
     img->drawFastVLine((GRAPH_X - 1), GRAPH_Y, FRUS_H, fg_color);
     img->drawFastHLine((GRAPH_X - 1), (GRAPH_Y + (FRUS_H - 1)), FRUS_W, fg_color);
 
-    if (trace0.enabled) {
+    if (trace0.enabled && (nullptr != trace0.dataset) && (0 < trace0.data_len)) {
       trace0.findBounds((FRUS_W - INSET_X), (FRUS_H - INSET_Y));
       float*    tmp_ptr = trace0.dataset;
       uint32_t  tmp_len = strict_min((uint32_t) GRAPH_W, trace0.data_len);
@@ -313,7 +313,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         img->writeString(&tmp_val_str);
         tmp_val_str.clear();
       }
-      if (trace0.show_value) {
+      if (trace0.show_value && (0 < tmp_len)) {
         const float FINAL_DATUM = *(tmp_ptr + (tmp_len-1));
         float tmp = ((FINAL_DATUM - trace0.minValue()) * trace0.v_scale());
         //img->fillCircle(x+w, tmp+y, 1, color);
-- 
2.43.0


From 93e34de646cb83dbd8752ff6f27fe5cfcaf3420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 160/164] fix: graphs with only a minor grid divided by the
 major grid's zero

---
 src/Image/ImageUtils/ImageGraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageGraph.h b/src/Image/ImageUtils/ImageGraph.h
index a60926f..72cbc59 100644
--- a/src/Image/ImageUtils/ImageGraph.h
+++ b/src/Image/ImageUtils/ImageGraph.h
@@ -54,8 +54,8 @@ template <class T> class ImageGraphTrace {
 
     void findBounds(const PixUInt w, const PixUInt h);
 
-    bool drawVGrid() {   return (draw_grid && ((0 != major_grid_x) | (0 != minor_grid_x)));  };
-    bool drawHGrid() {   return (draw_grid && ((0 != major_grid_y) | (0 != minor_grid_y)));  };
+    bool drawVGrid() {   return (draw_grid && (0 != major_grid_x));  };
+    bool drawHGrid() {   return (draw_grid && (0 != major_grid_y));  };
     float v_scale() {    return _v_scale;  };
 
 
-- 
2.43.0


From 611c9853a8e9a78c64c0f5fcc6c03182a914b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 161/164] fix: graphs of floats drew the least samples under
 their frame

---
 src/Image/ImageUtils/ImageGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageGraph.cpp b/src/Image/ImageUtils/ImageGraph.cpp
index 5371f57..96ba0f2 100644
--- a/src/Image/ImageUtils/ImageGraph.cpp
+++ b/src/Image/ImageUtils/ImageGraph.cpp
@@ -230,7 +230,7 @@ template <> void ImageGraph<float>::drawGraph(Image* img, const PixUInt POS_X, c
         const float    DATA_VALUE = *(tmp_ptr + i);
         const uint32_t DELTA_Y    = ((DATA_VALUE - trace0.minValue()) * trace0.v_scale());
         const PixUInt PNT_X_POS  = (GRAPH_X + i);
-        const PixUInt PNT_Y_POS  = ((GRAPH_Y + FRUS_H) - DELTA_Y);
+        const PixUInt PNT_Y_POS  = (GRAPH_Y + (GRAPH_H - DELTA_Y));
         if ((int32_t) i != trace0.accented_idx) {
           // Draw a normal point on the curve.
           img->setPixel(PNT_X_POS, PNT_Y_POS, trace0.color);
-- 
2.43.0


From 60dffbc64df99c8e14d41f893187a31ff897e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 162/164] fix: progress bars erased the picture next to them

---
 src/Image/ImageUtils/ImageUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index cbf7d28..360b20a 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -64,7 +64,7 @@ void UIGfxWrapper::drawProgressBarH(
   }
   PixUInt pix_width = percent * (w-2);
   int blackout_x = x+1+pix_width;
-  int blackout_w = (w+2)-pix_width;
+  int blackout_w = (w-2)-pix_width;
 
   _img->fillRoundRect(blackout_x, y+1, blackout_w, h-2, 3, bg_color);
   _img->fillRoundRect(x+1, y+1, pix_width, h-2, 3, color);
@@ -96,7 +96,7 @@ void UIGfxWrapper::drawProgressBarV(
     _img->fillRect(x, y, w, h, bg_color);
   }
   PixUInt pix_height = percent * (h-2);
-  int blackout_h = y+(h-1)-pix_height;
+  int blackout_h = (h-2)-pix_height;
   _img->fillRoundRect(x+1, y+1, w-2, blackout_h, 3, bg_color);
   _img->fillRoundRect(x+1, (y+h-1)-pix_height, w-2, pix_height, 3, color);
   _img->drawRoundRect(x, y, w, h, 3, fg_color);
-- 
2.43.0


From 229fa3c7ae1530ad1a03051e6a33e1b9d4c1dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 163/164] fix: upright zoom bars filled the row under them

---
 src/Image/ImageUtils/ImageUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Image/ImageUtils/ImageUtils.cpp b/src/Image/ImageUtils/ImageUtils.cpp
index 360b20a..20df82c 100644
--- a/src/Image/ImageUtils/ImageUtils.cpp
+++ b/src/Image/ImageUtils/ImageUtils.cpp
@@ -164,7 +164,7 @@ void UIGfxWrapper::drawZoomBarV(
   const PixUInt PIX_M_BOT    = fraction_bot * (h-2);
   const PixUInt PIX_M_HEIGHT = strict_abs_delta(PIX_M_TOP, PIX_M_BOT);
   const PixUInt PIX_RADIUS   = strict_min(w, h) / 5;
-  _img->fillRoundRect((x+1), ((y+h)-PIX_M_TOP+1), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
+  _img->fillRoundRect((x+1), ((y+h-1)-PIX_M_TOP), (w-2), PIX_M_HEIGHT, PIX_RADIUS, color);
   _img->drawRoundRect(x, y, w, h, PIX_RADIUS, fg_color);
 
   if (draw_val && ((w-4) >= 15)) {
-- 
2.43.0


From b9f63d9befa8290c064fda9a6f81b03fdcbbfb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 164/164] fix: A refused record doesn't claim to be loaded

The flags of a SimpleDataRecord were taken from the stored descriptor
as they came. So wasLoaded() was true for a record that load() refused, if its
stored flags were damaged.
---
 src/Storage/SimpleDataRecord.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Storage/SimpleDataRecord.cpp b/src/Storage/SimpleDataRecord.cpp
index ab8203b..ff53e36 100644
--- a/src/Storage/SimpleDataRecord.cpp
+++ b/src/Storage/SimpleDataRecord.cpp
@@ -119,7 +119,8 @@ int8_t SimpleDataRecord::_descriptor_deserialize(StringBuilder* sb_buf) {
       // NOTE: This is where the migration chain ought to go, if/when it becomes
       //   necessary.
       ret--;
-      _flags       = *(buf + buf_idx++);
+      // Whether this object was loaded isn't for the stored bytes to say.
+      _flags       = (*(buf + buf_idx++) & (uint8_t) ~DATA_RECORD_FLAG_WAS_LOADED);
       if ((uint8_t) _record_type == *(buf + buf_idx++)) {
         ret--;
         _format      = (TCode) *(buf + buf_idx++);
-- 
2.43.0

