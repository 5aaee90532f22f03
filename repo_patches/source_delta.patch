From 1fe3174a74aea5dbba753993ad39301193108e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 001/104] fix: vec_insert_one uses its position after the array
 has moved

---
 util/vec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..1b7db17 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,9 +174,12 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	/* pos does not survive a reallocation */
+	size_t idx = vec_get_idx_(self, pos);
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);
+
+	pos = vec_at(self, idx);
 
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
-- 
2.43.0


From c4222d6e8f216a567965b0723894a36f02001af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 002/104] fix: vec_set_iter copies the whole last element

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 1b7db17..64a372e 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -131,9 +131,9 @@ void* vec_add_one_front(vec* restrict self)
 	return vec_begin(self);
 }
 
-void vec_set_iter(vec* restrict _unused, void* pos, const void* begin, const void* back)
+void vec_set_iter(vec* restrict self, void* pos, const void* begin, const void* back)
 {
-	memcpy(pos, begin, (char*)back - (char*)begin + 1);
+	memcpy(pos, begin, (char*)back - (char*)begin + self->_elem_size);
 }
 
 void vec_set_one(vec* restrict self, void* pos, const void* restrict src)
-- 
2.43.0


From fefe43e97e8db005545be77a8d02e2d500a1348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 003/104] fix: vec_insert_at and vec_erase_at of zero elements

---
 util/vec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/vec.c b/util/vec.c
index 64a372e..97ba377 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -187,6 +187,9 @@ void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 
 void vec_insert_at(vec* restrict self, size_t idx, const void* begin, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* pos = vec_at(self, idx);
 	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);
 	vec_insert_iter(self, pos, begin, back);
@@ -215,6 +218,9 @@ void vec_erase_one(vec* restrict self, void* elem)
 
 void vec_erase_at(vec* restrict self, size_t index, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* begin = vec_at(self, index);
 	const void* back = vec_at(self, index + len - 1);
 	vec_erase_iter(self, begin, back);
-- 
2.43.0


From 15b2a733211700deb7fe9edc48a96abec825fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 004/104] fix: vec_resize_and_zero zeroes new elements without
 a reallocation too

---
 util/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 97ba377..ef39cc1 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,9 +82,8 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
 	void* new_shit = vec_at(self, org_size);
-- 
2.43.0


From f20abff055a81b144454c9ce94b619e6167a7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 005/104] fix: string_strncpy does not read past its limit

---
 util/stringy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..11a0ed7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,7 +141,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
-- 
2.43.0


From 605c88f558b814ec5f794eb231252ecbcdcdd6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 006/104] fix: string_strncpy returns the length it copied

---
 util/stringy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index 11a0ed7..2e62281 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -146,7 +146,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 	}
 	string_resize(dest, i);
 	_null_terminate_(dest);
-	return i - 1;
+	return i;
 }
 
 size_t string_sprintf(string* restrict s, const char* restrict fmt, ...)
-- 
2.43.0


From 8f80f4080499a476be87b254674ecf9967e4c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 007/104] fix: find and replace of an empty text terminates

---
 util/stringy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 2e62281..cfb15f7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,9 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +277,9 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 93c3bdaaf3accb1a57f71ded2b8701d2efae3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 008/104] fix: bitvec_resize clears every bit it exposes

---
 util/vec.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index ef39cc1..9774bd7 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -305,20 +305,17 @@ void bitvec_reserve(bitvec* restrict self, size_t size)
 
 void bitvec_resize(bitvec* restrict self, size_t size)
 {
-	size_t org_size = self->size / 32 + 1;
-	size_t org_alloc = self->_alloc;
+	size_t i = self->size;
 
 	if (size > self->size) {
 		bitvec_reserve(self, size);
 	}
 	self->size = size;
 
-	if (org_alloc == self->_alloc) {
-		return;
+	/* new bits may be left over from before */
+	for (; i < size; ++i) {
+		bitvec_set(self, i, false);
 	}
-	void* new_shit = vec_at(self, org_size);
-	size_t new_shit_size = self->_alloc - org_size;
-	memset(new_shit, 0, new_shit_size * self->_elem_size);
 }
 
 void bitvec_push_back(bitvec* restrict self, bool val)
-- 
2.43.0


From 7008f55e555f2984d7f1d7a3b38bd0772c1022af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 009/104] fix: keys of spaces only equal the empty key in rtrim
 maps

---
 util/hashmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..cb7875b 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
-- 
2.43.0


From 8e36336f6e8c1a36922ba53eac4fbe041cfb4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 010/104] fix: fifo_receivable is 0 when the reservations
 exceed the room

---
 util/fifo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..23d6b10 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -110,8 +110,8 @@ bool fifo_is_full(const fifo* restrict self)
 
 unsigned fifo_receivable(fifo* restrict self)
 {
-	unsigned avail = fifo_available(self);
-	return self->buf->size - avail - self->input_count;
+	unsigned used = fifo_available(self) + self->input_count;
+	return (used < self->buf->size) ? self->buf->size - used : 0;
 }
 
 void fifo_set_full(fifo* restrict self)
-- 
2.43.0


From 7fae014608966f1429299741a7483c47e1565371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 011/104] fix: fifo_nget of less than one block transfers
 nothing

---
 util/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/fifo.c b/util/fifo.c
index 23d6b10..18b9dfd 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -156,6 +156,10 @@ int fifo_nget(fifo* restrict self,
 	}
 	unsigned transfer_count = (available > max) ? max : available;
 	transfer_count -= transfer_count % block_size;
+	if (transfer_count == 0) {
+		pthread_mutex_unlock(&self->tail_mutex);
+		return available;
+	}
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
 	if (new_tail == 0 || new_tail > self->tail) {
-- 
2.43.0


From 375454e2a27990d23baf1adff83d67f1bee73820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 012/104] fix: fifo_nadd of an empty vec adds nothing

---
 util/fifo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 18b9dfd..bacef74 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -247,7 +247,7 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	pthread_mutex_lock(&self->head_mutex);
 
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return;
 	}
@@ -286,7 +286,7 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 		return ret;
 	}
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return 0;
 	}
-- 
2.43.0


From 414d345e4f25e8edaf0a4eebb82a0e6ae537ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 013/104] fix: traversing a graph without roots ends at once

---
 util/dgraph.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/dgraph.c b/util/dgraph.c
index e5eee76..9699c34 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -169,6 +169,10 @@ void dgraph_traverse_reset(dgraph* restrict self)
 		(*it)->visit_count = 0;
 	}
 
+	if (vec_empty(self->_roots)) {
+		return;
+	}
+
 	/* start at first discovered root */
 	it = vec_begin(self->_roots);
 	fifo_add(self->_trav, it);
-- 
2.43.0


From 4159bbfa84c92e2a5417c9d713ca2cdb8f022ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 014/104] fix: graph traversal keeps every queued node

---
 util/dgraph.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index 9699c34..2ab3f48 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -178,6 +178,22 @@ void dgraph_traverse_reset(dgraph* restrict self)
 	fifo_add(self->_trav, it);
 }
 
+/* a node can wait in the queue more than once, so the
+ * number of nodes does not limit the length of the queue
+ */
+void _trav_add(dgraph* restrict self, dnode** node)
+{
+	if (fifo_is_full(self->_trav)) {
+		fifo* old = self->_trav;
+		self->_trav = new_t_(fifo, dnode*, old->buf->size * 2);
+		while (!fifo_is_empty(old)) {
+			fifo_add(self->_trav, fifo_get(old));
+		}
+		delete_(fifo, old);
+	}
+	fifo_add(self->_trav, node);
+}
+
 dnode* dgraph_traverse(dgraph* restrict self)
 {
 	while (fifo_is_empty(self->_trav)) {
@@ -188,19 +204,19 @@ dnode* dgraph_traverse(dgraph* restrict self)
 		if ((*node)->visit_count) {
 			continue;
 		}
-		fifo_add(self->_trav, node);
+		_trav_add(self, node);
 		return dgraph_traverse(self);
 	}
 
-	dnode** node = fifo_get(self->_trav);
-	++(*node)->visit_count;
+	dnode* node = *(dnode**)fifo_get(self->_trav);
+	++node->visit_count;
 
-	if ((*node)->out[0] != NULL && !(*node)->out[0]->visit_count) {
-		fifo_add(self->_trav, &(*node)->out[0]);
+	if (node->out[0] != NULL && !node->out[0]->visit_count) {
+		_trav_add(self, &node->out[0]);
 	}
-	if ((*node)->out[1] != NULL && !(*node)->out[1]->visit_count) {
-		fifo_add(self->_trav, &(*node)->out[1]);
+	if (node->out[1] != NULL && !node->out[1]->visit_count) {
+		_trav_add(self, &node->out[1]);
 	}
 
-	return *node;
+	return node;
 }
-- 
2.43.0


From 51065acf6fff6795bc082a31f2a132923d691545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 015/104] fix: comparisons ignoring trailing spaces are a total
 order and agree with hashing

---
 util/stringview.c | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/util/stringview.c b/util/stringview.c
index fb39016..0deb021 100644
--- a/util/stringview.c
+++ b/util/stringview.c
@@ -46,57 +46,47 @@ int stringview_compare(const stringview* restrict sv0, const stringview* restric
 	return ret;
 }
 
-int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+/* length of the text without its trailing spaces */
+unsigned _rtrim_len(const stringview* sv)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
+	unsigned len = sv->len;
+	while (len > 0 && sv->data[len - 1] == ' ') {
+		--len;
 	}
+	return len;
+}
+
+int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+{
+	const unsigned len0 = _rtrim_len(sv0);
+	const unsigned len1 = _rtrim_len(sv1);
 
 	const unsigned char *s0 = (unsigned char*) sv0->data;
 	const unsigned char *s1 = (unsigned char*) sv1->data;
 
 	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
+	for (; ret == 0 && i < len0 && i < len1; ++i) {
 		ret = s0[i] - s1[i];
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return (ret == 0) ? num_compare_(len0, len1) : ret;
 }
 
 int stringview_compare_nocase_rtrim(const stringview* sv0, const stringview* sv1)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
-	}
+	const unsigned len0 = _rtrim_len(sv0);
+	const unsigned len1 = _rtrim_len(sv1);
 
 	const unsigned char* s0 = (unsigned char*)sv0->data;
 	const unsigned char* s1 = (unsigned char*)sv1->data;
 
 	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
+	for (; ret == 0 && i < len0 && i < len1; ++i) {
 		ret = tolower (s0[i]) - tolower (s1[i]);
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return (ret == 0) ? num_compare_(len0, len1) : ret;
 }
 
-- 
2.43.0


From 43f2fbfa54cebe184ae5ac2d6bfa5a0d7e159176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 016/104] fix: interruption while SIGINT was ignored at start
 no longer calls SIG_IGN

---
 lib/fqlsig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..a5bccca 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -47,7 +47,7 @@ void fqlsig_cleanexit()
 	/* The -1 here tells the libcsv sig handler not
 	 * to call exit(), so we can clean up here too.
 	 */
-	if (libcsv_action__ != NULL) {
+	if (libcsv_action__ != SIG_DFL && libcsv_action__ != SIG_IGN) {
 		libcsv_action__(-1);
 	}
 	fqlsig_tmp_removeall();
-- 
2.43.0


From d8e132f171f0f69a58828c01b843db7095dac8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 017/104] fix: a temporary file stays tracked until it has been
 removed

---
 lib/fqlsig.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index a5bccca..c4bf560 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -74,16 +74,17 @@ void fqlsig_tmp_remove_file(const char* tmp_file)
 
 void fqlsig_tmp_remove_node_and_file(node* node)
 {
+	/* untrack it last, in case we are interrupted in between */
+	fqlsig_tmp_remove_file(node->data);
 	char* tmp = node_remove(&_tmp_file_head, node);
-	fqlsig_tmp_remove_file(tmp);
 	free_(tmp);
 }
 
 void fqlsig_tmp_removeall()
 {
 	while (_tmp_file_head) {
+		fqlsig_tmp_remove_file(_tmp_file_head->data);
 		char* tmp = node_dequeue(&_tmp_file_head);
-		fqlsig_tmp_remove_file(tmp);
 		free_(tmp);
 	}
 }
-- 
2.43.0


From 9b1f90795b3802201d561971867fab62f7f1ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 018/104] fix: clearing a variable without a type does not
 crash

---
 lib/variable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/variable.c b/lib/variable.c
index ffd3bd6..845ac1f 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -47,6 +47,9 @@ void variable_clear(variable* self)
 	case SQL_UNDEFINED:;
 	}
 
+	if (self->_data == NULL) {
+		return;
+	}
 	string_clear(self->_data);
 	if (self->type == SQL_CHAR) {
 		_append_space(self);
-- 
2.43.0


From 7dde8d2d52ae3667fe69afe707fcf5093567c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 019/104] fix: converting a variable to text honors its length
 limit

---
 lib/variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/variable.c b/lib/variable.c
index 845ac1f..ddc8471 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -147,7 +147,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 			self->_data = new_(string);
 		}
 		stringview sv;
-		if (self->limit != INT_MAX) {
+		if (self->limit == INT_MAX) {
 			try_(field_to_stringview(&sv,
 			                         self->_data,
 			                         &self->value,
-- 
2.43.0


From f2d3d581aabb18803ffbdf97f08d60b0ddc4ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 020/104] fix: an imported variable declared VARCHAR(n) is
 limited to n characters

---
 lib/variable.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/variable.c b/lib/variable.c
index ddc8471..070323e 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -29,6 +29,13 @@ void _append_space(variable* self)
 	}
 }
 
+void _apply_limit(variable* self)
+{
+	if (self->_data != NULL && self->_data->size > self->limit) {
+		string_resize(self->_data, self->limit);
+	}
+}
+
 void variable_clear(variable* self)
 {
 	self->is_null = true;
@@ -91,6 +98,7 @@ enum field_type variable_get_field_type(enum sql_type sqltype)
 int variable_set_type(variable* self, enum sql_type new_type)
 {
 	if (self->type == new_type) {
+		_apply_limit(self);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From a6208dbef4e7485d88d3c0097adee1975f4a441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 021/104] fix: a variable converted to BIT is 0 or 1

---
 lib/variable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable.c b/lib/variable.c
index 070323e..b9e7ee4 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -136,6 +136,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 	case SQL_BIT: {
 		long n = 0;
 		try_(field_to_int(&n, &self->value, &fieldtype));
+		self->value.i = (n != 0);
 		break;
 	}
 	case SQL_INT: {
-- 
2.43.0


From e75ba8026c974a450ccff082f6bb6c5dcf974133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 022/104] fix: resetting an imported variable makes it non null
 again

---
 lib/variable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/variable.c b/lib/variable.c
index b9e7ee4..a5c2d1e 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -72,6 +72,7 @@ void variable_reset(variable* self)
 
 	string_copy(self->_data, self->_import_value);
 	self->value.s = self->_data;
+	self->is_null = false;
 
 	enum sql_type correct_type = self->type;
 	self->type = SQL_VARCHAR;
-- 
2.43.0


From be82f86d07f8a5ba03fd32e5c8a196e0830d2e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 023/104] fix: charncount does not read past its limit

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index 5a35710..0d14a55 100644
--- a/util/util.c
+++ b/util/util.c
@@ -53,7 +53,7 @@ int charncount(const char* restrict s, char c, unsigned n)
 {
 	int count = 0;
 	unsigned i = 0;
-	for(; s[i] != '\0' && i < n; ++i)
+	for(; i < n && s[i] != '\0'; ++i)
 		if (s[i] == c)
 			++count;
 
-- 
2.43.0


From fbd8e2082316a700fb363d1fe6730474dc224485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 024/104] fix: getnoext keeps the name of a hidden file

---
 util/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/util.c b/util/util.c
index 0d14a55..a21594b 100644
--- a/util/util.c
+++ b/util/util.c
@@ -123,6 +123,11 @@ void getnoext(char* dest, const char* restrict filename)
 	lastdot = strrchr(dest, '.');
 	lastsep = ('/' == 0) ? NULL : strrchr(dest, '/');
 
+	/* a leading dot makes a hidden file, not an extension */
+	if (lastdot == dest || (lastdot != NULL && lastdot[-1] == '/')) {
+		return;
+	}
+
 	if (lastdot != NULL) {
 		if (lastsep != NULL) {
 			if (lastsep < lastdot)
-- 
2.43.0


From f92a2181f599eae14985288afd1445d2b1fd51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 025/104] fix: NOT before a predicate or a bracketed condition
 is honoured

---
 lib/antlr/listenerinterface.cpp |  3 +++
 lib/fqlplan.c                   |  6 ++++--
 lib/logic.c                     | 17 +++++++++++------
 lib/query.c                     |  6 ++++--
 lib/query.h                     |  1 +
 5 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..f3c54d2 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -866,6 +866,9 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
+	if (ctx->NOT().size() % 2) {
+		_query->negate_next = !_query->negate_next;
+	}
 	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
 		return;
 	}
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..f5be708 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -213,10 +213,12 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 {
 	switch (lg->type) {
 	case LG_OR:
-		string_strcat(logic_proc->plan_msg, "OR(");
+		string_strcat(logic_proc->plan_msg,
+		              lg->negation ? "NOT OR(" : "OR(");
 		break;
 	case LG_AND:
-		string_strcat(logic_proc->plan_msg, "AND(");
+		string_strcat(logic_proc->plan_msg,
+		              lg->negation ? "NOT AND(" : "AND(");
 		break;
 	case LG_PREDICATE:
 		if (lg->negation) {
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..b6cb5a3 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -214,28 +214,33 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 
 	/* Check for short circuit */
 	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
-		return ret;
+		return (self->negation) ? !ret : ret;
 	}
-	return logicgroup_eval(self->items[1], rg, skip);
+	ret = try_(logicgroup_eval(self->items[1], rg, skip));
+	return (self->negation) ? !ret : ret;
 }
 
 /* essentially the same as logicgroup_eval.
  * All logic is assumed true except the one provided.
  * the point is to determine if that logic MUST be
- * true for the group to evaluate to true. I believe
- * ignoring negation here is correct. The purpose
+ * true for the group to evaluate to true. The purpose
  * being, if it must be true, it is a candidate for
- * hash join logic.
+ * hash join logic. Negated logic never qualifies.
  */
 int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
 	if (self->type == LG_PREDICATE) {
-		if (self->condition == check_logic) {
+		if (self->condition == check_logic && !self->negation) {
 			return 0;
 		}
 		return 1;
 	}
 
+	/* De Morgan: nothing is required by a negated group */
+	if (self->negation) {
+		return 1;
+	}
+
 	int ret = 0;
 	ret = logic_can_be_false(self->items[0], check_logic);
 
diff --git a/lib/query.c b/lib/query.c
index f8e515b..117a1fe 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -989,7 +989,7 @@ void query_set_logic_comparison(query* self, const char* op)
 void query_set_logic_isnull(query* self, bool negation)
 {
 	logicgroup* lg = self->logic_stack->data;
-	lg->negation = negation;
+	lg->negation ^= negation;
 	logic* logic = lg->condition;
 	logic_set_comparison(logic, "NULL");
 }
@@ -1041,7 +1041,7 @@ void query_exit_search_item(query* self)
 void query_enter_predicate(query* self, unsigned negation, bool in)
 {
 	logicgroup* lg = _add_logic_item(self, LG_PREDICATE);
-	lg->negation = (negation % 2);
+	lg->negation ^= (negation % 2);
 
 	if (in) {
 		query_enter_in_statement(self);
@@ -1214,6 +1214,8 @@ int _distribute_expression(query* self, expression* expr)
 logicgroup* _add_logic_item(query* self, enum logicgroup_type type)
 {
 	logicgroup* lg = new_(logicgroup, type);
+	lg->negation = self->negate_next;
+	self->negate_next = false;
 
 	if (self->logic_stack == NULL) {
 		if (self->mode != MODE_CASE) {
diff --git a/lib/query.h b/lib/query.h
index 282b590..5c9409c 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -164,6 +164,7 @@ struct query {
 	int query_id;
 	int query_total;
 	bool expect_where;
+	bool negate_next; /* the next logic item is preceded by NOT */
 
 	/* all the variables below are temporaries for
 	 * tracking the query as antlr traverses it
-- 
2.43.0


From a1a74bee1e805ffc927a85bfc645f81db9232f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 026/104] fix: a condition on a NULL operand is unknown, also
 when negated

---
 lib/fqllogic.c     | 26 ++++++++++++++++----------
 lib/fqlprocesses.c |  7 ++++---
 lib/logic.c        | 31 ++++++++++++++++++++-----------
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..4f9bb21 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -12,7 +12,7 @@
 		case FQL_FAIL:           \
 			return FQL_FAIL; \
 		case FQL_NULL:           \
-			return false;    \
+			return FQL_NULL; \
 		}                        \
 		ret_;                    \
 	})
@@ -180,17 +180,19 @@ int fql_logic_in_i(logic* self, node* rg)
 	long n0 = 0;
 	try_logic_deref_(expression_get_int(&n0, self->expr[0], rg));
 
+	int ret = false;
 	vec* list_vec = self->in_data->expressions;
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
-		if (n0 == n1) {
+		if (try_(expression_get_int(&n1, *it, rg)) == FQL_NULL) {
+			ret = FQL_NULL;
+		} else if (n0 == n1) {
 			return true;
 		}
 	}
 
-	return false;
+	return ret;
 }
 
 int fql_logic_in_f(logic* self, node* rg)
@@ -198,17 +200,19 @@ int fql_logic_in_f(logic* self, node* rg)
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
 
+	int ret = false;
 	vec* list_vec = self->in_data->expressions;
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
-		if (n1 == n0) {
+		if (try_(expression_get_float(&n1, *it, rg)) == FQL_NULL) {
+			ret = FQL_NULL;
+		} else if (n1 == n0) {
 			return true;
 		}
 	}
 
-	return false;
+	return ret;
 }
 
 int fql_logic_in_s(logic* self, node* rg)
@@ -216,17 +220,19 @@ int fql_logic_in_s(logic* self, node* rg)
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
 
+	int ret = false;
 	vec* list_vec = self->in_data->expressions;
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
-		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
+		if (try_(expression_get_stringview(&sv1, *it, rg)) == FQL_NULL) {
+			ret = FQL_NULL;
+		} else if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
 	}
 
-	return false;
+	return ret;
 }
 
 int fql_logic_subin_i(logic* self, node* rg)
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..a5786f9 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -224,7 +224,7 @@ enum proc_return fql_if(process* proc)
 
 	logicgroup* condition = ifstmt->condition;
 	int result = try_(logicgroup_eval(condition, NULL, NULL));
-	*ifstmt->next_query_idx_ref = (result) ? ifstmt->true_idx : ifstmt->false_idx;
+	*ifstmt->next_query_idx_ref = (result == true) ? ifstmt->true_idx : ifstmt->false_idx;
 
 	return PROC_RETURN_COMPLETE;
 }
@@ -578,7 +578,8 @@ enum proc_return fql_logic(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		int result = try_(logicgroup_eval(lg, *rg_iter, lg->join_logic));
+		bool result =
+		        (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic)) == true);
 		_fqlprocess_print_iter_states(proc, -1);
 
 		if (result && out_true != NULL) {
@@ -643,7 +644,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		 * these records have already failed a hash join.
 		 */
 		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
-			if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
+			if (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic)) != true) {
 				/* our condition failed, but we still want to pass
 				 * it on. Chop off right-most node and recycle it.
 				 */
diff --git a/lib/logic.c b/lib/logic.c
index b6cb5a3..2194374 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -189,7 +189,14 @@ unsigned logicgroup_get_condition_count(logicgroup* self)
 	return count;
 }
 
-/* evaluate the logic expression.
+/* NOT unknown is still unknown */
+int _negate(logicgroup* self, int ret)
+{
+	return (self->negation && ret != FQL_NULL) ? !ret : ret;
+}
+
+/* evaluate the logic expression: true, false or FQL_NULL
+ * when the outcome is unknown because of a NULL operand.
  * the skip argument is for logic that can
  * be assumed true because it was evaluated
  * prior to calling this function. Most likely
@@ -203,21 +210,23 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 			return 1;
 		}
 		int ret = try_(self->condition->logic__(self->condition, rg));
-		if (self->negation) {
-			return !ret;
-		}
-		return ret;
+		return _negate(self, ret);
 	}
 
-	int ret = 0;
-	ret = try_(logicgroup_eval(self->items[0], rg, skip));
+	/* the outcome of one side which decides the group */
+	const int decisive = (self->type == LG_OR);
+
+	int ret = try_(logicgroup_eval(self->items[0], rg, skip));
 
 	/* Check for short circuit */
-	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
-		return (self->negation) ? !ret : ret;
+	if (ret == decisive) {
+		return _negate(self, ret);
+	}
+	int ret1 = try_(logicgroup_eval(self->items[1], rg, skip));
+	if (ret1 == decisive || ret != FQL_NULL) {
+		ret = ret1;
 	}
-	ret = try_(logicgroup_eval(self->items[1], rg, skip));
-	return (self->negation) ? !ret : ret;
+	return _negate(self, ret);
 }
 
 /* essentially the same as logicgroup_eval.
-- 
2.43.0


From b94fa71f9ad958bf5608106f64b0f952ab7128ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 027/104] fix: a CASE without a matching branch is NULL

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From 5ea158a1069900c00f3b250d94d0f7a7c3865642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 028/104] fix: casting a function to another type does not
 reinterpret its result

---
 lib/expression.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index becd071..154f05e 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -288,8 +288,14 @@ int expression_cast(expression* self, enum field_type new_type)
 		return FQL_GOOD;
 	}
 
+	/* A function calculates in its own type. The getters
+	 * below convert its result to whatever is asked for.
+	 */
+	if (self->expr == EXPR_FUNCTION) {
+		return FQL_GOOD;
+	}
+
 	if (self->expr != EXPR_CONST) {
-		/* lol - this is probably wrong */
 		self->field_type = new_type;
 		return FQL_GOOD;
 	}
@@ -317,10 +323,10 @@ int expression_cast(expression* self, enum field_type new_type)
 			 * of expression_get_stringview, but in case that ever
 			 * changes... We do the redundant thing...
 			 */
+		self->field_type = new_type;
 		string_strncpy(&self->buf, sv.data, sv.len);
 		self->field.s = &self->buf;
-
-		return FQL_FAIL;
+		break;
 	}
 	default:
 		return FQL_FAIL;
-- 
2.43.0


From 10fa4ecee90ed6f9f8fbcd33d60e7e40f4eb7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 029/104] fix: integer overflow checks are exact for LONG_MIN

---
 lib/misc.h | 47 +++++++++--------------------------------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..a91f61c 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -37,61 +37,32 @@
 
 #define overflow_safe_add_i(n0_, n1_)                                    \
 	({                                                               \
-		if (n0_ > 0 && n1_ > 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)n1_           \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_saddl_overflow(n0_, n1_, &result_)) {      \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ + n1_;                                               \
+		result_;                                                 \
 	})
 
 #define overflow_safe_minus_i(n0_, n1_)                                  \
 	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long result_ = 0;                                        \
+		if (__builtin_ssubl_overflow(n0_, n1_, &result_)) {      \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ - n1_;                                               \
+		result_;                                                 \
 	})
 
 #define overflow_safe_multiply_i(n0_, n1_)                               \
 	({                                                               \
-		unsigned long u0_ = 0;                                   \
-		unsigned long u1_ = 0;                                   \
-		bool neg_ = false;                                       \
-		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
-			neg_ = true;                                     \
-		} else {                                                 \
-			u0_ = n0_;                                       \
-		}                                                        \
-		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
-			neg_ = !neg_;                                    \
-		} else {                                                 \
-			u1_ = n1_;                                       \
-		}                                                        \
-		unsigned long result_ = u0_ * u1_;                       \
-		if (u0_ != 0                                             \
-		    && (result_ / u0_ != u1_                             \
-		        || result_ > (unsigned long)LONG_MAX + neg_)) {  \
+		long result_ = 0;                                        \
+		if (__builtin_smull_overflow(n0_, n1_, &result_)) {      \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		(neg_) ? -1 * result_ : result_;                         \
+		result_;                                                 \
 	})
 
 #endif /* MISC_H */
-- 
2.43.0


From ea3b033a26b757a4f1de03b44d165c091dc96729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 030/104] fix: modulo by zero and LONG_MIN / -1 fail instead of
 crashing

---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..aa4c7b3 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 5fb4f3390ab6f775de9cc31cd247af8864776ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 031/104] fix: RIGHT does not read past the text

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index aa4c7b3..5a2c96e 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -231,7 +231,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 890d31c70ef401a6202ac8d9d5466354a66f239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 032/104] fix: SUBSTRING with a start in front of the text

---
 lib/scalarfn.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 5a2c96e..0ee8784 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -262,7 +262,6 @@ int fql_substring(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_stringview(&sv, args[0], rg));
 	long start = 0;
 	try_deref_(expression_get_int(&start, args[1], rg));
-	--start;
 	long n = 0;
 	try_deref_(expression_get_int(&n, args[2], rg));
 
@@ -271,6 +270,14 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	/* positions in front of the text count, but hold nothing */
+	if (start < 1) {
+		n += start;
+		n = (n < 1) ? 0 : n - 1;
+		start = 1;
+	}
+	--start;
+
 	unsigned idx = 0;
 	int bytes = 0;
 	unsigned byte_count = 0;
@@ -283,11 +290,7 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		}
 	}
 
-	if (start < 0) {
-		n += start;
-	}
-
-	if (idx + n > sv.len) {
+	if (n > (long)(sv.len - idx)) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From 7c5f06014ec92779cf34de809e8bf167d1dabc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 033/104] fix: DATALENGTH of a NULL number is NULL

---
 lib/scalarfn.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 0ee8784..c66459b 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -106,6 +106,10 @@ int fql_cast_char(function* fn, union field* ret, node* rg)
 	if (fn->args->size == 2) {
 		expression** len_expr = vec_at(fn->args, 1);
 		try_deref_(expression_get_int(&len, *len_expr, rg));
+		if (len < 0) {
+			fprintf(stderr, "Invalid length value `%ld'\n", len);
+			return FQL_FAIL;
+		}
 	}
 
 	expression** arg = vec_begin(fn->args);
@@ -159,6 +163,9 @@ int fql_len(function* fn, union field* ret, node* rg)
 int fql_datalength(function* fn, union field* ret, node* rg)
 {
 	expression** arg = vec_begin(fn->args);
+	stringview sv;
+	try_deref_(expression_get_stringview(&sv, *arg, rg));
+
 	switch ((*arg)->field_type) {
 	case FIELD_INT:
 		ret->i = sizeof(long);
@@ -172,9 +179,6 @@ int fql_datalength(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
-	stringview sv;
-	try_deref_(expression_get_stringview(&sv, *arg, rg));
-
 	ret->i = sv.len;
 
 	return FQL_GOOD;
-- 
2.43.0


From 7213243d27c88ca5b4c8ac5f7b41534b9cde5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 034/104] fix: COUNT over no rows is 0

---
 lib/expression.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 154f05e..25cb12d 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -548,18 +548,16 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		expression* src_expr = self->data_source;
 		record* rec = record_at(rg, src_expr->src_idx);
 		if (rec == NULL) {
-			switch (src_expr->field_type) {
-			case FIELD_INT:
-			case FIELD_FLOAT:
+			if (src_expr->expr == EXPR_AGGREGATE
+			    && src_expr->field.agg->agg_type == AGG_COUNT) {
 				ret->data = _null_agg_numeric;
 				ret->len = 1;
-				return FQL_NULL;
-			case FIELD_STRING:
-				ret->len = 0;
-				return FQL_NULL;
-			default:
-				return FQL_NULL;
+				return FQL_GOOD;
 			}
+			string_clear(&self->buf);
+			ret->data = self->buf.data;
+			ret->len = 0;
+			return FQL_NULL;
 		}
 		if (rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
-- 
2.43.0


From 0ae4c309c88864762696f210e51a9545005d8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 035/104] fix: SUM, AVG, MIN and MAX ignore NULL

---
 lib/aggregatefn.c | 21 +++++++++++----------
 lib/group.c       | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/aggregatefn.c b/lib/aggregatefn.c
index 0428268..bf85921 100644
--- a/lib/aggregatefn.c
+++ b/lib/aggregatefn.c
@@ -1,4 +1,5 @@
 #include "group.h"
+#include "fql.h"
 #include "aggregate.h"
 #include "misc.h"
 #include "util/util.h"
@@ -13,7 +14,7 @@ int fql_min_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num < result->data.i) {
 		result->data.i = num;
 	}
@@ -24,7 +25,7 @@ int fql_min_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num < result->data.f) {
 		result->data.f = num;
 	}
@@ -35,7 +36,7 @@ int fql_min_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -49,7 +50,7 @@ int fql_max_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num > result->data.i) {
 		result->data.i = num;
 	}
@@ -60,7 +61,7 @@ int fql_max_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num > result->data.f) {
 		result->data.f = num;
 	}
@@ -71,7 +72,7 @@ int fql_max_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -85,7 +86,7 @@ int fql_sum_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->data.i = overflow_safe_add_i(result->data.i, num);
 	return FQL_GOOD;
@@ -95,7 +96,7 @@ int fql_sum_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->data.f += num;
 	return FQL_GOOD;
@@ -106,7 +107,7 @@ int fql_avg_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);
 	result->data.i = result->auxdata.i / (result->qty + 1);
@@ -119,7 +120,7 @@ int fql_avg_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->auxdata.f += num;
 	result->data.f = result->auxdata.f / (result->qty + 1);
diff --git a/lib/group.c b/lib/group.c
index 6051fdb..02d050f 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -94,8 +94,10 @@ int _add_agg_result(group* self, node* rg)
 		if ((*it)->data_type == FIELD_STRING) {
 			string_construct(&result->data.s);
 		}
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		/* NULL does not take part */
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -105,8 +107,10 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 	aggregate** it = vec_begin(&self->aggregates);
 	for (; it != vec_end(&self->aggregates); ++it) {
 		struct aggresult* result = vec_at(&(*it)->results, idx);
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		/* NULL does not take part */
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -169,6 +173,11 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 {
 	aggregate* agg = agg_expr->field.agg;
 	struct aggresult* result = vec_at(&agg->results, idx);
+	if (result->qty == 0) {
+		string_clear(raw);
+		stringview_set_string(sv, raw);
+		return;
+	}
 	switch (agg->data_type) {
 	case FIELD_INT:
 		string_sprintf(raw, "%ld", result->data.i);
-- 
2.43.0


From bdb13d964b833021e137b873f6b564ef3a9c9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 036/104] fix: a NULL number groups as empty text, not as 0

---
 lib/group.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/group.c b/lib/group.c
index 02d050f..37b564e 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -129,19 +129,30 @@ int group_record(group* self, node* rg)
 		}
 		switch (exprs[i]->field_type) {
 		case FIELD_STRING:
-			try_(expression_get_stringview(sv, exprs[i], rg));
+			if (try_(expression_get_stringview(sv, exprs[i], rg)) == FQL_NULL) {
+				flex_push_back(&self->group_data, "", 0);
+				break;
+			}
 			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
 			break;
 		case FIELD_INT: {
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			if (try_(expression_get_int(&num_i, exprs[i], rg)) == FQL_NULL) {
+				flex_push_back(&self->group_data, "", 0);
+				break;
+			}
 			flex_push_back_str_int(&self->group_data, num_i);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			if (try_(expression_get_float(&num_f, exprs[i], rg))
+			    == FQL_NULL) {
+				flex_push_back(&self->group_data, "", 0);
+				break;
+			}
 			flex_push_back_str_float(&self->group_data, num_f);
+			break;
 		}
 		default:;
 		}
-- 
2.43.0


From 407a736412fa0b9653726f701fad18703fc522d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 037/104] fix: a float outside the integer range fails to
 convert

---
 lib/field.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/field.c b/lib/field.c
index 9192b03..b823723 100644
--- a/lib/field.c
+++ b/lib/field.c
@@ -39,6 +39,12 @@ int field_to_int(long* ret, union field* field, enum field_type* type)
 	case FIELD_INT:
 		break;
 	case FIELD_FLOAT:
+		/* -2^63 <= f < 2^63 */
+		if (!(field->f >= -9223372036854775808.0
+		      && field->f < 9223372036854775808.0)) {
+			fputs("arithmetic overflow detected\n", stderr);
+			return FQL_FAIL;
+		}
 		*type = FIELD_INT;
 		field->i = (long)field->f;
 		break;
-- 
2.43.0


From 0aa19fb22622a6dc46c698a8f374741841f71335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 038/104] fix: float overflow fails instead of yielding inf

---
 lib/aggregatefn.c |  5 +++--
 lib/misc.h        | 10 ++++++++++
 lib/scalarfn.c    |  9 +++++----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/aggregatefn.c b/lib/aggregatefn.c
index bf85921..05f3be8 100644
--- a/lib/aggregatefn.c
+++ b/lib/aggregatefn.c
@@ -1,3 +1,4 @@
+#include <math.h>
 #include "group.h"
 #include "fql.h"
 #include "aggregate.h"
@@ -98,7 +99,7 @@ int fql_sum_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	double num = 0;
 	try_deref_(expression_get_float(&num, col, rg));
 
-	result->data.f += num;
+	result->data.f = overflow_safe_f(result->data.f + num);
 	return FQL_GOOD;
 }
 
@@ -122,7 +123,7 @@ int fql_avg_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	double num = 0;
 	try_deref_(expression_get_float(&num, col, rg));
 
-	result->auxdata.f += num;
+	result->auxdata.f = overflow_safe_f(result->auxdata.f + num);
 	result->data.f = result->auxdata.f / (result->qty + 1);
 
 	return FQL_GOOD;
diff --git a/lib/misc.h b/lib/misc.h
index a91f61c..cff64ac 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -65,4 +65,14 @@
 		result_;                                                 \
 	})
 
+#define overflow_safe_f(result_)                                         \
+	({                                                               \
+		double f_ = (result_);                                   \
+		if (!isfinite(f_)) {                                     \
+			fputs("arithmetic overflow detected\n", stderr); \
+			return FQL_FAIL;                                 \
+		}                                                        \
+		f_;                                                      \
+	})
+
 #endif /* MISC_H */
diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index c66459b..d2997aa 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <limits.h>
 #include <ctype.h>
+#include <math.h>
 #include "fql.h"
 #include "expression.h"
 #include "misc.h"
@@ -408,7 +409,7 @@ int fql_op_plus_f(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_float(&n0, args[0], rg));
 	try_deref_(expression_get_float(&n1, args[1], rg));
 
-	ret->f = n0 + n1;
+	ret->f = overflow_safe_f(n0 + n1);
 
 	return FQL_GOOD;
 }
@@ -448,7 +449,7 @@ int fql_op_minus_f(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_float(&n0, args[0], rg));
 	try_deref_(expression_get_float(&n1, args[1], rg));
 
-	ret->f = n0 - n1;
+	ret->f = overflow_safe_f(n0 - n1);
 
 	return FQL_GOOD;
 }
@@ -474,7 +475,7 @@ int fql_op_mult_f(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_float(&n0, args[0], rg));
 	try_deref_(expression_get_float(&n1, args[1], rg));
 
-	ret->f = n0 * n1;
+	ret->f = overflow_safe_f(n0 * n1);
 
 	return FQL_GOOD;
 }
@@ -515,7 +516,7 @@ int fql_op_divi_f(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
-	ret->f = n0 / n1;
+	ret->f = overflow_safe_f(n0 / n1);
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 075ac4d6a763bc6a498a9abf918e53e2cc007ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 039/104] fix: reading a constant as another type does not
 change the constant

---
 lib/expression.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 25cb12d..6679bcd 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -439,9 +439,13 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		try_(field_to_int(ret, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_int(ret, &self->field, &self->field_type));
+	case EXPR_CONST: {
+		/* convert a copy, the constant keeps its type */
+		union field field = self->field;
+		enum field_type field_type = self->field_type;
+		try_(field_to_int(ret, &field, &field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_int: Unexpected expression\n");
 		return FQL_FAIL;
@@ -507,9 +511,13 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		try_(field_to_float(ret, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_float(ret, &self->field, &self->field_type));
+	case EXPR_CONST: {
+		/* convert a copy, the constant keeps its type */
+		union field field = self->field;
+		enum field_type field_type = self->field_type;
+		try_(field_to_float(ret, &field, &field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_float: Unexpected expression\n");
 		return FQL_FAIL;
@@ -601,12 +609,13 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_stringview(ret,
-		                         &self->buf,
-		                         &self->field,
-		                         &self->field_type));
+	case EXPR_CONST: {
+		/* convert a copy, the constant keeps its type */
+		union field field = self->field;
+		enum field_type field_type = self->field_type;
+		try_(field_to_stringview(ret, &self->buf, &field, &field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_stringview: Unexpected expression\n");
 		return FQL_FAIL;
-- 
2.43.0


From 27ff09673255c0d61678495310c273e69c8dba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 040/104] fix: ORDER BY sorts a NULL number below every number

---
 lib/order.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 1830756..09decfe 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -224,19 +224,31 @@ int order_add_record(order* self, node* rg)
 		case FIELD_INT: {
 			/* NOTE: storing numbers in binary */
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			if (try_(expression_get_int(&num_i, exprs[i], rg))
+			    == FQL_NULL) {
+				flex_push_back(&self->order_data, "", 0);
+				break;
+			}
 			flex_push_back_(&self->order_data, &num_i, long);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			if (try_(expression_get_float(&num_f, exprs[i], rg))
+			    == FQL_NULL) {
+				flex_push_back(&self->order_data, "", 0);
+				break;
+			}
 			flex_push_back_(&self->order_data, &num_f, double);
 			break;
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			    == FQL_NULL) {
+				flex_push_back(&self->order_data, "", 0);
+				break;
+			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
 			break;
 		}
@@ -251,6 +263,15 @@ int order_add_record(order* self, node* rg)
 	return FQL_GOOD;
 }
 
+/* A NULL number was stored as an empty item. It sorts lowest. */
+bool _compare_null(order* orderby, size_t idx0, size_t idx1, int* ret)
+{
+	stringview sv0 = flex_pair_at(&orderby->order_data, idx0);
+	stringview sv1 = flex_pair_at(&orderby->order_data, idx1);
+	*ret = (sv0.len != 0) - (sv1.len != 0);
+	return sv0.len == 0 || sv1.len == 0;
+}
+
 int _compare(const void* a, const void* b, void* data)
 {
 	order* orderby = data;
@@ -265,12 +286,18 @@ int _compare(const void* a, const void* b, void* data)
 	for (; ret == 0 && it != vec_end(&orderby->expressions); ++it) {
 		switch ((*it)->field_type) {
 		case FIELD_INT: {
+			if (_compare_null(orderby, idx0, idx1, &ret)) {
+				break;
+			}
 			long* num0 = flex_at(&orderby->order_data, idx0);
 			long* num1 = flex_at(&orderby->order_data, idx1);
 			ret = num_compare_(*num0, *num1);
 			break;
 		}
 		case FIELD_FLOAT: {
+			if (_compare_null(orderby, idx0, idx1, &ret)) {
+				break;
+			}
 			double* num0 = flex_at(&orderby->order_data, idx0);
 			double* num1 = flex_at(&orderby->order_data, idx1);
 			ret = num_compare_(*num0, *num1);
-- 
2.43.0


From 3f4204a723087bf265eaf9607c5572f7899eba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 041/104] fix: stepping through an empty ORDER BY result
 reports the end

---
 lib/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 09decfe..60baff9 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -430,6 +430,8 @@ int order_sort(order* self)
 		return FQL_FAIL;
 	}
 
+	self->entry_iter = vec_begin(&self->entries);
+
 	if (sb.st_size == 0) {
 		return FQL_GOOD;
 	}
@@ -444,7 +446,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From 521a372d38791ff81cc2154acb76885a26891841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:36 +0000
Subject: [PATCH 042/104] fix: ordered subqueries and ordered stepping keep the
 selected value and its NULL

---
 lib/fqlselect.c | 17 ++++++++++++++---
 lib/order.c     | 23 ++++++++++++++++-------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..f9239e9 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -455,25 +455,36 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	expression** exprs = vec_begin(expr_vec);
 	unsigned i = 0;
 	unsigned len = 0;
+	char is_null = 0; /* precedes each value */
 	for (; i < expr_vec->size; ++i) {
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			long num = 0;
-			try_(expression_get_int(&num, exprs[i], rg));
+			is_null = (try_(expression_get_int(&num, exprs[i], rg))
+			           == FQL_NULL);
+			len += fwrite(&is_null, 1, 1, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
 			len += sizeof(num);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num = 0;
-			try_(expression_get_float(&num, exprs[i], rg));
+			is_null = (try_(expression_get_float(&num, exprs[i], rg))
+			           == FQL_NULL);
+			len += fwrite(&is_null, 1, 1, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
 			len += sizeof(num);
 			break;
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			is_null = (try_(expression_get_stringview(&sv, exprs[i], rg))
+			           == FQL_NULL);
+			if (is_null) {
+				sv.data = "";
+				sv.len = 0;
+			}
+			len += fwrite(&is_null, 1, 1, order_input);
 			fwrite(&sv.len, sizeof(sv.len), 1, order_input);
 			fwrite(sv.data, 1, sv.len, order_input);
 			len += sizeof(sv.len) + sv.len;
diff --git a/lib/order.c b/lib/order.c
index 60baff9..d4e5c98 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -341,17 +341,19 @@ int _order_select_api(order* self, process* proc)
 	size_t offset = self->entry_iter->offset;
 	struct fql_field* it = vec_begin(self->api);
 	for (; it != vec_end(self->api); ++it) {
+		it->is_null = self->mmap[offset++];
 		switch (it->type) {
 		case FQL_INT:
-			it->data.i = *(long*)(&self->mmap[offset]);
+			memcpy(&it->data.i, &self->mmap[offset], sizeof(long));
 			offset += sizeof(long);
 			break;
 		case FQL_FLOAT:
-			it->data.f = *(double*)(&self->mmap[offset]);
+			memcpy(&it->data.f, &self->mmap[offset], sizeof(double));
 			offset += sizeof(double);
 			break;
 		case FQL_STRING: {
-			unsigned len = *(unsigned*)(&self->mmap[offset]);
+			unsigned len = 0;
+			memcpy(&len, &self->mmap[offset], sizeof(len));
 			offset += sizeof(unsigned);
 			stringview sv = {&self->mmap[offset], len};
 			offset += len;
@@ -383,21 +385,28 @@ int _order_select_to_const(order* self, process* proc)
 	}
 
 	struct _entry* first_ent = vec_begin(&self->entries);
-	expression* first_expr = *(expression**)vec_begin(&self->expressions);
+	/* the value was written by the select list, not by ORDER BY */
+	fqlselect* select = self->const_dest->subquery->op;
+	expression* first_expr = *(expression**)vec_begin(select->schema->expressions);
 
 	self->const_dest->expr = EXPR_CONST;
 	self->const_dest->field_type = first_expr->field_type;
 
 	size_t offset = first_ent->offset;
+	if (self->mmap[offset++]) {
+		self->const_dest->expr = EXPR_NULL;
+		return FQL_GOOD;
+	}
 	switch (first_expr->field_type) {
 	case FIELD_INT:
-		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
+		memcpy(&self->const_dest->field.i, &self->mmap[offset], sizeof(long));
 		break;
 	case FIELD_FLOAT:
-		self->const_dest->field.f = *(double*)(&self->mmap[offset]);
+		memcpy(&self->const_dest->field.f, &self->mmap[offset], sizeof(double));
 		break;
 	case FIELD_STRING: {
-		unsigned len = *(unsigned*)(&self->mmap[offset]);
+		unsigned len = 0;
+		memcpy(&len, &self->mmap[offset], sizeof(len));
 		offset += sizeof(unsigned);
 		stringview sv = {&self->mmap[offset], len};
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
-- 
2.43.0


From 3598e7e38b3c629cd741e542810f97475d712a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 043/104] fix: a scalar subquery of a number distinguishes NULL
 from its value

---
 lib/fqlselect.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index f9239e9..0a44771 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -550,7 +550,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 	switch (expr->field_type) {
 	case FIELD_INT: {
 		long num = 0;
-		if (try_(expression_get_int(&num, expr, rg))) {
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
 		}
 		self->const_dest->field.i = num;
@@ -558,7 +558,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		if (try_(expression_get_float(&num, expr, rg))) {
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
 		}
 		self->const_dest->field.f = num;
@@ -568,6 +568,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 		stringview sv;
 		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
+			return 1;
 		}
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
 		self->const_dest->field.s = &self->const_dest->buf;
-- 
2.43.0


From 82b32e0b94ef8155924fa09ff5ff088f8bb62fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 044/104] fix: IN (subquery) compares in the common type and
 knows NULL

---
 lib/fqllogic.c  | 15 ++++++++++++---
 lib/fqlplan.c   |  4 +++-
 lib/fqlselect.c | 32 +++++++++++++++++++++++++++-----
 lib/fqlselect.h |  1 +
 lib/logic.h     |  2 ++
 5 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 4f9bb21..e02ffcc 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -235,25 +235,34 @@ int fql_logic_in_s(logic* self, node* rg)
 	return ret;
 }
 
+int _subin(inlist* in_data, const void* key, unsigned len)
+{
+	if (set_nhas(in_data->list_data, key, len)) {
+		return true;
+	}
+	return in_data->has_null ? FQL_NULL : false;
+}
+
 int fql_logic_subin_i(logic* self, node* rg)
 {
 	long n0 = 0;
 	try_logic_deref_(expression_get_int(&n0, self->expr[0], rg));
-	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
+	return _subin(self->in_data, &n0, sizeof(n0));
 }
 
 int fql_logic_subin_f(logic* self, node* rg)
 {
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
-	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
+	n0 += 0.0; /* -0.0 equals 0.0 */
+	return _subin(self->in_data, &n0, sizeof(n0));
 }
 
 int fql_logic_subin_s(logic* self, node* rg)
 {
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
-	return set_nhas(self->in_data->list_data, sv0.data, sv0.len);
+	return _subin(self->in_data, sv0.data, sv0.len);
 }
 
 int fql_logic_like(logic* self, node* rg)
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index f5be708..e7f5018 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -178,7 +178,9 @@ void _check_all_for_special_expression(plan* self, process* proc, vec* expressio
 
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
-	query* subquery = lg->condition->in_data->subquery;
+	inlist* in_data = lg->condition->in_data;
+	query* subquery = in_data->subquery;
+	in_data->list_type = inlist_determine_type(in_data, lg->condition->expr[0]);
 	/* We can assume select because subquery */
 	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data));
 	lg->condition->comp_type = COMP_SUBIN;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 0a44771..9fc7d65 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -250,8 +250,15 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	/* numbers are stored in binary */
+	if (inlist->list_type == FIELD_STRING) {
+		inlist->list_data =
+		        new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	} else {
+		inlist->list_data = new_(set, 16, HASHMAP_PROP_DEFAULT);
+	}
 	self->list_data = inlist->list_data;
+	self->in_list = inlist;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
 }
@@ -314,6 +321,11 @@ int fqlselect_reset(fqlselect* self)
 		self->const_dest->expr = EXPR_SUBQUERY;
 	}
 
+	if (self->in_list != NULL) {
+		set_clear(self->list_data);
+		self->in_list->has_null = false;
+	}
+
 	if (self->union_selects != NULL) {
 		self->_union_node = self->union_selects;
 	}
@@ -508,22 +520,32 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	switch (self->in_list->list_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			self->in_list->has_null = true;
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL) {
+			self->in_list->has_null = true;
+			return 1;
+		}
+		num += 0.0; /* -0.0 equals 0.0 */
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			self->in_list->has_null = true;
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..ac26c4c 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -18,6 +18,7 @@ struct fqlselect {
 	struct schema* schema;
 	struct writer* writer;
 	set* list_data;
+	struct inlist* in_list;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
diff --git a/lib/logic.h b/lib/logic.h
index e64da8d..00fa4c1 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -59,6 +59,8 @@ struct inlist {
 	struct query* subquery;
 	set* list_data;
 	enum mode return_mode;
+	enum field_type list_type; /* of the values in list_data */
+	bool has_null;             /* subquery yielded a NULL */
 };
 typedef struct inlist inlist;
 
-- 
2.43.0


From 3626e31cf66ccba81d3451410af4578717d03585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 045/104] fix: LIKE [^set] negates, and % and _ match line
 breaks

---
 lib/like.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..55c01fd 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -61,6 +61,11 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 		char* b_end = vec_back(&bracketed);
 		vec_erase_one(&bracketed, b_end);
 
+		/* A leading ^ negates. It is escaped already. */
+		if (strncmp(string_c_str(&bracketed), "\\^", 2) == 0) {
+			vec_erase_at(&bracketed, 0, 1);
+		}
+
 		/* Escaple all brackets left */
 		string_find_replace(&bracketed, "[", "\\[");
 		string_find_replace(&bracketed, "]", "\\]");
@@ -144,7 +149,8 @@ int like_to_regex(like* self, const stringview sql_like)
 	PCRE2_SIZE pcre_error_offset = 0;
 	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(&self->regex_buffer),
 	                            self->regex_buffer.size,
-	                            PCRE2_CASELESS,
+	                            PCRE2_CASELESS | PCRE2_DOTALL
+	                                    | PCRE2_DOLLAR_ENDONLY,
 	                            &pcre_error,
 	                            &pcre_error_offset,
 	                            NULL);
-- 
2.43.0


From 10884c653bc530c32d5f69608937d3aeed16bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 046/104] fix: LIKE with a variable, subquery or column pattern

---
 lib/fqllogic.c |  4 ++--
 lib/like.c     | 19 +++++++++++++++----
 lib/logic.c    |  1 +
 lib/logic.h    |  1 +
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index e02ffcc..359676d 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -270,10 +270,10 @@ int fql_logic_like(logic* self, node* rg)
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
 
-	if (self->expr[1]->expr != EXPR_CONST) {
+	if (!self->like_data->is_const) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
-		like_to_regex(self->like_data, sv1);
+		try_(like_to_regex(self->like_data, sv1));
 	}
 	int match_ret = pcre2_match(self->like_data->regex,
 	                            (PCRE2_SPTR)sv0.data,
diff --git a/lib/like.c b/lib/like.c
index 55c01fd..3be92f6 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -8,24 +8,33 @@ like* like_construct(like* self)
 	string_construct(&self->regex_buffer);
 	vec_construct_(&self->ranges, string);
 	self->regex = NULL;
+	self->match = NULL;
+	self->is_const = false;
 	return self;
 }
 
-void like_destroy(like* self)
+void _like_clear(like* self)
 {
 	string* it = vec_begin(&self->ranges);
 	for (; it != vec_end(&self->ranges); ++it) {
 		string_destroy(it);
 	}
-	vec_destroy(&self->ranges);
-	string_destroy(&self->like_buffer);
-	string_destroy(&self->regex_buffer);
+	vec_clear(&self->ranges);
 	if (self->regex != NULL) {
 		pcre2_match_data_free(self->match);
 		pcre2_code_free(self->regex);
+		self->regex = NULL;
 	}
 }
 
+void like_destroy(like* self)
+{
+	_like_clear(self);
+	vec_destroy(&self->ranges);
+	string_destroy(&self->like_buffer);
+	string_destroy(&self->regex_buffer);
+}
+
 /* This is just a C version of the a C++ solution:
  * https://stackoverflow.com/a/34901612/635822
  */
@@ -118,6 +127,8 @@ int like_to_regex(like* self, const stringview sql_like)
 {
 	//fprintf(stderr, "LIKE: %.*s\n", sql_like.len, sql_like.data);
 
+	_like_clear(self);
+
 	string* likebuf = &self->like_buffer;
 	string_copy_from_stringview(likebuf, &sql_like);
 	string_find_replace(likebuf, "\\", "\\\\");
diff --git a/lib/logic.c b/lib/logic.c
index 2194374..6c41c1a 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -63,6 +63,7 @@ int _precompile_like(logic* self)
 	stringview sv = {0};
 	try_(expression_get_stringview(&sv, self->expr[1], NULL));
 	try_(like_to_regex(self->like_data, sv));
+	self->like_data->is_const = true;
 
 	pcre2_jit_compile(self->like_data->regex, PCRE2_JIT_COMPLETE);
 
diff --git a/lib/logic.h b/lib/logic.h
index 00fa4c1..ad1d78c 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -76,6 +76,7 @@ struct like {
 	struct vec ranges;
 	pcre2_code* regex;
 	pcre2_match_data* match;
+	bool is_const;
 };
 typedef struct like like;
 
-- 
2.43.0


From b070e6eace2e145757acd0a6a7cc4768640b2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 047/104] fix: unsupported joins and predicates are rejected

---
 lib/antlr/listenerinterface.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index f3c54d2..56f7d3a 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -269,6 +269,10 @@ void ListenerInterface::exitSelect_list_elem(TSqlParser::Select_list_elemContext
 void ListenerInterface::enterTable_sources(TSqlParser::Table_sourcesContext * ctx)
 {
 	_query->mode = MODE_SOURCES;
+	if (ctx->source.size() > 1) {
+		std::cerr << "table list not supported, use JOIN\n";
+		_set_failure();
+	}
 }
 void ListenerInterface::exitTable_sources(TSqlParser::Table_sourcesContext * ctx)
 {
@@ -341,9 +345,11 @@ void ListenerInterface::enterJoin_on(TSqlParser::Join_onContext* ctx)
 	} else if (ctx->RIGHT()) {
 		_query->join = JOIN_RIGHT;
 		std::cerr << "RIGHT JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else if (ctx->FULL()) {
 		_query->join = JOIN_FULL;
 		std::cerr << "FULL JOIN not currently supported, try LEFT JOIN\n";
+		_set_failure();
 	} else {
 		_query->join = JOIN_INNER;
 	}
@@ -903,6 +909,17 @@ void ListenerInterface::exitSearch_condition(TSqlParser::Search_conditionContext
 
 void ListenerInterface::enterPredicate(TSqlParser::PredicateContext * ctx)
 {
+	const char* unsupported = NULL;
+	if (ctx->EXISTS())       unsupported = "EXISTS";
+	else if (ctx->ALL())     unsupported = "ALL";
+	else if (ctx->SOME())    unsupported = "SOME";
+	else if (ctx->ANY())     unsupported = "ANY";
+	else if (ctx->BETWEEN()) unsupported = "BETWEEN";
+	else if (ctx->ESCAPE())  unsupported = "ESCAPE";
+	if (unsupported) {
+		std::cerr << "`" << unsupported << "' currently not supported\n";
+		_set_failure();
+	}
 	query_enter_predicate(_query, ctx->NOT().size(), (ctx->IN() != NULL));
 }
 
-- 
2.43.0


From a72ca6590742bd927037596b0b56f60e0dbbabb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 048/104] fix: NULL never matches in a hash join

---
 lib/fqlprocesses.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index a5786f9..5257983 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -367,24 +367,30 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			ret = try_(
+			        expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			float_hold += 0.0; /* -0 equals 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
+		/* NULL never equals anything, it is not added to the hash */
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		if (ret != FQL_NULL) {
+			multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -402,22 +408,29 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			ret = try_(
+			        expression_get_float(&float_hold, hj->left_expr, left_rg));
+			float_hold += 0.0; /* -0 equals 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (ret == FQL_NULL) {
+			return -1;
+		}
+
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
-- 
2.43.0


From 1ef29d414d8ca75c4a87201adcfc019b649bb9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 049/104] fix: ORDER BY ... DESC without sources does not crash

---
 lib/query.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index 117a1fe..0635452 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -723,6 +723,10 @@ int query_init_orderby(query* self)
 
 void query_set_order_desc(query* self)
 {
+	/* ordering a const expression, see query_init_orderby */
+	if (self->orderby == NULL) {
+		return;
+	}
 	expression** expr = vec_back(&self->orderby->expressions);
 	(*expr)->descending = true;
 }
-- 
2.43.0


From d88b31fbd4c28337abebdab50fdb1fe0eb30dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:57 +0000
Subject: [PATCH 050/104] fix: LEFT JOIN emits the left row alone once, when no
 match satisfies the whole condition

---
 lib/fqlplan.c      |  3 +-
 lib/fqlprocesses.c | 92 +++++++++++++++++-----------------------------
 lib/process.h      |  1 -
 lib/table.c        |  2 +
 lib/table.h        |  1 +
 5 files changed, 38 insertions(+), 61 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index e7f5018..a29d242 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -451,8 +451,9 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			                                table_iter->condition,
 			                                &join_logic_proc,
 			                                is_hash_join));
+			/* the hash join evaluates the whole condition */
 			if (table_iter->join_type == JOIN_LEFT) {
-				join_logic_proc->action__ = &fql_left_join_logic;
+				join_logic_proc->is_passive = true;
 			}
 		}
 	}
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 5257983..dba32fe 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -446,6 +446,19 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 	return *offset;
 }
 
+/* A LEFT JOIN has to know which hash matches satisfy the
+ * rest of its condition: the left side is sent alone only
+ * if none of them do.
+ */
+int _hash_join_left_eval(table* table, node* rg)
+{
+	logicgroup* lg = table->condition;
+	if (table->join_type != JOIN_LEFT) {
+		return true;
+	}
+	return try_(logicgroup_eval(lg, rg, lg->join_logic)) == true;
+}
+
 enum proc_return fql_hash_join(process* proc)
 {
 	fifo* out_false = proc->fifo_out[0];
@@ -528,7 +541,18 @@ enum proc_return fql_hash_join(process* proc)
 		 */
 		if (hj->recs == NULL) {
 			node_enqueue_import(left_rg_iter, *right_rg);
-			fifo_add(out_true, left_rg_iter);
+			if (!try_(_hash_join_left_eval(table, *left_rg_iter))) {
+				node* right_side = node_back(*left_rg_iter);
+				node_export(right_side);
+				fqlprocess_recycle(proc, &right_side);
+				if (hj->is_matched) {
+					fqlprocess_recycle(proc, left_rg_iter);
+				}
+			}
+			if (*left_rg_iter) {
+				fifo_add(out_true, left_rg_iter);
+			}
+			hj->is_matched = false;
 			_fqlprocess_print_iter_states(proc, -2);
 			left_rg_iter = fifo_iter(in_left);
 		} else {
@@ -543,7 +567,14 @@ enum proc_return fql_hash_join(process* proc)
 				_fqlprocess_print_iter_states(proc, fresh_rec->node_idx);
 				node_push_import(right_rg, *fresh_node);
 			}
-			fifo_add(out_true, right_rg);
+			if (try_(_hash_join_left_eval(table, *right_rg))) {
+				hj->is_matched = true;
+				fifo_add(out_true, right_rg);
+			} else {
+				/* right_rg is a slot of the fifo we recycle to */
+				node* unmatched = *right_rg;
+				fqlprocess_recycle(proc, &unmatched);
+			}
 		}
 
 		if (!fifo_receivable(out_true)) {
@@ -624,63 +655,6 @@ enum proc_return fql_logic(process* proc)
 	return ret;
 }
 
-enum proc_return fql_left_join_logic(process* proc)
-{
-	// No out_false for left_join
-	//fifo* out_false = proc->fifo_out[0];
-	fifo* out_true = proc->fifo_out[1];
-	if (out_true && !out_true->is_open) {
-		return PROC_RETURN_COMPLETE;
-	}
-
-	fifo* in = proc->fifo_in[0];
-	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
-			return PROC_RETURN_COMPLETE;
-		}
-		return PROC_RETURN_WAIT_ON_IN0;
-	}
-
-	if (!out_true && !fifo_receivable(out_true)) {
-		return PROC_RETURN_WAIT_ON_OUT1;
-	}
-
-	logicgroup* lg = proc->proc_data;
-
-	////
-
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN0;
-
-	node** rg_iter = fifo_begin(in);
-	while (rg_iter != fifo_end(in)) {
-		/* If the right-most expected node is missing,
-		 * these records have already failed a hash join.
-		 */
-		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
-			if (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic)) != true) {
-				/* our condition failed, but we still want to pass
-				 * it on. Chop off right-most node and recycle it.
-				 */
-				node* right_side = node_back(*rg_iter);
-				//node_export(right_side);
-				fqlprocess_recycle(proc, &right_side);
-			}
-		}
-
-		_fqlprocess_print_iter_states(proc, -1);
-		fifo_add(out_true, rg_iter);
-
-		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
-			ret = PROC_RETURN_WAIT_ON_OUT1;
-			break;
-		}
-	}
-	fifo_update(in);
-
-	return ret;
-}
-
 enum proc_return _group_dump(process* proc, fifo* in_fresh, fifo* out)
 {
 	if (!fifo_receivable(out)) {
diff --git a/lib/process.h b/lib/process.h
index 8ef4e49..9a72dfa 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -98,7 +98,6 @@ enum proc_return fql_delete_filter(struct process*);
 enum proc_return fql_update(struct process*);
 enum proc_return fql_update_filter(struct process*);
 enum proc_return fql_logic(struct process*);
-enum proc_return fql_left_join_logic(struct process*);
 enum proc_return fql_cartesian_join(struct process*);
 enum proc_return fql_hash_join(struct process*);
 enum proc_return fql_distinct(struct process*);
diff --git a/lib/table.c b/lib/table.c
index d16a2c7..f48fd62 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -143,6 +143,8 @@ void hashjoin_reset(struct hashjoin* join)
 	if (join != NULL) {
 		multimap_clear(join->hash_data);
 		join->state = SIDE_RIGHT;
+		join->recs = NULL;
+		join->is_matched = false;
 	}
 }
 
diff --git a/lib/table.h b/lib/table.h
index 9d6a437..9d3fd0c 100644
--- a/lib/table.h
+++ b/lib/table.h
@@ -54,6 +54,7 @@ struct hashjoin {
 	enum join_side state;
 	enum field_type comp_type;
 	unsigned rec_idx;
+	bool is_matched;
 };
 typedef struct hashjoin hashjoin;
 
-- 
2.43.0


From 6d30529441cca36198d43e3238c8ec4a3ac77e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 051/104] fix: REPLACE with a computed pattern does not overrun
 its copy

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index d2997aa..ccda554 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -343,7 +343,7 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	strncpy_(needle_cpy, needle.data, needle.len);
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From fa6782f3ae6e0859a7c7b442fbc88360ccf4a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 052/104] fix: a subquery may follow the ON condition of an
 earlier join

---
 lib/antlr/listenerinterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 56f7d3a..e61d3d4 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -359,6 +359,8 @@ void ListenerInterface::enterJoin_on(TSqlParser::Join_onContext* ctx)
 void ListenerInterface::exitJoin_on(TSqlParser::Join_onContext* ctx)
 {
 	_query->logic_mode = LOGIC_UNDEFINED;
+	/* back to the table sources, another join may follow */
+	_query->mode = MODE_SOURCES;
 }
 
 
-- 
2.43.0


From 33beb4f5b99c55e58b88839dcfc001a972dce4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 053/104] fix: CASE with a variable as its input

---
 lib/query.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index 0635452..da1dd72 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -944,6 +944,22 @@ int query_exit_case_expression(query* self)
 	return FQL_GOOD;
 }
 
+/* the copy has to see the current value of the variable, too */
+static void _register_variable_copy(query* self, expression* src, expression* copy)
+{
+	unsigned i = 0;
+	for (; i < self->variable_expressions->size; ++i) {
+		expression** var_expr = vec_at(self->variable_expressions, i);
+		if (*var_expr != src) {
+			continue;
+		}
+		int idx = *(int*)vec_at(self->variable_expr_indicies, i);
+		vec_push_back(self->variable_expr_indicies, &idx);
+		vec_push_back(self->variable_expressions, &copy);
+		return;
+	}
+}
+
 int query_enter_switch_section(query* self)
 {
 	switchcase* sc = self->switchcase_stack->data;
@@ -955,6 +971,9 @@ int query_enter_switch_section(query* self)
 	}
 
 	expression* static_expr_copy = expression_copy(sc->static_expr);
+	if (static_expr_copy->expr == EXPR_VARIABLE) {
+		_register_variable_copy(self, sc->static_expr, static_expr_copy);
+	}
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-- 
2.43.0


From bf184a9932e03e771e1ee81c9d18332b46d9baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 054/104] fix: source subqueries are prepared before the first
 run

---
 lib/query.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index da1dd72..af3d9a6 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -160,7 +160,10 @@ int query_preflight(query* self, bool has_executed)
 	/* need to reset all readers */
 	table* table_iter = vec_begin(self->sources);
 	for (; table_iter != vec_end(self->sources); ++table_iter) {
-		table_reset(table_iter, has_executed);
+		if (!has_executed && table_iter->subquery != NULL) {
+			try_(query_preflight(table_iter->subquery, has_executed));
+		}
+		try_(table_reset(table_iter, has_executed));
 	}
 
 	try_(group_reset(self->distinct));
-- 
2.43.0


From adc9398168b0cb969b0240e41d9b19d6d183dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 055/104] fix: NULLs of a source subquery, joined subqueries
 that run again

---
 lib/expression.c |  16 +++++++
 lib/reader.h     |   3 ++
 lib/subquery.c   | 118 +++++++++++++++++++++++++++++++++++++++--------
 lib/table.c      |   9 +++-
 4 files changed, 126 insertions(+), 20 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 6679bcd..b2c48d5 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -423,6 +423,10 @@ int expression_get_int(long* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* from a subquery */
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2long(ret, self->buf.data));
 		return FQL_GOOD;
@@ -495,6 +499,10 @@ int expression_get_float(double* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* from a subquery */
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2double(ret, self->buf.data));
 		return FQL_GOOD;
@@ -531,6 +539,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	switch (self->expr) {
 	case EXPR_SUBQUERY:
 	case EXPR_NULL:
+		ret->data = "";
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
@@ -538,6 +547,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
+			ret->data = "";
 			ret->len = 0;
 			return FQL_NULL;
 		}
@@ -593,6 +603,12 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* from a subquery */
+			string_clear(&self->buf);
+			ret->data = self->buf.data;
+			ret->len = 0;
+			return FQL_NULL;
+		}
 		ret->data = sv->data;
 		ret->len = sv->len;
 		return FQL_GOOD;
diff --git a/lib/reader.h b/lib/reader.h
index 3709584..5c7ce78 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -58,6 +58,8 @@ struct subquery {
 	struct fqlselect* select;
 	struct query* query;
 	struct record copy_data;
+	struct csv_reader* file;
+	string field;
 };
 typedef struct subquery subquery;
 
@@ -67,6 +69,7 @@ int subquery_get_record(struct reader*, struct node*);
 int subquery_get_record_at(struct reader*, struct node*, size_t offset);
 int subquery_reset(struct reader*);
 int subquery_reset_from_join(struct reader*);
+int subquery_restart_file_backed_input(struct reader*);
 int subquery_start_file_backed_input(struct reader*);
 
 
diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..0d152ec 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -4,6 +4,10 @@
 #include "fqlselect.h"
 #include "misc.h"
 
+/* The first character of a field in the file behind a subquery */
+#define SUBQUERY_FIELD_NULL  'n'
+#define SUBQUERY_FIELD_VALUE 'v'
+
 subquery* subquery_construct(subquery* self, query* query)
 {
 	*self = (subquery) {
@@ -13,6 +17,7 @@ subquery* subquery_construct(subquery* self, query* query)
 
 	/* basically just swap space */
 	record_construct(&self->copy_data, 0);
+	string_construct(&self->field);
 
 	return self;
 }
@@ -20,6 +25,10 @@ subquery* subquery_construct(subquery* self, query* query)
 void subquery_free(void* generic)
 {
 	subquery* self = generic;
+	if (self->file != NULL) {
+		libcsv_free(self->file);
+	}
+	string_destroy(&self->field);
 	record_destroy(&self->copy_data);
 	free_(self);
 }
@@ -47,18 +56,36 @@ int subquery_get_record(reader* reader, node* rg)
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
 		stringview* copy_sv = vec_add_one(&self->copy_data.fields);
-		try_(expression_get_stringview(copy_sv, *it, rg));
+		int ret = try_(expression_get_stringview(copy_sv, *it, rg));
+		if (ret == FQL_NULL) {
+			*copy_sv = (stringview) {NULL, 0};
+		}
 
 		if (reader->random_access_file) {
 			if (it != vec_begin(expressions)) {
 				fputc('|', reader->random_access_file);
 			}
-			struct csv_field field = {copy_sv->data, copy_sv->len};
+			string_clear(&self->field);
+			string_push_back(&self->field,
+			                 (ret == FQL_NULL) ? SUBQUERY_FIELD_NULL
+			                                   : SUBQUERY_FIELD_VALUE);
+			if (ret != FQL_NULL) {
+				string_append_stringview(&self->field, copy_sv);
+			}
+			struct csv_field field = {self->field.data,
+			                          self->field.size};
 			csv_write_field(reader->subquery_writer, &field);
 		}
 
+		if (ret == FQL_NULL) {
+			continue;
+		}
+
 		switch ((*it)->expr) {
 		case EXPR_GROUPING:
+		case EXPR_AGGREGATE:
+		case EXPR_SWITCH_CASE:
+		case EXPR_ROW_NUMBER:
 		case EXPR_FUNCTION: {
 			/* NOTE: we actually need to copy some data here
 			 *       functions own their buffers because they
@@ -102,10 +129,41 @@ int subquery_get_record(reader* reader, node* rg)
 	return FQL_GOOD;
 }
 
-int subquery_get_record_at(reader* unused_self, node* unused_rg, size_t unused_offset)
+/* A file-backed record, one prefix character per field (see below) */
+int subquery_get_record_at(reader* reader, node* rg, size_t offset)
 {
-	fputs("cannot seek through subquery\n", stderr);
-	return FQL_FAIL;
+	subquery* self = reader->reader_data;
+	if (self->file == NULL) {
+		fputs("cannot seek through subquery\n", stderr);
+		return FQL_FAIL;
+	}
+
+	record* rec = rg->data;
+	if (rec->libcsv_rec == NULL) {
+		rec->libcsv_rec = csv_record_new();
+	}
+
+	fail_if_(csv_reader_seek(self->file, offset) == CSV_FAIL);
+	fail_if_(csv_get_record(self->file, rec->libcsv_rec) != CSV_GOOD);
+
+	record_resize(rec, rec->libcsv_rec->size);
+	stringview* sv = vec_begin(&rec->fields);
+	struct csv_field* fields = rec->libcsv_rec->fields;
+
+	int i = 0;
+	for (; i < rec->libcsv_rec->size; ++i) {
+		if (fields[i].len == 0 || fields[i].data[0] == SUBQUERY_FIELD_NULL) {
+			sv[i] = (stringview) {NULL, 0};
+		} else {
+			sv[i] = (stringview) {fields[i].data + 1, fields[i].len - 1};
+		}
+	}
+
+	rec->rec_ref.data = rec->libcsv_rec->rec;
+	rec->rec_ref.len = rec->libcsv_rec->reclen;
+	rec->offset = offset;
+
+	return FQL_GOOD;
 }
 
 int subquery_reset(reader* reader)
@@ -115,38 +173,60 @@ int subquery_reset(reader* reader)
 	//return query_prepare(self->query);
 }
 
+/* The records of the previous execution are gone. Start over
+ * with an empty file.
+ */
+int subquery_restart_file_backed_input(reader* reader)
+{
+	subquery* self = reader->reader_data;
+
+	if (self->file != NULL) {
+		libcsv_free(self->file);
+		self->file = NULL;
+	} else {
+		csv_writer_free(reader->subquery_writer);
+	}
+
+	reader->random_access_file =
+	        fopen(string_c_str(reader->random_access_filename), "w");
+	if (reader->random_access_file == NULL) {
+		perror(string_c_str(reader->random_access_filename));
+		return FQL_FAIL;
+	}
+	reader->subquery_writer = csv_writer_new();
+	csv_writer_set_delim(reader->subquery_writer, "|");
+	csv_writer_set_file(reader->subquery_writer, reader->random_access_file);
+
+	return subquery_reset(reader);
+}
+
 /* If we have been reset from a join, we will no longer
  * need to read from the subquery. We are now 100% backed
- * by a file, so convert reader to a libcsv reader.
+ * by a file which is read by offset.
  */
 int subquery_reset_from_join(reader* reader)
 {
+	subquery* self = reader->reader_data;
+
 	reader_stop_file_backed_input(reader);
 	csv_writer_free(reader->subquery_writer);
+	reader->subquery_writer = NULL;
 
-	subquery* self = reader->reader_data;
-
-	csv_reader* csv = csv_reader_new();
-	csv_reader_set_delim(csv, "|");
-	reader->reader_data = csv;
-	reader->free__ = &libcsv_free;
-	reader->get_record__ = &libcsv_get_record;
-	reader->get_record_at__ = &libcsv_get_record_at;
-	reader->reset__ = &libcsv_reset;
+	self->file = csv_reader_new();
+	csv_reader_set_delim(self->file, "|");
 
-	if (csv_reader_open_mmap(csv, string_c_str(reader->random_access_filename))) {
+	if (csv_reader_open_mmap(self->file,
+	                         string_c_str(reader->random_access_filename))) {
 		csv_perror();
 		return FQL_FAIL;
 	}
 
-	subquery_free(self);
-
 	return FQL_GOOD;
 }
 
 int subquery_start_file_backed_input(reader* reader)
 {
-	reader_start_file_backed_input(reader);
+	try_(reader_start_file_backed_input(reader));
 	reader->subquery_writer = csv_writer_new();
 	csv_writer_set_delim(reader->subquery_writer, "|");
 	reader->reset__ = &subquery_reset_from_join;
diff --git a/lib/table.c b/lib/table.c
index f48fd62..a4b032e 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -74,7 +74,14 @@ void table_destroy(table* self)
 
 int table_reset(table* self, bool has_executed)
 {
-	if (self->must_reopen) {
+	if (has_executed && self->subquery != NULL) {
+		if (self->reader->random_access_filename != NULL) {
+			try_(subquery_restart_file_backed_input(self->reader));
+		} else {
+			try_(self->reader->reset__(self->reader));
+		}
+		hashjoin_reset(self->join_data);
+	} else if (self->must_reopen) {
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
-- 
2.43.0


From 2468181cb3c304956d1b85d19e60c69e5df2cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 056/104] fix: a UNION ALL operand may have a WHERE, a filtered
 join or HAVING

---
 lib/fqlplan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index a29d242..792c0f7 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -580,7 +580,8 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
-		if (!union_plan->is_const) {
+		if (!union_plan->is_const
+		    && union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From e4e76d97211db7cc09a77ffcab87163a45aa22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 057/104] fix: CASE with a computed input

---
 lib/expression.c |  5 ++++-
 lib/fqlplan.c    |  1 +
 lib/query.c      | 25 ++++---------------------
 lib/schema.c     | 23 +++++++++++++++++++++++
 4 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index b2c48d5..55c2c58 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -90,7 +90,6 @@ void expression_destroy(void* generic_expr)
 	string_destroy(&self->buf);
 }
 
-/* This is used for static case expressions */
 expression* expression_copy(const struct expression* src)
 {
 	expression* dest = malloc_(sizeof(*dest));
@@ -251,6 +250,10 @@ bool expression_is_const(expression* self)
 		switchcase* sc = self->field.sc;
 		return (_list_is_const(&sc->values) && _tests_are_const(&sc->tests));
 	}
+	case EXPR_REFERENCE: {
+		expression* src = self->data_source;
+		return (src != NULL && expression_is_const(src));
+	}
 	case EXPR_FUNCTION: {
 		function* fn = self->field.fn;
 		return _list_is_const(fn->args);
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 792c0f7..9f13846 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -148,6 +148,7 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 		process_add_to_wait_list(proc, expr->subquery->plan->op_true->data);
 		break;
 	case EXPR_SWITCH_CASE: {
+		_check_for_special_expression(self, proc, expr->field.sc->static_expr);
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
 			plan_logic_to_process(self, proc, *it);
diff --git a/lib/query.c b/lib/query.c
index af3d9a6..e76db04 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -947,22 +947,6 @@ int query_exit_case_expression(query* self)
 	return FQL_GOOD;
 }
 
-/* the copy has to see the current value of the variable, too */
-static void _register_variable_copy(query* self, expression* src, expression* copy)
-{
-	unsigned i = 0;
-	for (; i < self->variable_expressions->size; ++i) {
-		expression** var_expr = vec_at(self->variable_expressions, i);
-		if (*var_expr != src) {
-			continue;
-		}
-		int idx = *(int*)vec_at(self->variable_expr_indicies, i);
-		vec_push_back(self->variable_expr_indicies, &idx);
-		vec_push_back(self->variable_expressions, &copy);
-		return;
-	}
-}
-
 int query_enter_switch_section(query* self)
 {
 	switchcase* sc = self->switchcase_stack->data;
@@ -973,14 +957,13 @@ int query_enter_switch_section(query* self)
 		return FQL_FAIL;
 	}
 
-	expression* static_expr_copy = expression_copy(sc->static_expr);
-	if (static_expr_copy->expr == EXPR_VARIABLE) {
-		_register_variable_copy(self, sc->static_expr, static_expr_copy);
-	}
+	/* every WHEN is compared to the one input expression */
+	expression* static_expr_ref = new_(expression, EXPR_REFERENCE, NULL, "");
+	static_expr_ref->data_source = sc->static_expr;
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-	_add_logic_expression(self, static_expr_copy);
+	_add_logic_expression(self, static_expr_ref);
 	query_set_logic_comparison(self, "=");
 	return FQL_GOOD;
 }
diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..32dabb0 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -627,6 +627,12 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	switch (expr->expr) {
 	case EXPR_SWITCH_CASE: {
 		switchcase* sc = expr->field.sc;
+		if (sc->static_expr != NULL) {
+			try_(_assign_expression_limited(sc->static_expr,
+			                                sources,
+			                                limit,
+			                                strictness));
+		}
 		logicgroup** lg_iter = vec_begin(&sc->tests);
 		for (; lg_iter != vec_end(&sc->tests); ++lg_iter) {
 			try_(_assign_expressions_limited((*lg_iter)->expressions,
@@ -652,6 +658,12 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	case EXPR_SUBQUERY:
 		try_(fqlselect_resolve_type_from_subquery(expr));
 		break;
+	case EXPR_REFERENCE:
+		/* the input of CASE, already assigned */
+		if (expr->data_source != NULL) {
+			expr->field_type = expr->data_source->field_type;
+		}
+		break;
 	case EXPR_FULL_RECORD:
 	case EXPR_COLUMN_NAME: {
 		if (expr->data_source != NULL) {
@@ -952,6 +964,11 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 		return FQL_GOOD;
 	}
 
+	if (expr->expr == EXPR_REFERENCE) { /* the input of CASE */
+		expr->field_type = expr->data_source->field_type;
+		return FQL_GOOD;
+	}
+
 	if (expr->expr == EXPR_AGGREGATE) {
 		expr->src_idx = 0;
 		expr->field_type = expr->data_source->field_type;
@@ -985,6 +1002,12 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 	}
 
 	if (expr->expr == EXPR_SWITCH_CASE) {
+		if (expr->field.sc->static_expr != NULL) {
+			try_(_op_find_group(expr_map,
+			                    expr->field.sc->static_expr,
+			                    key,
+			                    loose_groups));
+		}
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_op_find_group(expr_map, *it, key, loose_groups));
-- 
2.43.0


From edbbbcac073fbf601ac9d26934524cd3fda772f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 058/104] fix: aggregates as operands, function arguments and
 in CASE

---
 lib/aggregate.h |  1 +
 lib/function.c  |  7 ----
 lib/query.c     | 15 ++++++++-
 lib/query.h     |  1 +
 lib/schema.c    | 87 ++++++++++++++++++++++++++++++++++++++++++++++---
 5 files changed, 99 insertions(+), 12 deletions(-)

diff --git a/lib/aggregate.h b/lib/aggregate.h
index 1807d5b..de709f9 100644
--- a/lib/aggregate.h
+++ b/lib/aggregate.h
@@ -31,6 +31,7 @@ struct aggregate {
 	struct vec* args;
 	struct vec results;
 	struct expression* linked_expression;
+	struct node* return_function_stack;
 	enum aggregate_function agg_type;
 	enum field_type data_type;
 	enum mode return_mode;
diff --git a/lib/function.c b/lib/function.c
index f06a734..e1fc556 100644
--- a/lib/function.c
+++ b/lib/function.c
@@ -209,13 +209,6 @@ int function_op_resolve(function* self, enum field_type* type)
 		expr1 = args[1];
 	}
 
-	if (expr0->expr == EXPR_AGGREGATE) {
-		aggregate_resolve(expr0->field.agg, expr0);
-	}
-	if (expr1->expr == EXPR_AGGREGATE) {
-		aggregate_resolve(expr1->field.agg, expr1);
-	}
-
 	*type = field_determine_type(expr0->field_type, expr1->field_type);
 
 	switch (self->type) {
diff --git a/lib/query.c b/lib/query.c
index e76db04..e49ef18 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -683,6 +683,10 @@ void query_init_groupby(query* self)
 
 int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 {
+	if (self->in_aggregate) {
+		fputs("Cannot use an aggregate inside of an aggregate\n", stderr);
+		return FQL_FAIL;
+	}
 	if (self->groupby == NULL) {
 		self->groupby = new_(group);
 	}
@@ -697,8 +701,14 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	agg->linked_expression = linked_expr;
 	try_(_distribute_expression(self, linked_expr));
 
+	/* the arguments belong to the aggregate even
+	 * when it is the argument of a function
+	 */
+	agg->return_function_stack = self->function_stack;
+	self->function_stack = NULL;
 	agg->return_mode = self->mode;
 	self->mode = MODE_AGGREGATE;
+	self->in_aggregate = true;
 
 	return FQL_GOOD;
 }
@@ -707,6 +717,8 @@ int query_exit_aggregate(query* self)
 {
 	aggregate** agg = vec_back(&self->groupby->aggregates);
 	self->mode = (*agg)->return_mode;
+	self->function_stack = (*agg)->return_function_stack;
+	self->in_aggregate = false;
 	return FQL_GOOD;
 }
 
@@ -1130,7 +1142,8 @@ int _add_variable_expression_by_index(query* self, int idx)
 
 int _add_logic_expression(query* self, expression* expr)
 {
-	if (self->logic_mode != LOGIC_HAVING && expr->expr == EXPR_AGGREGATE) {
+	if (self->logic_mode != LOGIC_HAVING && self->logic_mode != LOGIC_CASE
+	    && expr->expr == EXPR_AGGREGATE) {
 		fputs("Cannot have aggregate logic outside of HAVING\n", stderr);
 		return FQL_FAIL;
 	}
diff --git a/lib/query.h b/lib/query.h
index 5c9409c..052301f 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -179,6 +179,7 @@ struct query {
 	enum logic_mode logic_mode;
 	enum join_type join;
 	bool in_assignment_function;
+	bool in_aggregate;
 	bool in_bracket_expression; /* boolean for whether we are in a
 	                             * bracket expression or not
 	                             */
diff --git a/lib/schema.c b/lib/schema.c
index 32dabb0..eb6bc18 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -658,6 +658,18 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	case EXPR_SUBQUERY:
 		try_(fqlselect_resolve_type_from_subquery(expr));
 		break;
+	case EXPR_AGGREGATE: {
+		aggregate* agg = expr->field.agg;
+		if (agg->call__ == NULL) {
+			try_(_assign_expressions_limited(agg->args,
+			                                 sources,
+			                                 limit,
+			                                 strictness));
+		}
+		try_(aggregate_resolve(agg, expr));
+		expr->field_type = agg->data_type;
+		break;
+	}
 	case EXPR_REFERENCE:
 		/* the input of CASE, already assigned */
 		if (expr->data_source != NULL) {
@@ -1038,6 +1050,75 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 	return FQL_FAIL;
 }
 
+static int _has_aggregate(expression*);
+
+static int _any_aggregate(vec* expressions)
+{
+	if (expressions == NULL) {
+		return false;
+	}
+	expression** it = vec_begin(expressions);
+	for (; it != vec_end(expressions); ++it) {
+		if (_has_aggregate(*it)) {
+			return true;
+		}
+	}
+	return false;
+}
+
+static int _has_aggregate(expression* expr)
+{
+	switch (expr->expr) {
+	case EXPR_AGGREGATE:
+		return true;
+	case EXPR_FUNCTION:
+		return _any_aggregate(expr->field.fn->args);
+	case EXPR_SWITCH_CASE: {
+		switchcase* sc = expr->field.sc;
+		if (sc->static_expr != NULL && _has_aggregate(sc->static_expr)) {
+			return true;
+		}
+		logicgroup** it = vec_begin(&sc->tests);
+		for (; it != vec_end(&sc->tests); ++it) {
+			if (_any_aggregate((*it)->expressions)) {
+				return true;
+			}
+		}
+		return _any_aggregate(&sc->values);
+	}
+	default:
+		return false;
+	}
+}
+
+/* The groups do not exist yet where these are evaluated */
+static int _aggregate_validation(query* query)
+{
+	bool misplaced = false;
+
+	table* table_it = vec_begin(query->sources);
+	for (; table_it != vec_end(query->sources); ++table_it) {
+		if (table_it->condition != NULL) {
+			misplaced |= _any_aggregate(table_it->condition->expressions);
+		}
+	}
+	if (query->where != NULL) {
+		misplaced |= _any_aggregate(query->where->expressions);
+	}
+	expression** it = vec_begin(&query->groupby->expressions);
+	for (; it != vec_end(&query->groupby->expressions); ++it) {
+		if ((*it)->expr != EXPR_AGGREGATE) {
+			misplaced |= _has_aggregate(*it);
+		}
+	}
+
+	if (misplaced) {
+		fputs("Cannot have aggregate logic outside of HAVING\n", stderr);
+		return FQL_FAIL;
+	}
+	return FQL_GOOD;
+}
+
 int _map_groups(struct fqlhandle* fql, query* query)
 {
 	/* verify group expressions and build composite key for each */
@@ -1063,11 +1144,8 @@ int _map_groups(struct fqlhandle* fql, query* query)
 			compositemap_set(expr_map, &key, it);
 			continue;
 		}
+		/* resolved with the rest of the expressions */
 		aggregate* agg = (*it)->field.agg;
-		try_(_assign_expressions(agg->args,
-		                         query->sources,
-		                         fql->props.strictness));
-		try_(aggregate_resolve(agg, *it));
 		(*it)->field_type = agg->data_type;
 		agg->linked_expression->field_type = agg->data_type;
 	}
@@ -1270,6 +1348,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	 * waited until everything else is already resolved
 	 */
 	if (aquery->groupby != NULL) {
+		try_(_aggregate_validation(aquery));
 		try_(_map_groups(fql, aquery));
 
 		/* Now that we have mapped the groups,
-- 
2.43.0


From 392c49f2ba7e154ac315b29fd80b333f6f463348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 059/104] fix: aggregates over no records

---
 lib/fqlprocesses.c |  7 +------
 lib/fqlselect.c    | 45 ---------------------------------------------
 lib/fqlselect.h    |  2 --
 lib/group.c        | 37 ++++++++++++++++++++++++++++++++++---
 lib/group.h        |  1 +
 lib/operation.c    |  1 -
 lib/query.c        |  6 +-----
 7 files changed, 37 insertions(+), 62 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index dba32fe..791a22b 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -708,6 +708,7 @@ enum proc_return fql_groupby(process* proc)
 	////
 
 	if (!in_data->is_open && fifo_is_empty(in_data)) {
+		try_(group_finish(group));
 		return _group_dump(proc, in_fresh, out);
 	}
 
@@ -809,12 +810,6 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
-			try_(select->select__(select, NULL));
-			++select->rows_affected;
-			++proc->rows_affected;
-			return PROC_RETURN_RUNNING;
-		}
 		/* subquery reads expect union schema to
 		 * be "in sync" with the subquery select's
 		 * current schema
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9fc7d65..07f2508 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -31,7 +31,6 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	        .schema = new_(schema),
 	        .select__ = &_select_record,
 	        .top_count = -1,
-	        .must_run_once = true,
 	};
 
 	self->current_select = self;
@@ -82,15 +81,6 @@ unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
 void fqlselect_add_expression(fqlselect* self, expression* expr)
 {
 	schema_add_expression(self->schema, expr, 0);
-	switch (expr->expr) {
-	case EXPR_ROW_NUMBER:
-	case EXPR_AGGREGATE:
-		break;
-	default:
-		if (!expression_is_const(expr)) {
-			self->must_run_once = false;
-		}
-	}
 }
 
 int fqlselect_resolve_type_from_subquery(expression* expr)
@@ -277,41 +267,6 @@ int fqlselect_next_union(fqlselect* self)
 	return 1;
 }
 
-/* The "must_run_once" flag at this point means that the
- * conditions are correct to force a SELECT under the
- * assumption that there may be an unreached aggregate in
- * the SELECT list:
- *   SELECT COUNT(*)
- *   FROM T1
- *   WHERE 1=0
- *
- * Even though no records will make it to the SELECT,
- * we must still report our count of 0. If this condition
- * is true, then we must check that there is indeed an
- * aggregate function to warrant forcing a SELECT. We
- * wouldn't want "must_run_once" set true for a query like
- *   SELECT 1
- *   WHERE 1=0
- *
- * TODO: Verify this behavior when UNION is involved
- */
-void fqlselect_verify_must_run(fqlselect* self)
-{
-	if (self->must_run_once) {
-		expression** it = vec_begin(self->schema->expressions);
-		bool agg_found = false;
-		for (; it != vec_end(self->schema->expressions); ++it) {
-			if ((*it)->expr == EXPR_AGGREGATE) {
-				agg_found = true;
-				break;
-			}
-		}
-		if (!agg_found) {
-			self->must_run_once = false;
-		}
-	}
-}
-
 int fqlselect_reset(fqlselect* self)
 {
 	self->offset = 0;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index ac26c4c..e05c7b1 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -31,7 +31,6 @@ struct fqlselect {
 	size_t top_count;
 	unsigned rownum;
 	bool is_const;
-	bool must_run_once;
 };
 typedef struct fqlselect fqlselect;
 
@@ -46,7 +45,6 @@ void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
-void fqlselect_verify_must_run(struct fqlselect*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
 void fqlselect_preop(struct fqlselect*, struct query*);
diff --git a/lib/group.c b/lib/group.c
index 37b564e..3503df0 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -177,6 +177,37 @@ int group_record(group* self, node* rg)
 	return ret;
 }
 
+/* Aggregates without GROUP BY make one group out of all the
+ * records, even if there aren't any:
+ *   SELECT COUNT(*)
+ *   FROM T1
+ *   WHERE 1=0
+ */
+int group_finish(group* self)
+{
+	unsigned group_count = self->val_map.values->size;
+	if (group_count > 0 || !vec_empty(&self->_composite)
+	    || vec_empty(&self->aggregates)) {
+		return FQL_GOOD;
+	}
+
+	compositemap_set(&self->val_map, &self->_composite, &group_count);
+
+	aggregate** it = vec_begin(&self->aggregates);
+	for (; it != vec_end(&self->aggregates); ++it) {
+		struct aggresult* result = vec_add_one(&(*it)->results);
+		*result = (struct aggresult) {0};
+		if ((*it)->data_type == FIELD_STRING) {
+			string_construct(&result->data.s);
+		}
+		/* the rest are NULL */
+		if ((*it)->agg_type == AGG_COUNT) {
+			result->qty = 1;
+		}
+	}
+	return FQL_GOOD;
+}
+
 /* TODO: eliminate switch with a function pointer to
  *       a function that dumps the aggregate results.
  */
@@ -184,9 +215,9 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 {
 	aggregate* agg = agg_expr->field.agg;
 	struct aggresult* result = vec_at(&agg->results, idx);
-	if (result->qty == 0) {
-		string_clear(raw);
-		stringview_set_string(sv, raw);
+	if (result->qty == 0) { /* NULL */
+		sv->data = NULL;
+		sv->len = 0;
 		return;
 	}
 	switch (agg->data_type) {
diff --git a/lib/group.h b/lib/group.h
index 11ae6e3..851e270 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -30,6 +30,7 @@ int group_reset(struct group*);
 void group_add_expression(struct group*, struct expression*);
 void group_cat_description(struct group*, struct process*);
 
+int group_finish(struct group*);
 int group_record(struct group*, struct node* rec);
 int group_dump_record(struct group* group, struct record* rec);
 
diff --git a/lib/operation.c b/lib/operation.c
index 818651e..e46b91a 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -411,7 +411,6 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
-		fqlselect_verify_must_run((fqlselect*)self);
 		return FQL_GOOD;
 	}
 
diff --git a/lib/query.c b/lib/query.c
index e49ef18..c136357 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1029,13 +1029,9 @@ void _assign_logic(query* self, logicgroup* lg)
 	case LOGIC_WHERE:
 		self->where = lg;
 		break;
-	case LOGIC_HAVING: {
-		/* Having allows us to assume select */
-		fqlselect* select = self->op;
-		select->must_run_once = false;
+	case LOGIC_HAVING:
 		self->having = lg;
 		break;
-	}
 	case LOGIC_CASE:
 		switchcase_add_logicgroup(self->switchcase_stack->data, lg);
 		break;
-- 
2.43.0


From 0d6cfdc7d2cee01b1266ec739083814dd887e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 060/104] fix: NULL aggregates are NULL as text, too

---
 lib/expression.c | 28 +---------------------------
 1 file changed, 1 insertion(+), 27 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 55c2c58..cf6539d 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -14,7 +14,6 @@
 #include "util/util.h"
 #include "util/stringy.h"
 
-const char* _null_agg_numeric = "0";
 
 expression* expression_construct(expression* self,
                                  enum expr_type expr,
@@ -565,32 +564,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	case EXPR_REFERENCE:
 		return expression_get_stringview(ret, self->data_source, rg);
 	case EXPR_GROUPING:
-	case EXPR_AGGREGATE: {
-		expression* src_expr = self->data_source;
-		record* rec = record_at(rg, src_expr->src_idx);
-		if (rec == NULL) {
-			if (src_expr->expr == EXPR_AGGREGATE
-			    && src_expr->field.agg->agg_type == AGG_COUNT) {
-				ret->data = _null_agg_numeric;
-				ret->len = 1;
-				return FQL_GOOD;
-			}
-			string_clear(&self->buf);
-			ret->data = self->buf.data;
-			ret->len = 0;
-			return FQL_NULL;
-		}
-		if (rec->fields.size <= src_expr->index) {
-			string_clear(&self->buf);
-			ret->data = self->buf.data;
-			ret->len = 0;
-			return FQL_GOOD;
-		}
-		stringview* sv = vec_at(&rec->fields, src_expr->index);
-		ret->data = sv->data;
-		ret->len = sv->len;
-		return FQL_GOOD;
-	}
+	case EXPR_AGGREGATE:
 	case EXPR_COLUMN_NAME: {
 		expression* src_expr = self->data_source;
 		record* rec = NULL;
-- 
2.43.0


From 327f6c1ad2fc8f99900dcd986bfaef257cd8a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 061/104] fix: DISTINCT takes aggregates into account

---
 lib/group.c | 12 +++++++++---
 lib/group.h |  1 +
 lib/query.c |  1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/group.c b/lib/group.c
index 3503df0..f2db283 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -65,11 +65,18 @@ int group_reset(group* self)
 	return FQL_GOOD;
 }
 
+/* is not a part of the key */
+static int _is_skipped(group* self, expression* expr)
+{
+	return expr->expr == EXPR_ROW_NUMBER
+	       || (expr->expr == EXPR_AGGREGATE && !self->is_distinct);
+}
+
 void group_add_expression(group* self, expression* expr)
 {
 	expr->index = self->expressions.size;
 	vec_push_back(&self->expressions, &expr);
-	if (expr->expr != EXPR_AGGREGATE && expr->expr != EXPR_ROW_NUMBER) {
+	if (!_is_skipped(self, expr)) {
 		vec_add_one(&self->_composite);
 	}
 }
@@ -123,8 +130,7 @@ int group_record(group* self, node* rg)
 	stringview* sv = vec_begin(&self->_composite);
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
-		if (exprs[i]->expr == EXPR_AGGREGATE
-		    || exprs[i]->expr == EXPR_ROW_NUMBER) {
+		if (_is_skipped(self, exprs[i])) {
 			continue;
 		}
 		switch (exprs[i]->field_type) {
diff --git a/lib/group.h b/lib/group.h
index 851e270..6346e7f 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -19,6 +19,7 @@ struct group {
 	struct vec _composite; /* temporary */
 	//struct vec _roots;
 	size_t _dump_idx;
+	bool is_distinct; /* aggregates are values here */
 };
 typedef struct group group;
 
diff --git a/lib/query.c b/lib/query.c
index c136357..c76473a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -671,6 +671,7 @@ void query_apply_expression_alias(query* self, const char* alias)
 void query_set_distinct(query* self)
 {
 	self->distinct = new_(group);
+	self->distinct->is_distinct = true;
 }
 
 void query_init_groupby(query* self)
-- 
2.43.0


From 69aa1537c5bab021a18361bff6af1060d999fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 062/104] fix: IN (SELECT TOP n ... ORDER BY) takes the first n
 in order

---
 lib/fqlselect.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++++-
 lib/order.c     | 25 ++++++++++++++++++++
 lib/order.h     |  2 ++
 3 files changed, 87 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 07f2508..ebfa00c 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -20,6 +20,7 @@
 int _select_record(fqlselect*, node*);
 int _select_record_api(fqlselect*, node*);
 int _select_record_order_api(fqlselect*, node*);
+int _select_record_order_list(fqlselect*, node*);
 int _select_record_to_list(fqlselect*, node*);
 int _select_record_to_const(fqlselect*, node*);
 int _select_subquery(fqlselect*, node*);
@@ -249,7 +250,12 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 	}
 	self->list_data = inlist->list_data;
 	self->in_list = inlist;
-	self->select__ = &_select_record_to_list;
+	if (inlist->subquery->orderby == NULL) {
+		self->select__ = &_select_record_to_list;
+	} else {
+		self->select__ = &_select_record_order_list;
+		order_set_in_list(inlist->subquery->orderby, inlist);
+	}
 	return FQL_GOOD;
 }
 
@@ -467,6 +473,59 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	return 1;
 }
 
+/* The value that will be added to the list once it has been
+ * ordered. It is written as the type of the list.
+ */
+int _select_record_order_list(fqlselect* self, node* rg)
+{
+	++self->rownum;
+	FILE* order_input = writer_get_file(self->writer);
+	expression* expr =
+	        *(expression**)vec_begin(self->current_select->schema->expressions);
+
+	long num_i = 0;
+	double num_f = 0;
+	stringview sv = {NULL, 0};
+	const void* data = NULL;
+	unsigned len = 0;
+	int ret = FQL_GOOD;
+
+	switch (self->in_list->list_type) {
+	case FIELD_INT:
+		ret = try_(expression_get_int(&num_i, expr, rg));
+		data = &num_i;
+		len = sizeof(num_i);
+		break;
+	case FIELD_FLOAT:
+		ret = try_(expression_get_float(&num_f, expr, rg));
+		num_f += 0.0; /* -0.0 equals 0.0 */
+		data = &num_f;
+		len = sizeof(num_f);
+		break;
+	case FIELD_STRING:
+		ret = try_(expression_get_stringview(&sv, expr, rg));
+		data = sv.data;
+		len = sv.len;
+		break;
+	default:
+		fputs("Unexpected type in select list\n", stderr);
+		return FQL_FAIL;
+	}
+
+	record* rec = rg->data;
+	rec->offset = self->offset;
+	char is_null = (ret == FQL_NULL);
+	fwrite(&is_null, 1, 1, order_input);
+	self->offset += 1;
+	if (!is_null) {
+		fwrite(data, 1, len, order_input);
+		self->offset += len;
+	}
+	rec->select_len = self->offset - rec->offset;
+
+	return 1;
+}
+
 int _select_record_to_list(fqlselect* self, node* rg)
 {
 	++self->rownum;
diff --git a/lib/order.c b/lib/order.c
index d4e5c98..0aab924 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -9,6 +9,7 @@
 #include "misc.h"
 #include "field.h"
 #include "record.h"
+#include "logic.h"
 #include "fqlsig.h"
 #include "expression.h"
 #include "fqlselect.h"
@@ -24,6 +25,7 @@ struct _entry {
 int _order_select(order* self, process*);
 int _order_select_api(order* self, process*);
 int _order_select_to_const(order* self, process*);
+int _order_select_to_list(order* self, process*);
 
 void _order_unmap(order* self);
 void _order_reset_output(order* self);
@@ -107,6 +109,12 @@ void order_set_const_dest(order* self, expression* const_dest)
 	self->select__ = &_order_select_to_const;
 }
 
+void order_set_in_list(order* self, inlist* list)
+{
+	self->in_list = list;
+	self->select__ = &_order_select_to_list;
+}
+
 int order_preresolve_expressions(order* self, fqlselect* select, const vec* sources)
 {
 	/* First, we want to try and resolve by ordinal:
@@ -422,6 +430,23 @@ int _order_select_to_const(order* self, process* proc)
 	return FQL_GOOD;
 }
 
+int _order_select_to_list(order* self, process* proc)
+{
+	struct _entry* it = vec_begin(&self->entries);
+	for (; it != vec_end(&self->entries) && proc->rows_affected < self->top_count;
+	     ++it, ++proc->rows_affected) {
+		if (self->mmap[it->offset]) { /* null marker */
+			self->in_list->has_null = true;
+			continue;
+		}
+		set_nadd(self->in_list->list_data,
+		         &self->mmap[it->offset + 1],
+		         it->len - 1);
+	}
+
+	return FQL_GOOD;
+}
+
 int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
diff --git a/lib/order.h b/lib/order.h
index 9cdb6ff..e3a6e50 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -23,6 +23,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct inlist* in_list;
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
@@ -38,6 +39,7 @@ struct order* order_construct(struct order*);
 void order_destroy(struct order*);
 
 void order_set_const_dest(struct order*, struct expression*);
+void order_set_in_list(struct order*, struct inlist*);
 int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
-- 
2.43.0


From bbeeecaf3d01829d863d839c85b228624e5d0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 063/104] fix: a scalar subquery whose first value is NULL may
 not return more values

---
 lib/fqlselect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index ebfa00c..fbbce6c 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -572,7 +572,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 int _select_record_to_const(fqlselect* self, node* rg)
 {
 	++self->rownum;
-	if (self->const_dest->expr == EXPR_CONST) {
+	if (self->const_dest->expr != EXPR_SUBQUERY) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
 	}
-- 
2.43.0


From 20fe09845f2c960d87401e62e087fc109db8f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 064/104] fix: CASE and subqueries in the select list of a
 UNION ALL operand

---
 lib/fqlplan.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 9f13846..6649ff9 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -548,6 +548,13 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 
 	try_(op_apply_process(query, self, (is_union || entry != NULL)));
 
+	/* the SELECT of the first operand evaluates the
+	 * expressions of a union, see _union
+	 */
+	if (is_union) {
+		return FQL_GOOD;
+	}
+
 	_check_all_for_special_expression(self,
 	                                  self->op_true->data,
 	                                  op_get_expressions(query->op));
@@ -580,6 +587,9 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	for (; it != vec_end(aquery->unions); ++it) {
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
+		_check_all_for_special_expression(self,
+		                                  select_proc,
+		                                  op_get_expressions((*it)->op));
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
 		if (!union_plan->is_const
 		    && union_plan->current != union_plan->op_true) {
-- 
2.43.0


From 0e4c5f35f44d7dd704ab4bcbf25a8422dbc291c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 065/104] fix: ORDER BY of a UNION ALL and of constants

---
 lib/order.c  | 42 +++++++++++++++++++++++++++++++++---------
 lib/order.h  |  4 +++-
 lib/query.c  |  2 +-
 lib/schema.c |  7 ++++---
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 0aab924..6dee789 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -115,7 +115,7 @@ void order_set_in_list(order* self, inlist* list)
 	self->select__ = &_order_select_to_list;
 }
 
-int order_preresolve_expressions(order* self, fqlselect* select, const vec* sources)
+int order_preresolve_expressions(order* self, fqlselect* select)
 {
 	/* First, we want to try and resolve by ordinal:
 	 * SELECT foo
@@ -174,11 +174,6 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 		if (result == NULL) {
 			continue;
 		}
-		if ((*result)->expr == EXPR_CONST) {
-			table* result_table = vec_at(sources, (*result)->src_idx);
-			expression_link(*it, *result, result_table);
-			continue;
-		}
 		(*it)->index = (*result)->index;
 		(*it)->expr = EXPR_REFERENCE;
 	}
@@ -186,6 +181,34 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	return FQL_GOOD;
 }
 
+/* The records of all the operands of a union are ordered.
+ * The only thing that they share is the select list.
+ */
+int order_set_union(order* self, fqlselect* select)
+{
+	expression** it = vec_begin(&self->expressions);
+	for (; it != vec_end(&self->expressions); ++it) {
+		if ((*it)->expr != EXPR_REFERENCE) {
+			fputs("ORDER BY expressions of a UNION must appear in "
+			      "the select list\n",
+			      stderr);
+			return FQL_FAIL;
+		}
+	}
+	self->union_select = select;
+	return FQL_GOOD;
+}
+
+/* The operand that is being selected has its own expressions */
+static expression* _get_expression(order* self, expression* expr)
+{
+	if (self->union_select == NULL) {
+		return expr;
+	}
+	fqlselect* select = self->union_select->current_select;
+	return *(expression**)vec_at(select->schema->expressions, expr->index);
+}
+
 void order_connect_api(query* query, vec* api_vec)
 {
 	order* self = query->orderby;
@@ -228,11 +251,12 @@ int order_add_record(order* self, node* rg)
 
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
+		expression* expr = _get_expression(self, exprs[i]);
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			/* NOTE: storing numbers in binary */
 			long num_i = 0;
-			if (try_(expression_get_int(&num_i, exprs[i], rg))
+			if (try_(expression_get_int(&num_i, expr, rg))
 			    == FQL_NULL) {
 				flex_push_back(&self->order_data, "", 0);
 				break;
@@ -242,7 +266,7 @@ int order_add_record(order* self, node* rg)
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			if (try_(expression_get_float(&num_f, exprs[i], rg))
+			if (try_(expression_get_float(&num_f, expr, rg))
 			    == FQL_NULL) {
 				flex_push_back(&self->order_data, "", 0);
 				break;
@@ -252,7 +276,7 @@ int order_add_record(order* self, node* rg)
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			if (try_(expression_get_stringview(&sv, expr, rg))
 			    == FQL_NULL) {
 				flex_push_back(&self->order_data, "", 0);
 				break;
diff --git a/lib/order.h b/lib/order.h
index e3a6e50..2afd8b9 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -23,6 +23,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct fqlselect* union_select;
 	struct inlist* in_list;
 	FILE* out_file;
 	struct _entry* entry_iter;
@@ -44,7 +45,8 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
-int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*);
+int order_preresolve_expressions(struct order*, struct fqlselect*);
+int order_set_union(struct order*, struct fqlselect*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
 
diff --git a/lib/query.c b/lib/query.c
index c76473a..46c1d94 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -729,7 +729,7 @@ int query_init_orderby(query* self)
 	/* If there are no sources, then we are trying to
 	 * order a const expression... Don't bother...
 	 */
-	if (vec_empty(self->sources)) {
+	if (vec_empty(self->sources) && vec_empty(self->unions)) {
 		return FQL_GOOD;
 	}
 
diff --git a/lib/schema.c b/lib/schema.c
index eb6bc18..92c8437 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1336,9 +1336,10 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	vec* order_exprs = NULL;
 	if (aquery->orderby) {
 		order_exprs = &aquery->orderby->expressions;
-		try_(order_preresolve_expressions(aquery->orderby,
-		                                  aquery->op,
-		                                  aquery->sources));
+		try_(order_preresolve_expressions(aquery->orderby, aquery->op));
+		if (!vec_empty(aquery->unions)) {
+			try_(order_set_union(aquery->orderby, aquery->op));
+		}
 		try_(_assign_expressions(order_exprs,
 		                         aquery->sources,
 		                         fql->props.strictness));
-- 
2.43.0


From c059343c0eb39579520431b97fde9a7bad059e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 066/104] fix: ORDER BY in a source subquery is an error

---
 lib/schema.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index 92c8437..06a186b 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -529,6 +529,11 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 			fputs("subquery sources require an alias\n", stderr);
 			return FQL_FAIL;
 		}
+		if (table->subquery->orderby != NULL) {
+			fputs("ORDER BY is not supported in a source subquery\n",
+			      stderr);
+			return FQL_FAIL;
+		}
 		try_(_resolve_query(fql, table->subquery, IO_UNDEFINED));
 		fqlselect* select = table->subquery->op;
 		table->schema = select->schema;
-- 
2.43.0


From 567d8f16a41a65caea3ede3723765e1147ca2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 067/104] fix: variables, NULL and CASE in grouped queries

---
 lib/expression.c |  2 ++
 lib/expression.h |  2 ++
 lib/query.c      |  1 +
 lib/schema.c     | 90 ++++++++++++++++++++++++++++++++++++++++++++++--
 4 files changed, 93 insertions(+), 2 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index cf6539d..feda3b4 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -83,6 +83,8 @@ void expression_destroy(void* generic_expr)
 	default:;
 	}
 
+	delete_if_exists_(expression, self->replaced);
+
 	string_destroy(&self->name);
 	string_destroy(&self->alias);
 	string_destroy(&self->table_name);
diff --git a/lib/expression.h b/lib/expression.h
index 50eb0c2..ded480a 100644
--- a/lib/expression.h
+++ b/lib/expression.h
@@ -33,6 +33,7 @@ struct expression {
 	enum expr_type expr;
 	//struct table* table;
 	struct expression* data_source;
+	struct expression* replaced; /* by the grouping, owned */
 	struct query* subquery;
 	unsigned* rownum_ref;
 	string name;
@@ -46,6 +47,7 @@ struct expression {
 	unsigned width;
 	int src_idx;
 	int subquery_src_idx;
+	int variable_idx;
 	bool descending;
 	bool is_passthrough;
 };
diff --git a/lib/query.c b/lib/query.c
index 46c1d94..0bcc9b7 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1108,6 +1108,7 @@ int _add_variable_expression_by_index(query* self, int idx)
 	variable* var = vec_at(self->fqlref->variables, idx);
 
 	expression* expr = new_(expression, EXPR_VARIABLE, NULL, "");
+	expr->variable_idx = idx;
 	switch (var->type) {
 	case SQL_INT:
 	case SQL_BIT:
diff --git a/lib/schema.c b/lib/schema.c
index 06a186b..aafab33 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -866,8 +866,64 @@ enum _expr_type {
 	MAP_FUNCTION_END,
 	MAP_SWITCHCASE,
 	MAP_SWITCHCASE_END,
+	MAP_VARIABLE,
+	MAP_NULL,
+	MAP_TEST,
+	MAP_TEST_END,
 };
 
+int _map_expression(vec*, expression*);
+
+/* CASE is only the same if the tests are the same */
+static int _map_logicgroup(vec* key, logicgroup* lg)
+{
+	static const enum _expr_type _test = MAP_TEST;
+	static const enum _expr_type _test_end = MAP_TEST_END;
+
+	if (lg == NULL) {
+		return FQL_GOOD;
+	}
+
+	stringview sv = {(void*)&_test, sizeof(_test)};
+	vec_push_back(key, &sv);
+	stringview_nset(&sv, &lg->type, sizeof(lg->type));
+	vec_push_back(key, &sv);
+	stringview_nset(&sv, &lg->negation, sizeof(lg->negation));
+	vec_push_back(key, &sv);
+
+	logic* condition = lg->condition;
+	if (condition != NULL) {
+		stringview_nset(&sv,
+		                &condition->comp_type,
+		                sizeof(condition->comp_type));
+		vec_push_back(key, &sv);
+		if (condition->expr[0] != NULL) {
+			try_(_map_expression(key, condition->expr[0]));
+		}
+		if (condition->expr[1] != NULL) {
+			try_(_map_expression(key, condition->expr[1]));
+		}
+		if (condition->in_data != NULL) {
+			inlist* list = condition->in_data;
+			stringview_nset(&sv, &list->subquery, sizeof(void*));
+			vec_push_back(key, &sv);
+			if (list->expressions != NULL) {
+				expression** it = vec_begin(list->expressions);
+				for (; it != vec_end(list->expressions); ++it) {
+					try_(_map_expression(key, *it));
+				}
+			}
+		}
+	}
+	try_(_map_logicgroup(key, lg->items[0]));
+	try_(_map_logicgroup(key, lg->items[1]));
+
+	sv.data = (void*)&_test_end;
+	sv.len = sizeof(_test_end);
+	vec_push_back(key, &sv);
+	return FQL_GOOD;
+}
+
 int _map_expression(vec* key, expression* expr)
 {
 	static const enum _expr_type _c_int = MAP_CONST_INT;
@@ -881,6 +937,8 @@ int _map_expression(vec* key, expression* expr)
 	static const enum _expr_type _func_end = MAP_FUNCTION_END;
 	static const enum _expr_type _switchcase = MAP_SWITCHCASE;
 	static const enum _expr_type _switchcase_end = MAP_SWITCHCASE_END;
+	static const enum _expr_type _variable = MAP_VARIABLE;
+	static const enum _expr_type _null = MAP_NULL;
 
 	stringview type_sv = {NULL, sizeof(enum _expr_type)};
 	stringview val_sv;
@@ -945,6 +1003,11 @@ int _map_expression(vec* key, expression* expr)
 		type_sv.data = (void*)&_switchcase;
 		vec_push_back(key, &type_sv);
 
+		logicgroup** test = vec_begin(&expr->field.sc->tests);
+		for (; test != vec_end(&expr->field.sc->tests); ++test) {
+			try_(_map_logicgroup(key, *test));
+		}
+
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_map_expression(key, *it));
@@ -967,6 +1030,19 @@ int _map_expression(vec* key, expression* expr)
 		stringview_nset(&val_sv, &expr->src_idx, sizeof(expr->src_idx));
 		vec_push_back(key, &val_sv);
 		break;
+	case EXPR_REFERENCE: /* the input of CASE */
+		try_(_map_expression(key, expr->data_source));
+		break;
+	case EXPR_VARIABLE:
+		type_sv.data = (void*)&_variable;
+		vec_push_back(key, &type_sv);
+		stringview_nset(&val_sv, &expr->variable_idx, sizeof(int));
+		vec_push_back(key, &val_sv);
+		break;
+	case EXPR_NULL:
+		type_sv.data = (void*)&_null;
+		vec_push_back(key, &type_sv);
+		break;
 	default:
 		fputs("unexpected expression mapping\n", stderr);
 		return FQL_FAIL;
@@ -977,8 +1053,13 @@ int _map_expression(vec* key, expression* expr)
 
 int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loose_groups)
 {
-	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY) {
+	switch (expr->expr) {
+	case EXPR_CONST:
+	case EXPR_NULL:
+	case EXPR_VARIABLE:
+	case EXPR_SUBQUERY:
 		return FQL_GOOD;
+	default:;
 	}
 
 	if (expr->expr == EXPR_REFERENCE) { /* the input of CASE */
@@ -1000,8 +1081,13 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 		if (loose_groups) {
 			return FQL_GOOD;
 		}
+		/* variables in there are still going to be set */
 		if (expr->expr == EXPR_FUNCTION) {
-			delete_(function, expr->field.fn);
+			expr->replaced =
+			        new_(expression, EXPR_FUNCTION, expr->field.fn, "");
+		} else if (expr->expr == EXPR_SWITCH_CASE) {
+			expr->replaced =
+			        new_(expression, EXPR_SWITCH_CASE, expr->field.sc, "");
 		}
 		expr->src_idx = 0;
 		expr->data_source = *result;
-- 
2.43.0


From 4b208b1edcfc76eef2adbb0ad89e3d878e2d30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 068/104] fix: bind signs and ~ tighter than binary operators

---
 lib/antlr/listenerinterface.cpp | 46 +++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index e61d3d4..1801355 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -723,8 +723,54 @@ void ListenerInterface::exitUpdate_elem(TSqlParser::Update_elemContext * ctx)
 void ListenerInterface::enterDdl_object(TSqlParser::Ddl_objectContext * ctx) { }
 void ListenerInterface::exitDdl_object(TSqlParser::Ddl_objectContext * ctx) { }
 
+/* The grammar gives the operand of a sign or ~ everything that follows,
+ * so it reads -a - b as -(a - b).  Move the operator down to the leftmost
+ * operand of the unbracketed operators beneath it: (-a) - b.
+ */
+static void _bind_unary_operator(TSqlParser::ExpressionContext* ctx)
+{
+	TSqlParser::Unary_operator_expressionContext* unary = ctx->unary_operator_expression();
+	if (unary == nullptr || unary->expression() == nullptr) {
+		return;
+	}
+
+	TSqlParser::ExpressionContext* operand = unary->expression();
+	_bind_unary_operator(operand);
+	if (operand->expression().size() != 2) {
+		return;
+	}
+
+	/* ctx takes over the operation of its operand... */
+	std::swap(ctx->children, operand->children);
+	ctx->op = operand->op;
+	for (antlr4::tree::ParseTree* child : ctx->children) {
+		child->parent = ctx;
+	}
+
+	/* ...of which the leftmost operand is put under the unary operator */
+	TSqlParser::ExpressionContext* parent = ctx;
+	while (parent->expression(0)->expression().size() == 2) {
+		parent = parent->expression(0);
+	}
+	antlr4::tree::ParseTree* left = parent->children[0];
+
+	for (antlr4::tree::ParseTree*& child : unary->children) {
+		if (child == operand) {
+			child = left;
+		}
+	}
+	left->parent = unary;
+
+	parent->children[0] = operand;
+	operand->parent = parent;
+	operand->op = nullptr;
+	unary->parent = operand;
+}
+
 void ListenerInterface::enterExpression(TSqlParser::ExpressionContext * ctx)
 {
+	_bind_unary_operator(ctx);
+
 	enum scalar_function op = SCALAR_UNDEFINED;
 	if      (ctx->PLUS())    op = SCALAR_OP_PLUS;
 	else if (ctx->MINUS())   op = SCALAR_OP_MINUS;
-- 
2.43.0


From 7a7d026817e21c4d5828ebeda79589963762cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 069/104] fix: ORDER BY sees the columns of an asterisk and
 qualified names denote source columns

---
 lib/order.c  | 20 +++++++++++++++++++-
 lib/order.h  |  2 +-
 lib/schema.c |  2 +-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 6dee789..605af75 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -13,6 +13,8 @@
 #include "fqlsig.h"
 #include "expression.h"
 #include "fqlselect.h"
+#include "operation.h"
+#include "query.h"
 #include "process.h"
 #include "util/util.h"
 
@@ -115,8 +117,21 @@ void order_set_in_list(order* self, inlist* list)
 	self->select__ = &_order_select_to_list;
 }
 
-int order_preresolve_expressions(order* self, fqlselect* select)
+int order_preresolve_expressions(order* self, query* query)
 {
+	fqlselect* select = query->op;
+
+	/* Ordinals and aliases denote columns of the output */
+	if (query->groupby == NULL) {
+		op_expand_asterisks(query, true);
+	}
+
+	/* A qualified name denotes a column of a source. It can only
+	 * be matched by alias where the source is out of reach.
+	 */
+	bool match_qualified = query->groupby != NULL || query->distinct != NULL
+	                    || !vec_empty(query->unions);
+
 	/* First, we want to try and resolve by ordinal:
 	 * SELECT foo
 	 * FROM T1
@@ -142,6 +157,9 @@ int order_preresolve_expressions(order* self, fqlselect* select)
 		case EXPR_REFERENCE:
 		case EXPR_FULL_RECORD:
 		case EXPR_COLUMN_NAME: {
+			if (!match_qualified && !string_empty(&(*it)->table_name)) {
+				break;
+			}
 			vec* exprs = multimap_get(select_map, (*it)->alias.data);
 			if (exprs == NULL) {
 				break;
diff --git a/lib/order.h b/lib/order.h
index 2afd8b9..c8872b5 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -45,7 +45,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
-int order_preresolve_expressions(struct order*, struct fqlselect*);
+int order_preresolve_expressions(struct order*, struct query*);
 int order_set_union(struct order*, struct fqlselect*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
diff --git a/lib/schema.c b/lib/schema.c
index aafab33..724ec26 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1427,7 +1427,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	vec* order_exprs = NULL;
 	if (aquery->orderby) {
 		order_exprs = &aquery->orderby->expressions;
-		try_(order_preresolve_expressions(aquery->orderby, aquery->op));
+		try_(order_preresolve_expressions(aquery->orderby, aquery));
 		if (!vec_empty(aquery->unions)) {
 			try_(order_set_union(aquery->orderby, aquery->op));
 		}
-- 
2.43.0


From 7872eae023c293784782dc4c1af22f1b78c7fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 070/104] fix: values passed through nested subqueries survive
 later records

---
 lib/subquery.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/subquery.c b/lib/subquery.c
index 0d152ec..f1f83f5 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -82,6 +82,14 @@ int subquery_get_record(reader* reader, node* rg)
 		}
 
 		switch ((*it)->expr) {
+		case EXPR_COLUMN_NAME:
+			if ((*it)->subquery_src_idx == -1) {
+				break;
+			}
+			/* The value belongs to the record of a nested subquery,
+			 * which ends up in copy_data when we swap below.
+			 */
+			/* fall through */
 		case EXPR_GROUPING:
 		case EXPR_AGGREGATE:
 		case EXPR_SWITCH_CASE:
-- 
2.43.0


From 4bc53a3dcd22cff314cad455da2b088874ebe4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 071/104] fix: a grouping value that is NULL stays NULL

---
 lib/group.c | 17 ++++++++++++++++-
 lib/group.h |  1 +
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/group.c b/lib/group.c
index f2db283..5956c52 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -15,6 +15,7 @@ group* group_construct(group* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->aggregates, aggregate*);
 	vec_construct_(&self->_composite, stringview);
+	vec_construct_(&self->group_nulls, bool);
 	//vec_construct_(&self->_roots, dnode*);
 	flex_construct(&self->group_data);
 
@@ -27,6 +28,7 @@ void group_destroy(group* self)
 	compositemap_destroy(&self->val_map);
 	vec_destroy(&self->aggregates);
 	vec_destroy(&self->_composite);
+	vec_destroy(&self->group_nulls);
 	flex_destroy(&self->group_data);
 
 	expression** it = vec_begin(&self->expressions);
@@ -59,6 +61,7 @@ int group_reset(group* self)
 	}
 	compositemap_clear(&self->val_map);
 	flex_clear(&self->group_data);
+	vec_clear(&self->group_nulls);
 
 	self->_dump_idx = 0;
 
@@ -125,6 +128,7 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 int group_record(group* self, node* rg)
 {
 	size_t org_size = flex_size(&self->group_data);
+	bool is_null = false;
 
 	expression** exprs = vec_begin(&self->expressions);
 	stringview* sv = vec_begin(&self->_composite);
@@ -133,10 +137,12 @@ int group_record(group* self, node* rg)
 		if (_is_skipped(self, exprs[i])) {
 			continue;
 		}
+		is_null = false;
 		switch (exprs[i]->field_type) {
 		case FIELD_STRING:
 			if (try_(expression_get_stringview(sv, exprs[i], rg)) == FQL_NULL) {
 				flex_push_back(&self->group_data, "", 0);
+				is_null = true;
 				break;
 			}
 			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
@@ -145,6 +151,7 @@ int group_record(group* self, node* rg)
 			long num_i = 0;
 			if (try_(expression_get_int(&num_i, exprs[i], rg)) == FQL_NULL) {
 				flex_push_back(&self->group_data, "", 0);
+				is_null = true;
 				break;
 			}
 			flex_push_back_str_int(&self->group_data, num_i);
@@ -155,6 +162,7 @@ int group_record(group* self, node* rg)
 			if (try_(expression_get_float(&num_f, exprs[i], rg))
 			    == FQL_NULL) {
 				flex_push_back(&self->group_data, "", 0);
+				is_null = true;
 				break;
 			}
 			flex_push_back_str_float(&self->group_data, num_f);
@@ -162,6 +170,8 @@ int group_record(group* self, node* rg)
 		}
 		default:;
 		}
+		/* NULL belongs to the group of the empty text */
+		vec_push_back(&self->group_nulls, &is_null);
 	}
 
 	for (i = 0; i < self->_composite.size; ++i) {
@@ -177,6 +187,7 @@ int group_record(group* self, node* rg)
 		ret = 1;
 	} else {
 		flex_resize(&self->group_data, org_size);
+		vec_resize(&self->group_nulls, org_size);
 		try_(_update_agg_result(self, rg, *idx_ptr));
 	}
 
@@ -268,7 +279,11 @@ int group_dump_record(group* self, record* rec)
 			string_sprintf(s, "%lu", idx + 1);
 			continue;
 		}
-		rec_svs[i] = flex_pair_at(&self->group_data, idx++);
+		rec_svs[i] = flex_pair_at(&self->group_data, idx);
+		if (*(bool*)vec_at(&self->group_nulls, idx)) {
+			rec_svs[i] = (stringview) {NULL, 0};
+		}
+		++idx;
 	}
 
 	++self->_dump_idx;
diff --git a/lib/group.h b/lib/group.h
index 6346e7f..a6fff6d 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -17,6 +17,7 @@ struct group {
 	struct vec aggregates;
 	struct flex group_data;
 	struct vec _composite; /* temporary */
+	struct vec group_nulls; /* bools, parallel to group_data */
 	//struct vec _roots;
 	size_t _dump_idx;
 	bool is_distinct; /* aggregates are values here */
-- 
2.43.0


From 26cadc20141302df7798ea0e2c16748d5a389679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 072/104] fix: a cartesian join after a left join does not run
 past its buffer

---
 lib/fqlprocesses.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 791a22b..83fd03b 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -308,11 +308,21 @@ enum proc_return fql_cartesian_join(process* proc)
 
 	////
 
+	/* Each output takes a record for every source. After a LEFT JOIN,
+	 * there may be less than that on the left side, so what is left in
+	 * the buffer may not be enough for the next output.
+	 */
+	if (vec_end(proc->inbuf) - (void*)proc->inbuf_iter
+	    < (long)(proc->out_src_count * sizeof(node*))) {
+		fqlprocess_recycle_buffer(proc, proc->inbuf, &proc->inbuf_iter);
+	}
+
 	_fill_inbuf(proc, in_right);
 
 	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
-	while (proc->inbuf_iter != vec_end(proc->inbuf)) {
+	while (vec_end(proc->inbuf) - (void*)proc->inbuf_iter
+	       >= (long)(proc->out_src_count * sizeof(node*))) {
 		record* rec = (*proc->inbuf_iter)->data;
 		rec->src_idx = table->idx;
 
-- 
2.43.0


From a2d05528c47ab8c19af56e4cfa6994a6b52de0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 073/104] fix: a cartesian join waits for room in its output

---
 lib/fqlprocesses.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 83fd03b..71710e3 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -303,6 +303,10 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
-- 
2.43.0


From 552cce916f56edd7505df219cfb1eec13827701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 074/104] fix: link nested control flow, bare blocks and
 multiple declarations

Statements which end a block now continue after the whole enclosing
statement instead of at whatever follows the innermost one.  A declare
statement sets each of its variables, and a data type applies to the
variable being declared rather than the last one known.
---
 lib/antlr/listenerinterface.cpp |  92 +++++++++++-------
 lib/antlr/listenerinterface.h   |   5 +-
 lib/fqlbranch.c                 |   8 +-
 lib/fqlbranch.h                 |   4 +-
 lib/fqlhandle.h                 |  10 +-
 lib/libfql.c                    |   9 +-
 lib/query.c                     | 166 +++++++-------------------------
 lib/query.h                     |   8 +-
 lib/scope.c                     |   1 -
 lib/scope.h                     |   1 -
 10 files changed, 106 insertions(+), 198 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 1801355..43615cb 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -53,6 +53,20 @@ int ListenerInterface::get_return_code()
 	return _return_code;
 }
 
+void ListenerInterface::_enter_query(antlr4::ParserRuleContext* ctx)
+{
+	_query = query_enter_query(_fql, ctx->getStart()->getStartIndex(), ctx->getStop()->getStopIndex());
+	_query_id = 0;
+	node_push(&_query_stack, _query);
+}
+
+void ListenerInterface::_exit_query()
+{
+	_query->query_total = _query_id + 1;
+	node_pop(&_query_stack);
+	_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
+}
+
 void ListenerInterface::enterTsql_file(TSqlParser::Tsql_fileContext * ctx) { }
 void ListenerInterface::exitTsql_file(TSqlParser::Tsql_fileContext * ctx) { }
 
@@ -67,8 +81,7 @@ void ListenerInterface::enterIf_statement(TSqlParser::If_statementContext * ctx)
 	_query->mode = MODE_IF;
 	_operation = FQL_IF;
 
-	/* enter_if will call query_init_op */
-	if (query_enter_if(_query, _query_stack, _operation, (ctx->ELSE() != NULL))) {
+	if (query_init_op(_query, _query_stack, _operation)) {
 		_set_failure();
 	}
 }
@@ -81,7 +94,6 @@ void ListenerInterface::enterWhile_statement(TSqlParser::While_statementContext
 {
 	_query->mode = MODE_WHILE;
 	_operation = FQL_WHILE;
-	/* enter_if will call query_init_op */
 	if (query_init_op(_query, _query_stack, _operation)) {
 		_set_failure();
 	}
@@ -93,26 +105,15 @@ void ListenerInterface::exitWhile_statement(TSqlParser::While_statementContext *
 
 void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx)
 {
-	_entering_block_stmt = true;
-	query_enter_block(_query);
 }
 void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx)
 {
-	_exiting_block_stmt = true;
-	query_exit_block(_query);
 }
 
 void ListenerInterface::enterAnother_statement(TSqlParser::Another_statementContext * ctx) { }
 void ListenerInterface::exitAnother_statement(TSqlParser::Another_statementContext * ctx) { }
 
-void ListenerInterface::enterDeclare_statement(TSqlParser::Declare_statementContext * ctx)
-{
-	_query->mode = MODE_DECLARE;
-	_operation = FQL_SET;
-	if (query_init_op(_query, _query_stack, _operation)) {
-		_set_failure();
-	}
-}
+void ListenerInterface::enterDeclare_statement(TSqlParser::Declare_statementContext * ctx) { }
 void ListenerInterface::exitDeclare_statement(TSqlParser::Declare_statementContext * ctx)
 {
 	_query->mode = MODE_UNDEFINED;
@@ -120,12 +121,25 @@ void ListenerInterface::exitDeclare_statement(TSqlParser::Declare_statementConte
 
 void ListenerInterface::enterDeclare_local(TSqlParser::Declare_localContext * ctx)
 {
+	/* each variable is set by a query of its own */
+	if (_query->op != NULL) {
+		_exit_query();
+		_enter_query(ctx);
+	}
+
+	_query->mode = MODE_DECLARE;
+	_operation = FQL_SET;
+	if (query_init_op(_query, _query_stack, _operation)) {
+		_set_failure();
+	}
+
 	int idx = libfql_declare_variable(_fql, ctx->LOCAL_ID()->getText().c_str());
 	if (idx == FQL_FAIL) {
 		_set_failure();
 		return;
 	}
 
+	_declared_idx = idx;
 	query_set_variable_idx(_query, idx);
 }
 void ListenerInterface::exitDeclare_local(TSqlParser::Declare_localContext * ctx) { }
@@ -177,35 +191,35 @@ void ListenerInterface::exitAssignment_operator(TSqlParser::Assignment_operatorC
 void ListenerInterface::enterDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 void ListenerInterface::exitDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 
+static bool _is_not_query(TSqlParser::Sql_clausesContext* ctx)
+{
+	auto* cfl = ctx->cfl_statement();
+	return (cfl != nullptr) ? cfl->block_statement() != nullptr
+	                        : ctx->children.size() == 1 && ctx->SEMI();
+}
+
 void ListenerInterface::enterSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	/* block statements pass through here, and we don't want
-	 * to initialize a query for that...
+	auto* if_ctx = dynamic_cast<TSqlParser::If_statementContext*>(ctx->parent);
+	if (if_ctx != nullptr && if_ctx->ELSE() && if_ctx->sql_clauses(1) == ctx) {
+		query_enter_else(_query);
+	}
+
+	/* blocks and empty statements pass through here, and we
+	 * don't want to initialize a query for that...
 	 */
-	if (_entering_block_stmt) {
-		_entering_block_stmt = false;
+	if (_is_not_query(ctx)) {
 		return;
 	}
 
-	_query = query_enter_query(_fql, ctx->getStart()->getStartIndex(), ctx->getStop()->getStopIndex());
-	_query_id = 0;
-	node_push(&_query_stack, _query);
+	_enter_query(ctx);
 }
 void ListenerInterface::exitSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	if (_exiting_block_stmt) {
-		_exiting_block_stmt = false;
+	if (_is_not_query(ctx)) {
 		return;
 	}
-	_query->query_total = _query_id + 1;
-	query* prev = (query*) node_pop(&_query_stack);
-	int last_idx = prev->idx;
-	_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
-
-	if (query_exit_query(_query, prev)) {
-		_set_failure();
-	}
-
+	_exit_query();
 }
 
 void ListenerInterface::enterSelect_statement_standalone(TSqlParser::Select_statement_standaloneContext* ctx) { }
@@ -538,7 +552,7 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		break;
 	case TOK_DATA_TYPE:
 		if (_query->mode == MODE_DECLARE) {
-			if (libfql_set_variable_type(_fql, token)) {
+			if (libfql_set_variable_type(_fql, _declared_idx, token)) {
 				_set_failure();
 			}
 		} else {
@@ -850,7 +864,7 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 
 	switch (_query->mode) {
 	case MODE_DECLARE:
-		if (libfql_set_variable_limit(_fql, numstr)) {
+		if (libfql_set_variable_limit(_fql, _declared_idx, numstr)) {
 			_set_failure();
 		}
 		break;
@@ -861,7 +875,13 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 		break;
 	}
 }
-void ListenerInterface::exitData_type(TSqlParser::Data_typeContext * ctx) { }
+void ListenerInterface::exitData_type(TSqlParser::Data_typeContext * ctx)
+{
+	/* what follows is the initializer */
+	if (_query->mode == MODE_DECLARE) {
+		_query->mode = MODE_SET;
+	}
+}
 
 void ListenerInterface::enterBracket_expression(TSqlParser::Bracket_expressionContext * ctx)
 {
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 92df316..f876451 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -39,16 +39,17 @@ class ListenerInterface : public TSqlParserBaseListener {
 	char _table_alias[TABLE_NAME_MAX + 1];
 
 	int _query_id = 0;
+	int _declared_idx = 0;
 	int _return_code = 0;
 	enum tok_type _next_tok_type;
 	enum tok_type _tok_type;
 	enum fql_operation _operation;
 	bool _on_asterisk = false;
-	bool _entering_block_stmt = false;
-	bool _exiting_block_stmt = false;
 	bool _is_table_variable = false;
 
 	void _set_failure();
+	void _enter_query(antlr4::ParserRuleContext*);
+	void _exit_query();
 	void _no_impl(const std::string&, int);
 
       public:
diff --git a/lib/fqlbranch.c b/lib/fqlbranch.c
index 6154563..8a5f3a1 100644
--- a/lib/fqlbranch.c
+++ b/lib/fqlbranch.c
@@ -19,14 +19,10 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 	        .scope = new_(scope),
 	        .true_idx = query->idx + 1,
 	        .false_idx = -1,
+	        .else_idx = -1,
 	};
 
-	if (fql->branch_state == BRANCH_EXPECT_ELSE) {
-		self->scope->parent_scope = fql->_scope->parent_scope;
-	} else {
-		fql->branch_state = BRANCH_EXPECT_EXPR;
-		self->scope->parent_scope = fql->_scope;
-	}
+	self->scope->parent_scope = fql->_scope;
 	fql->_scope = self->scope;
 
 	return self;
diff --git a/lib/fqlbranch.h b/lib/fqlbranch.h
index 78cac2a..b5a9672 100644
--- a/lib/fqlbranch.h
+++ b/lib/fqlbranch.h
@@ -11,13 +11,11 @@ struct fqlbranch {
 	enum fql_operation oper_type;
 	struct logicgroup* condition;
 	int* next_query_idx_ref;
-	struct query* last_true_block_query;
 	struct scope* scope;
 	struct scope* else_scope;
 	int true_idx;
 	int false_idx;
-	bool expect_else;
-	bool is_elseif;
+	int else_idx;
 };
 typedef struct fqlbranch fqlbranch;
 
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..2e51d44 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,12 +24,6 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
-	enum {
-		BRANCH_NO_BRANCH,
-		BRANCH_EXPECT_EXPR,
-		BRANCH_EXPECT_ELSE,
-		BRANCH_EXPECT_EXIT,
-	} branch_state;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
@@ -60,8 +54,8 @@ struct fqlhandle {
 typedef struct fqlhandle fqlhandle;
 
 int libfql_declare_variable(struct fqlhandle*, const char*);
-int libfql_set_variable_limit(struct fqlhandle*, const char*);
-int libfql_set_variable_type(struct fqlhandle*, const char*);
+int libfql_set_variable_limit(struct fqlhandle*, int, const char*);
+int libfql_set_variable_type(struct fqlhandle*, int, const char*);
 /* actually enum but extern "C" */
 int libfql_get_sql_type(const char* type_str);
 
diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..ce3259b 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,7 +42,6 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
-	        .branch_state = BRANCH_EXPECT_EXPR,
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
@@ -107,9 +106,9 @@ int libfql_get_sql_type(const char* type_str)
 	return SQL_UNDEFINED;
 }
 
-int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
+int libfql_set_variable_type(fqlhandle* fql, int var_idx, const char* type_str)
 {
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, var_idx);
 
 	try_(variable_set_type(var, libfql_get_sql_type(type_str)));
 
@@ -141,7 +140,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 	return new_var_idx;
 }
 
-int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
+int libfql_set_variable_limit(fqlhandle* fql, int var_idx, const char* limit_str)
 {
 	long limit = 0;
 	if (str2long(&limit, limit_str)) {
@@ -151,7 +150,7 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 		fprintf(stderr, "invalid size argument(%ld)\n", limit);
 		return FQL_FAIL;
 	}
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, var_idx);
 	var->limit = limit;
 	return FQL_GOOD;
 }
diff --git a/lib/query.c b/lib/query.c
index 0bcc9b7..5d84463 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -186,69 +186,58 @@ int query_prepare(query* self)
 
 
 /** control flow **/
-void query_enter_block(query* self)
-{
-	self->fqlref->_scope->is_in_block = true;
-}
 
-void query_exit_block(query* self)
+/* A statement in [first, last) which would continue at
+ * last is the end of its block: let it continue at target.
+ */
+static void _redirect(fqlhandle* fql, int first, int last, int target)
 {
-	self->fqlref->_scope->is_in_block = false;
+	int i = first;
+	for (; i < last; ++i) {
+		query** it = vec_at(fql->query_vec, i);
+		if ((*it)->next_idx == last) {
+			(*it)->next_idx = target;
+		}
 
-	/* the current active query can be assumed to be the branch */
-	fqlbranch* branch = self->op;
-	branch->false_idx = self->fqlref->query_vec->size;
+		enum fql_operation* op = (*it)->op;
+		if (op == NULL || (*op != FQL_IF && *op != FQL_WHILE)) {
+			continue;
+		}
 
-	if (branch->expect_else) {
-		self->fqlref->branch_state = BRANCH_EXPECT_ELSE;
-	} else {
-		self->fqlref->branch_state = BRANCH_EXPECT_EXIT;
-		branch->false_idx = self->fqlref->query_vec->size;
+		fqlbranch* branch = (*it)->op;
+		if (branch->true_idx == last) {
+			branch->true_idx = target;
+		}
+		if (branch->false_idx == last) {
+			branch->false_idx = target;
+		}
 	}
 }
 
-int query_enter_if(query* self,
-                   node* query_stack,
-                   enum fql_operation operation,
-                   bool expect_else)
+void query_enter_else(query* self)
 {
-	try_(query_init_op(self, query_stack, operation));
-
 	fqlbranch* branch = self->op;
-	branch->expect_else = expect_else;
-
-	return FQL_GOOD;
+	branch->else_idx = self->fqlref->query_vec->size;
+	branch->else_scope = new_(scope);
+	branch->else_scope->parent_scope = branch->scope->parent_scope;
+	self->fqlref->_scope = branch->else_scope;
 }
 
 void query_exit_branch(query* self)
 {
-	fqlbranch* ifstmt = self->op;
-	self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-	//self->fqlref->_scope = self->fqlref->_scope->parent_scope;
-	self->fqlref->_scope = ifstmt->scope->parent_scope;
-	if (self->fqlref->_scope == self->fqlref->global_scope) {
-		self->fqlref->branch_state = BRANCH_NO_BRANCH;
-	}
+	fqlbranch* branch = self->op;
+	int exit_idx = self->fqlref->query_vec->size;
 
-	if (ifstmt->oper_type != FQL_IF) {
-		return;
-	}
-	/* Now, we need to loop back through all queries
-	 * inside this if block. If they are if statements
-	 * and have the same parent_scope, then we can set
-	 * the next_idx of each last_true_block_query.
-	 * Above, we set fql->_scope to this ifbranch's
-	 * parent_scope. So we compare on that.
-	 */
-	query** it = vec_at(self->fqlref->query_vec, self->idx);
-	for (; it != vec_end(self->fqlref->query_vec); ++it) {
-		ifstmt = (*it)->op;
-		if (ifstmt->oper_type != FQL_IF
-		    || ifstmt->scope->parent_scope != self->fqlref->_scope) {
-			continue;
-		}
+	self->fqlref->_scope = branch->scope->parent_scope;
 
-		ifstmt->last_true_block_query->next_idx = self->fqlref->query_vec->size;
+	if (branch->oper_type == FQL_WHILE) {
+		_redirect(self->fqlref, self->idx, exit_idx, self->idx);
+		branch->false_idx = exit_idx;
+	} else if (branch->else_idx >= 0) {
+		_redirect(self->fqlref, self->idx, branch->else_idx, exit_idx);
+		branch->false_idx = branch->else_idx;
+	} else {
+		branch->false_idx = exit_idx;
 	}
 }
 
@@ -290,58 +279,6 @@ query* query_enter_query(fqlhandle* fql, unsigned start, unsigned end)
 	return newquery;
 }
 
-int query_exit_query(query* self, query* prev_query)
-{
-	fqlhandle* fql = prev_query->fqlref;
-
-	/* If the previously active query was a branch operation */
-	enum fql_operation* prev_op = prev_query->op;
-	fqlbranch* prev_branch = NULL;
-
-	if (*prev_op == FQL_IF) {
-		prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = fql->query_vec->size;
-	}
-
-	if (*prev_op == FQL_WHILE) {
-		fqlbranch* prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = prev_query->idx;
-	}
-
-	/* If there is no parent query to return to */
-	if (self == NULL) {
-		fql->branch_state = BRANCH_NO_BRANCH;
-		return FQL_GOOD;
-	}
-
-	/* If you have reached this point, you have exited a query
-	 * that resided inside of a non-global scope.
-	 */
-	fqlbranch* branch = self->op;
-
-	switch (fql->branch_state) {
-	case BRANCH_EXPECT_EXPR:
-		if (prev_branch == NULL || !prev_branch->is_elseif) {
-			branch->last_true_block_query = prev_query;
-		}
-		if (fql->_scope->is_in_block) {
-			return FQL_GOOD;
-		}
-		if (branch->expect_else) {
-			fql->branch_state = BRANCH_EXPECT_ELSE;
-		} else {
-			fql->branch_state = BRANCH_EXPECT_EXIT;
-			branch->false_idx = fql->query_vec->size;
-		}
-		break;
-	case BRANCH_EXPECT_ELSE:
-	case BRANCH_EXPECT_EXIT:
-	case BRANCH_NO_BRANCH:;
-	}
-
-	return FQL_GOOD;
-}
-
 /** variables **/
 void query_set_variable_idx(query* self, int idx)
 {
@@ -797,35 +734,6 @@ int query_init_op(query* self,
 		return FQL_FAIL;
 	}
 
-	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE) {
-		/* Top of stack will be the active query. If this is an
-		 * else block, then the "next" query will be the parent
-		 * branch structure. We must set false_idx there.
-		 */
-		query* branch_query = query_stack->next->data;
-
-		/* May as well check it or this will be a bitch to fix */
-		fqlbranch* branch = branch_query->op;
-		assert(branch->oper_type == FQL_IF);
-
-		branch->false_idx = self->idx;
-		if (operation != FQL_IF) { /* if bare else */
-			branch->else_scope = new_(scope);
-			branch->else_scope->parent_scope = branch->scope->parent_scope;
-
-			self->fqlref->_scope = branch->else_scope;
-			return FQL_GOOD;
-		}
-
-		/* if we've made it this far, we have entered an "else if" */
-		self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-		query** elseifstmt = vec_back(self->fqlref->query_vec);
-		fqlbranch* elseif = (*elseifstmt)->op;
-		elseif->is_elseif = true;
-		//branch->last_true_block_query = *(elseifstmt - 1);
-	}
-
 	return FQL_GOOD;
 }
 
diff --git a/lib/query.h b/lib/query.h
index 052301f..242c68c 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -196,21 +196,15 @@ int query_preflight(struct query*, bool);
 int query_prepare(struct query*);
 
 /* control flow */
-int query_enter_if(struct query*,
-                   struct node* query_stack,
-                   enum fql_operation,
-                   bool expect_else);
+void query_enter_else(struct query*);
 void query_exit_branch(struct query*);
 int query_enter_set(struct query*,
                     struct node*,
                     enum fql_operation,
                     const char* varname);
-void query_enter_block(struct query*);
-void query_exit_block(struct query*);
 
 /* queries */
 struct query* query_enter_query(struct fqlhandle*, unsigned start, unsigned end);
-int query_exit_query(struct query*, struct query*);
 
 /* variables */
 void query_set_variable_idx(struct query*, int);
diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..b973d17 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -7,7 +7,6 @@ scope* scope_construct(scope* self)
 {
 	*self = (scope) {
 	        .parent_scope = NULL,
-	        .is_in_block = false,
 	};
 	hashmap_construct_(&self->variable_map, int, 16, HASHMAP_PROP_NOCASE);
 	return self;
diff --git a/lib/scope.h b/lib/scope.h
index d4bdb73..bfad758 100644
--- a/lib/scope.h
+++ b/lib/scope.h
@@ -7,7 +7,6 @@
 struct scope {
 	struct scope* parent_scope;
 	struct hashmap variable_map;
-	bool is_in_block;
 };
 typedef struct scope scope;
 
-- 
2.43.0


From c6f0f2048e4a6c342916d6b2dab00481d7a376f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 075/104] fix: reject constructs which were ignored, accept
 every alias form

OFFSET, WITH TIES, GROUP BY ALL, COLLATE, DISTINCT in an aggregate,
assignments in a select list or UPDATE, DEFAULT, pseudo columns and
functions without an implementation are errors before anything runs.
alias = expression and string aliases name their column.
---
 lib/antlr/listenerinterface.cpp | 75 ++++++++++++++++++++++++++++++---
 lib/antlr/listenerinterface.h   |  2 +
 lib/function.c                  |  7 +++
 lib/schema.c                    |  2 +-
 4 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 43615cb..8361402 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -146,6 +146,10 @@ void ListenerInterface::exitDeclare_local(TSqlParser::Declare_localContext * ctx
 
 void ListenerInterface::enterSet_statement(TSqlParser::Set_statementContext * ctx)
 {
+	if (!ctx->LOCAL_ID() || ctx->member_name || ctx->CURSOR()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+		return;
+	}
 
 	_query->mode = MODE_SET;
 	_operation = FQL_SET;
@@ -252,6 +256,9 @@ void ListenerInterface::exitAsterisk(TSqlParser::AsteriskContext * ctx) { }
 
 void ListenerInterface::enterColumn_elem(TSqlParser::Column_elemContext * ctx)
 {
+	if (ctx->IDENTITY() || ctx->ROWGUID()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
 	if (ctx->NULL_()) {
 		query_add_null_expression(_query);
 	}
@@ -261,11 +268,39 @@ void ListenerInterface::exitColumn_elem(TSqlParser::Column_elemContext * ctx)
 	_table_name[0] = '\0';
 }
 
-void ListenerInterface::enterExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
-void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
+void ListenerInterface::enterExpression_elem(TSqlParser::Expression_elemContext * ctx)
+{
+	_expect_left_alias = (ctx->leftAlias != nullptr);
+}
+void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx)
+{
+	if (ctx->leftAlias) {
+		_apply_column_alias(ctx->leftAlias->getText());
+	}
+}
+
+void ListenerInterface::_apply_column_alias(std::string alias)
+{
+	/* alias = expression, which we have yet to see */
+	if (_expect_left_alias) {
+		_expect_left_alias = false;
+		return;
+	}
+
+	if (alias[0] == '\'') {
+		_trim_end_chars(alias, '\'', '\'');
+		_find_replace(alias, "''", "'");
+	} else if (alias[0] == '[') {
+		_trim_end_chars(alias, '[', ']');
+	}
+	query_apply_expression_alias(_query, alias.c_str());
+}
 
 void ListenerInterface::enterSelect_list_elem(TSqlParser::Select_list_elemContext * ctx)
 {
+	if (ctx->LOCAL_ID()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_SELECTLIST;
 	_tok_type = TOK_COLUMN_NAME;
 }
@@ -393,6 +428,9 @@ void ListenerInterface::exitAs_column_alias(TSqlParser::As_column_aliasContext *
 void ListenerInterface::enterColumn_alias(TSqlParser::Column_aliasContext * ctx)
 {
 	_tok_type = TOK_COLUMN_ALIAS;
+	if (ctx->STRING()) {
+		_apply_column_alias(ctx->getText());
+	}
 }
 
 void ListenerInterface::exitColumn_alias(TSqlParser::Column_aliasContext * ctx) { }
@@ -527,7 +565,7 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		node_push(&_column_stack, token);
 		break;
 	case TOK_COLUMN_ALIAS:
-		query_apply_expression_alias(_query, token);
+		_apply_column_alias(ctx->getText());
 		free_(token);
 		break;
 	case TOK_INTO_TABLE:
@@ -725,7 +763,12 @@ void ListenerInterface::exitUpdate_statement(TSqlParser::Update_statementContext
 	query_exit_non_select_op(_query);
 }
 
-void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx) { }
+void ListenerInterface::enterUpdate_elem(TSqlParser::Update_elemContext * ctx)
+{
+	if (ctx->LOCAL_ID()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
+}
 void ListenerInterface::exitUpdate_elem(TSqlParser::Update_elemContext * ctx)
 {
 	if (_query->in_assignment_function) {
@@ -783,6 +826,11 @@ static void _bind_unary_operator(TSqlParser::ExpressionContext* ctx)
 
 void ListenerInterface::enterExpression(TSqlParser::ExpressionContext * ctx)
 {
+	if (ctx->COLLATE() || ctx->DOLLAR_ACTION()) {
+		_no_impl(ctx->getText(), ctx->getRuleIndex());
+		return;
+	}
+
 	_bind_unary_operator(ctx);
 
 	enum scalar_function op = SCALAR_UNDEFINED;
@@ -828,6 +876,9 @@ void ListenerInterface::enterPrimitive_expression(TSqlParser::Primitive_expressi
 	if (ctx->NULL_()) {
 		query_add_null_expression(_query);
 	}
+	if (ctx->DEFAULT()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
 }
 void ListenerInterface::exitPrimitive_expression(TSqlParser::Primitive_expressionContext * ctx) { }
 
@@ -1001,6 +1052,9 @@ void ListenerInterface::exitQuery_expression(TSqlParser::Query_expressionContext
 
 void ListenerInterface::enterQuery_specification(TSqlParser::Query_specificationContext * ctx)
 {
+	if (ctx->groupByAll) {
+		_no_impl(ctx->groupByAll->getText(), ctx->getRuleIndex());
+	}
 	if (ctx->DISTINCT()) {
 		query_set_distinct(_query);
 	}
@@ -1050,11 +1104,19 @@ void ListenerInterface::exitAggregate_windowed_function(TSqlParser::Aggregate_wi
 void ListenerInterface::enterAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 void ListenerInterface::exitAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 
-void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
+void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx)
+{
+	if (ctx->DISTINCT()) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
+}
 void ListenerInterface::exitAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
 
 void ListenerInterface::enterOrder_by_clause(TSqlParser::Order_by_clauseContext * ctx)
 {
+	if (ctx->OFFSET()) {
+		_no_impl(ctx->OFFSET()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_ORDERBY;
 	query_init_orderby(_query);
 }
@@ -1072,6 +1134,9 @@ void ListenerInterface::exitOrder_by_expression(TSqlParser::Order_by_expressionC
 
 void ListenerInterface::enterTop_clause(TSqlParser::Top_clauseContext * ctx)
 {
+	if (ctx->TIES()) {
+		_no_impl(ctx->TIES()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode_store = _query->mode;
 	_query->mode = MODE_TOP;
 }
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index f876451..71f3136 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -45,11 +45,13 @@ class ListenerInterface : public TSqlParserBaseListener {
 	enum tok_type _tok_type;
 	enum fql_operation _operation;
 	bool _on_asterisk = false;
+	bool _expect_left_alias = false;
 	bool _is_table_variable = false;
 
 	void _set_failure();
 	void _enter_query(antlr4::ParserRuleContext*);
 	void _exit_query();
+	void _apply_column_alias(std::string alias);
 	void _no_impl(const std::string&, int);
 
       public:
diff --git a/lib/function.c b/lib/function.c
index e1fc556..afa2e95 100644
--- a/lib/function.c
+++ b/lib/function.c
@@ -258,6 +258,13 @@ int function_validate(function* self, expression* parent)
 		}
 	}
 
+	if (self->call__ == &_not_implemented) {
+		fprintf(stderr,
+		        "function not implemented: %s\n",
+		        _scalar_str[self->type]);
+		return FQL_FAIL;
+	}
+
 	unsigned argc = self->args->size;
 	if (argc >= self->arg_min && argc <= self->arg_max) {
 		return FQL_GOOD;
diff --git a/lib/schema.c b/lib/schema.c
index 724ec26..1245359 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1316,7 +1316,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		vec_push_back(&temp, &aquery->top_expr);
 		int ret = _assign_expressions_limited(&temp,
 		                                      NULL,
-		                                      0,
+		                                      -1,
 		                                      fql->props.strictness);
 		vec_destroy(&temp);
 		if (ret == FQL_FAIL) {
-- 
2.43.0


From a7fe7049cb2b494c386486d1688852b879d79044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 076/104] fix: a statement reads a file as earlier statements
 left it

---
 lib/schema.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index 1245359..b810215 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -260,6 +260,8 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 
 	schema** match = hashmap_get(fql->schema_map, absolute_path);
 	if (match == NULL) {
+		/* An UPDATE or DELETE may replace the file */
+		table->must_reopen = (fql->query_vec->size > 1);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From c3e5a0eabfd32be7e7e930c7374bb177714a82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 077/104] fix: SELECT INTO with ORDER BY writes its file whole
 and before the next statement

The ordered output went straight into the target, unflushed until the
query was destroyed: later statements read an incomplete file and an
interruption left one behind.  It is now collected in a temporary file
which replaces the target once everything is written.
---
 lib/fqlprocesses.c |  1 +
 lib/order.c        | 71 ++++++++++++++++++++++++++++++++++++++++++----
 lib/order.h        |  3 ++
 3 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 71710e3..6890741 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1338,6 +1338,7 @@ enum proc_return fql_orderby(process* proc)
 		}
 		int ret = try_(order->select__(order, proc));
 		if (ret == 0 || proc->rows_affected >= order->top_count) {
+			try_(order_close(order));
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_RUNNING;
diff --git a/lib/order.c b/lib/order.c
index 605af75..cba80c5 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <libgen.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 
@@ -43,6 +44,7 @@ order* order_construct(order* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->entries, struct _entry);
 	string_construct(&self->in_filename);
+	string_construct(&self->out_filename);
 	flex_construct(&self->order_data);
 
 	return self;
@@ -60,6 +62,7 @@ void order_destroy(order* self)
 	_order_unmap(self);
 	string_destroy(&self->in_filename);
 	_order_reset_output(self);
+	string_destroy(&self->out_filename);
 }
 
 void _order_unmap(order* self)
@@ -77,6 +80,68 @@ void _order_reset_output(order* self)
 	    && self->out_file != stderr) {
 		fclose(self->out_file);
 	}
+	self->out_file = stdout;
+
+	/* the output was never completed */
+	if (self->out_temp_node != NULL) {
+		fqlsig_tmp_remove_node_and_file(self->out_temp_node);
+		self->out_temp_node = NULL;
+	}
+}
+
+/* The ordered records are collected in a temporary
+ * file next to the one which order_close replaces.
+ */
+int _order_open_output(order* self, const char* out_name)
+{
+	string dirdata;
+	string temp_name;
+	string_construct(&dirdata);
+	string_construct(&temp_name);
+	string_strcpy(&dirdata, out_name);
+	string_sprintf(&temp_name, "%s/order_XXXXXX", dirname(dirdata.data));
+
+	string_strcpy(&self->out_filename, out_name);
+	int fd = mkstemp(temp_name.data);
+	if (fd != -1) {
+		self->out_temp_node = fqlsig_tmp_push(string_c_str(&temp_name));
+		self->out_file = fdopen(fd, "w");
+	}
+
+	string_destroy(&dirdata);
+	string_destroy(&temp_name);
+
+	if (fd == -1 || self->out_file == NULL) {
+		self->out_file = stdout;
+		perror(out_name);
+		return FQL_FAIL;
+	}
+	return FQL_GOOD;
+}
+
+int order_close(order* self)
+{
+	if (self->out_temp_node == NULL) {
+		return FQL_GOOD;
+	}
+
+	mode_t mask = umask(0);
+	umask(mask);
+	fchmod(fileno(self->out_file), 0666 & ~mask);
+
+	bool failed = ferror(self->out_file) != 0;
+	failed |= fclose(self->out_file) != 0;
+	self->out_file = stdout;
+
+	if (failed
+	    || rename(self->out_temp_node->data, string_c_str(&self->out_filename))) {
+		perror(string_c_str(&self->out_filename));
+		return FQL_FAIL;
+	}
+
+	fqlsig_tmp_remove_node(self->out_temp_node);
+	self->out_temp_node = NULL;
+	return FQL_GOOD;
 }
 
 int order_init_io(order* self, const char* in_name, const char* out_name)
@@ -96,11 +161,7 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 
 	if (out_name != NULL) {
 		_order_reset_output(self);
-		self->out_file = fopen(out_name, "w");
-		if (self->out_file == NULL) {
-			perror(out_name);
-			return FQL_FAIL;
-		}
+		try_(_order_open_output(self, out_name));
 	}
 	return FQL_GOOD;
 }
diff --git a/lib/order.h b/lib/order.h
index c8872b5..b8cd776 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -19,6 +19,7 @@ struct order {
 	struct vec expressions;
 	struct vec entries;
 	string in_filename;
+	string out_filename;
 	struct flex order_data;
 	order_select_fn select__;
 	struct vec* api;
@@ -28,6 +29,7 @@ struct order {
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
+	struct node* out_temp_node;
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
@@ -49,5 +51,6 @@ int order_preresolve_expressions(struct order*, struct query*);
 int order_set_union(struct order*, struct fqlselect*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
+int order_close(struct order*);
 
 #endif /* ORDER_H */
-- 
2.43.0


From f50c2332cf861386a672d6af8267d497fad4b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 078/104] fix: a SELECT INTO which never ran leaves no empty
 file behind

---
 lib/libfql.c |  1 +
 lib/query.c  | 23 +++++++++++++++++++++++
 lib/query.h  |  2 ++
 lib/schema.c |  1 +
 4 files changed, 27 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index ce3259b..bd335be 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -565,6 +565,7 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 		if (ret == FQL_FAIL) {
 			break;
 		}
+		query_release_placeholder(*query);
 
 		if (fql->props.verbosity > FQL_QUIET) {
 			_exec_plans_print_footer(plan, *query);
diff --git a/lib/query.c b/lib/query.c
index 5d84463..1ce4768 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -3,6 +3,7 @@
 #include <stdbool.h>
 #include <assert.h>
 #include <unistd.h>
+#include <sys/stat.h>
 
 #include "fql.h"
 #include "misc.h"
@@ -94,11 +95,33 @@ void query_destroy(query* self)
 	delete_(vec, self->unions);
 	delete_(vec, self->subquery_const_vec);
 
+	/* the statement was never executed */
+	struct stat file_stat;
+	if (self->has_placeholder && stat(self->into_table_name, &file_stat) == 0
+	    && file_stat.st_size == 0) {
+		remove(self->into_table_name);
+	}
+
 	if (self->into_table_var_idx == -1) {
 		free_if_exists_(self->into_table_name);
 	}
 }
 
+/* The file has been written. */
+void query_release_placeholder(query* self)
+{
+	if (self->into_table_name == NULL) {
+		return;
+	}
+	query** it = vec_begin(self->fqlref->query_vec);
+	for (; it != vec_end(self->fqlref->query_vec); ++it) {
+		if ((*it)->has_placeholder
+		    && strcmp((*it)->into_table_name, self->into_table_name) == 0) {
+			(*it)->has_placeholder = false;
+		}
+	}
+}
+
 void query_release_sources(query* self)
 {
 	table* it = vec_begin(self->sources);
diff --git a/lib/query.h b/lib/query.h
index 242c68c..1cfe87c 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -160,6 +160,7 @@ struct query {
 	int into_table_var_idx;
 	int idx;
 	int next_idx;
+	bool has_placeholder;
 	int union_id;
 	int query_id;
 	int query_total;
@@ -190,6 +191,7 @@ struct query* query_new(struct fqlhandle*, int id);
 struct query* query_construct(struct query*, struct fqlhandle*, int id);
 void query_destroy(struct query*);
 void query_release_sources(struct query*);
+void query_release_placeholder(struct query*);
 
 /* preflight */
 int query_preflight(struct query*, bool);
diff --git a/lib/schema.c b/lib/schema.c
index b810215..f1b6675 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1510,6 +1510,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 				perror(aquery->into_table_name);
 				return FQL_FAIL;
 			}
+			aquery->has_placeholder = true;
 
 			if (fclose(place_holder) == EOF) {
 				perror(aquery->into_table_name);
-- 
2.43.0


From e5e08438f2fcea615e9099724a2b9bf9906194d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 079/104] fix: UPDATE and DELETE with a join keep every other
 row, whatever the join and WHERE

---
 lib/fqldelete.c    |  45 ++++++-
 lib/fqldelete.h    |   5 +-
 lib/fqlprocesses.c | 302 +++++++--------------------------------------
 lib/fqlupdate.c    |  80 +++++++++++-
 lib/fqlupdate.h    |   5 +-
 lib/libcsvwrite.c  |  19 ++-
 lib/operation.c    |  45 +++++++
 lib/operation.h    |  28 ++++-
 lib/reader.c       |  40 ++++++
 lib/reader.h       |   1 +
 10 files changed, 293 insertions(+), 277 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..7285718 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -2,6 +2,9 @@
 #include "expression.h"
 #include "process.h"
 #include "util.h"
+#include "reader.h"
+#include "record.h"
+#include "table.h"
 #include "writer.h"
 #include "order.h"
 #include "schema.h"
@@ -18,9 +21,10 @@ fqldelete* fqldelete_construct(fqldelete* self)
 	        .undelete__ = &_delete_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
+	op_filter_construct(&self->filter);
+
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
 	schema_add_expression(self->schema, lol_expr, 0);
 
@@ -34,13 +38,13 @@ void fqldelete_destroy(fqldelete* self)
 	}
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	op_filter_destroy(&self->filter);
 }
 
 int fqldelete_reset(fqldelete* self)
 {
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
-	self->delete_idx = 0;
+	op_filter_reset(&self->filter);
 
 	return FQL_GOOD;
 }
@@ -83,6 +87,12 @@ int fqldelete_apply_process(query* query, plan* plan)
 	}
 
 	/* At this point, we are dealing with a join */
+	self->table = vec_begin(query->sources);
+	if (self->table->source_type != SOURCE_TABLE || self->table->is_stdin) {
+		fputs("Can only delete from a file\n", stderr);
+		return FQL_FAIL;
+	}
+
 	process* delete_filter_proc = new_(process, "DELETE FILTER", plan);
 	delete_filter_proc->action__ = &fql_delete_filter;
 	delete_filter_proc->proc_data = self;
@@ -147,3 +157,32 @@ int _delete_writer(fqldelete* self, node* rg)
 	                                    NULL);
 }
 
+
+/* write the records which did not match */
+int fqldelete_write_remaining(fqldelete* self)
+{
+	reader* input = new_(reader);
+	node* rg = NULL;
+	record* rec = new_(record, 0);
+	node_push(&rg, rec);
+
+	int ret = reader_assign_copy(input, self->table);
+	while (ret == FQL_GOOD) {
+		ret = input->get_record__(input, rg);
+		if (ret != FQL_GOOD) {
+			break;
+		}
+		rec = rg->data;
+		rec->src_idx = self->table_idx;
+		if (op_filter_at(&self->filter, rec->rec_idx) == NULL
+		    && self->undelete__(self, rg) == FQL_FAIL) {
+			ret = FQL_FAIL;
+		}
+	}
+
+	delete_(record, rg->data);
+	node_free(&rg);
+	delete_(reader, input);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
diff --git a/lib/fqldelete.h b/lib/fqldelete.h
index 24b7a6a..8257c8b 100644
--- a/lib/fqldelete.h
+++ b/lib/fqldelete.h
@@ -17,11 +17,11 @@ struct fqldelete {
 	struct schema* schema;
 	struct writer* writer;
 	delete_fn undelete__;
-	size_t delete_idx;
+	struct table* table;
+	struct op_filter filter;
 	size_t rows_affected;
 	size_t top_count;
 	unsigned table_idx;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqldelete fqldelete;
@@ -31,6 +31,7 @@ void fqldelete_destroy(struct fqldelete*);
 int fqldelete_reset(struct fqldelete*);
 
 int fqldelete_apply_process(struct query*, struct fqlplan*);
+int fqldelete_write_remaining(struct fqldelete*);
 void fqldelete_preop(struct fqldelete*, struct query*);
 
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 6890741..f2d145e 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -948,134 +948,30 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-enum proc_return
-_del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* Several processes feed the false input of a filter: every join and
+ * the WHERE clause. Neither of the inputs tells in what order or how
+ * many times a record of the target table shows up, nor whether it does
+ * at all. So both inputs are taken in first and the file is written once
+ * they have ended: the target table is read again.
+ */
+void _filter_false(process* proc, unsigned table_idx)
 {
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
+	fifo* in_false = proc->fifo_in[0];
 
 	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
 	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			false_done = true;
-			break;
-		}
+		record* rec = record_at(*it, table_idx);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 		fqlprocess_recycle(proc, it);
 	}
 	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		delete->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			if (false_done) {
-				delete->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(delete->undelete__(delete, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(delete->undelete__(delete, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
-		if (look_ahead_rec->rec_idx > delete->delete_idx) {
-			try_(delete->undelete__(delete, *iter_false));
-			delete->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, delete->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		delete->delete_idx = true_rec->rec_idx;
-		delete->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	delete->delete_idx = false_rec->rec_idx;
-	delete->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
 }
 
 enum proc_return fql_delete_filter(process* proc)
 {
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
+	fqldelete* delete = proc->proc_data;
 
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
 		if (in_true->is_open || in_false->is_open) {
@@ -1085,24 +981,28 @@ enum proc_return fql_delete_filter(process* proc)
 		}
 	}
 
-	fqldelete* delete = proc->proc_data;
-
 	////
 
 	if (!proc->wait_for_in0) {
+		try_(fqldelete_write_remaining(delete));
 		try_(writer_close(delete->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (delete->state) {
-	case FILTER_PASSTHROUGH:
-		return _del_passthrough(proc, delete, in_false, in_true);
-	case FILTER_FILTERING:
-		return _del_filtering(proc, delete, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _del_open(proc, delete, in_false, in_true);
+	_filter_false(proc, delete->table_idx);
+
+	node** it = fifo_begin(in_true);
+	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
+		record* rec = record_at(*it, delete->table_idx);
+		if (op_filter_mark(&delete->filter, rec->rec_idx)) {
+			++proc->rows_affected;
+		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, it);
 	}
+	fifo_update(in_true);
+
+	return PROC_RETURN_RUNNING;
 }
 
 enum proc_return fql_update(process* proc)
@@ -1165,136 +1065,12 @@ enum proc_return fql_update(process* proc)
 	return ret;
 }
 
-enum proc_return
-_update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		update->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			if (false_done) {
-				update->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(update->noupdate__(update, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			try_(update->update__(update, *true_node));
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(update->noupdate__(update, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
-		if (look_ahead_rec->rec_idx > update->update_idx) {
-			try_(update->noupdate__(update, *iter_false));
-			update->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, update->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		try_(update->update__(update, *true_node));
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		update->update_idx = true_rec->rec_idx;
-		update->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	update->update_idx = false_rec->rec_idx;
-	update->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
 enum proc_return fql_update_filter(process* proc)
 {
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
+	fqlupdate* update = proc->proc_data;
+
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
 		if (in_true->is_open || in_false->is_open) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
@@ -1303,24 +1079,30 @@ enum proc_return fql_update_filter(process* proc)
 		}
 	}
 
-	fqlupdate* update = proc->proc_data;
-
 	////
 
 	if (!proc->wait_for_in0) {
+		try_(fqlupdate_write_all(update));
 		try_(writer_close(update->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (update->state) {
-	case FILTER_PASSTHROUGH:
-		return _update_passthrough(proc, update, in_false, in_true);
-	case FILTER_FILTERING:
-		return _update_filtering(proc, update, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _update_open(proc, update, in_false, in_true);
+	_filter_false(proc, update->table_idx);
+
+	node** it = fifo_begin(in_true);
+	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
+		record* rec = record_at(*it, update->table_idx);
+		/* the first match of a record counts */
+		if (op_filter_mark(&update->filter, rec->rec_idx)) {
+			try_(fqlupdate_keep(update, *it, rec->rec_idx));
+			++proc->rows_affected;
+		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, it);
 	}
+	fifo_update(in_true);
+
+	return PROC_RETURN_RUNNING;
 }
 
 enum proc_return fql_orderby(process* proc)
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..b7e924b 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -1,8 +1,12 @@
 #include "fqlupdate.h"
+#include "misc.h"
 #include "aggregate.h"
 #include "expression.h"
 #include "process.h"
 #include "util.h"
+#include "reader.h"
+#include "record.h"
+#include "table.h"
 #include "writer.h"
 #include "order.h"
 #include "schema.h"
@@ -21,9 +25,10 @@ fqlupdate* fqlupdate_construct(fqlupdate* self)
 	        .noupdate__ = &_noupdate_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
+	op_filter_construct(&self->filter);
+
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
 	schema_add_expression(self->schema, lol_expr, 0);
 
@@ -60,14 +65,15 @@ void fqlupdate_destroy(fqlupdate* self)
 	vec_destroy(&self->value_expressions);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	op_filter_destroy(&self->filter);
 }
 
 int fqlupdate_reset(fqlupdate* self)
 {
 	self->rownum = 0;
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
 	self->update_idx = 0;
+	op_filter_reset(&self->filter);
 
 	return FQL_GOOD;
 }
@@ -123,6 +129,12 @@ int fqlupdate_apply_process(query* query, plan* plan)
 	}
 
 	/* At this point, we are dealing with a join */
+	self->table = vec_begin(query->sources);
+	if (self->table->source_type != SOURCE_TABLE || self->table->is_stdin) {
+		fputs("Can only update a file\n", stderr);
+		return FQL_FAIL;
+	}
+
 	process* update_filter_proc = new_(process, "UPDATE FILTER", plan);
 	update_filter_proc->action__ = &fql_update_filter;
 	update_filter_proc->proc_data = self;
@@ -258,3 +270,67 @@ int _noupdate_writer(fqlupdate* self, node* rg)
 	                                    rg,
 	                                    NULL);
 }
+
+/* remember what to write for a record which matched */
+int fqlupdate_keep(fqlupdate* self, node* rg, size_t rec_idx)
+{
+	struct op_filter* filter = &self->filter;
+	if (filter->stream == NULL) {
+		filter->stream = open_memstream(&filter->text, &filter->text_size);
+		if (filter->stream == NULL) {
+			perror("open_memstream");
+			return FQL_FAIL;
+		}
+	}
+
+	struct op_filter_mark* mark = op_filter_at(filter, rec_idx);
+	mark->offset = ftello(filter->stream);
+	++self->rownum;
+	try_(self->writer->write_record__(self->writer,
+	                                  &self->update_expressions,
+	                                  rg,
+	                                  filter->stream));
+	mark->len = ftello(filter->stream) - mark->offset;
+
+	return FQL_GOOD;
+}
+
+/* write every record, updated or not, in the order of the file */
+int fqlupdate_write_all(fqlupdate* self)
+{
+	struct op_filter* filter = &self->filter;
+	if (filter->stream != NULL) {
+		fflush(filter->stream);
+	}
+
+	reader* input = new_(reader);
+	node* rg = NULL;
+	record* rec = new_(record, 0);
+	node_push(&rg, rec);
+
+	int ret = reader_assign_copy(input, self->table);
+	while (ret == FQL_GOOD) {
+		ret = input->get_record__(input, rg);
+		if (ret != FQL_GOOD) {
+			break;
+		}
+		rec = rg->data;
+		rec->src_idx = self->table_idx;
+
+		struct op_filter_mark* mark = op_filter_at(filter, rec->rec_idx);
+		if (mark != NULL) {
+			fwrite(filter->text + mark->offset,
+			       1,
+			       mark->len,
+			       writer_get_file(self->writer));
+		} else if (self->noupdate__(self, rg) == FQL_FAIL) {
+			ret = FQL_FAIL;
+		}
+	}
+
+	delete_(record, rg->data);
+	node_free(&rg);
+	delete_(reader, input);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
diff --git a/lib/fqlupdate.h b/lib/fqlupdate.h
index 82c5cf6..8c3fd98 100644
--- a/lib/fqlupdate.h
+++ b/lib/fqlupdate.h
@@ -20,6 +20,8 @@ struct fqlupdate {
 	update_fn update__;
 	update_fn noupdate__;
 	size_t update_idx;
+	struct table* table;
+	struct op_filter filter;
 	size_t rows_affected;
 	size_t top_count;
 	struct vec update_expressions;
@@ -27,7 +29,6 @@ struct fqlupdate {
 	struct vec value_expressions;
 	unsigned table_idx;
 	unsigned rownum;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqlupdate fqlupdate;
@@ -39,6 +40,8 @@ int fqlupdate_reset(struct fqlupdate*);
 int fqlupdate_add_expression(struct fqlupdate*, const struct expression*);
 int fqlupdate_resolve_additional(struct fqlupdate*, struct query*);
 int fqlupdate_apply_process(struct query*, struct fqlplan*);
+int fqlupdate_keep(struct fqlupdate*, struct node*, size_t rec_idx);
+int fqlupdate_write_all(struct fqlupdate*);
 void fqlupdate_preop(struct fqlupdate*, struct query*);
 
 /* operation.c? */
diff --git a/lib/libcsvwrite.c b/lib/libcsvwrite.c
index c7d7534..8738861 100644
--- a/lib/libcsvwrite.c
+++ b/lib/libcsvwrite.c
@@ -39,19 +39,28 @@ int libcsv_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream
 			handle->quotes = quote_store;
 		} else {
 			if (writer->strict && exprs[i]->field_type != FIELD_STRING) {
-				try_(expression_type_check(exprs[i], rg));
+				if (expression_type_check(exprs[i], rg) == FQL_FAIL) {
+					len = FQL_FAIL;
+					break;
+				}
 			}
 			struct csv_field field = {NULL, 0};
-			if (try_(expression_get_stringview(&sv, exprs[i], rg))
-			    != FQL_NULL) {
+			int ret = expression_get_stringview(&sv, exprs[i], rg);
+			if (ret == FQL_FAIL) {
+				len = FQL_FAIL;
+				break;
+			}
+			if (ret != FQL_NULL) {
 				field = (struct csv_field) {sv.data, sv.len};
 				len += csv_write_field(handle, &field);
 			}
 		}
 	}
 
-	fputs(terminator.data, outstream);
-	len += terminator.len;
+	if (len != FQL_FAIL) {
+		fputs(terminator.data, outstream);
+		len += terminator.len;
+	}
 
 	if (store_stream) {
 		csv_writer_set_file(handle, store_stream);
diff --git a/lib/operation.c b/lib/operation.c
index e46b91a..c16ed6a 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -542,3 +542,48 @@ void op_expand_asterisks(query* query, bool force_expansion)
 	}
 	_resize_raw_rec(op_writer->raw_rec, expr_vec->size);
 }
+
+void op_filter_construct(struct op_filter* self)
+{
+	*self = (struct op_filter) {0};
+	vec_construct_(&self->marks, struct op_filter_mark);
+}
+
+void op_filter_destroy(struct op_filter* self)
+{
+	op_filter_reset(self);
+	vec_destroy(&self->marks);
+}
+
+void op_filter_reset(struct op_filter* self)
+{
+	vec_clear(&self->marks);
+	if (self->stream != NULL) {
+		fclose(self->stream);
+		self->stream = NULL;
+	}
+	free(self->text);
+	self->text = NULL;
+	self->text_size = 0;
+}
+
+bool op_filter_mark(struct op_filter* self, size_t rec_idx)
+{
+	const struct op_filter_mark none = {0};
+	while (self->marks.size <= rec_idx) {
+		vec_push_back(&self->marks, &none);
+	}
+	struct op_filter_mark* mark = vec_at(&self->marks, rec_idx);
+	bool is_first = !mark->is_matched;
+	mark->is_matched = true;
+	return is_first;
+}
+
+struct op_filter_mark* op_filter_at(struct op_filter* self, size_t rec_idx)
+{
+	if (rec_idx >= self->marks.size) {
+		return NULL;
+	}
+	struct op_filter_mark* mark = vec_at(&self->marks, rec_idx);
+	return mark->is_matched ? mark : NULL;
+}
diff --git a/lib/operation.h b/lib/operation.h
index 915c1a0..e2df014 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -1,7 +1,10 @@
 #ifndef OPERATION_H
 #define OPERATION_H
 
+#include <stdbool.h>
+#include <stdio.h>
 #include "fqlhandle.h"
+#include "util/vec.h"
 #include "fqlplan.h"
 
 struct table;
@@ -9,12 +12,29 @@ struct schema;
 struct writer;
 struct expression;
 
-enum filter_state {
-	FILTER_OPEN,
-	FILTER_PASSTHROUGH,
-	FILTER_FILTERING,
+/* DELETE and UPDATE with a join: the records of the target
+ * table which matched and what is to be written for them.
+ */
+struct op_filter_mark {
+	size_t offset;
+	size_t len;
+	bool is_matched;
 };
 
+struct op_filter {
+	struct vec marks;
+	FILE* stream;
+	char* text;
+	size_t text_size;
+};
+
+void op_filter_construct(struct op_filter*);
+void op_filter_destroy(struct op_filter*);
+void op_filter_reset(struct op_filter*);
+/* returns true the first time a record is marked */
+bool op_filter_mark(struct op_filter*, size_t rec_idx);
+struct op_filter_mark* op_filter_at(struct op_filter*, size_t rec_idx);
+
 enum fql_operation;
 
 int op_preop(struct query*);
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..c77ccd1 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -88,6 +88,46 @@ int reader_assign(reader* self, table* table, struct fqlhandle* fql)
 	}
 }
 
+/* another reader of the file of a table, from its first record */
+int reader_assign_copy(reader* self, table* table)
+{
+	const reader* org = table->reader;
+	self->type = org->type;
+	self->max_idx = org->max_idx;
+	self->reclen = org->reclen;
+	self->skip_rows = org->skip_rows;
+	string_copy(&self->file_name, &org->file_name);
+
+	switch (self->type) {
+	case IO_LIBCSV: {
+		csv_reader* org_csv = org->reader_data;
+		csv_reader* csv = csv_reader_new();
+		csv->quotes = org_csv->quotes;
+		csv_reader_set_delim(csv, csv_reader_get_delim(org_csv));
+		self->reader_data = csv;
+		self->free__ = &libcsv_free;
+		self->get_record__ = &libcsv_get_record;
+		self->reset__ = &libcsv_reset;
+		if (csv_reader_open_mmap(csv, string_c_str(&self->file_name))) {
+			csv_perror();
+			return FQL_FAIL;
+		}
+		break;
+	}
+	case IO_FIXED:
+		self->reader_data = new_(fixedread, table->schema->expressions);
+		self->free__ = &fixedread_free;
+		self->get_record__ = &fixedread_get_record;
+		self->reset__ = &fixedread_reset;
+		try_(fixedread_open(self, string_c_str(&self->file_name)));
+		break;
+	default:
+		return FQL_FAIL;
+	}
+
+	return (self->reset__(self) == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
+
 int reader_reopen(reader* self)
 {
 	switch (self->type) {
diff --git a/lib/reader.h b/lib/reader.h
index 5c7ce78..b94687a 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -43,6 +43,7 @@ struct reader* reader_construct(struct reader*);
 void reader_destroy(struct reader*);
 
 int reader_assign(struct reader*, struct table*, struct fqlhandle*);
+int reader_assign_copy(struct reader*, struct table*);
 int reader_reopen(struct reader*);
 size_t reader_get_file_size(struct reader*);
 int reader_start_file_backed_input(struct reader*);
-- 
2.43.0


From 264923066d223a7776e023663873f1098d9fd653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 080/104] fix: conditions of IF and WHILE are resolved like
 those of queries

---
 lib/operation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index c16ed6a..d6b3d64 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -4,6 +4,7 @@
 #include "misc.h"
 #include "table.h"
 #include "group.h"
+#include "logic.h"
 #include "order.h"
 #include "fqlbranch.h"
 #include "reader.h"
@@ -49,6 +50,12 @@ vec* op_get_expressions(enum fql_operation* self)
 		fqlset* setstmt = (fqlset*)self;
 		return &setstmt->_expr_vec;
 	}
+	/* nor has a branch, but it has a condition */
+	if (*self == FQL_IF || *self == FQL_WHILE) {
+		fqlbranch* branch = (fqlbranch*)self;
+		return (branch->condition != NULL) ? branch->condition->expressions
+		                                   : NULL;
+	}
 	schema* op_schema = op_get_schema(self);
 	if (op_schema == NULL) {
 		return NULL;
-- 
2.43.0


From 6a572b2406f598baaba2faf2dc78703b7e68b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 081/104] fix: UPDATE and DELETE with a join other than a hash
 join apply their WHERE

---
 lib/fqldelete.c    |  3 ---
 lib/fqlprocesses.c | 65 +++++++++++++++-------------------------------
 lib/fqlupdate.c    |  3 ---
 3 files changed, 21 insertions(+), 50 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 7285718..9132d35 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -96,11 +96,8 @@ int fqldelete_apply_process(query* query, plan* plan)
 	process* delete_filter_proc = new_(process, "DELETE FILTER", plan);
 	delete_filter_proc->action__ = &fql_delete_filter;
 	delete_filter_proc->proc_data = self;
-	delete_filter_proc->is_dual_link = true;
-	delete_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, delete_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index f2d145e..b6d7bb3 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -948,37 +948,20 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-/* Several processes feed the false input of a filter: every join and
- * the WHERE clause. Neither of the inputs tells in what order or how
- * many times a record of the target table shows up, nor whether it does
- * at all. So both inputs are taken in first and the file is written once
- * they have ended: the target table is read again.
+/* The input of a filter does not tell in what order or how many times
+ * a record of the target table shows up. So it is taken in first, and
+ * the file is written once it has ended: the target table is read again.
  */
-void _filter_false(process* proc, unsigned table_idx)
-{
-	fifo* in_false = proc->fifo_in[0];
-
-	node** it = fifo_begin(in_false);
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, table_idx);
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-}
-
 enum proc_return fql_delete_filter(process* proc)
 {
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
+	fifo* in = proc->fifo_in[0];
 	fqldelete* delete = proc->proc_data;
 
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
+		proc->wait_for_in0 = false;
 	}
 
 	////
@@ -989,10 +972,8 @@ enum proc_return fql_delete_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	_filter_false(proc, delete->table_idx);
-
-	node** it = fifo_begin(in_true);
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
+	node** it = fifo_begin(in);
+	for (; it != fifo_end(in); it = fifo_iter(in)) {
 		record* rec = record_at(*it, delete->table_idx);
 		if (op_filter_mark(&delete->filter, rec->rec_idx)) {
 			++proc->rows_affected;
@@ -1000,9 +981,9 @@ enum proc_return fql_delete_filter(process* proc)
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 		fqlprocess_recycle(proc, it);
 	}
-	fifo_update(in_true);
+	fifo_update(in);
 
-	return PROC_RETURN_RUNNING;
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_update(process* proc)
@@ -1067,16 +1048,14 @@ enum proc_return fql_update(process* proc)
 
 enum proc_return fql_update_filter(process* proc)
 {
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
+	fifo* in = proc->fifo_in[0];
 	fqlupdate* update = proc->proc_data;
 
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
+		proc->wait_for_in0 = false;
 	}
 
 	////
@@ -1087,10 +1066,8 @@ enum proc_return fql_update_filter(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
-	_filter_false(proc, update->table_idx);
-
-	node** it = fifo_begin(in_true);
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
+	node** it = fifo_begin(in);
+	for (; it != fifo_end(in); it = fifo_iter(in)) {
 		record* rec = record_at(*it, update->table_idx);
 		/* the first match of a record counts */
 		if (op_filter_mark(&update->filter, rec->rec_idx)) {
@@ -1100,9 +1077,9 @@ enum proc_return fql_update_filter(process* proc)
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 		fqlprocess_recycle(proc, it);
 	}
-	fifo_update(in_true);
+	fifo_update(in);
 
-	return PROC_RETURN_RUNNING;
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_orderby(process* proc)
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index b7e924b..c363d46 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -138,11 +138,8 @@ int fqlupdate_apply_process(query* query, plan* plan)
 	process* update_filter_proc = new_(process, "UPDATE FILTER", plan);
 	update_filter_proc->action__ = &fql_update_filter;
 	update_filter_proc->proc_data = self;
-	update_filter_proc->is_dual_link = true;
-	update_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, update_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
-- 
2.43.0


From 57835086a3608047522053e471dace2aeec1930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 082/104] fix: a hash join with a file created by an earlier
 statement reads all of its columns

---
 lib/table.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/table.c b/lib/table.c
index a4b032e..dfc8ff8 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -183,14 +183,15 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	/* the file may still be empty: SELECT INTO */
+	if (i == 0) {
+		return HASH_JOIN_MIN_SIZE;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
-- 
2.43.0


From 5d98e24f929a94e04b1f7531a980ce754db95a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 083/104] fix: a closing bracket in a LIKE pattern does not
 spoil the search

---
 lib/like.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/like.c b/lib/like.c
index 3be92f6..7fa6b8f 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -108,13 +108,13 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 			search = start + 1;
 		} else {
 			if (open <= 0) {
+				unsigned end_idx = end - begin;
 				end[0] = '\\';
 				char end_bracket = ']';
-				vec_insert_iter(likebuf,
-				                end + 1,
-				                &end_bracket,
-				                &end_bracket);
-				search = end + 3;
+				vec_insert_at(likebuf, end_idx + 1, &end_bracket, 1);
+				/* in case of realloc */
+				begin = vec_begin(likebuf);
+				search = begin + end_idx + 2;
 			} else {
 				open--;
 				search = end + 1;
-- 
2.43.0


From 31a65627318df839c6df4dd9bde9a2c6c3a72d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 084/104] fix: all processes waiting for a subquery are woken
 up, not just the last one registered

---
 lib/process.c | 27 ++++++++++++++++++---------
 lib/process.h |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/process.c b/lib/process.c
index 933062f..f1306f6 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -60,6 +60,7 @@ void process_destroy(process* self, bool is_root)
 		delete_(fifo, self->fifo_in[1]);
 	}
 	delete_if_exists_(vec, self->wait_list);
+	delete_if_exists_(vec, self->waitee_procs);
 	delete_if_exists_(vec, self->inbuf);
 	delete_if_exists_(vec, self->rebuf);
 	delete_(vec, self->union_end_nodes);
@@ -156,10 +157,14 @@ void process_add_to_wait_list(process* self, process* wait_proc)
 {
 	if (self->wait_list == NULL) {
 		self->wait_list = new_t_(vec, process*);
+		pthread_mutex_init(&self->wait_mutex, NULL);
+		pthread_cond_init(&self->wait_cond, NULL);
 	}
-	pthread_mutex_init(&self->wait_mutex, NULL);
-	pthread_cond_init(&self->wait_cond, NULL);
-	wait_proc->waitee_proc = self;
+	/* several processes may wait for the same subquery */
+	if (wait_proc->waitee_procs == NULL) {
+		wait_proc->waitee_procs = new_t_(vec, process*);
+	}
+	vec_push_back(wait_proc->waitee_procs, &self);
 	vec_push_back(self->wait_list, &wait_proc);
 }
 
@@ -244,13 +249,17 @@ void process_disable(process* self)
 		fifo_update(in);
 	}
 
-	/* This process must terminate before waitee_proc can
-	 * Begin. Time to let it know we have finished.
+	/* This process must terminate before the processes in
+	 * waitee_procs can begin. Time to let them know we have
+	 * finished.
 	 */
-	if (self->waitee_proc != NULL) {
-		pthread_mutex_lock(&self->waitee_proc->wait_mutex);
-		pthread_cond_signal(&self->waitee_proc->wait_cond);
-		pthread_mutex_unlock(&self->waitee_proc->wait_mutex);
+	if (self->waitee_procs != NULL) {
+		process** waitee = vec_begin(self->waitee_procs);
+		for (; waitee != vec_end(self->waitee_procs); ++waitee) {
+			pthread_mutex_lock(&(*waitee)->wait_mutex);
+			pthread_cond_signal(&(*waitee)->wait_cond);
+			pthread_mutex_unlock(&(*waitee)->wait_mutex);
+		}
 	}
 
 	if (self->fql_ref->props.verbosity == FQL_DEBUG) {
diff --git a/lib/process.h b/lib/process.h
index 9a72dfa..777db41 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -30,7 +30,7 @@ struct process {
 	struct vec* union_end_nodes;  /* nodes that will re-link for union */
 	struct node* queued_results;  /* list of additional input fifos */
 	struct vec* wait_list;        /* list of fifos that we wait for */
-	struct process* waitee_proc;  /* pointer to a waiting process */
+	struct vec* waitee_procs;     /* list of processes waiting for us */
 	struct vec* rootvec_ref;      /* reference to plan->root_fifo_vec */
 	pthread_mutex_t wait_mutex;   /* mutex used be woken up */
 	pthread_cond_t wait_cond;     /* condition for wait list */
-- 
2.43.0


From 42c8ca0991cb72a94a92302eeea288c23b7a3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 085/104] fix: DISTINCT and SELECT do not evaluate the shared
 expressions at the same time

---
 lib/fqlplan.c      |  3 +++
 lib/fqlprocesses.c | 17 +++++++++++++++--
 lib/fqlselect.h    |  2 ++
 lib/group.c        |  2 ++
 lib/group.h        |  4 +++-
 5 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 6649ff9..5a63be5 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -509,6 +509,9 @@ void _group(plan* self, query* query)
 		process* group_proc = new_(process, "DISTINCT ", self);
 		group_proc->action__ = &fql_distinct;
 		group_proc->proc_data = query->distinct;
+		if (*(enum fql_operation*)query->op == FQL_SELECT) {
+			((fqlselect*)query->op)->distinct = query->distinct;
+		}
 		group_cat_description(query->distinct, group_proc);
 		dnode* group_node = dgraph_add_data(self->processes, group_proc);
 		self->current->out[0] = group_node;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index b6d7bb3..8e03a1d 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -784,7 +784,12 @@ enum proc_return fql_distinct(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		switch (group_record(group, *rg_iter)) {
+		/* SELECT may be evaluating the same expressions */
+		pthread_mutex_lock(&group->mutex);
+		int result = group_record(group, *rg_iter);
+		pthread_mutex_unlock(&group->mutex);
+
+		switch (result) {
 		case FQL_FAIL:
 			return PROC_RETURN_FAIL;
 		case 1:
@@ -869,7 +874,15 @@ enum proc_return fql_select(process* proc)
 			break;
 		}
 
-		try_(select->select__(select, *rg_iter));
+		group* distinct = current_select->distinct;
+		if (distinct != NULL) {
+			pthread_mutex_lock(&distinct->mutex);
+		}
+		int result = select->select__(select, *rg_iter);
+		if (distinct != NULL) {
+			pthread_mutex_unlock(&distinct->mutex);
+		}
+		try_(result);
 		_fqlprocess_print_iter_states(proc,
 		                              ((record*)(*rg_iter)->data)->node_idx);
 
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e05c7b1..8f31c4f 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -10,6 +10,7 @@
 struct record;
 struct fqlselect;
 struct inlist;
+struct group;
 typedef int (*select_fn)(struct fqlselect*, struct node*);
 
 struct fqlselect {
@@ -19,6 +20,7 @@ struct fqlselect {
 	struct writer* writer;
 	set* list_data;
 	struct inlist* in_list;
+	struct group* distinct;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
diff --git a/lib/group.c b/lib/group.c
index 5956c52..83151f7 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -18,6 +18,7 @@ group* group_construct(group* self)
 	vec_construct_(&self->group_nulls, bool);
 	//vec_construct_(&self->_roots, dnode*);
 	flex_construct(&self->group_data);
+	pthread_mutex_init(&self->mutex, NULL);
 
 	return self;
 }
@@ -30,6 +31,7 @@ void group_destroy(group* self)
 	vec_destroy(&self->_composite);
 	vec_destroy(&self->group_nulls);
 	flex_destroy(&self->group_data);
+	pthread_mutex_destroy(&self->mutex);
 
 	expression** it = vec_begin(&self->expressions);
 	for (; it != vec_end(&self->expressions); ++it) {
diff --git a/lib/group.h b/lib/group.h
index a6fff6d..7eca3b1 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -1,6 +1,7 @@
 #ifndef GROUP_H
 #define GROUP_H
 
+#include <pthread.h>
 #include "query.h"
 #include "expression.h"
 #include "process.h"
@@ -20,7 +21,8 @@ struct group {
 	struct vec group_nulls; /* bools, parallel to group_data */
 	//struct vec _roots;
 	size_t _dump_idx;
-	bool is_distinct; /* aggregates are values here */
+	pthread_mutex_t mutex; /* DISTINCT evaluates the expressions of SELECT */
+	bool is_distinct;      /* aggregates are values here */
 };
 typedef struct group group;
 
-- 
2.43.0


From 75609f9b5e46386600ea8206db4174d67b327e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 086/104] fix: standard input can be joined to

---
 lib/fixedread.c    |  5 +++--
 lib/fqlplan.c      |  3 +++
 lib/fqlprocesses.c |  2 +-
 lib/libcsvread.c   |  4 ++--
 lib/reader.c       | 16 ++++++++++++++++
 lib/reader.h       |  1 +
 6 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index ecad6b4..11d2c1c 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -158,9 +158,10 @@ int fixedread_reset(reader* reader)
 
 int fixedread_reset_stdin(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
+	try_(reader_stop_stdin(reader));
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
 
-	return fixedread_open(reader, string_c_str(reader->random_access_filename));
+	try_(fixedread_open(reader, string_c_str(reader->random_access_filename)));
+	return fixedread_reset(reader);
 }
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 5a63be5..627b031 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -435,6 +435,9 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				      stderr);
 				return FQL_FAIL;
 			}
+			if (table_iter->is_stdin) {
+				try_(reader_start_file_backed_input(table_iter->reader));
+			}
 			join_proc =
 			        _new_join_proc(table_iter->join_type, "cartesian", self);
 			join_proc->action__ = &fql_cartesian_join;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 8e03a1d..ad7ae97 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -351,7 +351,7 @@ enum proc_return fql_cartesian_join(process* proc)
 			break;
 		}
 		default: { /* eof */
-			reader->reset__(reader);
+			try_(reader->reset__(reader));
 			fifo_consume(in_left);
 			fqlprocess_recycle(proc, iter_left);
 			iter_left = fifo_peek(in_left);
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 0c66c9e..36febe0 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -108,7 +108,7 @@ int libcsv_reset(reader* self)
 
 int libcsv_reset_stdin(reader* self)
 {
-	reader_stop_file_backed_input(self);
+	try_(reader_stop_stdin(self));
 	self->reset__ = libcsv_reset;
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
@@ -116,5 +116,5 @@ int libcsv_reset_stdin(reader* self)
 		return FQL_FAIL;
 	}
 
-	return FQL_GOOD;
+	return libcsv_reset(self);
 }
diff --git a/lib/reader.c b/lib/reader.c
index c77ccd1..be8ac51 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -187,6 +187,22 @@ int reader_start_file_backed_input(reader* self)
 	return FQL_GOOD;
 }
 
+/* The records which came from stdin are read from their file from now on */
+int reader_stop_stdin(reader* self)
+{
+	if (self->random_access_file == NULL) {
+		fputs("Cannot read stdin more than once\n", stderr);
+		return FQL_FAIL;
+	}
+	if (fclose(self->random_access_file)) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
+	/* the header is not in there */
+	self->skip_rows = 0;
+	return reader_stop_file_backed_input(self);
+}
+
 int reader_stop_file_backed_input(reader* self)
 {
 	// Should close on csv_writer_free
diff --git a/lib/reader.h b/lib/reader.h
index b94687a..cca7822 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -47,6 +47,7 @@ int reader_assign_copy(struct reader*, struct table*);
 int reader_reopen(struct reader*);
 size_t reader_get_file_size(struct reader*);
 int reader_start_file_backed_input(struct reader*);
+int reader_stop_stdin(struct reader*);
 int reader_stop_file_backed_input(struct reader*);
 
 
-- 
2.43.0


From 2cccf6c0efa73338c7e65e00c7cf7620f8a28d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 087/104] fix: a failing thread ends the statement, not the
 process

---
 lib/fqlprocesses.c | 28 +++++++++++++++++++++++-----
 lib/process.c      | 16 +++++++++++++---
 lib/process.h      |  1 +
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index ad7ae97..16a2e18 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -14,6 +14,21 @@
 #include "fqlset.h"
 #include "expression.h"
 #include "util/fifo.h"
+#include "writer.h"
+
+/* The end of the input may just be the failure of another thread */
+static bool _is_incomplete(process* proc)
+{
+	return proc->thread_failed != NULL && *proc->thread_failed;
+}
+
+static int _close_writer(process* proc, writer* writer)
+{
+	if (_is_incomplete(proc)) {
+		return FQL_FAIL;
+	}
+	return writer_close(writer);
+}
 
 /* comment this line to print fifo states as it runs */
 #define _fqlprocess_print_iter_states(X_, Y_)
@@ -846,7 +861,7 @@ enum proc_return fql_select(process* proc)
 			}
 			return PROC_RETURN_RUNNING;
 		}
-		try_(writer_close(select->writer));
+		try_(_close_writer(proc, select->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -933,7 +948,7 @@ enum proc_return fql_delete(process* proc)
 	////
 
 	if (!proc->wait_for_in0) {
-		try_(writer_close(delete->writer));
+		try_(_close_writer(proc, delete->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -981,7 +996,7 @@ enum proc_return fql_delete_filter(process* proc)
 
 	if (!proc->wait_for_in0) {
 		try_(fqldelete_write_remaining(delete));
-		try_(writer_close(delete->writer));
+		try_(_close_writer(proc, delete->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -1017,7 +1032,7 @@ enum proc_return fql_update(process* proc)
 	////
 
 	if (!proc->wait_for_in0) {
-		try_(writer_close(update->writer));
+		try_(_close_writer(proc, update->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -1075,7 +1090,7 @@ enum proc_return fql_update_filter(process* proc)
 
 	if (!proc->wait_for_in0) {
 		try_(fqlupdate_write_all(update));
-		try_(writer_close(update->writer));
+		try_(_close_writer(proc, update->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -1105,6 +1120,9 @@ enum proc_return fql_orderby(process* proc)
 	enum proc_return ret = PROC_RETURN_WAIT_ON_IN0;
 
 	if (!in->is_open && fifo_is_empty(in)) {
+		if (_is_incomplete(proc)) {
+			return PROC_RETURN_FAIL;
+		}
 		if (!order->sorted) {
 			try_(order_sort(order));
 		}
diff --git a/lib/process.c b/lib/process.c
index f1306f6..d8e598f 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -388,13 +388,21 @@ void* _thread_exec(void* data)
 	}
 
 	while (self->is_enabled) {
+		if (*self->thread_failed) {
+			process_disable(self);
+			break;
+		}
 		switch (self->action__(self)) {
 		case PROC_RETURN_COMPLETE:
 			process_disable(self);
 			break;
 		case PROC_RETURN_FAIL:
-			/* TODO */
-			exit(EXIT_FAILURE);
+			/* This must be known before the others find
+			 * out that there is nothing more to come.
+			 */
+			*self->thread_failed = true;
+			process_disable(self);
+			break;
 		case PROC_RETURN_WAIT_ON_IN0:
 			if (self->fifo_in[0]->is_open
 			    && fifo_is_empty(self->fifo_in[0])) {
@@ -562,6 +570,7 @@ int process_exec_plan_thread(plan* plan, fqlhandle* fql)
 	vec_construct_(&tdata_vec, struct thread_data);
 	vec_resize(&tdata_vec, proc_graph->nodes->size);
 
+	_Atomic bool thread_failed = false;
 	unsigned i = 0;
 
 	for (; i < tdata_vec.size; ++i) {
@@ -571,6 +580,7 @@ int process_exec_plan_thread(plan* plan, fqlhandle* fql)
 		tdata->plan = plan;
 		process* proc = (*proc_node)->data;
 		proc->is_threading = true;
+		proc->thread_failed = &thread_failed;
 		if (pthread_create(&proc->thread, &attr, _thread_exec, tdata)) {
 			/* TODO */
 			fputs("pthread_create fail\n", stderr);
@@ -592,5 +602,5 @@ int process_exec_plan_thread(plan* plan, fqlhandle* fql)
 	vec_destroy(&tdata_vec);
 	plan->is_complete = true;
 
-	return ret;
+	return thread_failed ? FQL_FAIL : ret;
 }
diff --git a/lib/process.h b/lib/process.h
index 777db41..d8669a0 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -43,6 +43,7 @@ struct process {
 	unsigned short out_src_count; /* number of output sources at this step */
 	short root_fifo;              /* index of root for fifo_in[x] */
 	short killed_pipe;            /* start a process with a closed pipe */
+	_Atomic bool* thread_failed;  /* has any thread failed? */
 	_Atomic bool is_enabled;      /* enabled means it still has work to do*/
 	bool is_secondary;            /* fifo_out0 should link to a fifo_in1 */
 	bool is_dual_link;            /* both fifo_out link both fifo_in */
-- 
2.43.0


From 14be048ec52923d76db1136478ace459afd09cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 088/104] fix: ORDER BY and SELECT do not evaluate the shared
 expressions at the same time

---
 lib/fqlplan.c      |  3 ++-
 lib/fqlprocesses.c | 33 +++++++++++++++++++++++----------
 lib/fqlselect.c    |  2 ++
 lib/fqlselect.h    |  4 ++--
 lib/group.c        |  2 --
 lib/group.h        |  5 ++---
 lib/order.h        |  1 +
 7 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 627b031..d5b2277 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -513,7 +513,7 @@ void _group(plan* self, query* query)
 		group_proc->action__ = &fql_distinct;
 		group_proc->proc_data = query->distinct;
 		if (*(enum fql_operation*)query->op == FQL_SELECT) {
-			((fqlselect*)query->op)->distinct = query->distinct;
+			query->distinct->select = query->op;
 		}
 		group_cat_description(query->distinct, group_proc);
 		dnode* group_node = dgraph_add_data(self->processes, group_proc);
@@ -617,6 +617,7 @@ void _order(plan* self, query* query)
 	_check_all_for_special_expression(self, order_proc, &query->orderby->expressions);
 	order_proc->action__ = &fql_orderby;
 	order_proc->proc_data = query->orderby;
+	query->orderby->select = query->op;
 	order_cat_description(query->orderby, order_proc);
 	dnode* order_node = dgraph_add_data(self->processes, order_proc);
 	self->current->out[0] = order_node;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 16a2e18..0e0731a 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -30,6 +30,20 @@ static int _close_writer(process* proc, writer* writer)
 	return writer_close(writer);
 }
 
+static void _lock_expressions(fqlselect* select)
+{
+	if (select != NULL) {
+		pthread_mutex_lock(&select->mutex);
+	}
+}
+
+static void _unlock_expressions(fqlselect* select)
+{
+	if (select != NULL) {
+		pthread_mutex_unlock(&select->mutex);
+	}
+}
+
 /* comment this line to print fifo states as it runs */
 #define _fqlprocess_print_iter_states(X_, Y_)
 
@@ -800,9 +814,9 @@ enum proc_return fql_distinct(process* proc)
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
 		/* SELECT may be evaluating the same expressions */
-		pthread_mutex_lock(&group->mutex);
+		_lock_expressions(group->select);
 		int result = group_record(group, *rg_iter);
-		pthread_mutex_unlock(&group->mutex);
+		_unlock_expressions(group->select);
 
 		switch (result) {
 		case FQL_FAIL:
@@ -889,14 +903,9 @@ enum proc_return fql_select(process* proc)
 			break;
 		}
 
-		group* distinct = current_select->distinct;
-		if (distinct != NULL) {
-			pthread_mutex_lock(&distinct->mutex);
-		}
+		_lock_expressions(current_select);
 		int result = select->select__(select, *rg_iter);
-		if (distinct != NULL) {
-			pthread_mutex_unlock(&distinct->mutex);
-		}
+		_unlock_expressions(current_select);
 		try_(result);
 		_fqlprocess_print_iter_states(proc,
 		                              ((record*)(*rg_iter)->data)->node_idx);
@@ -1138,7 +1147,11 @@ enum proc_return fql_orderby(process* proc)
 	node** rg_iter = fifo_begin(in);
 	for (; iters++ < proc->max_recs_iter && rg_iter != fifo_end(in);
 	     rg_iter = fifo_iter(in)) {
-		try_(order_add_record(order, *rg_iter));
+		fqlselect* select = order->select->current_select;
+		_lock_expressions(select);
+		int result = order_add_record(order, *rg_iter);
+		_unlock_expressions(select);
+		try_(result);
 		_fqlprocess_print_iter_states(proc, -1);
 		fqlprocess_recycle(proc, rg_iter);
 	}
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index fbbce6c..4008afd 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -35,6 +35,7 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	};
 
 	self->current_select = self;
+	pthread_mutex_init(&self->mutex, NULL);
 
 	return self;
 }
@@ -45,6 +46,7 @@ void fqlselect_destroy(fqlselect* self)
 		return;
 	}
 
+	pthread_mutex_destroy(&self->mutex);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
 	if (self->header_as_exprs == NULL) {
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 8f31c4f..ececbfc 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -1,6 +1,7 @@
 #ifndef SELECT_H
 #define SELECT_H
 
+#include <pthread.h>
 #include "query.h"
 #include "writer.h"
 #include "schema.h"
@@ -10,7 +11,6 @@
 struct record;
 struct fqlselect;
 struct inlist;
-struct group;
 typedef int (*select_fn)(struct fqlselect*, struct node*);
 
 struct fqlselect {
@@ -20,7 +20,7 @@ struct fqlselect {
 	struct writer* writer;
 	set* list_data;
 	struct inlist* in_list;
-	struct group* distinct;
+	pthread_mutex_t mutex; /* DISTINCT and ORDER BY evaluate our expressions */
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
diff --git a/lib/group.c b/lib/group.c
index 83151f7..5956c52 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -18,7 +18,6 @@ group* group_construct(group* self)
 	vec_construct_(&self->group_nulls, bool);
 	//vec_construct_(&self->_roots, dnode*);
 	flex_construct(&self->group_data);
-	pthread_mutex_init(&self->mutex, NULL);
 
 	return self;
 }
@@ -31,7 +30,6 @@ void group_destroy(group* self)
 	vec_destroy(&self->_composite);
 	vec_destroy(&self->group_nulls);
 	flex_destroy(&self->group_data);
-	pthread_mutex_destroy(&self->mutex);
 
 	expression** it = vec_begin(&self->expressions);
 	for (; it != vec_end(&self->expressions); ++it) {
diff --git a/lib/group.h b/lib/group.h
index 7eca3b1..e14c137 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -1,7 +1,6 @@
 #ifndef GROUP_H
 #define GROUP_H
 
-#include <pthread.h>
 #include "query.h"
 #include "expression.h"
 #include "process.h"
@@ -21,8 +20,8 @@ struct group {
 	struct vec group_nulls; /* bools, parallel to group_data */
 	//struct vec _roots;
 	size_t _dump_idx;
-	pthread_mutex_t mutex; /* DISTINCT evaluates the expressions of SELECT */
-	bool is_distinct;      /* aggregates are values here */
+	struct fqlselect* select; /* DISTINCT evaluates its expressions */
+	bool is_distinct; /* aggregates are values here */
 };
 typedef struct group group;
 
diff --git a/lib/order.h b/lib/order.h
index b8cd776..49cb149 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -24,6 +24,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct fqlselect* select;
 	struct fqlselect* union_select;
 	struct inlist* in_list;
 	FILE* out_file;
-- 
2.43.0


From 7ae5676241acf07bd3ea16059e40d2ecb30d6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 089/104] fix: records added right before a fifo is closed are
 not lost

---
 lib/fqlprocesses.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 0e0731a..a8ccd1e 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -267,8 +267,10 @@ enum proc_return fql_read(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	//if (fifo_is_empty(in) && (proc->root_fifo == 0 || vec_empty(proc->inbuf))) {
+	/* Check this first: the last records are added before it is closed */
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (!is_open) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -325,8 +327,9 @@ enum proc_return fql_cartesian_join(process* proc)
 	fifo* in_left = proc->fifo_in[0];
 	fifo* in_right = proc->fifo_in[1];
 
+	bool is_open = in_left->is_open;
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (!is_open) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -519,8 +522,9 @@ enum proc_return fql_hash_join(process* proc)
 	////
 
 	if (hj->state == SIDE_RIGHT) {
+		bool is_open = in_right->is_open;
 		if (fifo_is_empty(in_right)) {
-			if (!in_right->is_open) {
+			if (!is_open) {
 				hj->state = SIDE_LEFT;
 				table->reader->reset__(table->reader);
 				return PROC_RETURN_RUNNING;
@@ -538,8 +542,9 @@ enum proc_return fql_hash_join(process* proc)
 		return PROC_RETURN_WAIT_ON_OUT0;
 	}
 
+	bool is_open = in_left->is_open;
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (!is_open) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -643,8 +648,9 @@ enum proc_return fql_logic(process* proc)
 	}
 
 	fifo* in = proc->fifo_in[0];
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (!is_open) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -793,9 +799,10 @@ enum proc_return fql_distinct(process* proc)
 	}
 
 	fifo* in = proc->fifo_in[0];
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
 		// hmmm... this may be impossible...
-		if (proc->wait_for_in0 && !in->is_open) {
+		if (proc->wait_for_in0 && !is_open) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -879,8 +886,9 @@ enum proc_return fql_select(process* proc)
 		return PROC_RETURN_COMPLETE;
 	}
 
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
-		if (proc->wait_for_in0 && in->is_open) {
+		if (proc->wait_for_in0 && is_open) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -945,8 +953,9 @@ enum proc_return fql_delete(process* proc)
 {
 	fifo* in = proc->fifo_in[0];
 
+	bool is_open = in->is_open;
 	if (proc->wait_for_in0 && fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (is_open) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -994,8 +1003,9 @@ enum proc_return fql_delete_filter(process* proc)
 	fifo* in = proc->fifo_in[0];
 	fqldelete* delete = proc->proc_data;
 
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (is_open) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1028,8 +1038,9 @@ enum proc_return fql_update(process* proc)
 
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
+	bool is_open = in_true->is_open || in_false->is_open;
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
+		if (is_open) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
@@ -1088,8 +1099,9 @@ enum proc_return fql_update_filter(process* proc)
 	fifo* in = proc->fifo_in[0];
 	fqlupdate* update = proc->proc_data;
 
+	bool is_open = in->is_open;
 	if (fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (is_open) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
-- 
2.43.0


From 19961b524470440a17b382c36809fa05d25b3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 090/104] fix: no thread is left waiting for a fifo

---
 util/fifo.c | 88 ++++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index bacef74..36ecdb8 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -3,7 +3,7 @@
 
 #define _idx_adv_(idx_) idx_ = (idx_ + 1) % self->buf->size;
 
-bool _fifo_signal_shared(fifo* restrict self);
+void _fifo_signal_shared(fifo* restrict self);
 
 fifo* fifo_construct(fifo* restrict self, size_t elem_size, unsigned buf_size)
 {
@@ -78,15 +78,11 @@ void fifo_set_open(fifo* restrict self, int is_open)
 
 	pthread_cond_broadcast(&self->cond_get);
 	pthread_cond_broadcast(&self->cond_add);
-	if (self->shared_mutex_fifo != NULL) {
-		pthread_mutex_lock(&self->shared_mutex_fifo->head_mutex);
-		pthread_cond_broadcast(&self->shared_mutex_fifo->cond_add);
-		pthread_mutex_unlock(&self->shared_mutex_fifo->head_mutex);
-		self->shared_mutex_fifo = NULL;
-	}
 
 	pthread_mutex_unlock(&self->head_mutex);
 	pthread_mutex_unlock(&self->tail_mutex);
+
+	_fifo_signal_shared(self);
 }
 
 unsigned fifo_available(const fifo* restrict self)
@@ -122,15 +118,12 @@ void fifo_set_full(fifo* restrict self)
 
 void* fifo_get_or_wait(fifo* restrict self)
 {
-	pthread_mutex_lock(&self->tail_mutex);
-	while (!fifo_available(self)) {
-		fifo_wait_for_add(self);
+	/* only the consumer moves the tail, no need to lock out fifo_set_open */
+	fifo_wait_for_add(self);
+	if (fifo_is_empty(self)) {
+		return NULL;
 	}
-	void* data = fifo_peek(self);
-	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
-	pthread_mutex_unlock(&self->tail_mutex);
-	return data;
+	return fifo_get(self);
 }
 
 void* fifo_get(fifo* restrict self)
@@ -138,7 +131,7 @@ void* fifo_get(fifo* restrict self)
 	pthread_mutex_lock(&self->tail_mutex);
 	void* data = fifo_peek(self);
 	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 	return data;
 }
@@ -174,7 +167,7 @@ int fifo_nget(fifo* restrict self,
 
 	self->tail = new_tail;
 
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 
 	/* Return what we *know* is available */
@@ -214,7 +207,7 @@ void fifo_consume(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
 	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 
@@ -224,8 +217,8 @@ void fifo_add(fifo* restrict self, void* restrict data)
 	vec_set_at(self->buf, self->head, data, 1);
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(self);
 }
 
 int fifo_add_try(fifo* restrict self, void* restrict data)
@@ -237,8 +230,8 @@ int fifo_add_try(fifo* restrict self, void* restrict data)
 	vec_set_at(self->buf, self->head, data, 1);
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(self);
 	return 0;
 }
 
@@ -269,8 +262,8 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	self->head = new_head;
 
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(self);
 
 	if (transfer_count == src->size) {
 		vec_clear(src);
@@ -308,8 +301,8 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 	self->head = new_head;
 
 	pthread_cond_signal(&self->cond_add);
-	_fifo_signal_shared(self);
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(self);
 
 	if (transfer_count == src->size) {
 		vec_clear(src);
@@ -326,6 +319,7 @@ void fifo_advance(fifo* restrict self)
 	_idx_adv_(self->head);
 	pthread_cond_signal(&self->cond_add);
 	pthread_mutex_unlock(&self->head_mutex);
+	_fifo_signal_shared(self);
 }
 
 
@@ -350,7 +344,7 @@ void* fifo_end(const fifo* restrict self)
 void fifo_update(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 int fifo_update_try(fifo* restrict self)
@@ -359,7 +353,7 @@ int fifo_update_try(fifo* restrict self)
 	if (ret != 0) {
 		return ret;
 	}
-	pthread_cond_signal(&self->cond_get);
+	pthread_cond_broadcast(&self->cond_get);
 	pthread_mutex_unlock(&self->tail_mutex);
 	return 0;
 }
@@ -374,53 +368,59 @@ void fifo_wait_for_add(fifo* restrict self)
 	pthread_mutex_unlock(&self->head_mutex);
 }
 
+/* A thread which waits for two fifos does so with the head_mutex and cond_add
+ * of f1. f0 refers to f1 for as long as that takes. To signal through that
+ * reference, the head_mutex of f0 must have been given back: the two are never
+ * held together. The waiting thread looks at f0 after it has put the reference
+ * there, so whoever does not see it has added something that is seen here.
+ */
+static void _fifo_share(fifo* restrict f0, fifo* restrict f1)
+{
+	pthread_mutex_lock(&f0->head_mutex);
+	f0->shared_mutex_fifo = f1;
+	pthread_mutex_unlock(&f0->head_mutex);
+}
+
 void fifo_wait_for_add_either(fifo* restrict f0, fifo* restrict f1)
 {
-	//pthread_mutex_lock(&f0->head_mutex);
+	_fifo_share(f0, f1);
 	pthread_mutex_lock(&f1->head_mutex);
-	while (f1->is_open && fifo_is_empty(f1)) {
-		pthread_mutex_lock(&f0->head_mutex);
-		if (!f0->is_open || !fifo_is_empty(f0)) {
-			pthread_mutex_unlock(&f0->head_mutex);
-			break;
-		}
-		f0->shared_mutex_fifo = f1;
-		pthread_mutex_unlock(&f0->head_mutex);
+	while (f0->is_open && f1->is_open && fifo_is_empty(f0) && fifo_is_empty(f1)) {
 		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
-		f0->shared_mutex_fifo = NULL;
 	}
 	pthread_mutex_unlock(&f1->head_mutex);
-	//pthread_mutex_unlock(&f0->head_mutex);
+	_fifo_share(f0, NULL);
 }
 
 void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
 {
-	while (f1->is_open && f0->is_open && (fifo_is_empty(f0) || fifo_is_empty(f1))) {
-		fifo_wait_for_add(f0);
-		fifo_wait_for_add(f1);
+	_fifo_share(f0, f1);
+	pthread_mutex_lock(&f1->head_mutex);
+	while (f0->is_open && f1->is_open && (fifo_is_empty(f0) || fifo_is_empty(f1))) {
+		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
 	}
+	pthread_mutex_unlock(&f1->head_mutex);
+	_fifo_share(f0, NULL);
 }
 
 void fifo_wait_for_get(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
-	while (!fifo_receivable(self)) {
+	while (self->is_open && !fifo_receivable(self)) {
 		pthread_cond_wait(&self->cond_get, &self->tail_mutex);
 	}
 	pthread_mutex_unlock(&self->tail_mutex);
 }
 
-bool _fifo_signal_shared(fifo* restrict self)
+void _fifo_signal_shared(fifo* restrict self)
 {
 	fifo* shared = self->shared_mutex_fifo;
 	if (shared == NULL) {
-		return false;
+		return;
 	}
 	pthread_mutex_lock(&shared->head_mutex);
-	pthread_cond_signal(&shared->cond_add);
+	pthread_cond_broadcast(&shared->cond_add);
 	pthread_mutex_unlock(&shared->head_mutex);
-	self->shared_mutex_fifo = NULL;
-	return true;
 }
 
 
-- 
2.43.0


From 0eff97f45129641e4fafe7e38ef827651a698f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 091/104] fix: a table in a directory which does not exist
 fails the query, not the process

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index a21594b..ac8b977 100644
--- a/util/util.c
+++ b/util/util.c
@@ -197,7 +197,7 @@ node* dir_list_files(const char* restrict dir)
 	dr = opendir(dir); //open all or present directory
 	if (!dr) {
 		perror(dir);
-		exit(EXIT_FAILURE);
+		return NULL;
 	}
 
 	while ((en = readdir(dr)) != NULL) {
-- 
2.43.0


From 40c7cc2b8dbabf63ac90ac1ba1ce903b7536be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 092/104] fix: ORDER BY does not accept a column of a table
 which is not in the query

---
 lib/order.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index cba80c5..f04024f 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -178,6 +178,18 @@ void order_set_in_list(order* self, inlist* list)
 	self->select__ = &_order_select_to_list;
 }
 
+static bool _is_source_of(query* query, const char* qualifier)
+{
+	unsigned i = 0;
+	for (; i < query->sources->size; ++i) {
+		table* source = vec_at(query->sources, i);
+		if (istring_eq(qualifier, source->alias.data)) {
+			return true;
+		}
+	}
+	return false;
+}
+
 int order_preresolve_expressions(order* self, query* query)
 {
 	fqlselect* select = query->op;
@@ -218,7 +230,9 @@ int order_preresolve_expressions(order* self, query* query)
 		case EXPR_REFERENCE:
 		case EXPR_FULL_RECORD:
 		case EXPR_COLUMN_NAME: {
-			if (!match_qualified && !string_empty(&(*it)->table_name)) {
+			if (!string_empty(&(*it)->table_name)
+			    && (!match_qualified
+			        || !_is_source_of(query, (*it)->table_name.data))) {
 				break;
 			}
 			vec* exprs = multimap_get(select_map, (*it)->alias.data);
-- 
2.43.0


From 89a3aa10d3390deadae7791f8053590d6a7ec846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 093/104] fix: SET does not accept a column of a table which is
 not updated

---
 lib/fqlupdate.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index c363d46..8b3e69b 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -206,6 +206,16 @@ int fqlupdate_resolve_additional(fqlupdate* self, query* query)
 	unsigned i = 0;
 	for (; i < self->set_columns.size; ++i) {
 		expression** update_col = vec_at(&self->set_columns, i);
+		string* qualifier = &(*update_col)->table_name;
+		if (!string_empty(qualifier)
+		    && !istring_eq(qualifier->data, update_table->alias.data)
+		    && !istring_eq(qualifier->data, update_table->name.data)) {
+			fprintf(stderr,
+			        "set column `%s' does not belong to the updated table\n",
+			        string_c_str(&(*update_col)->name));
+			return FQL_FAIL;
+		}
+
 		vec* matches = multimap_get(update_table->schema->expr_map,
 		                            string_c_str(&(*update_col)->name));
 		if (matches == NULL) {
-- 
2.43.0


From 063aabd07c03c01e010e5493c2e8f3de49db9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 094/104] fix: output options and statements without output do
 not crash

---
 lib/schema.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index f1b6675..ff06dd2 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1633,11 +1633,14 @@ int schema_resolve(struct fqlhandle* fql)
 			(*it)->next_idx_ref = NULL;
 		}
 
-		if (fql->_out_delim_set) {
+		/* SET, IF and WHILE do not write anything */
+		bool has_output = (op_get_schema((*it)->op) != NULL);
+
+		if (has_output && fql->_out_delim_set) {
 			op_set_delim((*it)->op, fql->props.out_delim);
 		}
 
-		if (fql->props.rec_terminator[0]) {
+		if (has_output && fql->props.rec_terminator[0]) {
 			op_set_rec_terminator((*it)->op, fql->props.rec_terminator);
 		}
 
-- 
2.43.0


From 33ac934b7562caf0b104000ce4a5ad37b8ea1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 095/104] fix: UPDATE or DELETE of a table which is not in the
 query is an error

---
 lib/operation.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index d6b3d64..db1ec92 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -400,11 +400,35 @@ int op_reset(query* query, bool has_executed)
 	return FQL_GOOD;
 }
 
+/* UPDATE and DELETE must name a file out of the tables of the query */
+static int _check_target(query* query, unsigned table_idx)
+{
+	if (table_idx >= query->sources->size) {
+		fprintf(stderr,
+		        "%s: cannot find table to modify\n",
+		        op_get_table_name(query->op));
+		return FQL_FAIL;
+	}
+
+	table* target = vec_at(query->sources, table_idx);
+	if (target->source_type != SOURCE_TABLE || target->is_stdin) {
+		fputs("Can only modify a file\n", stderr);
+		return FQL_FAIL;
+	}
+	return FQL_GOOD;
+}
+
 int op_writer_init(struct query* query)
 {
 	enum fql_operation* self = query->op;
 	schema* op_schema = op_get_schema(query->op);
 
+	if (*self == FQL_UPDATE) {
+		try_(_check_target(query, ((fqlupdate*)self)->table_idx));
+	} else if (*self == FQL_DELETE) {
+		try_(_check_target(query, ((fqldelete*)self)->table_idx));
+	}
+
 	if (op_schema != NULL && !query->union_id) {
 		writer* op_writer = new_(writer, op_schema->write_io_type, query->fqlref);
 		op_set_writer(query->op, op_writer);
-- 
2.43.0


From 2068d88b7ecfd224ce8237043a5f4af268902790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 096/104] fix: UPDATE and DELETE write every record in the
 format of the output

---
 lib/operation.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index db1ec92..a0602d4 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -418,6 +418,21 @@ static int _check_target(query* query, unsigned table_idx)
 	return FQL_GOOD;
 }
 
+/* The records which UPDATE and DELETE leave as they are can only be
+ * copied if the file is written in the format in which it is read.
+ */
+static bool _can_copy_records(query* query, schema* op_schema)
+{
+	expression** asterisk = vec_begin(op_schema->expressions);
+	table* table = vec_at(query->sources, (*asterisk)->src_idx);
+
+	if (table->reader->type != IO_LIBCSV || op_schema->write_io_type != IO_LIBCSV) {
+		return true;
+	}
+	return query->fqlref->props.in_std == query->fqlref->props.out_std
+	    && string_eq(table->schema->delimiter, op_schema->delimiter);
+}
+
 int op_writer_init(struct query* query)
 {
 	enum fql_operation* self = query->op;
@@ -445,6 +460,11 @@ int op_writer_init(struct query* query)
 		return FQL_GOOD;
 	}
 
+	if ((*self == FQL_UPDATE || *self == FQL_DELETE)
+	    && !_can_copy_records(query, op_schema)) {
+		op_expand_asterisks(query, true);
+	}
+
 	if (*self == FQL_UPDATE) {
 		fqlupdate* update = (fqlupdate*)self;
 		table* update_table = vec_at(query->sources, update->table_idx);
-- 
2.43.0


From 53a65502ab64ed31a9b3b11766f758d199fb84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 097/104] fix: fql_step past the last statement or on a
 statement without records

---
 lib/libfql.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index bd335be..fe8e9da 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -28,6 +28,7 @@
  * not know the size of fqlhandle.
  */
 fqlhandle* fql_construct(fqlhandle* fql);
+query* _get_active_query(fqlhandle* fql);
 
 fqlhandle* fql_new()
 {
@@ -643,12 +644,17 @@ void _free_api_strings(vec* api)
 
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
+	if (_get_active_query(fql) == NULL) {
+		/* all of them have been stepped through */
+		return FQL_GOOD;
+	}
+
 	query** query = vec_at(fql->query_vec, fql->query_idx);
 	struct fqlplan* plan = (*query)->plan;
 	int ret = 0;
 	if (!plan->has_stepped) {
 		if (vec_empty(fql->api_vec)) {
-			_api_connect(fql);
+			try_(_api_connect(fql));
 		}
 		plan->has_stepped = true;
 
-- 
2.43.0


From 0475b08b46bed6099d57d4b55826bd750e5eea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 098/104] fix: an unfinished script is dropped when the next
 one is planned

---
 lib/libfql.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index fe8e9da..66e767f 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -29,6 +29,7 @@
  */
 fqlhandle* fql_construct(fqlhandle* fql);
 query* _get_active_query(fqlhandle* fql);
+void _free_api_strings(vec* api);
 
 fqlhandle* fql_new()
 {
@@ -158,6 +159,9 @@ int libfql_set_variable_limit(fqlhandle* fql, int var_idx, const char* limit_str
 
 int fql_reset(fqlhandle* fql)
 {
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
 	query** it = vec_begin(fql->query_vec);
 	for (; it != vec_end(fql->query_vec); ++it) {
 		delete_(query, *it);
@@ -605,6 +609,11 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 		fprintf(stderr, "\n[fql] Making Plan for:\n%s\n", query_str);
 	}
 
+	/* If there is a script which was not run to its end, drop it */
+	if (!vec_empty(fql->query_vec)) {
+		fql_reset(fql);
+	}
+
 	if (fql->query_str) {
 		free_(fql->query_str);
 	}
-- 
2.43.0


From 106b5c29d2ebea5798b59f62129400d5c02e41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 099/104] fix: fields connected to the library interface are
 disconnected when a statement is executed

---
 lib/fqlselect.c | 12 +++++++++++-
 lib/fqlselect.h |  1 +
 lib/libfql.c    | 25 +++++++++++++++++++++++--
 lib/order.c     | 10 ++++++++++
 lib/order.h     |  1 +
 5 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 4008afd..bb4528d 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -166,7 +166,7 @@ int fqlselect_connect_api(query* query, vec* api)
 			try_(fqlselect_resolve_type_from_subquery(*it));
 		}
 		struct fql_field* field = vec_at(api, i);
-		field->is_null = false;
+		*field = (struct fql_field) {0};
 		switch (it[i]->field_type) {
 		case FIELD_INT:
 			field->type = FQL_INT;
@@ -188,6 +188,16 @@ int fqlselect_connect_api(query* query, vec* api)
 	return FQL_GOOD;
 }
 
+void fqlselect_disconnect_api(query* query)
+{
+	fqlselect* self = query->op;
+	if (self->api == NULL) {
+		return;
+	}
+	self->select__ = &_select_record;
+	self->api = NULL;
+}
+
 void fqlselect_apply_process(query* query, plan* plan, bool is_subquery_source)
 {
 	fqlselect* self = query->op;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index ececbfc..85f8e39 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -42,6 +42,7 @@ void fqlselect_destroy(struct fqlselect*);
 unsigned fqlselect_get_field_count(struct fqlselect*, const struct vec*);
 void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
+void fqlselect_disconnect_api(struct query*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
diff --git a/lib/libfql.c b/lib/libfql.c
index 66e767f..6ef5f71 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -184,6 +184,26 @@ int fql_reset(fqlhandle* fql)
 	return FQL_GOOD;
 }
 
+/* A statement which is executed prints its records */
+void _api_disconnect(fqlhandle* fql)
+{
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
+	query* active_query = _get_active_query(fql);
+	if (active_query == NULL) {
+		return;
+	}
+	enum fql_operation* op = active_query->op;
+	if (*op != FQL_SELECT) {
+		return;
+	}
+	fqlselect_disconnect_api(active_query);
+	if (active_query->orderby != NULL) {
+		order_disconnect_api(active_query);
+	}
+}
+
 int _api_connect(fqlhandle* fql)
 {
 	query** query = vec_at(fql->query_vec, fql->query_idx);
@@ -550,6 +570,8 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 			return FQL_FAIL;
 		}
 
+		_api_disconnect(fql);
+
 		if (fql->props.verbosity > FQL_BASIC) {
 			fprintf(stderr, "EXEC: %s\n", string_c_str((*query)->text));
 		}
@@ -692,8 +714,7 @@ _step_fail_break:
 
 	plan->has_stepped = false;
 
-	_free_api_strings(fql->api_vec);
-	vec_clear(fql->api_vec);
+	_api_disconnect(fql);
 
 	fql->query_idx = (*query)->next_idx;
 
diff --git a/lib/order.c b/lib/order.c
index f04024f..292c3f2 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -309,6 +309,16 @@ void order_connect_api(query* query, vec* api_vec)
 	self->api = api_vec;
 }
 
+void order_disconnect_api(query* query)
+{
+	order* self = query->orderby;
+	if (self->api == NULL) {
+		return;
+	}
+	self->select__ = &_order_select;
+	self->api = NULL;
+}
+
 int order_add_expression(order* self, expression* expr)
 {
 	if (self == NULL) {
diff --git a/lib/order.h b/lib/order.h
index 49cb149..1fca572 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -48,6 +48,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
+void order_disconnect_api(struct query*);
 int order_preresolve_expressions(struct order*, struct query*);
 int order_set_union(struct order*, struct fqlselect*);
 int order_add_record(struct order*, struct node*);
-- 
2.43.0


From 6228e150c67ec41ab92ac4a5e22459c1d6189008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 100/104] fix: an interrupt while an ORDER BY starts again
 leaves no temporary file

---
 lib/order.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 292c3f2..72c9633 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -150,15 +150,16 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 	vec_clear(&self->entries);
 	flex_clear(&self->order_data);
 
-	if (self->temp_node != NULL) {
-		_order_unmap(self);
-		fqlsig_tmp_remove_node_and_file(self->temp_node);
-		self->temp_node = NULL;
-	}
-
+	/* track the new file first, in case we are interrupted in between */
+	node* old_temp_node = self->temp_node;
 	string_strcpy(&self->in_filename, in_name);
 	self->temp_node = fqlsig_tmp_push(string_c_str(&self->in_filename));
 
+	if (old_temp_node != NULL) {
+		_order_unmap(self);
+		fqlsig_tmp_remove_node_and_file(old_temp_node);
+	}
+
 	if (out_name != NULL) {
 		_order_reset_output(self);
 		try_(_order_open_output(self, out_name));
-- 
2.43.0


From 210909c3ff6d5f1d3be91a9fdb4313aa7bee1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 101/104] fix: ORDER BY fails when its temporary file cannot be
 created instead of crashing

---
 lib/operation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index a0602d4..548cfe2 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -392,6 +392,11 @@ int op_reset(query* query, bool has_executed)
 	if (!query->union_id && query->orderby != NULL) {
 		char* out_name = writer_take_filename(op_writer);
 		const char* in_name = writer_export_temp(op_writer);
+		if (in_name == NULL) {
+			perror("ORDER BY");
+			free_if_exists_(out_name);
+			return FQL_FAIL;
+		}
 		try_(order_init_io(query->orderby, in_name, out_name));
 		free_(in_name);
 		free_(out_name);
-- 
2.43.0


From a092b999309ee405c3b429495b44f069e6b7ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 102/104] fix: temporary files of tables read again are tracked
 from their creation

---
 lib/reader.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/reader.c b/lib/reader.c
index be8ac51..6c2a53c 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -169,14 +169,19 @@ int reader_mktmp(reader* self)
 	string_strcpy(self->random_access_filename, "./read_XXXXXX");
 
 	int fd = mkstemp(self->random_access_filename->data);
-	self->random_access_file = fdopen(fd, "w");
-	if (!self->random_access_file) {
+	if (fd == -1) {
 		perror(string_c_str(self->random_access_filename));
 		return FQL_FAIL;
 	}
 
 	self->random_access_tempnode =
 	        fqlsig_tmp_push(string_c_str(self->random_access_filename));
+
+	self->random_access_file = fdopen(fd, "w");
+	if (!self->random_access_file) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
 	return FQL_GOOD;
 }
 
-- 
2.43.0


From cf70e4b8561a3db17d4b669ecd90b36f844dd872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 103/104] fix: write errors of temporary files behind joined
 tables fail the statement

---
 lib/fqlprocesses.c | 2 +-
 lib/reader.c       | 5 ++++-
 lib/subquery.c     | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index a8ccd1e..f3fa515 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -526,7 +526,7 @@ enum proc_return fql_hash_join(process* proc)
 		if (fifo_is_empty(in_right)) {
 			if (!is_open) {
 				hj->state = SIDE_LEFT;
-				table->reader->reset__(table->reader);
+				try_(table->reader->reset__(table->reader));
 				return PROC_RETURN_RUNNING;
 			}
 			return PROC_RETURN_WAIT_ON_IN1;
diff --git a/lib/reader.c b/lib/reader.c
index 6c2a53c..43ecff3 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -199,7 +199,10 @@ int reader_stop_stdin(reader* self)
 		fputs("Cannot read stdin more than once\n", stderr);
 		return FQL_FAIL;
 	}
-	if (fclose(self->random_access_file)) {
+	bool failed = ferror(self->random_access_file) != 0;
+	failed |= fclose(self->random_access_file) != 0;
+	if (failed) {
+		self->random_access_file = NULL;
 		perror(string_c_str(self->random_access_filename));
 		return FQL_FAIL;
 	}
diff --git a/lib/subquery.c b/lib/subquery.c
index f1f83f5..5369a8c 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -216,6 +216,12 @@ int subquery_reset_from_join(reader* reader)
 {
 	subquery* self = reader->reader_data;
 
+	if (fflush(reader->random_access_file)
+	    || ferror(reader->random_access_file)) {
+		perror(string_c_str(reader->random_access_filename));
+		return FQL_FAIL;
+	}
+
 	reader_stop_file_backed_input(reader);
 	csv_writer_free(reader->subquery_writer);
 	reader->subquery_writer = NULL;
-- 
2.43.0


From 6b65f3b7b5ccbe45cdce9fb81bcbe3cf1225ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:48 +0000
Subject: [PATCH 104/104] fix: fixed-width output: ORDER BY freed its file name
 twice, failures left the temporary file, write errors were ignored

---
 lib/fixedwrite.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..b1f6ffa 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -26,6 +26,13 @@ fixedwriter* fixedwriter_construct(fixedwriter* self)
 
 void fixedwriter_destroy(fixedwriter* self)
 {
+	/* the output was never completed */
+	if (self->file != NULL && self->file != stdout) {
+		fclose(self->file);
+	}
+	if (self->tempnode != NULL) {
+		fqlsig_tmp_remove_node_and_file(self->tempnode);
+	}
 	string_destroy(&self->tempname);
 	string_destroy(&self->filename);
 	string_destroy(&self->buffer);
@@ -52,13 +59,18 @@ int _mktmp(fixedwriter* self)
 	}
 
 	int fd = mkstemp(self->tempname.data);
-	self->file = fdopen(fd, "w");
-	if (!self->file) {
+	if (fd == -1) {
 		perror(string_c_str(&self->tempname));
 		return FQL_FAIL;
 	}
 
 	self->tempnode = fqlsig_tmp_push(string_c_str(&self->tempname));
+
+	self->file = fdopen(fd, "w");
+	if (!self->file) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	return FQL_GOOD;
 }
 bool _isopen(fixedwriter* self)
@@ -80,8 +92,13 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	bool failed = ferror(self->file) != 0;
+	failed |= fclose(self->file) != 0;
 	self->file = NULL;
+	if (failed) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 
 	if (self->is_detached) {
 		self->is_detached = false;
@@ -122,22 +139,6 @@ char* fixedwriter_take_filename(fixedwriter* self)
 	return string_export(&self->filename);
 }
 
-const char* _get_filename(fixedwriter* self)
-{
-	string* filename = NULL;
-	if (self->is_detached) {
-		filename = &self->tempname;
-		self->tempnode = NULL;
-	} else {
-		filename = &self->filename;
-	}
-
-	if (string_empty(filename)) {
-		return NULL;
-	}
-	return string_c_str(filename);
-}
-
 const char* fixedwriter_export_temp(fixedwriter* self)
 {
 	if (!_isopen(self)) {
@@ -146,7 +147,11 @@ const char* fixedwriter_export_temp(fixedwriter* self)
 		}
 	}
 
-	return _get_filename(self);
+	/* the caller owns the file from now on */
+	self->is_detached = true;
+	fqlsig_tmp_remove_node(self->tempnode);
+	self->tempnode = NULL;
+	return strdup(string_c_str(&self->tempname));
 }
 
 int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream)
-- 
2.43.0

