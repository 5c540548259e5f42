From c525cd6e4d47b0f7759fc8e2cb94f8efc18d02f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:59 +0000
Subject: [PATCH 01/63] fix: release the query parser's mutex when an action
 raises while parsing

yyerror() released the mutex and the cleaned query string, but parsing is also
given up when an action raises (a range such as [b a]); then the mutex stayed
locked, so the next parse with the same parser never returned.
---
 c/src/q_parser.c | 15 +++++++++++----
 c/src/q_parser.y | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3178852..69b0f49 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2190,10 +2190,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
+        /* qp_parse releases the query string and the mutex. It has to, since
+         * parsing is also given up without coming through here when one of
+         * the actions raises an exception, for example for a range whose
+         * lower bound is above its upper bound. */
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
@@ -3083,11 +3083,18 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5e9a9c7..8961125 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -453,10 +453,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
+        /* qp_parse releases the query string and the mutex. It has to, since
+         * parsing is also given up without coming through here when one of
+         * the actions raises an exception, for example for a range whose
+         * lower bound is above its upper bound. */
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
@@ -1346,11 +1346,18 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
-- 
2.43.0


From aadf316eddedc5ec895e19f88368f12ad7b54810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:57 +0000
Subject: [PATCH 02/63] fix: report failure to create a file in the file system
 store's touch

creat() returns -1 on failure, never 0 for a new descriptor while stdin is open, so a
touch that failed was taken for success.
---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..407d41c 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = creat(path, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
-- 
2.43.0


From 437d285e84bfde6bdd91ece078d859da53cea4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:24 +0000
Subject: [PATCH 03/63] fix: report a failed seek in the file system store's
 stream reads

A read whose seek failed went on from wherever the descriptor happened to be. The message of a
short read also printed the (unterminated) destination buffer as the file's name.
---
 c/src/fs_store.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 407d41c..3dd912b 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -284,18 +284,21 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
-static void fsi_read_i(InStream *is, uchar *path, int len)
+static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
     off_t pos = is_pos(is);
     if (pos != lseek(fd, 0, SEEK_CUR)) {
-        lseek(fd, pos, SEEK_SET);
+        if (lseek(fd, pos, SEEK_SET) < 0) {
+            RAISE(IO_ERROR, "seeking pos %"OFF_T_PFX"d: <%s>",
+                  pos, strerror(errno));
+        }
     }
-    if (read(fd, path, len) != len) {
+    if (read(fd, buf, len) != len) {
         /* win: the wrong value can be returned for some reason so double check */
         if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
             RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, path, strerror(errno));
+                  len, is->d.path, strerror(errno));
         }
     }
 }
-- 
2.43.0


From 7fb1f30db58972c14058ef044f4424af8cd93759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:26 +0000
Subject: [PATCH 04/63] fix: report reads past the end of a RAM file

is_read_bytes() on a RAM store copied from buffers that do not exist when asked for more than the
file holds, where the other stores raise an error.
---
 c/src/ram_store.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..235d95e 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -301,6 +301,12 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     off_t start = is->d.pointer;
     uchar *buffer;
 
+    if ((start + len) > rf->len) {
+        RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
+              "<%"OFF_T_PFX"d> and tried to read to <%"OFF_T_PFX"d>",
+              rf->len, start + len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
-- 
2.43.0


From bbadace89e05a8613152864bd29c0936a5cddc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:15 +0000
Subject: [PATCH 05/63] fix: closing a lock handle no longer removes a lock
 file held by someone else

---
 c/src/fs_store.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 3dd912b..f360bd6 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -411,7 +411,6 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
     free(lock->name);
     free(lock);
 }
-- 
2.43.0


From 9c1d506d426779aa5b50da576261d1725f560bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:15 +0000
Subject: [PATCH 06/63] fix: a writer that fails to get the write lock no
 longer releases its holder's lock

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..37711e4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6495,6 +6495,9 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     TRY
         iw->write_lock = open_lock(store, WRITE_LOCK_NAME);
         if (!iw->write_lock->obtain(iw->write_lock)) {
+            /* the lock belongs to someone else so it must not be released */
+            close_lock(iw->write_lock);
+            iw->write_lock = NULL;
             RAISE(LOCK_ERROR,
                   "Couldn't obtain write lock when opening IndexWriter");
         }
-- 
2.43.0


From 824b85f6b5f3b16c218de248aa7a5c5a20295737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:15 +0000
Subject: [PATCH 07/63] fix: a reader that failed to get the write lock no
 longer acts as if it held it

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 37711e4..b497ce3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3891,6 +3891,8 @@ static void ir_acquire_write_lock(IndexReader *ir)
     if (NULL == ir->write_lock) {
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
-- 
2.43.0


From 176c46dccdb040c8eed126655eab053f43107cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:44 +0000
Subject: [PATCH 08/63] fix: release the Index mutex when an Index operation
 raises

---
 c/src/ind.c | 77 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 1f0df48..fb49534 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -156,34 +156,37 @@ int index_size(Index *self)
 {
     int size;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         size = self->ir->num_docs(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return size;
 }
 
 void index_optimize(Index *self)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_writer_open(self);
         iw_optimize(self->iw);
         AUTOFLUSH_IW(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 bool index_has_del(Index *self)
 {
     bool has_del;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         has_del = self->ir->has_deletions(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return has_del;
 }
 
@@ -191,11 +194,12 @@ bool index_is_deleted(Index *self, int doc_num)
 {
     bool is_del;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         is_del = self->ir->is_deleted(self->ir, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return is_del;
 }
 
@@ -250,10 +254,11 @@ static INLINE void index_add_doc_i(Index *self, Document *doc)
 void index_add_doc(Index *self, Document *doc)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         index_add_doc_i(self, doc);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_add_string(Index *self, char *str)
@@ -313,10 +318,11 @@ Document *index_get_doc_ts(Index *self, int doc_num)
 {
     Document *doc;
     mutex_lock(&self->mutex);
-    {
+    TRY
         doc = index_get_doc(self, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -339,15 +345,16 @@ Document *index_get_doc_term(Index *self, Symbol field,
     Document *doc = NULL;
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
         if (tde->next(tde)) {
             doc = index_get_doc(self, tde->doc_num(tde));
         }
         tde->close(tde);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -359,19 +366,20 @@ Document *index_get_doc_id(Index *self, const char *id)
 void index_delete(Index *self, int doc_num)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         ir_delete_doc(self->ir, doc_num);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_term(Index *self, Symbol field, const char *term)
 {
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         if (self->ir) {
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
@@ -386,8 +394,9 @@ void index_delete_term(Index *self, Symbol field, const char *term)
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
         }
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_id(Index *self, const char *id)
@@ -405,12 +414,13 @@ void index_delete_query(Index *self, Query *q, Filter *f,
                         PostFilter *post_filter)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_query_str(Index *self, char *qstr, Filter *f,
@@ -425,10 +435,11 @@ Explanation *index_explain(Index *self, Query *q, int doc_num)
 {
     Explanation *expl;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         expl = searcher_explain(self->sea, q, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return expl;
 }
-- 
2.43.0


From bcf38c3529fe412525c2c9285dff1f95d618ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:44 +0000
Subject: [PATCH 09/63] fix: release the reader's and the store's mutex when a
 reader operation raises

---
 c/src/index.c | 63 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b497ce3..841ccc4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3974,10 +3974,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4024,20 +4027,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
@@ -4110,15 +4119,16 @@ static void ir_commit_i(IndexReader *ir)
         if (ir->is_owner) {
             char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
+            TRY
+                sis_curr_seg_file_name(curr_seg_fn, ir->store);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
+                ir->commit_i(ir);
+                sis_write(ir->sis, ir->store, ir->deleter);
 
-            ir->commit_i(ir);
-            sis_write(ir->sis, ir->store, ir->deleter);
-
-            if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
-
-            mutex_unlock(&ir->store->mutex);
+                if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
+            XFINALLY
+                mutex_unlock(&ir->store->mutex);
+            XENDTRY
 
             if (NULL != ir->write_lock) {
                 /* release write lock */
@@ -4137,16 +4147,23 @@ static void ir_commit_i(IndexReader *ir)
 void ir_commit(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir_commit_i(ir);
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir_commit_i(ir);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_close(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
     if (0 == --(ir->ref_cnt)) {
-        ir_commit_i(ir);
-        ir->close_i(ir);
+        TRY
+            ir_commit_i(ir);
+            ir->close_i(ir);
+        XCATCHALL
+            mutex_unlock(&ir->mutex);
+        XENDTRY
         if (ir->store) {
             store_deref(ir->store);
         }
-- 
2.43.0


From ee9bb2ecd447166c73f3809d987ea093fee91e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:30 +0000
Subject: [PATCH 10/63] fix: release the writer's and the store's mutex when a
 writer operation raises

---
 c/src/index.c | 153 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 93 insertions(+), 60 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 841ccc4..5158665 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6271,22 +6271,24 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
     si->doc_cnt = sm_merge(merger);
 
     mutex_lock(&iw->store->mutex);
-    /* delete merged segments */
-    for (i = min_seg; i < max_seg; i++) {
-        si_delete_files(sis->segs[i], iw->fis, iw->deleter);
-    }
-
-    sis_del_from_to(sis, min_seg, max_seg);
+    TRY
+        /* delete merged segments */
+        for (i = min_seg; i < max_seg; i++) {
+            si_delete_files(sis->segs[i], iw->fis, iw->deleter);
+        }
 
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
+        sis_del_from_to(sis, min_seg, max_seg);
 
-    sis_write(sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
 
-    mutex_unlock(&iw->store->mutex);
+        sis_write(sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     sm_destroy(merger);
 }
@@ -6337,16 +6339,17 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     dw_flush(iw->dw);
 
     mutex_lock(&iw->store->mutex);
-
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
-
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_maybe_merge_segments(iw);
 }
@@ -6354,18 +6357,21 @@ static void iw_flush_ram_segment(IndexWriter *iw)
 void iw_add_doc(IndexWriter *iw, Document *doc)
 {
     mutex_lock(&iw->mutex);
-    if (NULL == iw->dw) {
-        iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
-    }
-    else if (NULL == iw->dw->fw) {
-        dw_new_segment(iw->dw, sis_new_segment(iw->sis, 0, iw->store));
-    }
-    dw_add_doc(iw->dw, doc);
-    if (mp_used(iw->dw->mp) > iw->config.max_buffer_memory
-        || iw->dw->doc_num >= iw->config.max_buffered_docs) {
-        iw_flush_ram_segment(iw);
-    }
-    mutex_unlock(&iw->mutex);
+    TRY
+        if (NULL == iw->dw) {
+            iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
+        }
+        else if (NULL == iw->dw->fw) {
+            dw_new_segment(iw->dw, sis_new_segment(iw->sis, 0, iw->store));
+        }
+        dw_add_doc(iw->dw, doc);
+        if (mp_used(iw->dw->mp) > iw->config.max_buffer_memory
+            || iw->dw->doc_num >= iw->config.max_buffered_docs) {
+            iw_flush_ram_segment(iw);
+        }
+    XFINALLY
+        mutex_unlock(&iw->mutex);
+    XENDTRY
 }
 
 static void iw_commit_i(IndexWriter *iw)
@@ -6378,8 +6384,11 @@ static void iw_commit_i(IndexWriter *iw)
 void iw_commit(IndexWriter *iw)
 {
     mutex_lock(&iw->mutex);
-    iw_commit_i(iw);
-    mutex_unlock(&iw->mutex);
+    TRY
+        iw_commit_i(iw);
+    XFINALLY
+        mutex_unlock(&iw->mutex);
+    XENDTRY
 }
 
 void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
@@ -6388,6 +6397,7 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
     if (field_num >= 0) {
         int i;
         mutex_lock(&iw->mutex);
+        TRY
         iw_commit_i(iw);
         do {
             SegmentInfos *sis = iw->sis;
@@ -6408,11 +6418,16 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
-        mutex_unlock(&iw->mutex);
+        XFINALLY
+            mutex_unlock(&iw->mutex);
+        XENDTRY
     }
 }
 
@@ -6423,6 +6438,7 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
     if (field_num >= 0) {
         int i;
         mutex_lock(&iw->mutex);
+        TRY
         iw_commit_i(iw);
         do {
             SegmentInfos *sis = iw->sis;
@@ -6447,11 +6463,16 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
-        mutex_unlock(&iw->mutex);
+        XFINALLY
+            mutex_unlock(&iw->mutex);
+        XENDTRY
     }
 }
 
@@ -6474,17 +6495,24 @@ static void iw_optimize_i(IndexWriter *iw)
 void iw_optimize(IndexWriter *iw)
 {
     mutex_lock(&iw->mutex);
-    iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+    TRY
+        iw_optimize_i(iw);
+    XFINALLY
+        mutex_unlock(&iw->mutex);
+    XENDTRY
 }
 
 void iw_close(IndexWriter *iw)
 {
     mutex_lock(&iw->mutex);
-    iw_commit_i(iw);
-    if (iw->dw) {
-        dw_close(iw->dw);
-    }
+    TRY
+        iw_commit_i(iw);
+        if (iw->dw) {
+            dw_close(iw->dw);
+        }
+    XCATCHALL
+        mutex_unlock(&iw->mutex);
+    XENDTRY
     a_deref(iw->analyzer);
     sis_destroy(iw->sis);
     fis_deref(iw->fis);
@@ -6816,18 +6844,23 @@ void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
 {
     int i;
     mutex_lock(&iw->mutex);
-    iw_optimize_i(iw);
-
-    for (i = 0; i < r_cnt; i++) {
-        iw_add_segments(iw, readers[i]);
-    }
+    TRY
+        iw_optimize_i(iw);
 
-    mutex_lock(&iw->store->mutex);
+        for (i = 0; i < r_cnt; i++) {
+            iw_add_segments(iw, readers[i]);
+        }
 
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    mutex_unlock(&iw->store->mutex);
+        mutex_lock(&iw->store->mutex);
+        TRY
+            /* commit the segments file and the fields file */
+            sis_write(iw->sis, iw->store, iw->deleter);
+        XFINALLY
+            mutex_unlock(&iw->store->mutex);
+        XENDTRY
 
-    iw_optimize_i(iw);
-    mutex_unlock(&iw->mutex);
+        iw_optimize_i(iw);
+    XFINALLY
+        mutex_unlock(&iw->mutex);
+    XENDTRY
 }
-- 
2.43.0


From f46ed59603497fa46dc0b90ca273f7151c603f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 11/63] fix: release the mutex when reading documents, norms,
 terms or sort fields raises

---
 c/src/index.c | 70 +++++++++++++++++++++++++++++++++++----------------
 c/src/sort.c  |  7 ++++--
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 5158665..ffda31d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2142,8 +2142,11 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
 #define SFI_ENSURE_INDEX_IS_READ(sfi, sti) do {\
     if (NULL == sti->index_terms) {\
         mutex_lock(&sfi->mutex);\
-        sti_ensure_index_is_read(sti, sfi->index_te);\
-        mutex_unlock(&sfi->mutex);\
+        TRY\
+            sti_ensure_index_is_read(sti, sfi->index_te);\
+        XFINALLY\
+            mutex_unlock(&sfi->mutex);\
+        XENDTRY\
     }\
 } while (0)
 
@@ -4499,8 +4502,11 @@ static Document *sr_get_doc(IndexReader *ir, int doc_num)
         mutex_unlock(&ir->mutex);
         RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
     }
-    doc = fr_get_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        doc = fr_get_doc(SR(ir)->fr, doc_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -4512,8 +4518,11 @@ static LazyDoc *sr_get_lazy_doc(IndexReader *ir, int doc_num)
         mutex_unlock(&ir->mutex);
         RAISE(STATE_ERROR, "Document %d has already been deleted", doc_num);
     }
-    lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        lazy_doc = fr_get_lazy_doc(SR(ir)->fr, doc_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return lazy_doc;
 }
 
@@ -4521,8 +4530,11 @@ static uchar *sr_get_norms(IndexReader *ir, int field_num)
 {
     uchar *norms;
     mutex_lock(&ir->mutex);
-    norms = sr_get_norms_i(SR(ir), field_num);
-    mutex_unlock(&ir->mutex);
+    TRY
+        norms = sr_get_norms_i(SR(ir), field_num);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return norms;
 }
 
@@ -4530,8 +4542,11 @@ static uchar *sr_get_norms_into(IndexReader *ir, int field_num,
                               uchar *buf)
 {
     mutex_lock(&ir->mutex);
-    sr_get_norms_into_i(SR(ir), field_num, buf);
-    mutex_unlock(&ir->mutex);
+    TRY
+        sr_get_norms_into_i(SR(ir), field_num, buf);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
     return buf;
 }
 
@@ -4799,13 +4814,19 @@ static uchar *mr_get_norms(IndexReader *ir, int field_num)
 
         bytes = ALLOC_AND_ZERO_N(uchar, MR(ir)->max_doc);
 
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, bytes + MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           bytes + MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            free(bytes);
+            mutex_unlock(&ir->mutex);
+        XENDTRY
         h_set_int(MR(ir)->norms_cache, field_num, bytes); /* update cache */
     }
     mutex_unlock(&ir->mutex);
@@ -4825,13 +4846,18 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
     else {
         int i;
         const int mr_reader_cnt = MR(ir)->r_cnt;
-        for (i = 0; i < mr_reader_cnt; i++) {
-            int fnum = mr_get_field_num(MR(ir), i, field_num);
-            if (fnum >= 0) {
-                IndexReader *reader = MR(ir)->sub_readers[i];
-                reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
+        TRY
+            for (i = 0; i < mr_reader_cnt; i++) {
+                int fnum = mr_get_field_num(MR(ir), i, field_num);
+                if (fnum >= 0) {
+                    IndexReader *reader = MR(ir)->sub_readers[i];
+                    reader->get_norms_into(reader, fnum,
+                                           buf + MR(ir)->starts[i]);
+                }
             }
-        }
+        XCATCHALL
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
     mutex_unlock(&ir->mutex);
     return buf;
diff --git a/c/src/sort.c b/c/src/sort.c
index 82c7588..0145f62 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -437,8 +437,11 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
             te->close(te);
         }
         mutex_lock(&ir->field_index_mutex);
-        field_index = field_index_get(ir, sf->field, sf->field_index_class);
-        mutex_unlock(&ir->field_index_mutex);
+        TRY
+            field_index = field_index_get(ir, sf->field, sf->field_index_class);
+        XFINALLY
+            mutex_unlock(&ir->field_index_mutex);
+        XENDTRY
         index = field_index->index;
     }
     return comparator_new(index, sf->reverse, sf->compare);
-- 
2.43.0


From 2a3d88965ad109bb6509be1799f26acb8acd704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:31 +0000
Subject: [PATCH 12/63] fix: release the query parser's mutex whatever makes
 parsing fail

---
 c/src/q_parser.c | 39 ++++++++++++++++++++-------------------
 c/src/q_parser.y | 39 ++++++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 38 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 69b0f49..d0eaa38 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -3082,29 +3082,30 @@ Query *qp_parse(QParser *self, char *qstr)
     self->fields = self->def_fields;
     self->result = NULL;
 
-    if (0 == yyparse(self)) result = self->result;
-    while (self->fields_top->next != NULL) {
-        qp_pop_fields(self);
-    }
-    if (!result && self->handle_parse_errors) {
-        self->destruct = false;
-        result = qp_get_bad_query(self, self->qstr);
-    }
-    if (self->destruct && !self->handle_parse_errors) {
+    TRY
+        if (0 == yyparse(self)) result = self->result;
+        while (self->fields_top->next != NULL) {
+            qp_pop_fields(self);
+        }
+        if (!result && self->handle_parse_errors) {
+            self->destruct = false;
+            result = qp_get_bad_query(self, self->qstr);
+        }
+        if (self->destruct && !self->handle_parse_errors) {
+            xraise(PARSE_ERROR, xmsg_buffer);
+        }
+        if (!result) {
+            result = bq_new(false);
+        }
+    XFINALLY
+        while (self->fields_top->next != NULL) {
+            qp_pop_fields(self);
+        }
         if (self->clean_str) {
             free(self->qstr);
         }
         mutex_unlock(&self->mutex);
-        xraise(PARSE_ERROR, xmsg_buffer);
-    }
-    if (!result) {
-        result = bq_new(false);
-    }
-    if (self->clean_str) {
-        free(self->qstr);
-    }
-
-    mutex_unlock(&self->mutex);
+    XENDTRY
     return result;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 8961125..8f88909 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1345,28 +1345,29 @@ Query *qp_parse(QParser *self, char *qstr)
     self->fields = self->def_fields;
     self->result = NULL;
 
-    if (0 == yyparse(self)) result = self->result;
-    while (self->fields_top->next != NULL) {
-        qp_pop_fields(self);
-    }
-    if (!result && self->handle_parse_errors) {
-        self->destruct = false;
-        result = qp_get_bad_query(self, self->qstr);
-    }
-    if (self->destruct && !self->handle_parse_errors) {
+    TRY
+        if (0 == yyparse(self)) result = self->result;
+        while (self->fields_top->next != NULL) {
+            qp_pop_fields(self);
+        }
+        if (!result && self->handle_parse_errors) {
+            self->destruct = false;
+            result = qp_get_bad_query(self, self->qstr);
+        }
+        if (self->destruct && !self->handle_parse_errors) {
+            xraise(PARSE_ERROR, xmsg_buffer);
+        }
+        if (!result) {
+            result = bq_new(false);
+        }
+    XFINALLY
+        while (self->fields_top->next != NULL) {
+            qp_pop_fields(self);
+        }
         if (self->clean_str) {
             free(self->qstr);
         }
         mutex_unlock(&self->mutex);
-        xraise(PARSE_ERROR, xmsg_buffer);
-    }
-    if (!result) {
-        result = bq_new(false);
-    }
-    if (self->clean_str) {
-        free(self->qstr);
-    }
-
-    mutex_unlock(&self->mutex);
+    XENDTRY
     return result;
 }
-- 
2.43.0


From fdc8c6506cb03965cbaac2a29ac330857d9cbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:57 +0000
Subject: [PATCH 13/63] fix: release a scoped lock when the function run under
 it raises

---
 c/src/store.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/c/src/store.c b/c/src/store.c
index f79ac44..3359de3 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -5,31 +5,27 @@
 #define VINT_MAX_LEN 10
 #define VINT_END BUFFER_SIZE - VINT_MAX_LEN
 
-/*
- * TODO: add try finally
- */
 void with_lock(Lock *lock, void (*func)(void *arg), void *arg)
 {
     if (!lock->obtain(lock)) {
         RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
     }
-    func(arg);
-    lock->release(lock);
+    TRY
+        func(arg);
+    XFINALLY
+        lock->release(lock);
+    XENDTRY
 }
 
-/*
- * TODO: add try finally
- */
 void with_lock_name(Store *store, const char *lock_name,
                     void (*func)(void *arg), void *arg)
 {
     Lock *lock = store->open_lock_i(store, lock_name);
-    if (!lock->obtain(lock)) {
-        RAISE(LOCK_ERROR, "couldn't obtain lock \"%s\"", lock->name);
-    }
-    func(arg);
-    lock->release(lock);
-    store->close_lock_i(lock);
+    TRY
+        with_lock(lock, func, arg);
+    XFINALLY
+        store->close_lock_i(lock);
+    XENDTRY
 }
 
 void store_deref(Store *store)
-- 
2.43.0


From c371e145a055b396fb794a914bee4ae7054b8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:57 +0000
Subject: [PATCH 14/63] fix: release the write lock when opening a writer fails
 while looking for stale files

---
 c/src/index.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ffda31d..5a814da 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6578,12 +6578,17 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
         iw->sis = sis_read(store);
         iw->fis = iw->sis->fis;
         REF(iw->fis);
+
+        iw->deleter = deleter_new(iw->sis, store);
+        deleter_delete_deletable_files(iw->deleter);
     XCATCHALL
         if (iw->write_lock) {
             iw->write_lock->release(iw->write_lock);
             close_lock(iw->write_lock);
             iw->write_lock = NULL;
         }
+        if (iw->deleter) deleter_destroy(iw->deleter);
+        if (iw->fis) fis_deref(iw->fis);
         if (iw->sis) sis_destroy(iw->sis);
         if (analyzer) a_deref((Analyzer *)analyzer);
         free(iw);
@@ -6593,9 +6598,6 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     iw->analyzer = analyzer ? (Analyzer *)analyzer
                             : mb_standard_analyzer_new(true);
 
-    iw->deleter = deleter_new(iw->sis, store);
-    deleter_delete_deletable_files(iw->deleter);
-
     REF(store);
     return iw;
 }
-- 
2.43.0


From df79e9e6cfb43df26af7d336427ef66272664a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:32 +0000
Subject: [PATCH 15/63] fix: release the write lock when a reader cannot read
 the current version

---
 c/src/index.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 5a814da..d477063 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3892,6 +3892,7 @@ static void ir_acquire_write_lock(IndexReader *ir)
     }
 
     if (NULL == ir->write_lock) {
+        u64 current_version;
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
             close_lock(ir->write_lock);
@@ -3906,7 +3907,14 @@ static void ir_acquire_write_lock(IndexReader *ir)
 
         /* we have to check whether index has changed since this reader was
          * opened.  if so, this reader is no longer valid for deletion */
-        if (sis_read_current_version(ir->store) > ir->sis->version) {
+        TRY
+            current_version = sis_read_current_version(ir->store);
+        XCATCHALL
+            ir->write_lock->release(ir->write_lock);
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
+        XENDTRY
+        if (current_version > ir->sis->version) {
             ir->is_stale = true;
             ir->write_lock->release(ir->write_lock);
             close_lock(ir->write_lock);
@@ -3917,8 +3925,7 @@ static void ir_acquire_write_lock(IndexReader *ir)
                                "readers version is <%"I64_PFX"d>. To perform "
                                "any of these operations on the index you need "
                                "to close and reopen the index",
-                               sis_read_current_version(ir->store),
-                               ir->sis->version);
+                               current_version, ir->sis->version);
         }
     }
 }
-- 
2.43.0


From 19513063572977e76c0e29dfd8b72d1d640dffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:28 +0000
Subject: [PATCH 16/63] fix: adding another index's reader keeps its deleted
 documents deleted

---
 c/src/index.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index d477063..124b610 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6632,16 +6632,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6799,6 +6789,18 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
     }
 }
 
+static void iw_cp_deletions(IndexWriter *iw, SegmentReader *sr,
+                            SegmentInfo *si)
+{
+    char file_name[SEGMENT_NAME_MAX_LENGTH];
+
+    if (NULL != sr->deleted_docs) {
+        si->del_gen++;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
+}
+
 static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
                             SegmentInfo *si)
 {
@@ -6858,6 +6860,7 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     else {
         iw_cp_files(iw, sr, si);
     }
+    iw_cp_deletions(iw, sr, si);
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From d87c0957ba8e32fc150292a5bdd840a64d6f14dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 17/63] fix: hashing or comparing a filtered query no longer
 crashes

---
 c/src/q_filtered_query.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..6d54a77 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -196,6 +196,17 @@ static Weight *fq_new_weight(Query *self, Searcher *searcher)
                       searcher->similarity);
 }
 
+static unsigned long fq_hash(Query *self)
+{
+    return filt_hash(FQQ(self)->filter) ^ q_hash(FQQ(self)->query);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return filt_eq(FQQ(self)->filter, FQQ(o)->filter)
+        && q_eq(FQQ(self)->query, FQQ(o)->query);
+}
+
 Query *fq_new(Query *query, Filter *filter)
 {
     Query *self = q_new(FilteredQuery);
@@ -205,6 +216,8 @@ Query *fq_new(Query *query, Filter *filter)
 
     self->type              = FILTERED_QUERY;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From bd2717082d8af4f6ef753dc2c36b91fb1ed34c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 18/63] fix: a filtered query over a field the index does not
 have matches nothing instead of crashing

---
 c/src/q_filtered_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 6d54a77..f3149fe 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (scorer == NULL) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
-- 
2.43.0


From b5530db7d2fecea9d2f11c6f38a41a19bc9d8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 19/63] fix: clearing a compound store raises instead of
 calling an unset operation

---
 c/src/compound_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 10624a3..f192647 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -263,6 +263,8 @@ Store *open_cmpd_store(Store *store, const char *name)
     new_store->rename       = &cmpd_rename;
     new_store->count        = &cmpd_count;
     new_store->clear        = &cmpd_clear;
+    new_store->clear_all    = &cmpd_clear;
+    new_store->clear_locks  = &cmpd_clear;
     new_store->length       = &cmpd_length;
     new_store->each         = &cmpd_each;
     new_store->close_i      = &cmpd_close_i;
-- 
2.43.0


From bc9cea5eb90fb93a0d26cf6881a7b737f6cf7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 20/63] fix: seeking a multiple-term position enumerator by
 term enum raises instead of crashing

---
 c/src/index.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 124b610..126305a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3478,6 +3478,14 @@ static void mtdpe_seek(TermDocEnum *tde, int field_num, const char *term)
           " the #seek operation");
 }
 
+static void mtdpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+    (void)tde;
+    (void)te;
+    RAISE(UNSUPPORTED_ERROR, "MultipleTermDocPosEnum does not support "
+          " the #seek_te operation");
+}
+
 static int mtdpe_doc_num(TermDocEnum *tde)
 {
     return MTDPE(tde)->doc_num;
@@ -3604,6 +3612,7 @@ TermDocEnum *mtdpe_new(IndexReader *ir, int field_num, char **terms, int t_cnt)
     }
     tde->close          = &mtdpe_close;
     tde->seek           = &mtdpe_seek;
+    tde->seek_te        = &mtdpe_seek_te;
     tde->next           = &mtdpe_next;
     tde->doc_num        = &mtdpe_doc_num;
     tde->freq           = &mtdpe_freq;
-- 
2.43.0


From b69200913e19e84f9e0937ede90d78c38e95a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:45 +0000
Subject: [PATCH 21/63] fix: searching again with the same constant score query
 finds its documents again

---
 c/include/bitvector.h | 33 +++++++++++++++++++++++++--------
 c/src/q_const_score.c | 14 +++++++++-----
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..1222d9a 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -260,22 +260,22 @@ int frt_bv_recount(FrtBitVector *bv)
 extern void frt_bv_scan_reset(FrtBitVector *bv);
 
 /**
- * Scan the FrtBitVector for the next set bit after +from+. If no more
- * bits are set then return -1, otherwise return the index of teh next
- * set bit.
+ * Find the first set bit at or after +bit+ without touching the position
+ * used for scanning, so that it can be used on a shared FrtBitVector.
  *
- * @param bv the FrtBitVector to scan
- * @return the next set bit's index or -1 if no more bits are set
+ * @param bv the FrtBitVector to search
+ * @return the set bit's index or -1 if no more bits are set
  */
 static FRT_ATTR_ALWAYS_INLINE
-int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
+int frt_bv_find_next(const FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -291,7 +291,24 @@ int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
     }
         return -1;
  done:
-    return bv->curr_bit = (pos << 5) + frt_count_trailing_zeros(word);
+    return (pos << 5) + frt_count_trailing_zeros(word);
+}
+
+/**
+ * Scan the FrtBitVector for the next set bit after +from+. If no more
+ * bits are set then return -1, otherwise return the index of teh next
+ * set bit.
+ *
+ * @param bv the FrtBitVector to scan
+ * @return the next set bit's index or -1 if no more bits are set
+ */
+static FRT_ATTR_ALWAYS_INLINE
+int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
+{
+    int next = frt_bv_find_next(bv, bit);
+    if (next >= 0)
+        bv->curr_bit = next;
+    return next;
 }
 
 /**
diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..dd00e80 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -14,7 +14,8 @@
 typedef struct ConstantScoreScorer
 {
     Scorer      super;
-    BitVector  *bv;
+    BitVector  *bv; /* shared with the filter's cache; must not be changed */
+    int         next_doc;
     float       score;
 } ConstantScoreScorer;
 
@@ -23,14 +24,17 @@ static float cssc_score(Scorer *self)
     return CScSc(self)->score;
 }
 
-static bool cssc_next(Scorer *self)
+static bool cssc_skip_to(Scorer *self, int doc_num)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    self->doc = frt_bv_find_next(CScSc(self)->bv, doc_num);
+    CScSc(self)->next_doc = (self->doc >= 0) ? self->doc + 1
+                                             : CScSc(self)->bv->size;
+    return (self->doc >= 0);
 }
 
-static bool cssc_skip_to(Scorer *self, int doc_num)
+static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next_from(CScSc(self)->bv, doc_num)) >= 0);
+    return cssc_skip_to(self, CScSc(self)->next_doc);
 }
 
 static Explanation *cssc_explain(Scorer *self, int doc_num)
-- 
2.43.0


From 0212a4c9c960d972ae8df13561414d6ac7d15162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:45 +0000
Subject: [PATCH 22/63] fix: constant score queries do not return documents
 deleted since their filter was cached

---
 c/src/q_const_score.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index dd00e80..fe8394e 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -15,6 +15,7 @@ typedef struct ConstantScoreScorer
 {
     Scorer      super;
     BitVector  *bv; /* shared with the filter's cache; must not be changed */
+    IndexReader *ir;
     int         next_doc;
     float       score;
 } ConstantScoreScorer;
@@ -26,7 +27,12 @@ static float cssc_score(Scorer *self)
 
 static bool cssc_skip_to(Scorer *self, int doc_num)
 {
+    IndexReader *ir = CScSc(self)->ir;
     self->doc = frt_bv_find_next(CScSc(self)->bv, doc_num);
+    /* the filter may have been cached before documents were deleted */
+    while (self->doc >= 0 && ir->is_deleted(ir, self->doc)) {
+        self->doc = frt_bv_find_next(CScSc(self)->bv, self->doc + 1);
+    }
     CScSc(self)->next_doc = (self->doc >= 0) ? self->doc + 1
                                              : CScSc(self)->bv->size;
     return (self->doc >= 0);
@@ -50,6 +56,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
 
     CScSc(self)->score  = weight->value;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
+    CScSc(self)->ir     = ir;
 
     self->score     = &cssc_score;
     self->next      = &cssc_next;
-- 
2.43.0


From 1617320b04e3cd54e6cd4e88e0f7429a0396483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 23/63] fix: seeking a term that no segment has leaves the
 enumerator empty

---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index 126305a..8f00274 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3301,6 +3301,7 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->curr_tde = NULL;
     }
 }
 
-- 
2.43.0


From 54865ef57f0986474bca1c72c4cb4e1f02a8884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 24/63] fix: setting a norm through a multi-reader drops that
 reader's cached norms of the field

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 8f00274..5edc885 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4945,7 +4945,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From 1e41f9c9d198018fb1db98fcdc93172f4a0a2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:38 +0000
Subject: [PATCH 25/63] fix: norms read through a multi-reader are zero where a
 sub-reader lacks the field

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 5edc885..2e43056 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4871,6 +4871,10 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
                     reader->get_norms_into(reader, fnum,
                                            buf + MR(ir)->starts[i]);
                 }
+                else {
+                    memset(buf + MR(ir)->starts[i], 0,
+                           MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+                }
             }
         XCATCHALL
             mutex_unlock(&ir->mutex);
-- 
2.43.0


From 2c869e2fe2c14f3bd603f3d05bf81000c9262b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:03 +0000
Subject: [PATCH 26/63] fix: deleting by term through an Index brings its
 reader up to date and flushes like other changes

---
 c/src/ind.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/ind.c b/c/src/ind.c
index fb49534..910d32e 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -381,6 +381,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
     mutex_lock(&self->mutex);
     TRY
         if (self->ir) {
+            ensure_reader_open(self);
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
                 while (tde->next(tde)) {
@@ -393,6 +394,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
         } else {
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
+            AUTOFLUSH_IW(self);
         }
     XFINALLY
         mutex_unlock(&self->mutex);
-- 
2.43.0


From a3e41f32abc2d9358da9f774f5a10143d2dba34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:03 +0000
Subject: [PATCH 27/63] fix: fetching a document by term does not replace the
 Index's reader under an open enumerator

---
 c/src/ind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 910d32e..6d20f10 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -349,7 +349,7 @@ Document *index_get_doc_term(Index *self, Symbol field,
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
         if (tde->next(tde)) {
-            doc = index_get_doc(self, tde->doc_num(tde));
+            doc = self->ir->get_doc(self->ir, tde->doc_num(tde));
         }
         tde->close(tde);
     XFINALLY
-- 
2.43.0


From 4dad89bc3604d7dc893e13dda62d0bf39dca223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:19 +0000
Subject: [PATCH 28/63] fix: copying files of 2 GB or more between stores keeps
 all their bytes

---
 c/include/store.h | 2 +-
 c/src/ram_store.c | 6 +-----
 c/src/store.c     | 2 +-
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/c/include/store.h b/c/include/store.h
index 34ba0ee..30b2371 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -764,7 +764,7 @@ extern char *frt_is_read_string_safe(FrtInStream *is);
  * @raise FRT_IO_ERROR
  * @raise FRT_EOF_ERROR
  */
-extern void frt_is2os_copy_bytes(FrtInStream *is, FrtOutStream *os, int cnt);
+extern void frt_is2os_copy_bytes(FrtInStream *is, FrtOutStream *os, off_t cnt);
 
 /**
  * Copy cnt vints from Instream _is_ to FrtOutStream _os_.
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 235d95e..2bee1ff 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -455,15 +455,11 @@ static void copy_files(const char *fname, void *arg)
     struct CopyFileArg *cfa = (struct CopyFileArg *)arg;
     OutStream *os = cfa->to_store->new_output(cfa->to_store, fname);
     InStream *is = cfa->from_store->open_input(cfa->from_store, fname);
-    int len = (int)is_length(is);
-    uchar *buffer = ALLOC_N(uchar, len + 1);
 
-    is_read_bytes(is, buffer, len);
-    os_write_bytes(os, buffer, len);
+    is2os_copy_bytes(is, os, is_length(is));
 
     is_close(is);
     os_close(os);
-    free(buffer);
 }
 
 Store *open_ram_store_and_copy(Store *from_store, bool close_dir)
diff --git a/c/src/store.c b/c/src/store.c
index 3359de3..484554e 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -617,7 +617,7 @@ int file_is_lock(const char *filename)
     return ((start > 0) && (strcmp(LOCK_EXT, &filename[start]) == 0));
 }
 
-void is2os_copy_bytes(InStream *is, OutStream *os, int cnt)
+void is2os_copy_bytes(InStream *is, OutStream *os, off_t cnt)
 {
     int len;
     uchar buf[BUFFER_SIZE];
-- 
2.43.0


From 0ebf57462638bcc6b27a649d9642b290d8a08103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:19 +0000
Subject: [PATCH 29/63] fix: stored fields of documents beyond number 178956970
 are read from the right place

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2e43056..34b6c86 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1509,7 +1509,7 @@ LazyDocField *frt_lazy_doc_get(LazyDoc *self, Symbol field)
  *
  ****************************************************************************/
 
-#define FIELDS_IDX_PTR_SIZE 12
+#define FIELDS_IDX_PTR_SIZE ((off_t)12)
 
 FieldsReader *fr_open(Store *store, const char *segment, FieldInfos *fis)
 {
-- 
2.43.0


From 5ffe0ac013632ce81d20bc52c0a6497135f516b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 30/63] fix: reading a term vector without terms left its
 offset count unread, so every later term vector of the document was misread

---
 c/src/index.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 34b6c86..df4244e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1678,7 +1678,6 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
     if (num_terms > 0) {
         int i, j, delta_start, delta_len, total_len, freq;
         int store_positions = fi_store_positions(fi);
-        int store_offsets = fi_store_offsets(fi);
         uchar buffer[MAX_WORD_SIZE];
         TVTerm *term;
 
@@ -1708,18 +1707,19 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
                 }
             }
 
-            /* read offsets if necessary */
-        }
-        if (store_offsets) {
-            int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
-            Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
-            i64 offset = 0;
-            for (i = 0; i < num_positions; i++) {
-                offsets[i].start =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-                offsets[i].end =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-            }
+        }
+    }
+    /* read offsets if necessary. They are written even if there are no terms */
+    if (fi_store_offsets(fi)) {
+        int i;
+        int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
+        Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
+        i64 offset = 0;
+        for (i = 0; i < num_positions; i++) {
+            offsets[i].start =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
+            offsets[i].end =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
         }
     }
     return tv;
-- 
2.43.0


From 98a1124a9c5cbbd493c695595978406e3e5340be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 31/63] fix: boolean queries with different clause limits are
 not equal

---
 c/src/q_boolean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..2e7b7f6 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1528,7 +1528,7 @@ static int  bq_eq(Query *self, Query *o)
     BooleanQuery *bq1 = BQ(self);
     BooleanQuery *bq2 = BQ(o);
     if ((bq1->coord_disabled != bq2->coord_disabled)
-        || (bq1->max_clause_cnt != bq1->max_clause_cnt)
+        || (bq1->max_clause_cnt != bq2->max_clause_cnt)
         || (bq1->clause_cnt != bq2->clause_cnt)) {
         return false;
     }
-- 
2.43.0


From acc3d3dbbbcba3c967339673b64414662f3d74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 32/63] fix: prefix, wildcard and fuzzy queries with different
 term limits are not equal

---
 c/src/q_fuzzy.c    | 3 ++-
 c/src/q_prefix.c   | 3 ++-
 c/src/q_span.c     | 3 ++-
 c/src/q_wildcard.c | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index cce8219..e7c11d6 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -249,7 +249,8 @@ static int fuzq_eq(Query *self, Query *o)
     return (strcmp(fq1->term, fq2->term) == 0)
         && (fq1->field == fq2->field)
         && (fq1->pre_len == fq2->pre_len)
-        && (fq1->min_sim == fq2->min_sim);
+        && (fq1->min_sim == fq2->min_sim)
+        && (MTQMaxTerms(self) == MTQMaxTerms(o));
 }
 
 Query *fuzq_new_conf(Symbol field, const char *term,
diff --git a/c/src/q_prefix.c b/c/src/q_prefix.c
index 8b715e4..d0646da 100644
--- a/c/src/q_prefix.c
+++ b/c/src/q_prefix.c
@@ -75,7 +75,8 @@ static unsigned long prq_hash(Query *self)
 static int prq_eq(Query *self, Query *o)
 {
     return (strcmp(PfxQ(self)->prefix, PfxQ(o)->prefix) == 0)
-        && (PfxQ(self)->field == PfxQ(o)->field);
+        && (PfxQ(self)->field == PfxQ(o)->field)
+        && (MTQMaxTerms(self) == MTQMaxTerms(o));
 }
 
 Query *prefixq_new(Symbol field, const char *prefix)
diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..ba5badf 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2368,7 +2368,8 @@ static unsigned long spanprq_hash(Query *self)
 static int spanprq_eq(Query *self, Query *o)
 {
     return (strcmp(SpPfxQ(self)->prefix, SpPfxQ(o)->prefix) == 0)
-        && (SpQ(self)->field == SpQ(o)->field);
+        && (SpQ(self)->field == SpQ(o)->field)
+        && (SpPfxQ(self)->max_terms == SpPfxQ(o)->max_terms);
 }
 
 Query *spanprq_new(Symbol field, const char *prefix)
diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..31080bf 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -144,7 +144,8 @@ static unsigned long wcq_hash(Query *self)
 static int wcq_eq(Query *self, Query *o)
 {
     return (strcmp(WCQ(self)->pattern, WCQ(o)->pattern) == 0)
-        && (WCQ(self)->field == WCQ(o)->field);
+        && (WCQ(self)->field == WCQ(o)->field)
+        && (MTQMaxTerms(self) == MTQMaxTerms(o));
 }
 
 Query *wcq_new(Symbol field, const char *pattern)
-- 
2.43.0


From ee75330918a43bca250cf0e816457f6df993f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:07 +0000
Subject: [PATCH 33/63] fix: comparing span queries compares the types of the
 queries they contain

---
 c/src/q_span.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index ba5badf..2f6968d 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1768,7 +1768,7 @@ static int spanfq_eq(Query *self, Query *o)
 {
     SpanFirstQuery *sfq1 = SpFQ(self);
     SpanFirstQuery *sfq2 = SpFQ(o);
-    return spanq_eq(self, o) && sfq1->match->eq(sfq1->match, sfq2->match)
+    return spanq_eq(self, o) && q_eq(sfq1->match, sfq2->match)
         && (sfq1->end == sfq2->end);
 }
 
@@ -1927,7 +1927,7 @@ static int spanoq_eq(Query *self, Query *o)
     for (i = 0; i < soq1->c_cnt; i++) {
         q1 = soq1->clauses[i];
         q2 = soq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2113,7 +2113,7 @@ static int spannq_eq(Query *self, Query *o)
     for (i = 0; i < snq1->c_cnt; i++) {
         q1 = snq1->clauses[i];
         q2 = snq2->clauses[i];
-        if (!q1->eq(q1, q2)) {
+        if (!q_eq(q1, q2)) {
             return false;
         }
     }
@@ -2246,8 +2246,8 @@ static int spanxq_eq(Query *self, Query *o)
 {
     SpanNotQuery *sxq1 = SpXQ(self);
     SpanNotQuery *sxq2 = SpXQ(o);
-    return spanq_eq(self, o) && sxq1->inc->eq(sxq1->inc, sxq2->inc)
-        && sxq1->exc->eq(sxq1->exc, sxq2->exc);
+    return spanq_eq(self, o) && q_eq(sxq1->inc, sxq2->inc)
+        && q_eq(sxq1->exc, sxq2->exc);
 }
 
 
-- 
2.43.0


From c531696b143592e8bf79a82c2487a43990dbc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:47 +0000
Subject: [PATCH 34/63] fix: the hit queue's order compares the scores of both
 hits

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..1df39f7 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -84,7 +84,7 @@ static bool hit_less_than(const Hit *hit1, const Hit *hit2)
         return hit1->doc > hit2->doc;
     }
     else {
-        return hit1->score < hit1->score;
+        return hit1->score < hit2->score;
     }
 }
 
-- 
2.43.0


From 738a4bfa6d867ade8955fcafb14658e8e71d8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 35/63] fix: a segment joins the writer's list only once its
 files are written

---
 c/src/index.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index df4244e..2b1fed6 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6304,12 +6304,19 @@ static void iw_commit_compound_file(IndexWriter *iw, SegmentInfo *si)
     iw_create_compound_file(iw->store, iw->fis, si, cfs_name, iw->deleter);
 }
 
+/* The new segment is added to iw->sis when its files have been written. If it
+ * were added now and writing them failed, the next commit would refer to it. */
+static SegmentInfo *iw_new_segment(IndexWriter *iw)
+{
+    return si_new(new_segment(iw->sis->counter++), 0, iw->store);
+}
+
 static void iw_merge_segments(IndexWriter *iw, const int min_seg,
                               const int max_seg)
 {
     int i;
     SegmentInfos *sis = iw->sis;
-    SegmentInfo *si = sis_new_segment(sis, 0, iw->store);
+    SegmentInfo *si = iw_new_segment(iw);
 
     SegmentMerger *merger = sm_create(iw, si, &sis->segs[min_seg],
                                       max_seg - min_seg);
@@ -6319,17 +6326,18 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
 
     mutex_lock(&iw->store->mutex);
     TRY
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
+
         /* delete merged segments */
         for (i = min_seg; i < max_seg; i++) {
             si_delete_files(sis->segs[i], iw->fis, iw->deleter);
         }
 
         sis_del_from_to(sis, min_seg, max_seg);
-
-        if (iw->config.use_compound_file) {
-            iw_commit_compound_file(iw, si);
-            si->use_compound_file = true;
-        }
+        sis_add_si(sis, si);
 
         sis_write(sis, iw->store, iw->deleter);
         deleter_commit_pending_deletions(iw->deleter);
@@ -6381,9 +6389,10 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     SegmentInfos *sis = iw->sis;
     SegmentInfo *si;
 
-    si = sis->segs[sis->size - 1];
+    si = iw->dw->si;
     si->doc_cnt = iw->dw->doc_num;
     dw_flush(iw->dw);
+    sis_add_si(sis, si);
 
     mutex_lock(&iw->store->mutex);
     TRY
@@ -6406,10 +6415,10 @@ void iw_add_doc(IndexWriter *iw, Document *doc)
     mutex_lock(&iw->mutex);
     TRY
         if (NULL == iw->dw) {
-            iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
+            iw->dw = dw_open(iw, iw_new_segment(iw));
         }
         else if (NULL == iw->dw->fw) {
-            dw_new_segment(iw->dw, sis_new_segment(iw->sis, 0, iw->store));
+            dw_new_segment(iw->dw, iw_new_segment(iw));
         }
         dw_add_doc(iw->dw, doc);
         if (mp_used(iw->dw->mp) > iw->config.max_buffer_memory
@@ -6555,7 +6564,10 @@ void iw_close(IndexWriter *iw)
     TRY
         iw_commit_i(iw);
         if (iw->dw) {
+            /* a segment that was started but got no document */
+            SegmentInfo *si = iw->dw->fw ? iw->dw->si : NULL;
             dw_close(iw->dw);
+            if (si) si_deref(si);
         }
     XCATCHALL
         mutex_unlock(&iw->mutex);
@@ -6845,7 +6857,7 @@ static void iw_cp_files(IndexWriter *iw, SegmentReader *sr,
 
 static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
 {
-    SegmentInfo *si = sis_new_segment(iw->sis, 0, iw->store);
+    SegmentInfo *si = iw_new_segment(iw);
     FieldInfos *fis = iw->fis;
     FieldInfos *sub_fis = sr->ir.fis;
     int j;
@@ -6875,6 +6887,7 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
         iw_cp_files(iw, sr, si);
     }
     iw_cp_deletions(iw, sr, si);
+    sis_add_si(iw->sis, si);
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From 9ebe83503e268ae363991e3e4096ccff564f2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 36/63] fix: a segment's own files are queued for removal only
 when its compound file is complete

---
 c/src/index.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 2b1fed6..433f9f4 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6260,10 +6260,6 @@ int iw_doc_count(IndexWriter *iw)
     return doc_cnt;
 }
 
-#define MOVE_TO_COMPOUND_DIR(file_name)\
-    deleter_queue_file(dlr, file_name);\
-    cw_add_file(cw, file_name)
-
 static void iw_create_compound_file(Store *store, FieldInfos *fis,
                                     SegmentInfo *si, char *cfs_file_name,
                                     Deleter *dlr)
@@ -6281,19 +6277,31 @@ static void iw_create_compound_file(Store *store, FieldInfos *fis,
     cw = open_cw(store, cfs_file_name);
     for (i = 0; i < NELEMS(COMPOUND_EXTENSIONS); i++) {
         memcpy(ext, COMPOUND_EXTENSIONS[i], 4);
-        MOVE_TO_COMPOUND_DIR(file_name);
+        cw_add_file(cw, file_name);
     }
 
     /* Field norm file_names */
     for (i = fis->size - 1; i >= 0; i--) {
         if (fi_has_norms(fis->fields[i])
             && si_norm_file_name(si, file_name, i)) {
-            MOVE_TO_COMPOUND_DIR(file_name);
+            cw_add_file(cw, file_name);
         }
     }
 
     /* Perform the merge */
     cw_close(cw);
+
+    /* the single files are needed until the compound file is complete */
+    for (i = 0; i < NELEMS(COMPOUND_EXTENSIONS); i++) {
+        sprintf(file_name, "%s.%s", si->name, COMPOUND_EXTENSIONS[i]);
+        deleter_queue_file(dlr, file_name);
+    }
+    for (i = fis->size - 1; i >= 0; i--) {
+        if (fi_has_norms(fis->fields[i])
+            && si_norm_file_name(si, file_name, i)) {
+            deleter_queue_file(dlr, file_name);
+        }
+    }
 }
 
 static void iw_commit_compound_file(IndexWriter *iw, SegmentInfo *si)
-- 
2.43.0


From 230690b5384543a367d077d47c2eb60df0615402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:16 +0000
Subject: [PATCH 37/63] fix: the deletions generation advances only when the
 new deletions are written

---
 c/src/index.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 433f9f4..ae35867 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4440,21 +4440,23 @@ static void sr_commit_i(IndexReader *ir)
     char tmp_file_name[SEGMENT_NAME_MAX_LENGTH];
 
     if (SR(ir)->undelete_all || SR(ir)->deleted_docs_dirty) {
-        if (si->del_gen >= 0) {
-            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
-            deleter_queue_file(ir->deleter, tmp_file_name);
-        }
+        const int old_gen = si->del_gen;
         if (SR(ir)->undelete_all) {
             si->del_gen = -1;
             SR(ir)->undelete_all = false;
         }
         else {
             /* (SR(ir)->deleted_docs_dirty) re-write deleted */
-            si->del_gen++;
-            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
+            fn_for_generation(tmp_file_name, segment, "del", old_gen + 1);
             bv_write(SR(ir)->deleted_docs, ir->store, tmp_file_name);
+            si->del_gen = old_gen + 1;
             SR(ir)->deleted_docs_dirty = false;
         }
+        if (old_gen >= 0) {
+            /* the old deletions are needed until the new ones are written */
+            fn_for_generation(tmp_file_name, segment, "del", old_gen);
+            deleter_queue_file(ir->deleter, tmp_file_name);
+        }
     }
     if (SR(ir)->norms_dirty) { /* re-write norms */
         int i;
-- 
2.43.0


From 9546d00c749cf054d69a2a7c71947cfbc1852b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:18 +0000
Subject: [PATCH 38/63] fix: a flush that is tried again uses the norms
 generation of the first try

---
 c/src/index.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ae35867..0f1d6f6 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5404,8 +5404,11 @@ static void dw_write_norms(DocWriter *dw, FieldInverter *fld_inv)
 {
     char file_name[SEGMENT_NAME_MAX_LENGTH];
     OutStream *norms_out;
-    si_advance_norm_gen(dw->si, fld_inv->fi->number);
-    si_norm_file_name(dw->si, file_name, fld_inv->fi->number);
+    if (!si_norm_file_name(dw->si, file_name, fld_inv->fi->number)) {
+        /* not yet advanced by an earlier flush of this segment that failed */
+        si_advance_norm_gen(dw->si, fld_inv->fi->number);
+        si_norm_file_name(dw->si, file_name, fld_inv->fi->number);
+    }
     norms_out = dw->store->new_output(dw->store, file_name);
     os_write_bytes(norms_out, fld_inv->norms, dw->doc_num);
     os_close(norms_out);
-- 
2.43.0


From 02e5a4ae9c7ca3235b747a81ccdce00ea10227cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:53 +0000
Subject: [PATCH 39/63] fix: sorting the buffered postings leaves their hash
 table intact for a flush that is tried again

---
 c/include/index.h |  2 ++
 c/src/index.c     | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 2a6dadb..9585ab3 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -846,6 +846,8 @@ typedef struct FrtDocWriter
     FrtOffset *offsets;
     int offsets_size;
     int offsets_capa;
+    struct FrtPostingList **sorted_plists;
+    int sorted_plists_capa;
     int doc_num;
     int index_interval;
     int skip_interval;
diff --git a/c/src/index.c b/c/src/index.c
index 0f1d6f6..fbbf469 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5416,12 +5416,18 @@ static void dw_write_norms(DocWriter *dw, FieldInverter *fld_inv)
 
 /* we'll use the postings Hash's table area to sort the postings as it is
  * going to be zeroset soon anyway */
-static PostingList **dw_sort_postings(Hash *plists_ht)
+static PostingList **dw_sort_postings(DocWriter *dw, Hash *plists_ht)
 {
     int i, j;
     HashEntry *he;
-    PostingList **plists = (PostingList **)plists_ht->table;
+    PostingList **plists;
     const int num_entries = plists_ht->mask + 1;
+
+    if (plists_ht->size > dw->sorted_plists_capa) {
+        REALLOC_N(dw->sorted_plists, PostingList *, num_entries);
+        dw->sorted_plists_capa = num_entries;
+    }
+    plists = dw->sorted_plists;
     for (i = 0, j = 0; i < num_entries; i++) {
         he = &plists_ht->table[i];
         if (he->value) {
@@ -5479,7 +5485,7 @@ static void dw_flush(DocWriter *dw)
             dw_write_norms(dw, fld_inv);
         }
 
-        pls = dw_sort_postings(fld_inv->plists);
+        pls = dw_sort_postings(dw, fld_inv->plists);
         tiw_start_field(tiw, fi->number);
         posting_count = fld_inv->plists->size;
         for (j = 0; j < posting_count; j++) {
@@ -5552,6 +5558,9 @@ DocWriter *dw_open(IndexWriter *iw, SegmentInfo *si)
     dw->offsets_size        = 0;
     dw->offsets_capa        = DW_OFFSET_INIT_CAPA;
 
+    dw->sorted_plists       = NULL;
+    dw->sorted_plists_capa  = 0;
+
     dw->similarity          = iw->similarity;
     return dw;
 }
@@ -5574,6 +5583,7 @@ void dw_close(DocWriter *dw)
     h_destroy(dw->fields);
     mp_destroy(dw->mp);
     free(dw->offsets);
+    free(dw->sorted_plists);
     free(dw);
 }
 
@@ -5740,7 +5750,7 @@ void dw_add_doc(DocWriter *dw, Document *doc)
         postings = dw_invert_field(dw, fld_inv, df);
         if (fld_inv->store_term_vector) {
             fw_add_postings(dw->fw, fld_inv->fi->number,
-                            dw_sort_postings(postings), postings->size,
+                            dw_sort_postings(dw, postings), postings->size,
                             dw->offsets, dw->offsets_size);
         }
 
-- 
2.43.0


From 8d25b4c5bdd6b640e1431e9bcd72a9bcd5096b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:56 +0000
Subject: [PATCH 40/63] fix: a multi-reader takes the write lock of the index
 it deletes from

A reader over several readers passed deletions and undeletions straight to
the sub-reader's implementation, so a sub-reader that owns its commits
recorded and later committed them without ever taking its index's write
lock. Go through the sub-reader's locking entry points, as setting a norm
does already.
---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index fbbf469..96ccea0 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4962,7 +4962,7 @@ static void mr_delete_doc_i(IndexReader *ir, int doc_num)
     MR(ir)->num_docs_cache = -1; /* invalidate cache */
 
     /* dispatch to segment reader */
-    reader->delete_doc_i(reader, doc_num - MR(ir)->starts[i]);
+    ir_delete_doc(reader, doc_num - MR(ir)->starts[i]);
     MR(ir)->has_deletions = true;
     ir->has_changes = true;
 }
@@ -4975,7 +4975,7 @@ static void mr_undelete_all_i(IndexReader *ir)
     MR(ir)->num_docs_cache = -1;                     /* invalidate cache */
     for (i = 0; i < mr_reader_cnt; i++) {
         IndexReader *reader = MR(ir)->sub_readers[i];
-        reader->undelete_all_i(reader);
+        ir_undelete_all(reader);
     }
     MR(ir)->has_deletions = false;
     ir->has_changes = true;
-- 
2.43.0


From 3b7b68ac1522ac382b30de7822f3eea1b99a31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 41/63] fix: an error leaving a protected section during
 cleanup does not restart the cleanup

---
 c/src/except.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/c/src/except.c b/c/src/except.c
index 4f47613..348ab84 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -92,11 +92,7 @@ void xpop_context()
     context = top_cxt->next;
     thread_setspecific(exception_stack_key, context);
     if (!top_cxt->handled) {
-        if (context) {
-            xraise_context(context, top_cxt->excode, top_cxt->msg);
-        }
-        else {
-            XEXIT(ERROR_TYPES[top_cxt->excode], top_cxt->msg);
-        }
+        /* the outer section may be in its cleanup already: xraise knows */
+        xraise(top_cxt->excode, top_cxt->msg);
     }
 }
-- 
2.43.0


From c591c95b2e920943cf3d14fa7eb532a02df67983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:18 +0000
Subject: [PATCH 42/63] fix: sorting by a field reports an error met while
 opening its terms instead of crashing

---
 c/src/field_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/field_index.c b/c/src/field_index.c
index c99357f..04d2962 100644
--- a/c/src/field_index.c
+++ b/c/src/field_index.c
@@ -78,8 +78,8 @@ FieldIndex *field_index_get(IndexReader *ir, Symbol field,
                 }
             }
             XFINALLY
-                tde->close(tde);
-                te->close(te);
+                if (tde) tde->close(tde);
+                if (te) te->close(te);
             XENDTRY
         }
         h_set(ir->field_index_cache, self, self);
-- 
2.43.0


From 6936cb41849d5cca4ddf80a272bbceab5cea598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:18 +0000
Subject: [PATCH 43/63] fix: a damaged field list is reported as an error
 instead of crashing

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 96ccea0..9bda734 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -433,7 +433,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (fis) fis_deref(fis);
     XENDTRY
 
     return fis;
-- 
2.43.0


From 00faf3d2562d95caa9d1844ee3aa5e6c47c89eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:18 +0000
Subject: [PATCH 44/63] fix: a commit whose files cannot be created closes only
 the files it opened

---
 c/src/index.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9bda734..143a60c 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1146,9 +1146,10 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         }
         fis_write(sis->fis, os);
     XFINALLY
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
 
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
@@ -1157,7 +1158,7 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
         HANDLED();
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From 1eee6de539eaf660438b7035318c21b18fb04a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 45/63] fix: the term vector read for highlighting is always
 released

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 1df39f7..5d388df 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -634,8 +634,8 @@ MatchVector *searcher_get_match_vector(Searcher *self,
     }
     if (tv && tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
         mv = query->get_matchv_i(query, mv, tv);
-        tv_destroy(tv);
     }
+    if (tv) tv_destroy(tv);
     if (rewrite) {
         q_deref(query);
     }
-- 
2.43.0


From 324613403c40305ec38bb14c4937f8fcc01c76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:07 +0000
Subject: [PATCH 46/63] fix: giving a query parser both :all_fields and :fields
 does not leak the first

---
 ruby/ext/r_qparser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/ext/r_qparser.c b/ruby/ext/r_qparser.c
index 8122057..a3d13f6 100644
--- a/ruby/ext/r_qparser.c
+++ b/ruby/ext/r_qparser.c
@@ -172,6 +172,7 @@ frb_qp_init(int argc, VALUE *argv, VALUE self)
                 all_fields = frb_get_fields(rval);
             }
             if (Qnil != (rval = rb_hash_aref(roptions, sym_fields))) {
+                if (all_fields) hs_destroy(all_fields);
                 all_fields = frb_get_fields(rval);
             }
             if (Qnil != (rval = rb_hash_aref(roptions, sym_tkz_fields))) {
-- 
2.43.0


From ecb93e96f9b358e68da9cba65e83db90de9cc743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:26 +0000
Subject: [PATCH 47/63] fix: an explanation with details and a list of hits are
 printed without using freed memory

---
 c/src/search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 5d388df..953f43e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -65,7 +65,7 @@ char *expl_to_html(Explanation *expl)
     buffer = strfmt("<ul>\n<li>%f = %s</li>\n", expl->value, expl->description);
 
     for (i = 0; i < num_details; i++) {
-        estrcat(buffer, expl_to_html(expl->details[i]));
+        buffer = estrcat(buffer, expl_to_html(expl->details[i]));
     }
 
     REALLOC_N(buffer, char, strlen(buffer) + 10);
@@ -214,7 +214,7 @@ char *td_to_s(TopDocs *td)
                           td->total_hits);
     for (i = 0; i < td->size; i++) {
         hit = td->hits[i];
-        estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
+        buffer = estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
     }
     return buffer;
 }
-- 
2.43.0


From 45a40049f5f8719b60944549ae3e29c229747a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:26 +0000
Subject: [PATCH 48/63] fix: a mapped string that grows is not written to the
 freed buffer

---
 c/src/multimapper.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index b90e0d0..56a4353 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -299,36 +299,36 @@ char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
     DeterministicState *start = self->dstates[0];
     DeterministicState *state = start;
-    int capa = strlen(from);
+    int capa = strlen(from) + 1;
     char *to = (char *)ecalloc(capa);
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
-    do {
-        while (*s && d < end) {
-            state = state->next[UCtoI(*s)];
-            if (state->mapping) {
-                int len = state->mapping_len;
-                d -= (state->longest_match - 1);
-                if ((d + len) > end) {
-                    len = end - d;
-                }
-                memcpy(d, state->mapping, len);
-                d += len;
-                state = start;
-            }
-            else {
-                *(d++) = *s;
-            }
-            s++;
+    while (*s) {
+        int len = 1;
+        state = state->next[UCtoI(*s)];
+        if (state->mapping) {
+            len = state->mapping_len;
+            d -= (state->longest_match - 1);
         }
-        if (*s) {
-            capa += 1024;
-            erealloc(to, capa);
+        if ((d + len) > end) {
+            const int pos = d - to;
+            capa += len + 1024;
+            REALLOC_N(to, char, capa);
+            d = to + pos;
             end = to + capa - 1;
         }
-    } while(*s);
+        if (state->mapping) {
+            memcpy(d, state->mapping, len);
+            d += len;
+            state = start;
+        }
+        else {
+            *(d++) = *s;
+        }
+        s++;
+    }
     *d = '\0';
     return to;
 }
-- 
2.43.0


From 63135a0abc4a376b8dc87f72008c47207d92593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:26 +0000
Subject: [PATCH 49/63] fix: a mapper that has not been compiled yet is
 compiled before its states are read

---
 c/src/multimapper.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index 56a4353..19edf52 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -261,12 +261,12 @@ void mulmap_compile(MultiMapper *self)
 
 int mulmap_map_len(MultiMapper *self, char *to, char *from, int capa)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     while (*s && d < end) {
         state = state->next[UCtoI(*s)];
         if (state->mapping) {
@@ -297,14 +297,14 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 /* Maps a string to a dynamically allocated string */
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     int capa = strlen(from) + 1;
     char *to = (char *)ecalloc(capa);
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     while (*s) {
         int len = 1;
         state = state->next[UCtoI(*s)];
-- 
2.43.0


From 471d50c835da05df22d5dca110bea8a47c0553cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:25 +0000
Subject: [PATCH 50/63] fix: explaining a span query without terms releases the
 empty list of frequencies

---
 c/src/q_span.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 2f6968d..0a7cccf 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1439,9 +1439,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
      * and the field explanation */
     idf_expl1 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
-    if (terms->size > 0) {
-        free(doc_freqs); /* only free if allocated */
-    }
+    free(doc_freqs);
 
     /* explain query weight */
     query_expl = expl_new(0.0, "query_weight(%s), product of:", query_str);
-- 
2.43.0


From 8268f32354895910b7688044d6dfe470969911db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:29 +0000
Subject: [PATCH 51/63] fix: a query parser's mutex is destroyed with it

---
 c/src/q_parser.c | 1 +
 c/src/q_parser.y | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index d0eaa38..2d02005 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2875,6 +2875,7 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    mutex_destroy(&self->mutex);
     free(self);
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 8f88909..0bd70c0 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1138,6 +1138,7 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    mutex_destroy(&self->mutex);
     free(self);
 }
 
-- 
2.43.0


From 1234e99079c27cb4dc8378ab6066aee1bf4c913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:40 +0000
Subject: [PATCH 52/63] fix: searching, flushing and looking up a term through
 an Index hold its lock

---
 c/src/ind.c | 65 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 6d20f10..61b4851 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -107,13 +107,18 @@ void index_destroy(Index *self)
 
 void index_flush(Index *self)
 {
-    if (self->ir) {
-        ir_commit(self->ir);
-    } else if (self->iw) {
-        iw_close(self->iw);
-        self->iw = NULL;
-    }
-    self->has_writes = false;
+    mutex_lock(&self->mutex);
+    TRY
+        if (self->ir) {
+            ir_commit(self->ir);
+        } else if (self->iw) {
+            iw_close(self->iw);
+            self->iw = NULL;
+        }
+        self->has_writes = false;
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 INLINE void ensure_writer_open(Index *self)
@@ -281,7 +286,7 @@ void index_add_array(Index *self, char **fields)
     doc_destroy(doc);
 }
 
-Query *index_get_query(Index *self, char *qstr)
+static Query *index_get_query_i(Index *self, char *qstr)
 {
     int i;
     FieldInfos *fis;
@@ -293,16 +298,33 @@ Query *index_get_query(Index *self, char *qstr)
     return qp_parse(self->qp, qstr);
 }
 
+Query *index_get_query(Index *self, char *qstr)
+{
+    Query *query;
+    mutex_lock(&self->mutex);
+    TRY
+        query = index_get_query_i(self, qstr);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
+    return query;
+}
+
 TopDocs *index_search_str(Index *self, char *qstr, int first_doc,
                           int num_docs, Filter *filter, Sort *sort,
                           PostFilter *post_filter)
 {
-    Query *query;
+    Query *volatile query = NULL;
     TopDocs *td;
-    query = index_get_query(self, qstr); /* will ensure_searcher is open */
-    td = searcher_search(self->sea, query, first_doc, num_docs,
-                         filter, sort, post_filter);
-    q_deref(query);
+    mutex_lock(&self->mutex);
+    TRY
+        query = index_get_query_i(self, qstr); /* ensures searcher is open */
+        td = searcher_search(self->sea, query, first_doc, num_docs,
+                             filter, sort, post_filter);
+    XFINALLY
+        if (query) q_deref(query);
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return td;
 }
 
@@ -330,12 +352,17 @@ int index_term_id(Index *self, Symbol field, const char *term)
 {
     TermDocEnum *tde;
     int doc_num = -1;
-    ensure_reader_open(self);
-    tde = ir_term_docs_for(self->ir, field, term);
-    if (tde->next(tde)) {
-        doc_num = tde->doc_num(tde);
-    }
-    tde->close(tde);
+    mutex_lock(&self->mutex);
+    TRY
+        ensure_reader_open(self);
+        tde = ir_term_docs_for(self->ir, field, term);
+        if (tde->next(tde)) {
+            doc_num = tde->doc_num(tde);
+        }
+        tde->close(tde);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc_num;
 }
 
-- 
2.43.0


From 7027c7ea1b0996e58f118877424c8c2ba76d1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:06 +0000
Subject: [PATCH 53/63] fix: the table of open file system stores is created
 under its lock

---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index f360bd6..970356c 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -481,12 +481,12 @@ Store *open_fs_store(const char *pathname)
 {
     Store *store = NULL;
 
+    mutex_lock(&stores_mutex);
     if (!stores) {
         stores = h_new_str(NULL, (free_ft)fs_destroy);
         register_for_cleanup(stores, (free_ft)h_destroy);
     }
 
-    mutex_lock(&stores_mutex);
     store = (Store *)h_get(stores, pathname);
     if (store) {
         mutex_lock(&store->mutex);
-- 
2.43.0


From e0906540a2550a73e4bdb21c3d0c3cb7c74d5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 54/63] fix: copying a reader's deletions holds the reader's
 lock

---
 c/src/index.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 143a60c..ea475aa 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6844,11 +6844,16 @@ static void iw_cp_deletions(IndexWriter *iw, SegmentReader *sr,
 {
     char file_name[SEGMENT_NAME_MAX_LENGTH];
 
-    if (NULL != sr->deleted_docs) {
-        si->del_gen++;
-        fn_for_generation(file_name, si->name, "del", si->del_gen);
-        bv_write(sr->deleted_docs, iw->store, file_name);
-    }
+    mutex_lock(&IR(sr)->mutex);
+    TRY
+        if (NULL != sr->deleted_docs) {
+            si->del_gen++;
+            fn_for_generation(file_name, si->name, "del", si->del_gen);
+            bv_write(sr->deleted_docs, iw->store, file_name);
+        }
+    XFINALLY
+        mutex_unlock(&IR(sr)->mutex);
+    XENDTRY
 }
 
 static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
-- 
2.43.0


From 8df7eedb028be504daaf7f06206c1ff56e252ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 55/63] fix: a query word ending in '::' at the buffer's end
 stays inside the buffer

---
 c/src/q_parser.c | 7 ++++---
 c/src/q_parser.y | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 2d02005..fe780c5 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2083,11 +2083,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
+        if (!qp->dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            const int buf_len = (int)(bufp - buf);
             qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
+            memcpy(qp->dynbuf, buf, buf_len);
             buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+            bufp = buf + buf_len;
         }
     }
 get_word_done:
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 0bd70c0..71a8099 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -346,11 +346,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
+        if (!qp->dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            const int buf_len = (int)(bufp - buf);
             qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
+            memcpy(qp->dynbuf, buf, buf_len);
             buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+            bufp = buf + buf_len;
         }
     }
 get_word_done:
-- 
2.43.0


From 24667fc70aa92e47390e3a0b5939a9a48b318da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 56/63] fix: a long query word is kept until the parser has
 used it

---
 c/include/search.h |  2 +-
 c/src/q_parser.c   | 21 +++++++++++++--------
 c/src/q_parser.y   | 21 +++++++++++++--------
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 3b7b538..55d0bee 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -912,7 +912,7 @@ typedef struct FrtQueryParser
     char *qstr;
     char *qstrp;
     char buf[FRT_QP_CONC_WORDS][FRT_MAX_WORD_SIZE];
-    char *dynbuf;
+    char *dynbuf[FRT_QP_CONC_WORDS];
     int  buf_index;
     FrtHash *field_cache;
     FrtHashSet *def_fields;
diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index fe780c5..5ba8a13 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2043,11 +2043,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -2083,11 +2084,11 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+        if (!*dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
             const int buf_len = (int)(bufp - buf);
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            memcpy(qp->dynbuf, buf, buf_len);
-            buf = qp->dynbuf;
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, buf_len);
+            buf = *dynbuf;
             bufp = buf + buf_len;
         }
     }
@@ -2862,6 +2863,10 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -2910,7 +2915,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 71a8099..35efbbd 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -306,11 +306,12 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -346,11 +347,11 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+        if (!*dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
             const int buf_len = (int)(bufp - buf);
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            memcpy(qp->dynbuf, buf, buf_len);
-            buf = qp->dynbuf;
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, buf_len);
+            buf = *dynbuf;
             bufp = buf + buf_len;
         }
     }
@@ -1125,6 +1126,10 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -1173,7 +1178,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
-- 
2.43.0


From 22436daa154108dd48ac842255b8ce323a1ddfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 57/63] fix: a wildcard query's prefix longer than any term
 stays out of the prefix buffer

---
 c/src/q_wildcard.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index 31080bf..be8430f 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -91,17 +91,18 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     }
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
+        int prefix_len;
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
 
-        if (field_num >= 0) {
-            TermEnum *te;
-            char prefix[MAX_WORD_SIZE] = "";
-            int prefix_len;
+        pattern = (first_ques && (!first_star || first_star > first_ques))
+            ? first_ques : first_star;
 
-            pattern = (first_ques && (!first_star || first_star > first_ques))
-                ? first_ques : first_star;
+        prefix_len = (int)(pattern - WCQ(self)->pattern);
 
-            prefix_len = (int)(pattern - WCQ(self)->pattern);
+        /* no term is as long as MAX_WORD_SIZE so none has a longer prefix */
+        if (field_num >= 0 && prefix_len < MAX_WORD_SIZE) {
+            TermEnum *te;
+            char prefix[MAX_WORD_SIZE] = "";
 
             if (prefix_len > 0) {
                 memcpy(prefix, WCQ(self)->pattern, prefix_len);
-- 
2.43.0


From 6f8717b0a26dc4e5596c48a2dd6784f0029ab779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 58/63] fix: the legacy standard tokenizer keeps long words
 inside its token buffer

---
 c/src/analysis.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index ce8ec20..252171e 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -947,7 +947,9 @@ static Token *legacy_std_next(TokenStream *ts)
 
     if (t[0] == ':' && t[1] == '/' && t[2] == '/') {
         /* check for a known url start */
-        token[token_i] = '\0';
+        if (token_i <= MAX_WORD_SIZE) {
+            token[token_i] = '\0';
+        }
         t += 3;
         token_i += 3;
         while (*t == '/') {
@@ -962,7 +964,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         else {              /* still treat as url but keep the first part */
             token_i = (int)(t - start);
-            memcpy(token, start, token_i * sizeof(char));
+            memcpy(token, start, min2(token_i, MAX_WORD_SIZE) * sizeof(char));
             ts->t = std_get_url(start, token, token_i, &len); /* keep start */
         }
         return tk_set(&(CTS(ts)->token), token, len,
@@ -1008,7 +1010,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         if (is_acronym) {   /* strip '.'s */
             for (s = start + token_i; s < t; s++) {
-                if (*s != '.') {
+                if (*s != '.' && token_i < MAX_WORD_SIZE) {
                     token[token_i] = *s;
                     token_i++;
                 }
-- 
2.43.0


From 5efe7d576a395002c5eb37600fe7b36938e294b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:34 +0000
Subject: [PATCH 59/63] fix: an untokenized value of 255 bytes is cut to the
 longest term like longer ones

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index ea475aa..152817f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5704,7 +5704,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 71727d8fa5ab8558e9c8f734ca5c04daf598f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:35 +0000
Subject: [PATCH 60/63] fix: the multi-byte lower case filter leaves room for
 the terminator

---
 c/src/analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 252171e..6dfe132 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1359,7 +1359,7 @@ static Token *mb_lcf_next(TokenStream *ts)
         *wchr = towlower(*wchr);
         wchr++;
     }
-    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE);
+    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE - 1);
     if (tk->len <= 0) {
         strcpy(tk->text, "BAD_DATA");
         tk->len = 8;
-- 
2.43.0


From 2564d67ef77f583f9d4a33b6718cf9299196af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:35 +0000
Subject: [PATCH 61/63] fix: the multi-byte standard tokenizer keeps long words
 inside its buffers

---
 c/src/scanner_mb.c  | 13 ++++++++++---
 c/src/scanner_mb.rl | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index f7298eb..263dab3 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -1,6 +1,7 @@
 
 #line 1 "src/scanner_mb.rl"
 /* scanner.rl -*-C-*- */
+#include <limits.h>
 #include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -6291,7 +6292,8 @@ static void mb_to_wc(const char *in,
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    /* leave room for the terminating zero */
+    while (*in_p && out_p < (out + out_size/sizeof(*out) - 1))
     {
         /* We can break out early here on, say, a space XXX */
 
@@ -6312,6 +6314,7 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
 {
     mbstate_t state;
     char *out_p = out;
+    char mb[MB_LEN_MAX];
     const unsigned int *in_wc_p = in_wc;
     ZEROSET(&state, mbstate_t);
     *token_size = 0;
@@ -6321,13 +6324,16 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = wc_next_char(mb, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (out_p + n > (out + out_size))
+            break;
 
+        memcpy(out_p, mb, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -6700,7 +6706,8 @@ _again:
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc,
+                 sizeof(out_wc)/sizeof(*out_wc));
         out_mb[*token_size] = 0;
     }
 }
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index bc2fe19..79dd7cf 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -1,4 +1,5 @@
 /* scanner.rl -*-C-*- */
+#include <limits.h>
 #include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -100,7 +101,8 @@ static void mb_to_wc(const char *in,
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    /* leave room for the terminating zero */
+    while (*in_p && out_p < (out + out_size/sizeof(*out) - 1))
     {
         /* We can break out early here on, say, a space XXX */
 
@@ -121,6 +123,7 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
 {
     mbstate_t state;
     char *out_p = out;
+    char mb[MB_LEN_MAX];
     const unsigned int *in_wc_p = in_wc;
     ZEROSET(&state, mbstate_t);
     *token_size = 0;
@@ -130,13 +133,16 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = wc_next_char(mb, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (out_p + n > (out + out_size))
+            break;
 
+        memcpy(out_p, mb, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -195,7 +201,8 @@ void frt_std_scan_mb(const char *in_mb,
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc,
+                 sizeof(out_wc)/sizeof(*out_wc));
         out_mb[*token_size] = 0;
     }
 }
-- 
2.43.0


From 9f1db8ba090100247dbf8d4b0a7148db9e80692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:35 +0000
Subject: [PATCH 62/63] fix: file names longer than any of an index's own are
 not copied into a name buffer

---
 c/src/index.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 152817f..1b426f3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3762,6 +3762,7 @@ static void deleter_find_deletable_files_i(const char *file_name, void *arg)
     Deleter *dlr = dfa->dlr;
 
     if (file_name_filter_is_index_file(file_name, false)
+        && strlen(file_name) < SEGMENT_NAME_MAX_LENGTH
         && 0 != strcmp(file_name, dfa->curr_seg_file_name)
         && 0 != strcmp(file_name, SEGMENTS_GEN_FILE_NAME)) {
 
@@ -3804,7 +3805,7 @@ static void deleter_find_deletable_files_i(const char *file_name, void *arg)
             }
             else if (0 == strcmp("del", extension)) {
                 /* This is a _segmentName_N.del file: */
-                if (!fn_for_generation(tmp_fn, segment_name, "del", si->del_gen)
+                if (!fn_for_generation(tmp_fn, si->name, "del", si->del_gen)
                     || 0 != strcmp(file_name, tmp_fn)) {
                     /* If this is a seperate .del file, but it
                      * doesn't match the current del file name for
-- 
2.43.0


From 65d2486e66152df71b0658a4f438ef12c7ae37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:56 +0000
Subject: [PATCH 63/63] fix: a value stored compressed is packed and unpacked
 buffer by buffer, whatever its size

---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 1b426f3..4b9e661 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1267,14 +1267,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
@@ -1287,14 +1287,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (zstrm.avail_out == 0 && ret != Z_STREAM_END);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1357,14 +1357,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
@@ -1373,14 +1373,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (zstrm.avail_out == 0 && ret != BZ_STREAM_END);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1850,15 +1850,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret == Z_OK);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1878,15 +1878,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret == BZ_FINISH_OK);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0

