From ceae4256cda66ed1f764fda7ebbc4e026002e576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 01/17] fix: look for the head in the last programmed group

find_head() stepped to the following user page before it started looking.
When a checkpoint group has only two pages, that's in the next group, so
the search examined the wrong group (after the last group of a block, one
in the next block, which could even be the tail's).
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..41e541a 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From 896ae175cd0cbf97291a50269ff4c011d2b8a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 02/17] fix: locate the source of copy_sector after garbage
 collection

The source page was looked up before the automatic garbage collection
(and recovery) in the same call, which could move the sector and then
erase the block it had been in.
---
 dhara/map.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..d754c99 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -319,14 +319,11 @@ static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 	return 0;
 }
 
-static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
-			 uint8_t *meta, dhara_error_t *err)
+static int prepare_meta(struct dhara_map *m, dhara_sector_t dst,
+			uint8_t *meta, dhara_error_t *err)
 {
 	dhara_error_t my_err;
 
-	if (auto_gc(m, err) < 0)
-		return -1;
-
 	if (trace_path(m, dst, NULL, meta, &my_err) < 0) {
 		if (my_err != DHARA_E_NOT_FOUND) {
 			dhara_set_error(err, my_err);
@@ -345,6 +342,15 @@ static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
 	return 0;
 }
 
+static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
+			 uint8_t *meta, dhara_error_t *err)
+{
+	if (auto_gc(m, err) < 0)
+		return -1;
+
+	return prepare_meta(m, dst, meta, err);
+}
+
 int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		    const uint8_t *data, dhara_error_t *err)
 {
@@ -405,7 +411,29 @@ int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 		return -1;
 	}
 
-	return dhara_map_copy_page(m, p, dst, err);
+	for (;;) {
+		uint8_t meta[DHARA_META_SIZE];
+		const dhara_sector_t old_count = m->count;
+
+		/* Garbage collection and recovery may move the source and
+		 * then reuse the block it was in, so locate it only once
+		 * they're done.
+		 */
+		if (auto_gc(m, err) < 0 ||
+		    dhara_map_find(m, src, &p, err) < 0 ||
+		    prepare_meta(m, dst, meta, err) < 0)
+			return -1;
+
+		if (!dhara_journal_copy(&m->journal, p, meta, &my_err))
+			break;
+
+		m->count = old_count;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
+	}
+
+	return 0;
 }
 
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
-- 
2.43.0


From d6b502df01a50dbab7cd7a5f15fe9367942dcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 03/17] fix: don't lose the page when its checkpoint page goes
 bad

If the checkpoint page of the first group in a block can't be programmed
and the group has a single user page, there's nothing to recover, and
enqueue/copy reported success for a page which was never recorded.
---
 dhara/journal.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 41e541a..d6b8035 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -770,6 +770,9 @@ static void finish_recovery(struct dhara_journal *j)
 	clear_recovery(j);
 }
 
+/* Returns 0 on success, -1 if an error occurs, or 1 if the page's block
+ * went bad and the page should be written again at the new head.
+ */
 static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		     dhara_error_t *err)
 {
@@ -793,17 +796,21 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		if (recover_from(j, my_err, err) < 0)
+			return -1;
+
+		/* If the user page was the only one in its block, there's
+		 * nothing to recover, but the page must be written again.
+		 */
+		return 1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
@@ -832,11 +839,14 @@ int dhara_journal_enqueue(struct dhara_journal *j,
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		if (!(prepare_head(j, &my_err) ||
 		      (data && dhara_nand_prog(j->nand, j->head, data,
-					       &my_err))))
-			return push_meta(j, meta, err);
+					       &my_err)))) {
+			const int ret = push_meta(j, meta, err);
 
-		if (recover_from(j, my_err, err) < 0)
+			if (ret <= 0)
+				return ret;
+		} else if (recover_from(j, my_err, err) < 0) {
 			return -1;
+		}
 	}
 
 	dhara_set_error(err, DHARA_E_TOO_BAD);
@@ -852,11 +862,14 @@ int dhara_journal_copy(struct dhara_journal *j,
 
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		if (!(prepare_head(j, &my_err) ||
-		      dhara_nand_copy(j->nand, p, j->head, &my_err)))
-			return push_meta(j, meta, err);
+		      dhara_nand_copy(j->nand, p, j->head, &my_err))) {
+			const int ret = push_meta(j, meta, err);
 
-		if (recover_from(j, my_err, err) < 0)
+			if (ret <= 0)
+				return ret;
+		} else if (recover_from(j, my_err, err) < 0) {
 			return -1;
+		}
 	}
 
 	dhara_set_error(err, DHARA_E_TOO_BAD);
-- 
2.43.0


From 12a9998eaf54caa5c6e0cade3639454957dbce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 04/17] fix: don't try to recover an empty journal

If a block went bad while the journal was empty (after a clear, or after
the last page was dequeued), recovery was started with no root page: it
accessed pages outside the chip and never ended.
---
 dhara/journal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index d6b8035..2db3f91 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -737,6 +737,15 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* Is the journal empty? Then there's nothing in the block to
+	 * recover, and no reason to leave the tail there.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		dhara_nand_mark_bad(j->nand, old_head >> j->nand->log2_ppb);
+		return 0;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-- 
2.43.0


From fd9ca2272c87b7b06b3f951daaac7ff484418827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 05/17] fix: keep the root's metadata if the first write after
 resume fails

Having resumed in the middle of a checkpoint group, the root is in an
earlier group, with metadata of its own. If the first page written went
bad, the (blank) buffered metadata was dumped and then used instead of
the root's, so that the whole map was lost.
---
 dhara/journal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 2db3f91..ab1cbd3 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -750,8 +750,12 @@ static int recover_from(struct dhara_journal *j,
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
-	/* Are we holding buffered metadata? Dump it first. */
+	/* Are we holding buffered metadata? Dump it first. (There's none
+	 * if we resumed in the middle of a checkpoint group, and haven't
+	 * yet written anything to it).
+	 */
 	if (!is_aligned(old_head, j->log2_ppc) &&
+	    align_eq(j->root, old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From e6df349dee6f0c5972c2b40f33efcea0ab2f59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 06/17] fix: don't leave the tail in a recovered block

A block which went bad in service might have no readable metadata for its
last checkpoint group. If the tail was in that block, garbage collection
failed with an ECC error when it got there, for good.
---
 dhara/journal.c | 18 +++++++++++++++++-
 dhara/map.c     | 13 +++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index ab1cbd3..8c0c8c7 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -764,6 +764,21 @@ static int recover_from(struct dhara_journal *j,
 	return -1;
 }
 
+/* Where should the tail be, once the pages being written are
+ * checkpointed? If we're finishing a recovery, don't leave the tail in
+ * the block that's about to be marked bad: its last metadata might not
+ * be readable.
+ */
+static dhara_page_t next_tail(const struct dhara_journal *j)
+{
+	if ((j->flags & DHARA_JOURNAL_F_ENUM_DONE) &&
+	    align_eq(j->tail, j->recover_root, j->nand->log2_ppb))
+		return next_block(j->nand, j->tail >> j->nand->log2_ppb) <<
+			j->nand->log2_ppb;
+
+	return j->tail;
+}
+
 static void finish_recovery(struct dhara_journal *j)
 {
 	/* We just recovered the last page. Mark the recovered
@@ -780,6 +795,7 @@ static void finish_recovery(struct dhara_journal *j)
 			j->recover_meta >> j->nand->log2_ppb);
 
 	/* Was the tail on this page? Skip it forward */
+	j->tail = next_tail(j);
 	clear_recovery(j);
 }
 
@@ -811,7 +827,7 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
-	hdr_set_tail(j->page_buf, j->tail);
+	hdr_set_tail(j->page_buf, next_tail(j));
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
diff --git a/dhara/map.c b/dhara/map.c
index d754c99..4e7a3a8 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -250,6 +250,15 @@ static int raw_gc(struct dhara_map *m, dhara_page_t src,
 	return 0;
 }
 
+/* Remove a page from the tail, unless completing a recovery has already
+ * done so.
+ */
+static void dequeue_page(struct dhara_map *m, dhara_page_t p)
+{
+	if (dhara_journal_peek(&m->journal) == p)
+		dhara_journal_dequeue(&m->journal);
+}
+
 static int pad_queue(struct dhara_map *m, dhara_error_t *err)
 {
 	dhara_page_t p = dhara_journal_root(&m->journal);
@@ -523,7 +532,7 @@ int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 		} else {
 			ret = raw_gc(m, p, &my_err);
 			if (!ret)
-				dhara_journal_dequeue(&m->journal);
+				dequeue_page(m, p);
 		}
 
 		if ((ret < 0) && (try_recover(m, my_err, err) < 0))
@@ -546,7 +555,7 @@ int dhara_map_gc(struct dhara_map *m, dhara_error_t *err)
 			break;
 
 		if (!raw_gc(m, tail, &my_err)) {
-			dhara_journal_dequeue(&m->journal);
+			dequeue_page(m, tail);
 			break;
 		}
 
-- 
2.43.0


From 742e26d11c7f61e8bc09ad5af8fdc7e3af87a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 07/17] fix: don't let the head reach the tail over a bad block

With only one user page per block, skipping a bad block and writing one
page to the next moves the head onto the last-synced tail, and the
journal appears to be empty.
---
 dhara/journal.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index 8c0c8c7..e367cdc 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -636,6 +636,16 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
+		/* If there's only one user page in a block, then writing
+		 * to the one we skip to might also cause the head pointer
+		 * to roll onto the last-synced tail.
+		 */
+		if (next_upage(j, next_block(j->nand, blk) <<
+				j->nand->log2_ppb) == j->tail_sync) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
+
 		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
-- 
2.43.0


From 4bb7e91c51e712163e5cb8e0dff3ef6f6397019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 08/17] fix: keep an emptied journal's failed block until the
 next checkpoint

If everything in the journal has been dequeued or cleared since the last
checkpoint, and the block it's in then fails, the block was marked bad
straight away, and a power cut before the next checkpoint took us back
to a checkpoint older than the last one.
---
 dhara/journal.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index e367cdc..5c767dc 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -667,6 +667,15 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	else
 		j->flags |= DHARA_JOURNAL_F_BAD_META;
 
+	/* If the journal was empty, there's nothing to enumerate. Just
+	 * discard whatever we wrote to the block.
+	 */
+	if (j->recover_next == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		j->root = DHARA_PAGE_NONE;
+		return;
+	}
+
 	/* Start recovery again. Reset the source enumeration to
 	 * the start of the original bad block, and reset the
 	 * destination enumeration to the newly found good
@@ -748,12 +757,16 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Is the journal empty? Then there's nothing in the block to
-	 * recover, and no reason to leave the tail there.
+	 * recover. But the block might hold the last checkpoint, so we
+	 * can't mark it bad until we've written another.
 	 */
 	if (j->root == DHARA_PAGE_NONE) {
 		j->tail = j->head;
-		dhara_nand_mark_bad(j->nand, old_head >> j->nand->log2_ppb);
-		return 0;
+		j->recover_root = old_head;
+		j->flags |= DHARA_JOURNAL_F_RECOVERY |
+			    DHARA_JOURNAL_F_ENUM_DONE;
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
 	}
 
 	j->recover_root = j->root;
-- 
2.43.0


From 82fe89b05885220821dce43df5527704dd9e38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 09/17] fix: don't peek at the head of an empty journal

If only bad blocks were left between the tail and the head, peek()
noticed that the journal was empty, but returned the head page.
---
 dhara/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5c767dc..de6fbab 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -543,8 +543,10 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 6f762455a4e311645cef7cf7bc2f1b23196c5f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 10/17] fix: gftool: reject arguments which are out of bounds

A generator of degree 0 overran the logarithm table, a search degree out
of range never finished, and large syndrome counts were truncated.
---
 tools/gftool.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tools/gftool.c b/tools/gftool.c
index 43388ff..91fea04 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -106,15 +106,16 @@ static gf_elem_t *gf_log;
 static int gf_init(poly_t generator)
 {
 	const int deg = degree(generator);
-	const int tab_size = 1 << deg;
+	int tab_size;
 	poly_t a = 1;
 	int i;
 
-	if (deg > sizeof(gf_elem_t) * 8) {
+	if (deg < 1 || deg > sizeof(gf_elem_t) * 8) {
 		fprintf(stderr, "gf_init: generator degree out of bounds\n");
 		return -1;
 	}
 
+	tab_size = 1 << deg;
 	gf_order = tab_size - 1;
 	gf_degree = deg;
 
@@ -237,6 +238,11 @@ static int poly_search(int degree)
 {
 	poly_t i;
 
+	if (degree < 1 || degree > 30) {
+		fprintf(stderr, "poly_search: degree out of bounds\n");
+		return -1;
+	}
+
 	for (i = 1 << degree; (i >> degree) <= 1; i++)
 		if (is_primitive(i)) {
 			print_poly('x', i);
@@ -285,14 +291,14 @@ static gf_elem_t minimal(gf_elem_t x)
 /* Find the product of minimal polynomials of the first N powers of
  * alpha.
  */
-static int bch_generator(gf_elem_t n, poly_t *out)
+static int bch_generator(int n, poly_t *out)
 {
 	const size_t bm_memsz = bit_memsz(1 << (gf_degree + 1));
 	uint8_t *bm;
 	poly_t r = 1;
-	gf_elem_t i;
+	int i;
 
-	if (n >= gf_order) {
+	if (n < 0 || n >= gf_order) {
 		fprintf(stderr, "bch_generator: syndrome count "
 			"out of bounds\n");
 		return -1;
-- 
2.43.0


From 3c0f22c90b4ae87d837f69e627bb8eb7af710c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 11/17] fix: gftool: BCH generators over fields of degree 16

The sum of two logarithms, and a minimal polynomial, can take more than
16 bits.
---
 tools/gftool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/gftool.c b/tools/gftool.c
index 91fea04..276d693 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -168,7 +168,7 @@ static void gf_dump(const gf_elem_t *tab)
 		printf("\n");
 }
 
-static inline gf_elem_t mod_s(gf_elem_t x)
+static inline gf_elem_t mod_s(int x)
 {
 	return (x >= gf_order) ? (x - gf_order) : x;
 }
@@ -277,7 +277,7 @@ static gf_elem_t eval_poly(poly_t p, gf_elem_t x)
 }
 
 /* Find the minimal polynomial of the given element */
-static gf_elem_t minimal(gf_elem_t x)
+static poly_t minimal(gf_elem_t x)
 {
 	poly_t i;
 
-- 
2.43.0


From 19628e0ed2c2efc2a688c1e9489e0dce356cd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 12/17] fix: gftool: x is not a primitive polynomial

---
 tools/gftool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/gftool.c b/tools/gftool.c
index 276d693..67d0852 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -214,6 +214,10 @@ static int is_primitive(poly_t p)
 	poly_t start;
 	int i;
 
+	/* It can't be primitive if it's divisible by x */
+	if (!(p & 1))
+		return 0;
+
 	/* Choose a starting element */
 	for (i = 0; i < max_order; i++) {
 		r <<= 1;
-- 
2.43.0


From a447156beb88f5c58bc1db5e0442ce1464115652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 13/17] fix: gftool: don't print an uninitialised logarithm

Nothing is stored for the logarithm of 0.
---
 tools/gftool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gftool.c b/tools/gftool.c
index 67d0852..bdb93d5 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -119,7 +119,7 @@ static int gf_init(poly_t generator)
 	gf_order = tab_size - 1;
 	gf_degree = deg;
 
-	gf_exp = malloc(tab_size * 2 * sizeof(gf_exp[0]));
+	gf_exp = calloc(tab_size * 2, sizeof(gf_exp[0]));
 	if (!gf_exp) {
 		perror("gf_init: malloc");
 		return -1;
-- 
2.43.0


From 95c906bd93be909bf3e37bf260917afc47cbc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 14/17] fix: keep buffered metadata when there's no room to
 dump it

If a block fails and there's nowhere to dump the buffered metadata (the
journal is full, or there are too many bad blocks), the head had already
moved on, so that the metadata of the pages in the failed block's last
checkpoint group could no longer be read. Leave the head where it was: the
buffer holds the only copy.
---
 dhara/journal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index de6fbab..7b7313c 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -734,6 +734,7 @@ static int recover_from(struct dhara_journal *j,
 			dhara_error_t *err)
 {
 	const dhara_page_t old_head = j->head;
+	const struct dhara_journal saved = *j;
 
 	if (write_err != DHARA_E_BAD_BLOCK) {
 		dhara_set_error(err, write_err);
@@ -781,8 +782,13 @@ static int recover_from(struct dhara_journal *j,
 	 */
 	if (!is_aligned(old_head, j->log2_ppc) &&
 	    align_eq(j->root, old_head, j->log2_ppc) &&
-	    dump_meta(j, err) < 0)
+	    dump_meta(j, err) < 0) {
+		/* There's no room for it: the buffer is the only copy, so
+		 * leave the head where it is.
+		 */
+		*j = saved;
 		return -1;
+	}
 
 	j->flags |= DHARA_JOURNAL_F_RECOVERY;
 	dhara_set_error(err, DHARA_E_RECOVER);
-- 
2.43.0


From 0271199d18ba0242aae5ac72674efd486d402199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:11 +0000
Subject: [PATCH 15/17] fix: take up an interrupted recovery again

If a map operation failed for another reason while recovering from a block
failure (a read error, for example), the journal was left in the middle of
recovery, with the page in question already handed out. Nothing ever finished
that recovery: the page was lost when the failed block was dropped, and until
then no space could be reclaimed, so that writes ended in E_JOURNAL_FULL.
Restart the enumeration, and finish recovery before doing anything else.

Also don't bring back cleared pages if another block fails.
---
 dhara/journal.c | 22 ++++++++++++++++++----
 dhara/journal.h |  6 ++++++
 dhara/map.c     | 19 +++++++++++++++++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 7b7313c..3100f4b 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -592,6 +592,12 @@ void dhara_journal_clear(struct dhara_journal *j)
 	j->root = DHARA_PAGE_NONE;
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 
+	/* If we were in recovery, there's no longer anything to recover */
+	if (dhara_journal_in_recovery(j)) {
+		j->recover_next = DHARA_PAGE_NONE;
+		j->flags |= DHARA_JOURNAL_F_ENUM_DONE;
+	}
+
 	hdr_clear_user(j->page_buf, j->nand->log2_page_size);
 }
 
@@ -683,10 +689,7 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	 * destination enumeration to the newly found good
 	 * block.
 	 */
-	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
-	j->recover_next =
-		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-
+	dhara_journal_restart_recovery(j);
 	j->root = j->recover_root;
 }
 
@@ -953,3 +956,14 @@ dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j)
 
 	return n;
 }
+
+void dhara_journal_restart_recovery(struct dhara_journal *j)
+{
+	if (!dhara_journal_in_recovery(j) ||
+	    (j->recover_next == DHARA_PAGE_NONE))
+		return;
+
+	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
+	j->recover_next =
+		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+}
diff --git a/dhara/journal.h b/dhara/journal.h
index 6eb455b..c853898 100644
--- a/dhara/journal.h
+++ b/dhara/journal.h
@@ -253,4 +253,10 @@ static inline int dhara_journal_in_recovery(const struct dhara_journal *j)
 
 dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j);
 
+/* If recovery has to be interrupted (because a page couldn't be read, for
+ * example), call this function. It can then be taken up again later: all
+ * blocks will be returned again by dhara_journal_next_recoverable().
+ */
+void dhara_journal_restart_recovery(struct dhara_journal *j);
+
 #endif
diff --git a/dhara/map.c b/dhara/map.c
index 4e7a3a8..89fc84e 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -298,11 +298,13 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
+				dhara_journal_restart_recovery(&m->journal);
 				dhara_set_error(err, my_err);
 				return -1;
 			}
 
 			if (restart_count >= DHARA_MAX_RETRIES) {
+				dhara_journal_restart_recovery(&m->journal);
 				dhara_set_error(err, DHARA_E_TOO_BAD);
 				return -1;
 			}
@@ -314,10 +316,21 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	return 0;
 }
 
+/* If the last operation failed in the middle of a recovery, finish it
+ * before doing anything else.
+ */
+static int finish_recovery(struct dhara_map *m, dhara_error_t *err)
+{
+	return try_recover(m, DHARA_E_RECOVER, err);
+}
+
 static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 {
 	int i;
 
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	if (dhara_journal_size(&m->journal) < dhara_map_capacity(m))
 		return 0;
 
@@ -522,6 +535,9 @@ int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 
 int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 {
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	while (!dhara_journal_is_clean(&m->journal)) {
 		dhara_page_t p = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
@@ -547,6 +563,9 @@ int dhara_map_gc(struct dhara_map *m, dhara_error_t *err)
 	if (!m->count)
 		return 0;
 
+	if (finish_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		dhara_page_t tail = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
-- 
2.43.0


From 102bc9055be084d764395e229215e7dbdbcaec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:49 +0000
Subject: [PATCH 16/17] fix: don't reprogram a failed block when there's no
 room to move on

If a block failed and the journal was full (or there were too many bad blocks
to skip), the head was left in the failed block, and the next write programmed
the same page again, contrary to what nand.h promises. Remember that the head's
block failed, and look for room again instead.
---
 dhara/journal.c | 15 ++++++++++++++-
 dhara/journal.h |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 3100f4b..a5ab75d 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -634,6 +634,14 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	/* The head's block failed, and there was no room to move on. It
+	 * can't be programmed again.
+	 */
+	if (j->flags & DHARA_JOURNAL_F_BAD_HEAD) {
+		dhara_set_error(err, DHARA_E_BAD_BLOCK);
+		return -1;
+	}
+
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 	if (!is_aligned(j->head, j->nand->log2_ppb))
 		return 0;
@@ -737,18 +745,23 @@ static int recover_from(struct dhara_journal *j,
 			dhara_error_t *err)
 {
 	const dhara_page_t old_head = j->head;
-	const struct dhara_journal saved = *j;
+	struct dhara_journal saved;
 
 	if (write_err != DHARA_E_BAD_BLOCK) {
 		dhara_set_error(err, write_err);
 		return -1;
 	}
 
+	j->flags |= DHARA_JOURNAL_F_BAD_HEAD;
+	saved = *j;
+
 	/* Advance to the next free page */
 	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
+	j->flags &= ~DHARA_JOURNAL_F_BAD_HEAD;
+
 	/* Are we already in the middle of a recovery? */
 	if (dhara_journal_in_recovery(j)) {
 		restart_recovery(j, old_head);
diff --git a/dhara/journal.h b/dhara/journal.h
index c853898..35d3b2c 100644
--- a/dhara/journal.h
+++ b/dhara/journal.h
@@ -50,6 +50,7 @@
 #define DHARA_JOURNAL_F_BAD_META	0x02
 #define DHARA_JOURNAL_F_RECOVERY	0x04
 #define DHARA_JOURNAL_F_ENUM_DONE	0x08
+#define DHARA_JOURNAL_F_BAD_HEAD	0x10
 
 /* The journal layer presents the NAND pages as a double-ended queue.
  * Pages, with associated metadata may be pushed onto the end of the
-- 
2.43.0


From 22689eb081041fb7ded33545dfd68f6a5eefaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 17/17] fix: metadata offset truncated in checkpoint groups of
 more than 256 pages

With pages of 128 kB and blocks of 512 pages or more, a checkpoint covers 511
user pages, but the page's index in the group was cut to 8 bits, so that
two pages shared one metadata slot.
---
 dhara/journal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index a5ab75d..f94e229 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -86,7 +86,7 @@ static inline void hdr_clear_user(uint8_t *buf, uint8_t log2_page_size)
 }
 
 /* Obtain pointers to user data */
-static inline size_t hdr_user_offset(uint8_t which)
+static inline size_t hdr_user_offset(dhara_page_t which)
 {
 	return DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE +
 		which * DHARA_META_SIZE;
-- 
2.43.0

