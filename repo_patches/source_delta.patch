From 265fcf6bfb2a1b06ee1512c1c6a5427140b9c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 01/42] fix: keep a page pinned while its owner still holds
 references to it

ffdb_pagepool_put_page unpinned the page and handed it to a waiter on the
first put even when the owner thread held it twice (cursor + get on the same
bucket), so the second put aborted with 'not pinned' and the page could be
evicted or modified under its holder. The waiter was also signalled after the
lock was dropped, when it may already have freed its condition variable.
---
 filehash/ffdb_pagepool.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..745cedd 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /**
+   * The owner thread may hold this page more than once (a cursor and a get
+   * for example): the page is given up with the last reference only
+   */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
@@ -1253,16 +1263,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
   if (bp->waiters > 0) {
     sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
     sleeper->wakeup = 0xdeafbeaf;
-  }
-
-  FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
 #if 0
-  fprintf (stderr, "Signaling page %d free \n", bp->pgno);
+    fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
-  if (sleeper)
+    /* Signal with the lock held: the waiter frees its conditional variable
+     * as soon as it sees the wakeup value
+     */
     FFDB_COND_SIGNAL(sleeper->cv);
+  }
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From 7c72efa8e058610fec6c79fb1aed637cce79dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 02/42] fix: release the bucket page when FFDB_NOOVERWRITE
 refuses a put

The page stayed pinned, was skipped by every later flush and the records in
that bucket were lost at close.
---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..51ea218 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1318,6 +1318,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From ee95d0093be8197f4d2ec47de84e2423870b2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 03/42] fix: release data and bucket pages on every exit of a
 get

Too small a caller buffer, an empty datum and a failed read left pages
pinned; pinned pages are never written back, so their content was lost at
close (and reopening such a file never terminated).
---
 filehash/ffdb_page.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..cfab508 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,9 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  /* there is nothing to copy for an empty datum */
+  if (rlen == 0)
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1550,6 +1555,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2735,6 +2742,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 060d0c94aaf55b2534e098d5bf215e9b3418368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 04/42] fix: do not read past the end of the caller's datum
 when storing it

A datum whose last fragment fills a page up to less than one data header was
copied with the full page length.
---
 filehash/ffdb_page.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index cfab508..c647c15 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -729,6 +729,9 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	/* the datum may end on this page without leaving space for another */
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -863,8 +866,11 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       /* check whether data will fit this page */
       if ((size_t)rlen <= hashp->hdr.bsize - BIG_PAGE_OVERHEAD - BIG_DATA_OVERHEAD) 
 	copylen = rlen;
-      else 
+      else {
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
+      }
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From 61d076a47b9c3fb01770e50de91b9c43c45aa65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 05/42] fix: do not rearrange pages on close when the last
 level has none

With spares[] == 0 the last page number wrapped around and the file was
truncated/extended to 2^32 pages and could not be reopened.
---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c647c15..c98b7ef 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2390,6 +2390,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* There is nothing to move when no page has been allocated on this level */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From 868e08f850854fda370ec0e9abd19bc6f308baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:04 +0000
Subject: [PATCH 06/42] fix: split bucket 0 when a single bucket table grows

A table created with one bucket (the default) has low_mask == ~0, so its
first expansion 'split' the new empty bucket instead of bucket 0 and every
key hashing to bucket 1 became unreachable.
---
 filehash/ffdb_hash.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51ea218..0634c25 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1079,15 +1079,16 @@ _ffdb_expand_table (ffdb_htab_t* hashp)
   /* The number of buckets is increased by one, obviously */
   new_bucket = ++hashp->hdr.max_bucket;
   
-  /* which bucket to split */
-  old_bucket = (hashp->hdr.max_bucket & hashp->hdr.low_mask);
-
   /* If new bucket is greater than high mask, we do doubling again */
   if (new_bucket > hashp->hdr.high_mask) {
     hashp->hdr.low_mask = hashp->hdr.high_mask;
     hashp->hdr.high_mask = new_bucket | hashp->hdr.low_mask;
   }
 
+  /* which bucket to split: low mask of a single bucket table is valid
+   * only after the masks have been updated */
+  old_bucket = (hashp->hdr.max_bucket & hashp->hdr.low_mask);
+
   /*
    * If the split point is increasing (hdr.max_bucket's log base 2
    * increases), we need to copy the current contents of the spare
-- 
2.43.0


From 3142e822d1f5bfd310cadb26f083344071133a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:07 +0000
Subject: [PATCH 07/42] fix: cursors visit every key backward, stop at the ends
 and on an empty table

FFDB_PREV followed NEXT_PGNO and FFDB_LAST started on the primary page, so
keys on overflow pages were skipped or visited for ever; FFDB_NEXT/FFDB_PREV
after the end dereferenced a null page; FFDB_FIRST on an empty table touched
the page behind the last bucket and FFDB_LAST underflowed the bucket number.
---
 filehash/ffdb_page.c | 69 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index c98b7ef..3a9b5ee 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2789,12 +2789,33 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
 /***************************************************************************
  *         Cursor related routines                                         *
  ***************************************************************************/
+
+/**
+ * Walk from the page held by the cursor to the last page of its bucket
+ */
+static int
+_ffdb_cursor_chain_end (ffdb_htab_t* hashp, ffdb_crs_t* cursor, pgno_t* page)
+{
+  pgno_t nextp;
+
+  while ((nextp = NEXT_PGNO(cursor->item.pagep)) != INVALID_PGNO) {
+    ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
+    cursor->item.pagep = ffdb_get_page (hashp, nextp, HASH_RAW_PAGE, 0, page);
+    if (!cursor->item.pagep) {
+      fprintf (stderr, "Cannot get overflow page %d for cursor\n", nextp);
+      cursor->item.status = ITEM_ERROR;
+      return -1;
+    }
+  }
+  return 0;
+}
+
 int 
 ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 			 FFDB_DBT* key, FFDB_DBT* data,
 			 unsigned int flags)
 {
-  pgno_t bucket, tp, nextp;
+  pgno_t bucket, tp, nextp, prevp;
   unsigned char* ekdata;
   unsigned int   eksize;
 
@@ -2815,7 +2836,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     }
     /* Skip empty buckets */
     while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+	   bucket < hashp->hdr.max_bucket) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
@@ -2830,7 +2851,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
+    if (NUM_ENT(cursor->item.pagep) == 0) {
       /* empty database */
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       cursor->item.status = ITEM_NO_MORE;
@@ -2861,6 +2882,11 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2871,20 +2897,21 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
+    if (_ffdb_cursor_chain_end (hashp, cursor, &tp) != 0)
+      return -1;
+
     cursor->item.pgno = tp;
     cursor->item.bucket = bucket;    
     cursor->item.pgndx = NUM_ENT(cursor->item.pagep) - 1;
     cursor->item.status = ITEM_OK;
   }
+  else if ((flags == FFDB_NEXT || flags == FFDB_PREV) &&
+	   !cursor->item.pagep) {
+    /* The cursor ran off the end (or failed) already */
+    return (cursor->item.status == ITEM_ERROR) ? -1 : FFDB_NOT_FOUND;
+  }
   else if (flags == FFDB_NEXT) {
     /* We have reached the last data on the key page */
     if (cursor->item.pgndx == NUM_ENT(cursor->item.pagep) - 1) {
@@ -2960,23 +2987,28 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
   else if (flags == FFDB_PREV) {
     /* We have reached the beginning of the key page */
     if (cursor->item.pgndx == 0) {
-      /* Remember next page since we always go to the bucket page */
-      nextp = NEXT_PGNO(cursor->item.pagep);
+      /* Remember previous page of this bucket, the bucket page has none */
+      prevp = PREV_PGNO(cursor->item.pagep);
       /* put this page out */
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      if (cursor->item.bucket == 0 && nextp == INVALID_PGNO) {
+      if (cursor->item.bucket == 0 && prevp == INVALID_PGNO) {
 	/* We are done */
 	cursor->item.status = ITEM_NO_MORE;
 	cursor->item.pagep = 0;
 	return FFDB_NOT_FOUND;
       }
-      if (nextp == INVALID_PGNO) {
+      if (prevp == INVALID_PGNO) {
 	/* decrease bucket by one */
 	cursor->item.bucket--;
 	/* Get new page */
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
-
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
@@ -3003,10 +3035,13 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	  }
 
 	}
+	/* Going backward starts at the end of the chain of a bucket */
+	if (_ffdb_cursor_chain_end (hashp, cursor, &tp) != 0)
+	  return -1;
       }
       else {
-	/* Get next page */
-	cursor->item.pagep = ffdb_get_page (hashp, nextp,
+	/* Get previous page */
+	cursor->item.pagep = ffdb_get_page (hashp, prevp,
 					    HASH_RAW_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for prev cursor bucket %d\n",
-- 
2.43.0


From 444de09cea10ecf0f1080b35842b0ebd19cc0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 08/42] fix: write pages of a foreign byte order file from a
 copy

The out filter swapped the cached page in place and the page stayed swapped
in the cache, so a database of the other byte order was destroyed by the
first flush followed by further use.
---
 filehash/ffdb_pagepool.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 745cedd..0453b5c 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,23 +265,33 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  char *outbuf;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
+  /* Run through the user's filter. The filter may convert the page to its
+   * disk format, so it works on a copy: the page stays in the cache
+   */
+  outbuf = (char *)malloc (pgp->pagesize);
+  if (!outbuf) {
+    fprintf (stderr, "Cannot allocate a buffer to write page %d\n", bp->pgno);
+    return -1;
+  }
+  memcpy (outbuf, bp->page, pgp->pagesize);
   if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, outbuf);
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, outbuf, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
+  free (outbuf);
 
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
-- 
2.43.0


From 77c8149910d65aaf35bc7e19226dad4f838e9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 09/42] fix: swap the length of user information on its first
 page only

On continuation pages the first four bytes of the user's data were swapped
when a file of the other byte order was read.
---
 filehash/ffdb_page.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3a9b5ee..bff9499 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first page carries the length, the others only raw bytes */
+    if (NUM_ENT(p) > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -352,7 +354,8 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    if (num > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
-- 
2.43.0


From 6765e194b2e40878190f7811a42c21b098372255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 10/42] fix: verify a page before trusting its content

A damaged page signature made the page look empty, so its keys silently
disappeared, and pages of the other byte order were swapped entry by entry
before the checksum was verified, writing outside the page when the entry
count was damaged.
---
 filehash/ffdb_page.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index bff9499..11db492 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -257,22 +257,20 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 {
   ffdb_htab_t* hashp;
   unsigned int chksum = 0;
+  unsigned int sign, stored, i;
 
   hashp = (ffdb_htab_t *)arg;
 
   /* calculate checksum before byte swapped */
   chksum = _ffdb_page_checksum (hashp, page);
 
-#if 0
-  /* First swap the header to disk */
-  if (hashp->mborder == LITTLE_ENDIAN) 
-    _ffdb_swap_page_metainfo_in (page);
-#endif
-
-#if 1
-  if (hashp->hdr.lorder != hashp->mborder)
-    _ffdb_swap_page_metainfo_in (page);  
-#endif
+  /* check the page before any of its content is trusted */
+  sign = PAGE_SIGN(page);
+  stored = CHKSUM(page);
+  if (hashp->hdr.lorder != hashp->mborder) {
+    M_32_SWAP(sign);
+    M_32_SWAP(stored);
+  }
 
 #ifdef _FFDB_DEBUG
   fprintf (stderr, "Read page %d in at memory %p\n", pgno, page);
@@ -281,16 +279,24 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   fprintf (stderr, "Page TYPE 0x%x OFFSET %d\n", TYPE(page), OFFSET(page));
 #endif  
   
-  if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
-    /* This is a unintialized page */
+  if (sign != FFDB_PAGE_MAGIC) {
+    /* This is a unintialized page: a hole in the file */
+    for (i = 0; i < hashp->hdr.bsize; i++) {
+      if (((unsigned char *)page)[i] != 0) {
+	fprintf (stderr, "Reading page %d: page signature 0x%x is damaged\n", pgno, sign);
+	exit (123);
+      }
+    }
     _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
   }
   else {
-    if (chksum != CHKSUM(page)) {
+    if (chksum != stored) {
       /* The check sum chould 0 because this page is empty page */
-      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
+      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, stored);
       exit (123);
     }
+    if (hashp->hdr.lorder != hashp->mborder)
+      _ffdb_swap_page_metainfo_in (page);
   }
 }
 
-- 
2.43.0


From 96d8c6e8171d6764b968d1a4b9b35d5286301dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 11/42] fix: report I/O errors instead of ignoring them

read() errors were treated as a successful read of an uninitialised buffer,
errors writing pages on sync and close and errors adding an overflow page
were dropped.
---
 filehash/ffdb_hash.c     | 11 ++++++++---
 filehash/ffdb_page.c     |  2 +-
 filehash/ffdb_pagepool.c | 10 +++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 0634c25..b55f6ea 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -300,13 +300,15 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
@@ -1393,7 +1395,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 11db492..2fdfb54 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1842,7 +1842,7 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 0453b5c..ba45b47 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -774,12 +774,16 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if (nbytes < 0 || ((unsigned int)nbytes != pgp->pagesize && nbytes > 0)) {
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    free (bp);
+    --pgp->curcache;
+    return EIO;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From 7f81c34e77edbbdc982a404d884e0b3e52eb1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 12/42] fix: ffdb_get_config does not depend on the caller's
 output structure

The index of the (uninitialised) output structure was compared with the
number of configuration pages.
---
 filehash/ffdb_hash.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index b55f6ea..3d3c407 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1532,13 +1532,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From 7299b2ddd25427d17d8f87b63d53115ba713d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 13/42] fix: protect the cursor queue when threads open and
 close cursors

---
 filehash/ffdb_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 3d3c407..e398d56 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1436,7 +1436,9 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1625,7 +1627,9 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
+  FFDB_LOCK(hashp->lock);
   FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(hashp->lock);
 
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
-- 
2.43.0


From 38169e3bf3fe7868e9b9eaf7a0ab1290e4dc8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:27 +0000
Subject: [PATCH 14/42] fix: keys within three bytes of the maximum length fit
 on an empty page

---
 filehash/ffdb_page.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..4d11594 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -230,9 +230,10 @@ typedef struct _ffdb_datap_
   ((OFFSET((P)) + 1 - PAGE_OVERHEAD - (NUM_ENT((P)) * PAIR_OVERHEAD)))
 
 /**
- * Whether a regular key and pair would fit
+ * Whether a regular key and pair would fit. PAIRSIZE is an over estimate:
+ * an empty page takes every key that is not longer than FFDB_MAX_KEYSIZE
  */
-#define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
+#define PAIRFITS(P,K,D)	(NUM_ENT((P)) == 0 || (PAIRSIZE((K),(D))) <= FREESPACE((P)))
 
 /**
  * Page allocation definition
@@ -354,8 +355,6 @@ typedef struct _ffdb_data_header_
  */
 #define FFDB_MAX_KEYSIZE(h) ((h->hdr.bsize) - PAGE_OVERHEAD - PAIR_OVERHEAD - sizeof(ffdb_datap_t))
 
-#define PAIRFITS(P,K,D)	((PAIRSIZE((K),(D))) <= FREESPACE((P)))
-
 /**
  * Free Map Page: This is the pages descrbing which pages are free.
  * The free pages are the result of pages being deleted (most likely
-- 
2.43.0


From f54be422a25081631a184dcbaa3aa1108c1b1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:34 +0000
Subject: [PATCH 15/42] fix: a freed overflow page does not keep its old
 content in the file

---
 filehash/ffdb_page.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2fdfb54..0bc97fd 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1350,7 +1350,8 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      /* the file must not keep the old content of this page */
+      return ffdb_put_page (hashp, pagep, HASH_DELETED_PAGE, 1);
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-- 
2.43.0


From 0ab99e4bd684a30c6ecaf67eaf7b51e1141681eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 16/42] fix: refuse to set user or configuration information
 through a read only handle

---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index e398d56..0efe497 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1466,6 +1466,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing can be changed through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1515,6 +1521,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing can be changed through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1547,6 +1559,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* nothing can be changed through a read only handle */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From 035f60e62a599cdc79325392ca7d45780ebca939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 17/42] fix: configurations that were never set are returned as
 zeros

---
 filehash/ffdb_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 0efe497..fc3c86f 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1493,7 +1493,7 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   hashp = (ffdb_htab_t *)db->internal;
 
   configs->numconfigs = hashp->hdr.num_cfigs;
-  configs->allconfigs = (ffdb_config_info_t *)malloc(configs->numconfigs * sizeof(ffdb_config_info_t));
+  configs->allconfigs = (ffdb_config_info_t *)calloc(configs->numconfigs, sizeof(ffdb_config_info_t));
   if (!configs->allconfigs) {
     fprintf (stderr, "Cannot allocate memory space for all configurations.\n");
     errno = ENOMEM;
-- 
2.43.0


From 73f580f2567005a07a8be91e9d922a9d89c618fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:55 +0000
Subject: [PATCH 18/42] fix: report I/O errors while splitting, rearranging and
 opening

A page that could not be read or written while a bucket was split, while
pages were moved on open or on close, or while the header was sought was
ignored, so that keys were lost without any operation reporting it; an
unreadable user information page at open crashed.
---
 filehash/ffdb_hash.c     | 45 +++++++++++++++++++++++++++-----
 filehash/ffdb_page.c     | 55 +++++++++++++++++++++++++++-------------
 filehash/ffdb_pagepool.c | 12 +++++----
 3 files changed, 83 insertions(+), 29 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index fc3c86f..d3249bc 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,7 +228,10 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "hash: could not seek to hash header");
+    return -1;
+  }
   num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
@@ -266,7 +269,8 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   int save_errno = 0;
 
   if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = errno ? errno : EIO;
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -420,7 +424,10 @@ _ffdb_hget_header(ffdb_htab_t *hashp, unsigned int page_size)
    * XXX
    * This should not be printing to stderr on a "normal" error case.
    */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "Fatal error : hash could not seek to header");
+    return 0;
+  }
   num_copied = read(hashp->fp, hdr_dest, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "Fatal error : hash could not retrieve header");
@@ -478,6 +485,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -510,6 +519,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -880,8 +891,18 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 || 
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read user or configuration information of %s\n", 
+	     fname);
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
@@ -945,8 +966,18 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * new insert is expected or some pages was moved previously
    */
   if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
-
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      fprintf (stderr, "Cannot move pages of %s back to where they belong\n",
+	       fname);
+      ffdb_pagepool_close (hashp->mp);
+      close (hashp->fp);
+      free (hashp->fname);
+      free (hashp->split_buf);
+      free (hashp);
+      free (dbp);
+      errno = EIO;
+      return 0;
+    }
 
   /* Find out current data page which is the last data page we are using */
   /* Otherwise the datapage assigned to new insert will start at wrong place */
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 0bc97fd..3247f1d 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1913,7 +1913,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
 {
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
-  int needovfl, reuse;
+  int needovfl, reuse, status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1929,7 +1929,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -1994,12 +1994,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2018,6 +2018,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  int status, ret = 0;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2048,9 +2049,11 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	status = _ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+      if (status != 0)
+	ret = -1;
     }
     
     /* get next page number */
@@ -2062,12 +2065,18 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	fprintf (stderr, "Cannot get overflow page %d of bucket %d\n",
+		 nextpage, oldbucket);
+	ret = -1;
+      }
+    }
     else
       break;
   }
-  return 0;
+  return ret;
 }
 
 
@@ -2242,6 +2251,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param oldlast the last page of old page to be moved
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
+ * @param status set to -1 when a page cannot be moved, untouched otherwise
  *
  * @return last page number on the linked list after successful move. 
  * If there is no data pages being moved, INVALID_PGNO is returned
@@ -2249,7 +2259,7 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
 static pgno_t
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, int* status)
 {
   pgno_t dlast, page, rpage, tp;
   pgno_t prevp, nextp;
@@ -2268,6 +2278,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
+      *status = -1;
       return dlast;
     }
 
@@ -2291,6 +2302,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *status = -1;
 	  return dlast;
 	}
 
@@ -2320,6 +2332,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
+	  *status = -1;
 	  return dlast;
 	}
 
@@ -2348,6 +2361,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*status = -1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2364,6 +2378,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
+	*status = -1;
 	return dlast;
       }
 #ifdef _FFDB_DEBUG
@@ -2373,7 +2388,8 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
       
 
     /* Release this page and update page number */
-    ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep));
+    if (ffdb_pagepool_change_page (hashp->mp, pagep, CURR_PGNO(pagep)) != 0)
+      *status = -1;
 
     /* update local variables */
     rpage++;
@@ -2394,6 +2410,7 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   pgno_t dlast, dfirst;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
+  int status = 0;
 
   /* Find out how many pages are not used by reguler hash pages */
   num_unused = hashp->hdr.high_mask - hashp->hdr.max_bucket;
@@ -2440,18 +2457,18 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 
   /* move data pages first */
   _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &status);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &status);
 
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+		    funused, lunused, &status);
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
-  return 0;
+  return status;
 }
 
 
@@ -2465,6 +2482,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
   pgno_t oldfirst, oldlast, newfirst, newlast;
   pgno_t lastdpage;
   unsigned int num_page_moved;
+  int status = 0;
 
   /* Check whether any pages has been moved when the database is closed */
   if (hashp->hdr.num_moved_pages == 0)
@@ -2496,14 +2514,17 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
   /* Move data pages first */
   lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+				newfirst, newlast, &status);
 
   /* move overflow page next */
   _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &status);
   
   _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+		    newfirst, newlast, &status);
+
+  if (status != 0)
+    return status;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index ba45b47..b3a2184 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1310,6 +1310,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   struct _ffdb_hqh* head;
   ffdb_bkt_t* bp;
   unsigned int oldpagenum;
+  int ret;
 
   FFDB_LOCK(pgp->lock);
 #ifdef _FFDB_STATISTICS
@@ -1401,10 +1402,10 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   /**
    * Clean out old disk content
    */
-  _ffdb_clean_page_ondisk (pgp, oldpagenum);
+  ret = _ffdb_clean_page_ondisk (pgp, oldpagenum);
 
   FFDB_UNLOCK(pgp->lock);
-  return 0;
+  return ret;
 }
 
 /**
@@ -1419,6 +1420,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   ffdb_sbkt_t* sbp;
   ffdb_sbkt_t* next;
   ffdb_slh_t slh;
+  int ret = 0;
   FFDB_SLIST_INIT (&slh);
 
   /* Walk through every bucket and check whether it is pinned
@@ -1458,12 +1460,12 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   while (sbp) {
     next = FFDB_SLIST_NEXT(sbp, sl);
 
-    if (FFDB_FLAG_ISSET(sbp->bp->flags, FFDB_PAGE_DIRTY)) {
+    if (ret == 0 && FFDB_FLAG_ISSET(sbp->bp->flags, FFDB_PAGE_DIRTY)) {
 
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1475,7 +1477,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
-- 
2.43.0


From e5666356cda5e0e6569279ebac450c125e207469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:21 +0000
Subject: [PATCH 19/42] fix: refuse calls on a store that is not open

---
 src/ConfDataStoreDB.h       |  3 +++
 src/ConfDataStoreDBSimple.h | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
diff --git a/src/ConfDataStoreDBSimple.h b/src/ConfDataStoreDBSimple.h
index 38a6f53..3daf8a8 100644
--- a/src/ConfDataStoreDBSimple.h
+++ b/src/ConfDataStoreDBSimple.h
@@ -306,6 +306,9 @@ namespace FILEDB
      * @return 0 on successful write, -1 on failure with proper errno set
      */
     template <typename K, typename D> int insert(const K &key, const D &data) {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -325,6 +328,9 @@ namespace FILEDB
      * @return 0 on success, otherwise the key not found
      */
     template <typename K, typename D> int get(const K &key, D &data) const {
+      if (!db->dbh_)
+        return -1;
+
       int ret = 0;
 
       try {
@@ -343,6 +349,9 @@ namespace FILEDB
      * @return true if the answer is yes
      */
     template <typename K> bool exist(const K &key) const {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
@@ -362,7 +371,8 @@ namespace FILEDB
      * by keys after this call.
      */
     template <typename K, typename D> void keys(std::vector<K> &keys) const {
-      allKeys< K, D >(db->dbh_, keys);
+      if (db->dbh_)
+        allKeys< K, D >(db->dbh_, keys);
     }
 
     /**
@@ -373,7 +383,8 @@ namespace FILEDB
      */
     template <typename K, typename D>
     void keysAndData(std::vector<K> &keys, std::vector<D> &values) const {
-      allPairs<K, D> (db->dbh_, keys, values);
+      if (db->dbh_)
+        allPairs<K, D> (db->dbh_, keys, values);
     }
 
     /**
@@ -381,7 +392,8 @@ namespace FILEDB
      */
     void flush (void)
     {
-      flushDatabase (db->dbh_);
+      if (db->dbh_)
+        flushDatabase (db->dbh_);
     }
 
     /**
@@ -403,6 +415,9 @@ namespace FILEDB
      */
     int insertUserdata (const std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       return ffdb_set_user_info (db->dbh_, 
 				 (unsigned char *)user_data.c_str(), user_data.length());
     }
@@ -415,6 +430,9 @@ namespace FILEDB
      */
     int getUserdata (std::string& user_data)
     {
+      if (!db->dbh_)
+        return -1;
+
       int ret;
       unsigned int len;
       unsigned char* data;
-- 
2.43.0


From 9596ce846d231e0f3ba3c60237c73bbe2233224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:06 +0000
Subject: [PATCH 20/42] fix: sync and close write modified pages that a cursor
 holds

---
 filehash/ffdb_pagepool.c | 17 ++++++++++-------
 filehash/ffdb_pagepool.h |  4 ++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index b3a2184..789ce21 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1423,14 +1423,17 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
   int ret = 0;
   FFDB_SLIST_INIT (&slh);
 
-  /* Walk through every bucket and check whether it is pinned
-   * If it is not pinned and it is dirty, I will sort these pages
-   * according to page number
+  /* Walk through every bucket and check whether it is dirty
+   * I will sort these pages according to page number. When only some
+   * pages are flushed, pinned pages are left alone. When everything is 
+   * flushed, a dirty page may be pinned by an open cursor, and its content 
+   * still has to reach the disk
    */
   num = 0;
   FFDB_CIRCLEQ_FOREACH(bp, &pgp->lqh, lq){
-    if (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
-	bp->waiters == 0 && 
+    if ((numpages == 0 ||
+	 (!FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED) &&
+	  bp->waiters == 0)) && 
 	FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_DIRTY)) {
       /* insert this bucket into a single linked list */
       sbp = (ffdb_sbkt_t *)malloc(sizeof(ffdb_sbkt_t));
@@ -1482,8 +1485,8 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, including modified pages
+ * that are in use
  *
  * @param  pgp cache page pool pointer
  */
diff --git a/filehash/ffdb_pagepool.h b/filehash/ffdb_pagepool.h
index a218397..6eabc53 100644
--- a/filehash/ffdb_pagepool.h
+++ b/filehash/ffdb_pagepool.h
@@ -375,8 +375,8 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 
 
 /**
- * Flush all dirty pages back to the back end file. However, if any modified 
- * pages are in use. They will be ignored
+ * Flush all dirty pages back to the back end file, including modified pages
+ * that are in use
  *
  * @param  pgp cache page pool pointer
  */
-- 
2.43.0


From af0bcfacbe2ab1b6463f48d2658f2ca9537d3042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:51 +0000
Subject: [PATCH 21/42] fix: release cursor and buffers when an object cannot
 be decoded

---
 src/DBCursor.h | 11 +++++++----
 src/DBFunc.cpp | 20 ++++++++++++++++----
 src/DBFunc.h   | 41 ++++++++++++++++++++++++++++++++---------
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/DBCursor.h b/src/DBCursor.h
index 64e4607..15b4c96 100644
--- a/src/DBCursor.h
+++ b/src/DBCursor.h
@@ -294,11 +294,14 @@ namespace FILEDB
       T mykey;
       D mydata;
       FFDB_DBT  key, data;
-      ffdb_cursor_t  *crp;
+      ffdb_cursor_t  *crp = 0;
       int  ret;
       
       try {
-	dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
+	if (dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR) != 0) {
+	  std::cerr <<"Fatal: DB cursor  error " << std::endl;
+	  ::exit (143);
+	}
 	
 	key.data = data.data = 0;
 	key.size = data.size = 0;
@@ -308,9 +311,8 @@ namespace FILEDB
 	  // convert into key object
 	  std::string keyObj;
 	  keyObj.assign((char*)key.data, key.size);
-	  mykey.readObject (keyObj);
-
 	  free (key.data); free(data.data);
+	  mykey.readObject (keyObj);
 
 	  return DBKeyIterator<T, D>(DBCursor(crp), mykey, 0);
 	}
@@ -323,6 +325,7 @@ namespace FILEDB
       }
       catch (SerializeException& e) {
 	std::cerr << "Fatal: DB cursor error: " << e.what () << std::endl;
+	crp->close (crp);
       }
       return DBKeyIterator<T, D>(DBCursor(), mykey, 1);
     }
diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..e2778cf 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -81,9 +81,11 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     int  ret;
     
+    dbkey.data = dbdata.data = 0;
+    dbkey.size = dbdata.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -111,7 +113,11 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      free (dbdata.data);
+      if (crp)
+	crp->close (crp);
       throw;
     }
     
@@ -126,9 +132,11 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     int  ret;
     
+    dbkey.data = dbdata.data = 0;
+    dbkey.size = dbdata.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -163,7 +171,11 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      free (dbdata.data);
+      if (crp)
+	crp->close (crp);
       throw;
     }
     
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..740ef41 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -303,9 +303,9 @@ namespace FILEDB
 	// convert object into a string
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
-	data.readObject (dataObj);
 	// I have to use free since I use malloc in c code
 	free(dbdata.data);
+	data.readObject (dataObj);
       }
       catch (SerializeException& e) {
 	ret = -1;
@@ -372,10 +372,12 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey;
-    ffdb_cursor_t *crp;
+    ffdb_cursor_t *crp = 0;
     K    arg;
     int  ret;
     
+    dbkey.data = 0;
+    dbkey.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -403,7 +405,10 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      if (crp)
+	crp->close (crp);
       throw;
     } 
     
@@ -423,11 +428,13 @@ namespace FILEDB
 		bool only_one = false) noexcept(false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     K    arg;
     D    d;
     int  ret;
     
+    dbkey.data = dbdata.data = 0;
+    dbkey.size = dbdata.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -468,7 +475,11 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      free (dbdata.data);
+      if (crp)
+	crp->close (crp);
       throw;
     }
     
@@ -486,10 +497,12 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     D    d;
     int  ret;
     
+    dbkey.data = dbdata.data = 0;
+    dbkey.size = dbdata.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -521,7 +534,11 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      free (dbdata.data);
+      if (crp)
+	crp->close (crp);
       throw;
     }
     
@@ -539,10 +556,12 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     K    arg;
     int  ret;
     
+    dbkey.data = dbdata.data = 0;
+    dbkey.size = dbdata.size = 0;
     try {
       // create cursor
       ret = dbh->cursor (dbh, &crp, FFDB_KEY_CURSOR);
@@ -563,7 +582,11 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor first error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      free (dbkey.data);
+      free (dbdata.data);
+      if (crp)
+	crp->close (crp);
       throw;
     }
     
-- 
2.43.0


From 5343a656c1ab2529575fa412ad35f13d406a949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:14 +0000
Subject: [PATCH 22/42] fix: refuse ensembles whose elements differ in size

---
 src/AllConfStoreDB.h | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..c01fa54 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -395,8 +395,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
+      // if bytesize_ is not set, we use the size of the first element
+      long bsize = bytesize_;
+      if (bsize == 0) {
 	std::string tmpstr;
 	try {
 	  v[0].writeObject (tmpstr);
@@ -406,7 +407,7 @@ namespace FILEDB
 		    << std::endl;
 	  return -1;
 	}
-	bytesize_ = tmpstr.size();
+	bsize = tmpstr.size();
       }
 
       // combine every element in the array into a string
@@ -420,6 +421,10 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (elem.size() != (std::size_t)bsize) {
+	  std::cerr << "Insert element " << i << " has length " << elem.size() << " not equal to the length of the other " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -431,6 +436,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -449,8 +456,9 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) {
+      // if bytesize_ is not set, we use the size of the first element
+      long bsize = bytesize_;
+      if (bsize == 0) {
 	std::string tmpstr;
 	try {
 	  v[0].writeObject (tmpstr);
@@ -460,7 +468,7 @@ namespace FILEDB
 		    << std::endl;
 	  return -1;
 	}
-	bytesize_ = tmpstr.size();
+	bsize = tmpstr.size();
       }
 
       // combine every element in the array into a string
@@ -474,6 +482,10 @@ namespace FILEDB
 	  std::cerr << "Serialize insert individual element error: " << e.what() << std::endl;
 	  return -1;
 	}
+	if (elem.size() != (std::size_t)bsize) {
+	  std::cerr << "Insert element " << i << " has length " << elem.size() << " not equal to the length of the other " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (elem);
       }
 
@@ -485,6 +497,8 @@ namespace FILEDB
 	std::cerr << "InsertData key and string error: " << e.what () << std::endl;
 	::exit (1);
       }
+      if (ret == 0)
+	bytesize_ = bsize;
       return ret;
     }
 
@@ -504,19 +518,27 @@ namespace FILEDB
 	::exit (1);
       }
 
-      // if bytesize_ is not set, we set it now
-      if (bytesize_ == 0) 
-	bytesize_ = v[0].size();
+      // if bytesize_ is not set, we use the size of the first element
+      long bsize = bytesize_;
+      if (bsize == 0) 
+	bsize = v[0].size();
 
       // combine the vector of string into one big string
       std::string dstr;
-      for (unsigned int i = 0; i < v.size(); i++) 
+      for (unsigned int i = 0; i < v.size(); i++) {
+	if (v[i].size() != (std::size_t)bsize) {
+	  std::cerr << "Insert element " << i << " has length " << v[i].size() << " not equal to the length of the other " << bsize << std::endl;
+	  return -1;
+	}
 	dstr.append (v[i]);
+      }
 
       ret = this->insertBinary (key, dstr);
       if (ret != 0) {
 	std::cerr << __FILE__ << "cannot insert binary data" << std::endl;
       }
+      else
+	bytesize_ = bsize;
       return ret;
     }
 
-- 
2.43.0


From f4b521c1da1e5643bd2855c406cda68026f0547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:14 +0000
Subject: [PATCH 23/42] fix: ensembles of empty elements are read back, failed
 reads return nothing

---
 src/AllConfStoreDB.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index c01fa54..88b5619 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -266,10 +266,11 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
+      std::vector< D0 > elems;
+      for (int i = 0; i < nbin_; i++) {
 	D0 elem;
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i*bytesize_], bytesize_);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -278,8 +279,9 @@ namespace FILEDB
 	  return -1;
 	}
 	// add to array
-	vs.push_back (elem);
+	elems.push_back (elem);
       }
+      vs.insert (vs.end(), elems.begin(), elems.end());
 
       return 0;
     }
@@ -319,10 +321,11 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (std::size_t i = 0; i < cdata.length(); i += bytesize_) {
+      std::vector< D > elems;
+      for (int i = 0; i < nbin_; i++) {
 	D elem;
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i*bytesize_], bytesize_);
 	try {
 	  elem.readObject(tmp);
 	}
@@ -331,8 +334,9 @@ namespace FILEDB
 	  return -1;
 	}
 	// add to array
-	vs.push_back (elem);
+	elems.push_back (elem);
       }
+      vs.insert (vs.end(), elems.begin(), elems.end());
 
       return 0;
     }
@@ -370,9 +374,9 @@ namespace FILEDB
 
       // now split this data blob into a vector
       char *rdata = (char *)&cdata[0];
-      for (long i = 0; i < cdata.length(); i += bytesize_) {
+      for (int i = 0; i < nbin_; i++) {
 	std::string tmp;
-	tmp.assign (&rdata[i], bytesize_);
+	tmp.assign (&rdata[i*bytesize_], bytesize_);
 	// add to array
 	vs.push_back (tmp);
       }
@@ -658,11 +662,11 @@ namespace FILEDB
 	  abort ();
 	}
  
-        vals.reserve(bvalues[i].length()/bsize);
-	for (std::size_t k = 0; k < bvalues[i].length(); k += bsize) {
+        vals.reserve(nbin_);
+	for (int k = 0; k < nbin_; k++) {
 	  D elem;
 	  std::string tmp;
-	  tmp.assign (&dbuf[k], bsize);
+	  tmp.assign (&dbuf[k*bsize], bsize);
 	  try {
 	    elem.readObject(tmp);
 	  }
-- 
2.43.0


From a8f683703e4b3fbdca57f3fea461eb70f45f82f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:14 +0000
Subject: [PATCH 24/42] fix: update keeps the other elements of an ensemble and
 refuses an index outside it

---
 src/AllConfStoreDB.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 88b5619..71b96a8 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -561,7 +561,12 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
-      if (empty_) {
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is not inside an ensemble of " << nbin_ << std::endl;
+	return -1;
+      }
+
+      if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
 	thr[index] = v;
-- 
2.43.0


From 7a68e0090fb52c0779c65e77a661322c73f89a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:14 +0000
Subject: [PATCH 25/42] fix: configuration records are complete, terminated and
 released

---
 src/AllConfStoreDB.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 71b96a8..15f266e 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -139,7 +139,7 @@ namespace FILEDB
 
       allcfgs_->numconfigs = nbin_;
       allcfgs_->allconfigs =
-          (ffdb_config_info_t *)malloc(sizeof(ffdb_config_info_t) * nbin_);
+          (ffdb_config_info_t *)calloc(nbin_, sizeof(ffdb_config_info_t));
       for (int i = 0; i < nbin_; i++) {
 	allcfgs_->allconfigs[i].config = configs[i];
 	allcfgs_->allconfigs[i].index = i;
@@ -172,7 +172,7 @@ namespace FILEDB
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
 	else
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
-		   _FFDB_MAX_FNAME);
+		   _FFDB_MAX_FNAME - 1);
       }
     }
       
@@ -757,11 +757,13 @@ namespace FILEDB
     {
       ffdb_config_info_t info;
       
+      ::memset (&info, 0, sizeof(info));
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
-      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME - 1);
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
@@ -787,7 +789,7 @@ namespace FILEDB
 	info.insert (cf.inserted);
 	info.type (cf.type);
 	info.modifiedTime (cf.mtime);
-	info.urlname (cf.fname);
+	info.urlname (std::string (cf.fname, strnlen (cf.fname, _FFDB_MAX_FNAME)));
       }
       return stat;
     }
@@ -802,6 +804,7 @@ namespace FILEDB
       ffdb_all_config_info_t allcfigs;
       ConfigInfo cf;
       int stat, i;
+      allcfigs.allconfigs = 0;
       stat = ffdb_get_all_configs (this->db->dbh_, &allcfigs);
 
       if (stat == 0) {
@@ -811,11 +814,13 @@ namespace FILEDB
 	  cf.insert (allcfigs.allconfigs[i].inserted);
 	  cf.type (allcfigs.allconfigs[i].type);
 	  cf.modifiedTime (allcfigs.allconfigs[i].mtime);
-	  cf.urlname (allcfigs.allconfigs[i].fname);
+	  cf.urlname (std::string (allcfigs.allconfigs[i].fname, 
+				   strnlen (allcfigs.allconfigs[i].fname, _FFDB_MAX_FNAME)));
 
 	  configs.push_back (cf);
 	}
       }
+      free (allcfigs.allconfigs);
       return stat;
     }
 
-- 
2.43.0


From c3e16b00358a94b5b6ffabc50e6715c1b30010e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 26/42] fix: opening an ensemble store reports configurations
 that do not fit and forgets the previous file

---
 src/AllConfStoreDB.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 15f266e..bad09d2 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -121,8 +121,7 @@ namespace FILEDB
       allcfgs_ = std::shared_ptr<ffdb_all_config_info_t>(
           new ffdb_all_config_info_t,
           /* deleter function */ [=](ffdb_all_config_info_t *allcfgs_) {
-            if (allcfgs_->numconfigs > 0)
-              free(allcfgs_->allconfigs);
+            free(allcfgs_->allconfigs);
             delete allcfgs_;
           });
       allcfgs_->numconfigs = 0;
@@ -191,24 +190,36 @@ namespace FILEDB
       if (this->ConfDataStoreDB<K, D>::open(file, open_flags, mode) != 0)
         return -1;
       
+      // the byte size of elements is a property of this database
+      bytesize_ = 0;
+
       // check whether this database is empty
       empty_ = this->isEmpty ();
 
       if (empty_) {
 	if (nbin_ == 0) {
 	  std::cerr << "One has to provide number of configurations." << std::endl;
+	  this->close ();
 	  return -1;
 	}
 
 	// update configuration information
-	ffdb_set_all_configs (this->db->dbh_, &*allcfgs_);
+	if ((open_flags & O_ACCMODE) != O_RDONLY &&
+	    ffdb_set_all_configs (this->db->dbh_, &*allcfgs_) != 0) {
+	  std::cerr << "cannot set configuration information." << std::endl;
+	  this->close ();
+	  return -1;
+	}
       }
       else {
 	// update configuration information
-	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
+	free (allcfgs_->allconfigs);
+	allcfgs_->allconfigs = 0;
+	int ret = ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
 	nbin_ = allcfgs_->numconfigs;
-	if (nbin_ == 0) {
+	if (ret != 0 || nbin_ == 0) {
 	  std::cerr << "number of configurations = 0 on an existing database." << std::endl;
+	  this->close ();
 	  return -1;
 	}
       }
-- 
2.43.0


From 00d9e26c43cee7300e71723fca809d66850d1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 27/42] fix: refuse calls on an ensemble store that is not open

---
 src/AllConfStoreDB.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index bad09d2..bbbbf2a 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -245,6 +245,9 @@ namespace FILEDB
     template <typename K0 = K, typename D0 = D>
     int get (const K0& key, std::vector< D0 >& vs)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int ret;
       std::string cdata;
 
@@ -306,6 +309,9 @@ namespace FILEDB
      */
     int getFromStringKey (const std::string& key, std::vector< D >& vs)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int ret;
       std::string cdata;
 
@@ -402,6 +408,9 @@ namespace FILEDB
      */
     int insert (const K & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -463,6 +472,9 @@ namespace FILEDB
      */
     int insertWithStringKey (const std::string & key, const std::vector < D > & v)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int ret;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -525,6 +537,9 @@ namespace FILEDB
     int insertBinaryData (const std::string& key, 
 			  const std::vector < std::string > & v)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int ret = 0;
       // sanity check
       if (v.size () != (unsigned int)nbin_) {
@@ -569,6 +584,9 @@ namespace FILEDB
      */
     int update (const K& key, const D& v, const int config, const int index)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       (void)config;
       int ret = 0;
 
@@ -766,6 +784,9 @@ namespace FILEDB
      */
     int setConfigInfo (const ConfigInfo& config)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       ffdb_config_info_t info;
       
       ::memset (&info, 0, sizeof(info));
@@ -790,6 +811,9 @@ namespace FILEDB
     int getConfigInfo (unsigned int confignum,
 		       ConfigInfo& info)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       int stat;
       ffdb_config_info_t cf;
 
@@ -812,6 +836,9 @@ namespace FILEDB
      */
     int getAllConfigInfo (std::vector<ConfigInfo>& configs)
     {
+      if (!this->db->dbh_)
+	return -1;
+
       ffdb_all_config_info_t allcfigs;
       ConfigInfo cf;
       int stat, i;
@@ -847,6 +874,9 @@ namespace FILEDB
      */
     key_iterator begin (void) const
     {
+      if (!this->db->dbh_)
+	return end ();
+
       return DBKeyIterator < K, D >::init (this->db->dbh_);
     }
 
-- 
2.43.0


From 3a33584a23796893715fabf14e6fd87d151157ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 28/42] fix: stores over several databases look at the given
 files, also before open

---
 src/AllConfStoreMultipleDB.h  | 9 ++++++---
 src/ConfDataStoreMultipleDB.h | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..c81a156 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -89,6 +89,9 @@ namespace FILEDB
      */
     virtual unsigned int getMaxNumberConfigs (void) const
     {
+      if (dbs_.size() == 0)
+	return 0;
+
       int ret = dbs_[0].getMaxNumberConfigs();
 
       return ret;
@@ -101,9 +104,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
@@ -152,7 +155,7 @@ namespace FILEDB
     /**
      * Number of configuration (bins) of this ensemble
      */
-    int size (void) const {return dbs_[0].size();}
+    int size (void) const {return dbs_.size() == 0 ? 0 : dbs_[0].size();}
 
 
     /**
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..e166e51 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -103,6 +103,9 @@ namespace FILEDB
      */
     virtual unsigned int getMaxNumberConfigs (void) const
     {
+      if (dbs_.size() == 0)
+	return 0;
+
       int ret = dbs_[0].getMaxNumberConfigs();
 
       return ret;
@@ -115,9 +118,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0


From cc2fe761296450077cdc260d1f4a7874d7ec2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 29/42] fix: the cache size of a store over several databases
 can be set before open

---
 src/AllConfStoreMultipleDB.h  |  8 +++++++-
 src/ConfDataStoreMultipleDB.h | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index c81a156..a903f2e 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -57,12 +57,15 @@ namespace FILEDB
     // The array of DBs
     std::vector< AllConfStoreDB<K,D> > dbs_;
 
+    // Cache size for DBs that are not open yet, 0 when not set
+    unsigned int cachesize_;
+
   public:
 
     /**
      * Empty constructor for a data store for multiple DBs
      */
-    AllConfStoreMultipleDB (void) {}
+    AllConfStoreMultipleDB (void) : cachesize_ (0) {}
 
     /**
      * Destructor
@@ -79,6 +82,7 @@ namespace FILEDB
      */
     virtual void setCacheSize (const unsigned int size)
     {
+      cachesize_ = size;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSize(size);
     }
@@ -129,6 +133,8 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
+	if (cachesize_ != 0)
+	  dbs_[i].setCacheSize(cachesize_);
 	ret = dbs_[i].open(files[i], O_RDONLY, 0400);
 	if (ret != 0)
 	  return ret;
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index e166e51..7e28596 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -57,12 +57,16 @@ namespace FILEDB
     // The array of DBs
     std::vector< ConfDataStoreDB<K,D> > dbs_;
 
+    // Cache size for DBs that are not open yet, 0 when not set
+    unsigned int cachesize_;
+    unsigned int cachesizeMB_;
+
   public:
 
     /**
      * Empty constructor for a data store for multiple DBs
      */
-    ConfDataStoreMultipleDB (void) {}
+    ConfDataStoreMultipleDB (void) : cachesize_ (0), cachesizeMB_ (0) {}
 
     /**
      * Destructor
@@ -79,6 +83,8 @@ namespace FILEDB
      */
     virtual void setCacheSize (const unsigned int size)
     {
+      cachesize_ = size;
+      cachesizeMB_ = 0;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSize(size);
     }
@@ -93,6 +99,8 @@ namespace FILEDB
      */
     virtual void setCacheSizeMB (const unsigned int size)
     {
+      cachesizeMB_ = size;
+      cachesize_ = 0;
       for(int i=0; i < dbs_.size(); ++i)
 	dbs_[i].setCacheSizeMB(size);
     }
@@ -143,6 +151,10 @@ namespace FILEDB
       int ret = 0;
       for(int i=0; i < dbs_.size(); ++i)
       {
+	if (cachesize_ != 0)
+	  dbs_[i].setCacheSize(cachesize_);
+	if (cachesizeMB_ != 0)
+	  dbs_[i].setCacheSizeMB(cachesizeMB_);
 	ret = dbs_[i].open(files[i], O_RDONLY, 0400);
 	if (ret != 0)
 	  return ret;
-- 
2.43.0


From 7b14cdf6b8b2de43d556527cbef8af96b56ead5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 30/42] fix: merging with little memory, unfinished
 configurations and failing insertions

---
 src/ConfDataDBMerger.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..0ae66f9 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -118,7 +118,8 @@ namespace FILEDB
 #endif
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	// configurations without a database keep the place of their element
+	thr.resize (numconfigs, std::string (data[i].length(), '\0'));
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
@@ -220,7 +221,10 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << __FILE__ << " cannot insert a key into the combined database" << std::endl;
+	  ::exit (143);
+	}
       }
     }
 
@@ -251,10 +255,17 @@ namespace FILEDB
       int chunk;
 
       // calculate size for one key and its data for all configuration
-      unsigned int asize = (key.length() + data.length()) * numconfs;
+      std::size_t asize = (key.length() + data.length()) * numconfs;
 
       // number of elements each iteration to use
-      chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
+      if (asize == 0 || max_memory/asize > numelems)
+	chunk = numelems;
+      else
+	chunk = max_memory/asize;
+
+      // at least one element has to be in memory
+      if (chunk == 0)
+	chunk = 1;
 
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
@@ -324,6 +335,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From 4d8406ca9ed652ac71a0d39bac4376e763c8e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 31/42] fix: VFloatData keeps its values and refuses short
 input

---
 src/VFloatData.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..9bcb304 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -123,18 +123,20 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
+    vcfbuf = new unsigned int[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // assign the bits of the data values to the array in network byte order
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      ::memcpy (&vcfbuf[i], &data_[i], sizeof(float));
+      vcfbuf[i] = hton_int(vcfbuf[i]);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -167,12 +169,15 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
     unsigned int   num;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
@@ -187,15 +192,17 @@ namespace FILEDB
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
     // copy all float values
-    vcfbuf = new float[num];
+    vcfbuf = new unsigned int[num];
     ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
 
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
+    for (unsigned int i = 0; i < num; i++) {
+      vcfbuf[i] = ntoh_int(vcfbuf[i]);
+      ::memcpy (&data_[i], &vcfbuf[i], sizeof(float));
+    }
 
     delete []vcfbuf;
   }
-- 
2.43.0


From a224909e8a878e1c413d0c6e1f491ca8247f172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:03 +0000
Subject: [PATCH 32/42] fix: do not take a page of another kind for a bucket,
 overflow or data page

A file whose writer died before closing it has pages that are newer than
its header. The page of a bucket can then hold data, and an overflow page
of the chain can be empty: traversals and lookups read outside of it.
Such a page is now reported as an error.
---
 filehash/ffdb_page.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 3247f1d..9a3dbea 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1393,6 +1393,20 @@ ffdb_get_page (ffdb_htab_t* hashp, pgno_t addr,
   if (FFDB_FLAG_ISSET(flags, FFDB_CREATE) && CURR_PGNO(mem) == 0) 
     _ffdb_init_page (hashp, mem, *page, addrtype);
 
+  /* A page of another kind is found when the file has not been closed:
+   * its content must not be taken for keys or data
+   */
+  if ((addrtype == HASH_BUCKET_PAGE &&
+       NUM_ENT(mem) > 0 && TYPE(mem) != HASH_BUCKET_PAGE) ||
+      (!FFDB_FLAG_ISSET(flags, FFDB_CREATE) &&
+       ((addrtype == HASH_DATA_PAGE && TYPE(mem) != HASH_DATA_PAGE) ||
+	(addrtype == HASH_OVFL_PAGE &&
+	 (NUM_ENT(mem) == 0 || TYPE(mem) != HASH_BUCKET_PAGE))))) {
+    fprintf (stderr, "Page %d is of type 0x%x, not 0x%x\n", *page, TYPE(mem), addrtype);
+    ffdb_put_page (hashp, mem, TYPE(mem), 0);
+    return 0;
+  }
+
   return mem;
 }
 
@@ -2831,7 +2845,7 @@ _ffdb_cursor_chain_end (ffdb_htab_t* hashp, ffdb_crs_t* cursor, pgno_t* page)
 
   while ((nextp = NEXT_PGNO(cursor->item.pagep)) != INVALID_PGNO) {
     ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-    cursor->item.pagep = ffdb_get_page (hashp, nextp, HASH_RAW_PAGE, 0, page);
+    cursor->item.pagep = ffdb_get_page (hashp, nextp, HASH_OVFL_PAGE, 0, page);
     if (!cursor->item.pagep) {
       fprintf (stderr, "Cannot get overflow page %d for cursor\n", nextp);
       cursor->item.status = ITEM_ERROR;
@@ -2998,7 +3012,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       else {
 	/* Get new page */
 	cursor->item.pagep = ffdb_get_page (hashp, nextp,
-					    HASH_RAW_PAGE, 0, &tp);
+					    HASH_OVFL_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for next cursor bucket %d\n",
 		   cursor->item.bucket);
@@ -3073,7 +3087,7 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       else {
 	/* Get previous page */
 	cursor->item.pagep = ffdb_get_page (hashp, prevp,
-					    HASH_RAW_PAGE, 0, &tp);
+					    HASH_OVFL_PAGE, 0, &tp);
 	if (!cursor->item.pagep) {
 	  fprintf (stderr, "Cannot get page for prev cursor bucket %d\n",
 		   cursor->item.bucket);
-- 
2.43.0


From 2e647133d589c54cd379c8bbf4f689711c91ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 33/42] fix: replacing a datum of 4 GB or more by a shorter one
 clears the high bits of its length

The high bits of the length stayed in the data pointer, and every later
read of the datum failed the check of both lengths.
---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 9a3dbea..65cbed9 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1756,8 +1756,10 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
-    /* insert ncessary length information to offset */
+  if (hashp->hdr.version > FFDB_VERSION_5) {
+    /* insert ncessary length information to offset: this also clears
+     * what a longer datum has left there
+     */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
     datap->chksum = item->data_chksum;
-- 
2.43.0


From 75067b646de98dc27254dd5662e9a85919c8d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:04 +0000
Subject: [PATCH 34/42] fix: threads that open their first database at the same
 time initialise the CRC tables once

Both tables were filled without synchronization, so a thread could use a
table that another one was still filling.
---
 filehash/ffdb_hash_func.c | 35 +++++++++++++++++++++--------------
 src/FileDB.cpp            | 35 +++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/filehash/ffdb_hash_func.c b/filehash/ffdb_hash_func.c
index add47d0..39d0862 100644
--- a/filehash/ffdb_hash_func.c
+++ b/filehash/ffdb_hash_func.c
@@ -91,6 +91,7 @@
  * PUBLIC: u_int32_t __ham_func2 __P((DB *, const void *, u_int32_t));
  */
 #include <stdio.h>
+#include <pthread.h>
 #include "ffdb_db.h"
 #include "ffdb_hash_func.h"
 
@@ -343,29 +344,35 @@ int (*__ffdb_default_cmp)(const FFDB_DBT *a, const FFDB_DBT *b)= __ham_defcmp;
  * this part of code is from GNUnet
  */
 static unsigned int _ffdb_crc_table[256];
-static int _ffdb_crc32_inited = 0;
+static pthread_once_t _ffdb_crc32_once = PTHREAD_ONCE_INIT;
 
 #define _CRC32POLY (unsigned int)0xedb88320
 
 /**
- * This routine initialize the CRC table above
+ * Fill the CRC table above
  */
-void __ffdb_crc32_init (void)
+static void _ffdb_crc32_fill (void)
 {
-  if (!_ffdb_crc32_inited) {
-    unsigned int i, j;
-    unsigned int  h = 1;
-    _ffdb_crc_table[0] = 0;
-    for (i = 128; i; i >>= 1) {
-      h = (h >> 1) ^ ((h & 1) ? _CRC32POLY : 0);
-      /* h is now crc_table[i] */
-      for (j = 0; j < 256; j += 2 * i)
-	_ffdb_crc_table[i + j] = _ffdb_crc_table[j] ^ h;
-    }
-    _ffdb_crc32_inited = 1;
+  unsigned int i, j;
+  unsigned int  h = 1;
+  _ffdb_crc_table[0] = 0;
+  for (i = 128; i; i >>= 1) {
+    h = (h >> 1) ^ ((h & 1) ? _CRC32POLY : 0);
+    /* h is now crc_table[i] */
+    for (j = 0; j < 256; j += 2 * i)
+      _ffdb_crc_table[i + j] = _ffdb_crc_table[j] ^ h;
   }
 }
 
+/**
+ * This routine initialize the CRC table above: threads may open their
+ * databases at the same time
+ */
+void __ffdb_crc32_init (void)
+{
+  pthread_once (&_ffdb_crc32_once, _ffdb_crc32_fill);
+}
+
 
   /**
    * Caculate crc32 checksum for a buffer with length len
diff --git a/src/FileDB.cpp b/src/FileDB.cpp
index 94ec9a9..048a419 100644
--- a/src/FileDB.cpp
+++ b/src/FileDB.cpp
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <sstream>
 #include <sys/time.h>
+#include <pthread.h>
 #include "FileDB.h"
 
 using namespace std;
@@ -49,25 +50,31 @@ namespace FILEDB {
    * this part of code is from GNUnet
    */
   static unsigned int crc_table[256];
-  static int crc32_inited = 0;
+  static pthread_once_t crc32_once = PTHREAD_ONCE_INIT;
 
   /**
-   * This routine initialize the CRC table above
+   * Fill the CRC table above
+   */
+  static void crc32_fill (void)
+  {
+    unsigned int i, j;
+    unsigned int  h = 1;
+    crc_table[0] = 0;
+    for (i = 128; i; i >>= 1) {
+      h = (h >> 1) ^ ((h & 1) ? crc32poly : 0);
+      /* h is now crc_table[i] */
+      for (j = 0; j < 256; j += 2 * i)
+	crc_table[i + j] = crc_table[j] ^ h;
+    }
+  }
+
+  /**
+   * This routine initialize the CRC table above: threads may create their
+   * stores at the same time
    */
   void crc32_init (void)
   {
-    if (!crc32_inited) {
-      unsigned int i, j;
-      unsigned int  h = 1;
-      crc_table[0] = 0;
-      for (i = 128; i; i >>= 1) {
-	h = (h >> 1) ^ ((h & 1) ? crc32poly : 0);
-	/* h is now crc_table[i] */
-	for (j = 0; j < 256; j += 2 * i)
-	  crc_table[i + j] = crc_table[j] ^ h;
-      }
-      crc32_inited = 1;
-    }
+    pthread_once (&crc32_once, crc32_fill);
   }
 
 
-- 
2.43.0


From 6ef3bf0f15e8a95de767f747f6170daf4d98d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:29 +0000
Subject: [PATCH 35/42] fix: an open that is refused by the page pool gives the
 page pool back

A file whose size is not a multiple of its page size was refused, but the
page pool made for it stayed allocated.
---
 filehash/ffdb_hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index d3249bc..f3da360 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -836,6 +836,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   if ((ret = ffdb_pagepool_open_fd(hashp->mp, hashp->fp, 
 				   hashp->hdr.bsize, csize)) != 0) {
     fprintf (stderr, "Cannot open pagepool for %s\n", fname);
+    ffdb_pagepool_close (hashp->mp);
     close (hashp->fp);
     free (hashp);
     errno = ret;
@@ -866,6 +867,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    */
   hashp->fname = (char *)malloc (strlen (fname) + 1);
   if (!hashp->fname) {
+    ffdb_pagepool_close (hashp->mp);
     close (hashp->fp);
     free (hashp);
     return 0;
-- 
2.43.0


From 322588a37e90f1bc17c78e2c2cab554233e24998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:21 +0000
Subject: [PATCH 36/42] fix: more buckets or larger pages than supported are
 refused

Asking for more than 2^30 buckets, or a page size beyond 2^31, never
returned: the logarithm did not terminate or the table of splitting levels
was overrun.
---
 filehash/ffdb_hash.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index f3da360..e2df7d6 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -378,13 +378,13 @@ _ffdb_init_hash(ffdb_htab_t* hashp, const char* file,
 	
   if (info) {
     if (info->bsize) {
-      /* Round pagesize up to power of 2 */
-      hashp->hdr.bshift = __ffdb_log2(info->bsize);
-      hashp->hdr.bsize = 1 << hashp->hdr.bshift;
-      if (hashp->hdr.bsize > MAX_BSIZE) {
+      if (info->bsize > MAX_BSIZE) {
 	errno = EINVAL;
 	return errno;
       }
+      /* Round pagesize up to power of 2 */
+      hashp->hdr.bshift = __ffdb_log2(info->bsize);
+      hashp->hdr.bsize = 1 << hashp->hdr.bshift;
       /* the header occupies one page    */
       if ((size_t)hashp->hdr.bsize < sizeof(ffdb_hashhdr_t)) {
 	fprintf (stderr, "Hash page is too small to handle meta info.\n");
@@ -559,6 +559,12 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
   unsigned int uinfosize;
   pgno_t i, pg;
 
+  /* there are NCACHED spliting levels, one more than the initial ones is used */
+  if ((unsigned int)nb > POW2(NCACHED - 2)) {
+    fprintf (stderr, "Number of buckets %u is too large.\n", (unsigned int)nb);
+    return -1;
+  }
+
   /**
    * log2 of elements
    */
@@ -857,7 +863,7 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
       ffdb_pagepool_close (hashp->mp);
       close (hashp->fp);
       free (hashp);
-      errno = ENOMEM;
+      errno = EINVAL;
       return 0;
     }
   }
-- 
2.43.0


From b580cc65a2129c1baad1632714c0f2ff5ad94390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:21 +0000
Subject: [PATCH 37/42] fix: user information or configurations that need more
 header pages than 16 bits count are refused

The numbers of header pages are stored in 16 bits and wrapped silently:
user information and configurations of such a database were lost.
---
 filehash/ffdb_hash.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index e2df7d6..0669f99 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -555,8 +555,8 @@ _ffdb_num_config_info_pages (ffdb_htab_t* hashp, unsigned int num)
 static int
 _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 {
-  int l2, nbuckets, nhdr_pages;
-  unsigned int uinfosize;
+  int l2, nbuckets;
+  unsigned long long uinfosize, nhdr_pages;
   pgno_t i, pg;
 
   /* there are NCACHED spliting levels, one more than the initial ones is used */
@@ -585,7 +585,7 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
     hashp->hdr.uinfolen = info->userinfolen;
   else
     hashp->hdr.uinfolen = FFDB_DEFAULT_UINFO_LEN;
-  uinfosize = hashp->hdr.uinfolen + sizeof(unsigned int);
+  uinfosize = (unsigned long long)hashp->hdr.uinfolen + sizeof(unsigned int);
 
   /* This is user information */
   hashp->hdr.uinfo_page = pg;
@@ -596,6 +596,13 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
     nhdr_pages += (uinfosize/(hashp->hdr.bsize - PAGE_OVERHEAD) + 1);
   hashp->hdr.uinfo_npages = nhdr_pages - pg;
 
+  /* page numbers of the header pages are stored in 16 bits */
+  if (nhdr_pages > 0xFFFF) {
+    fprintf (stderr, "User information of %u bytes is too large for page size %d.\n",
+	     hashp->hdr.uinfolen, hashp->hdr.bsize);
+    return -1;
+  }
+
   /* Calculate configuration number of pages */
   pg = nhdr_pages;
   hashp->hdr.cfig_page = pg;
@@ -606,6 +613,11 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* total number of configuration size */
   nhdr_pages += (_ffdb_num_config_info_pages (hashp, hashp->hdr.num_cfigs));
+  if (nhdr_pages - pg > 0xFFFF) {
+    fprintf (stderr, "%u configurations are too many for page size %d.\n",
+	     hashp->hdr.num_cfigs, hashp->hdr.bsize);
+    return -1;
+  }
   hashp->hdr.cfig_npages = nhdr_pages - pg;
 
   /* Assign the number of header pages */
-- 
2.43.0


From df1bcddf6c40e5282969d51718c22c68d2a21f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:42 +0000
Subject: [PATCH 38/42] fix: an intact page in the place of another one is
 reported, not taken for it

---
 filehash/ffdb_page.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 65cbed9..c6c1d5f 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -257,7 +257,7 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
 {
   ffdb_htab_t* hashp;
   unsigned int chksum = 0;
-  unsigned int sign, stored, i;
+  unsigned int sign, stored, number, i;
 
   hashp = (ffdb_htab_t *)arg;
 
@@ -267,9 +267,11 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   /* check the page before any of its content is trusted */
   sign = PAGE_SIGN(page);
   stored = CHKSUM(page);
+  number = CURR_PGNO(page);
   if (hashp->hdr.lorder != hashp->mborder) {
     M_32_SWAP(sign);
     M_32_SWAP(stored);
+    M_32_SWAP(number);
   }
 
 #ifdef _FFDB_DEBUG
@@ -295,6 +297,11 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
       fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, stored);
       exit (123);
     }
+    if (number != pgno) {
+      /* an intact page, but not the one which belongs here */
+      fprintf (stderr, "Reading page %d: found page %d in its place\n", pgno, number);
+      exit (123);
+    }
     if (hashp->hdr.lorder != hashp->mborder)
       _ffdb_swap_page_metainfo_in (page);
   }
-- 
2.43.0


From d07daf99a4d9d89f8c6bc7371471a02a50e74ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:25 +0000
Subject: [PATCH 39/42] fix: threads that read while their cursors are open do
 not wait for each other forever

---
 filehash/ffdb_hash.c | 20 ++++++++++++++++++++
 filehash/ffdb_hash.h |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 0669f99..ce49958 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1487,6 +1487,7 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  inc->onpage = 0;
   FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
   FFDB_UNLOCK(inc->hashp->lock);
@@ -1662,6 +1663,7 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
   ffdb_crs_t*  icrs = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = icrs->hashp;
   unsigned int realflags;
+  pgno_t tp;
 
   /* Check flag to see whether it is valid */
   if (flags != FFDB_FIRST && flags != FFDB_LAST &&
@@ -1680,7 +1682,25 @@ _ffdb_cursor_get  (ffdb_cursor_t* cursor, FFDB_DBT* key,
       realflags = FFDB_LAST;
 
     FFDB_LOCK(icrs->lock);
+    /* No page is held between two calls: threads which hold the pages of
+     * their cursors while they read other pages would wait for each other
+     * forever. Get the page of the current item again
+     */
+    if (icrs->onpage && (realflags == FFDB_NEXT || realflags == FFDB_PREV)) {
+      icrs->item.pagep = ffdb_get_page (hashp, icrs->item.pgno,
+					HASH_OVFL_PAGE, 0, &tp);
+      if (!icrs->item.pagep) {
+	fprintf (stderr, "Cannot get page %d for cursor.\n", icrs->item.pgno);
+	FFDB_UNLOCK(icrs->lock);
+	return -1;
+      }
+    }
     status = ffdb_cursor_find_by_key (hashp, icrs, key, data, realflags);
+    icrs->onpage = (icrs->item.pagep != 0);
+    if (icrs->item.pagep) {
+      ffdb_put_page (hashp, icrs->item.pagep, TYPE(icrs->item.pagep), 0);
+      icrs->item.pagep = 0;
+    }
     FFDB_UNLOCK(icrs->lock);
   }
   else {
diff --git a/filehash/ffdb_hash.h b/filehash/ffdb_hash.h
index 73d1603..fc1a412 100644
--- a/filehash/ffdb_hash.h
+++ b/filehash/ffdb_hash.h
@@ -167,6 +167,8 @@ struct _ffdb_crs_
   ffdb_cursor_t *pcursor;
   /* Current key or data depending type of the cursor */
   ffdb_hent_t item;
+  /* Whether the cursor stands on an item: page item.pgno, index item.pgndx */
+  int onpage;
   /* internal lock for the cursor */
   pthread_mutex_t lock;	
 };
-- 
2.43.0


From f2b3ef191de2ffccb5c955d6caed196ea458d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:15 +0000
Subject: [PATCH 40/42] fix: a new page never takes the number a page was
 changed to

---
 filehash/ffdb_pagepool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 789ce21..2173133 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1389,6 +1389,12 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
   FFDB_CIRCLEQ_INSERT_HEAD(head, bp, hq);
   FFDB_CIRCLEQ_INSERT_TAIL(&pgp->lqh, bp, lq);
 
+  /**
+   * New pages never take the number of this one
+   */
+  if (newpagenum > pgp->maxpgno)
+    pgp->maxpgno = newpagenum;
+
   /**
    * Change number of pages if pages are moved back
    */
-- 
2.43.0


From 23add4768f1d9289f55bfbbc01fc08b3843ad465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:28 +0000
Subject: [PATCH 41/42] fix: a page pool whose open is refused says so and
 keeps no descriptor

---
 filehash/ffdb_pagepool.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 2173133..de85ef4 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -540,7 +540,8 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
 		    const unsigned int pagesize,
 		    const unsigned int maxcache)
 {
-  int lflags, fd;
+  int lflags, ret;
+  int fd = -1;
   struct stat sb;
 
   /* check whether some other threads already opened this file */
@@ -556,6 +557,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   unsigned int ok_flags = FFDB_CREATE | FFDB_RDONLY | FFDB_DIRECT;
   if (FFDB_FLAG_ISSET(flags, ~ok_flags)) {
     fprintf (stderr, "ffdb_pagepool_open wrong flags specification\n");
+    errno = EINVAL;
     goto openerr;
   }
   
@@ -597,7 +599,7 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
 #endif
 
   fd = open (filename, lflags, mode);
-  if (fd <= 0) {
+  if (fd < 0) {
     fprintf (stderr, "ffdb_pagepool_open cannot open file %s\n",
 	     filename);
     goto openerr;
@@ -637,8 +639,11 @@ ffdb_pagepool_open (ffdb_pagepool_t* pgp,
   return 0;
 
  openerr:
+  ret = errno;
+  if (fd >= 0)
+    close (fd);
   FFDB_UNLOCK(pgp->lock);
-  return errno;
+  return ret;
 }
 
 
-- 
2.43.0


From 23503a250d99db6a76dd80e74727f10fffa00bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:58 +0000
Subject: [PATCH 42/42] fix: making room in the cache does not flush pages in
 use, and those a sync writes stay modified

---
 filehash/ffdb_pagepool.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index de85ef4..9d80b78 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -293,7 +293,8 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   }
   free (outbuf);
 
-  if (ret == 0)
+  /* A page in use may still be changed by its owner: it stays dirty */
+  if (ret == 0 && !FFDB_FLAG_ISSET(bp->flags, FFDB_PAGE_PINNED))
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
 
   /* Update how many pages this file holds now */
@@ -436,8 +437,10 @@ _ffdb_pagepool_reuse_bkt (ffdb_pagepool_t* pgp, ffdb_bkt_t** retbp)
   if ((*retbp) == 0)
     ret = -1;
 
-  /* Now flush out some fraction of pages to speed up performance */
-  if (needwrite) {
+  /* Now flush out some fraction of pages to speed up performance. A fraction
+   * of no pages would mean all pages, those in use included
+   */
+  if (needwrite && pgp->maxcache >= FFDB_WRITE_FRAC) {
 #ifdef _FFDB_DEBUG
     fprintf (stderr, "Flush %d pages out\n", pgp->maxcache/FFDB_WRITE_FRAC);
 #endif
-- 
2.43.0

