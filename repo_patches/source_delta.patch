From 0a12d9069ae5823497b07727d6a1689d919b76bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 01/58] fix: record the data file id in user-key index entries

Index entries of user-key namespaces were written with data file id 0, so
HISTORY read the payload from the wrong data file after a rotation. The
library did the same in both modes.
---
 libzdb/api.c        | 2 ++
 zdbd/commands_set.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..382dda3 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 0900b3e3ff2005fa493f62e44baf3d0f5cf77c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 02/58] fix: make key updates and deletions atomic on disk
 errors and crashes

An update flagged the previous index entry as deleted before the new entry
was written: a failed write or a crash in between lost the key, and a failed
write left an unusable entry in memory. Append first, flag afterwards, roll
back on failure, and complete an interrupted update when loading. Deletion
only updates memory once the flag is on disk, and in-place updates of the
index honour --sync and report their failures.
---
 libzdb/index.c        | 28 +++++++---------
 libzdb/index_loader.c | 14 ++++++++
 libzdb/index_set.c    | 75 +++++++++++++++++++++++++++++++------------
 3 files changed, 79 insertions(+), 38 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..e5d2152 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <unistd.h>
 #include <stdint.h>
+#include <stddef.h>
 #include <inttypes.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -539,10 +540,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -561,27 +558,24 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags |= INDEX_ENTRY_DELETED;
 
-    // rollback to point to the entry again
-    zdb_debug("[+] index: delete: overwriting key\n");
-    lseek(fd, entry->idxoffset, SEEK_SET);
-
-    // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
-        zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
+    // point to the flags of that entry, nothing else changes
+    zdb_debug("[+] index: delete: overwriting key flags\n");
+    lseek(fd, entry->idxoffset + offsetof(index_item_t, flags), SEEK_SET);
 
+    // overwrite the flags
+    if(!index_write(fd, &index_transition->flags, sizeof(index_transition->flags), root)) {
         close(fd);
         return 1;
     }
 
     close(fd);
 
+    // mark entry as deleted, now the disk is updated
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..2aa9db9 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -348,11 +348,25 @@ static size_t index_load_file(index_root_t *root) {
             // index_seqid_dump(root);
         }
 
+        // an update appends the new entry then flags the previous one as
+        // deleted, if the previous one is still there, the update was
+        // interrupted in between and needs to be completed
+        index_entry_t *existing = NULL;
+        index_entry_t stale;
+
+        if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
+            if((existing = index_get(root, entry->id, entry->idlength)))
+                stale = *existing;
+        }
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
         fresh = index_set_memory(root, entry->id, &source);
 
+        if(existing && index_entry_delete_disk(root, &stale))
+            zdb_warning("[-] index: could not flag a replaced entry as deleted");
+
         // now we added the entry (whatever it was)
         // if this entry was flagged as deleted, let simulate a deletion
         // like it was (we do replay here), this ensure coherence of data
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..a6ee2e9 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -54,7 +54,7 @@
 // special sequential function
 int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     index_entry_t *entry = set->entry;
-    index_item_t original;
+    index_item_t *original;
     int fd;
 
     // compute this object size on disk
@@ -82,25 +82,39 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     index_item_t *item = index_item_from_set(root, set);
 
     // reading original entry
-    if(read(fd, &original, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    if(!(original = malloc(entrylength))) {
+        zdb_warnp("index_seq_overwrite: malloc");
+        close(fd);
+        return 1;
+    }
+
+    if(read(fd, original, entrylength) != (ssize_t) entrylength) {
         zdb_warnp("index_seq_overwrite re-read");
+        free(original);
         close(fd);
         return 1;
     }
 
     // important fix: do not update previous field
     // keeping original previous offset
-    item->previous = original.previous;
+    item->previous = original->previous;
 
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
-        zdb_warnp("index_seq_overwrite re-write");
+    if(!index_write(fd, item, entrylength, root)) {
+        // restore the original entry, which could be partially overwritten
+        lseek(fd, offset, SEEK_SET);
+
+        if(write(fd, original, entrylength) != (ssize_t) entrylength)
+            zdb_warnp("index_seq_overwrite restore");
+
+        free(original);
         close(fd);
         return 1;
     }
 
+    free(original);
     close(fd);
 
     // flag index entry as dirty, it was just modified
@@ -133,9 +147,19 @@ index_item_t *index_item_from_set(index_root_t *root, index_set_t *set) {
     return index_transition;
 }
 
+// remove the last entry (or a part of it) appended on the index file, next
+// entry will be written at the same place
+static void index_append_entry_rollback(index_root_t *root, off_t offset, size_t previous) {
+    if(ftruncate(root->indexfd, offset) < 0)
+        zdb_warnp("index_append_entry_rollback: ftruncate");
+
+    root->previous = previous;
+}
+
 int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     index_entry_t *entry = set->entry;
     off_t curoffset = lseek(root->indexfd, 0, SEEK_END);
+    size_t previous = root->previous;
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
     zdb_debug("[+] index: writing entry on disk (%lu bytes)\n", entrylength);
@@ -154,9 +178,8 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
-        // it's easier to flag the entry as deleted than
-        // removing it from the list
-        entry->flags |= INDEX_ENTRY_DELETED;
+        // drop what could be partially written and forget this entry
+        index_append_entry_rollback(root, curoffset, previous);
         return 1;
     }
 
@@ -302,29 +325,35 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
+    size_t last = root->previous;
 
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // link this new entry to the previous one (history)
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk, the previous entry is still
+    // there and valid until the new one is fully written
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    if(index_entry_delete_disk(root, previous)) {
+        zdb_debug("[-] index: update entry failed: could not flag previous entry\n");
+        index_append_entry_rollback(root, set->entry->idxoffset, last);
+        return NULL;
+    }
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
     zdb_debug("[+] index: update on sequential keys, duplicating key flagged\n");
 
+    size_t last = root->previous;
+
     // mark previous as deleted, and writing this object on the index
     // this will add a *new* entry on the index file, and we will use this
     // as reference to update the first one, to keep history and so one
@@ -344,7 +373,11 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite key\n");
+        index_append_entry_rollback(root, previous->idxoffset, last);
+        return NULL;
+    }
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
-- 
2.43.0


From 4fc6e97db8754a36fe51757607dd9eb550acaa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 03/58] fix: resolve sequential keys to their own index entry
 only

A key not generated yet, or far out of range, was reduced to 32 bits and
could read another key's entry; an empty index file (NSJUMP twice) or an
empty last file after a restart mapped keys to the wrong file.
---
 libzdb/index_get.c    | 15 ++++++++++++++-
 libzdb/index_loader.c | 20 +++++++-------------
 libzdb/index_seq.c    | 11 +++++++++++
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..51e1d21 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -24,11 +24,17 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     memcpy(&key, id, sizeof(seqid_t));
     // key = be64toh(key);
 
+    // this key was not generated yet
+    if(key >= index_next_id(index)) {
+        zdb_debug("[-] index: sequential get: unknown key\n");
+        return NULL;
+    }
+
     // resolving key into file id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
     // resolving relative offset
-    uint32_t relative = key - seqmap->seqid;
+    uint64_t relative = key - seqmap->seqid;
     uint32_t offset = index_seq_offset(relative);
 
     // reading index on disk
@@ -37,6 +43,13 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // ensure this entry is the one of the requested key
+    if(item->idlength != sizeof(seqid_t) || memcmp(item->id, id, sizeof(seqid_t))) {
+        zdb_debug("[-] index: sequential get: key mismatch\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2aa9db9..2927d63 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,12 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file, even if this
+    // file is still empty, next key will be added there
+    if(root->seqid)
+        index_seqid_push(root, root->nextentry, root->indexid);
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +342,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // an update appends the new entry then flags the previous one as
         // deleted, if the previous one is still there, the update was
         // interrupted in between and needs to be completed
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..d3b45ac 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,17 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // the last file mapped doesn't contain any key, the first
+    // key which was expected there is now in this new file
+    if(root->seqid->length > 0) {
+        index_seqmap_t *last = &root->seqid->seqmap[root->seqid->length - 1];
+
+        if(last->seqid == id) {
+            last->fileid = indexid;
+            return;
+        }
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From d9fda4519f436acee427997a81d53322f17d6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 04/58] fix: let SCAN and RSCAN walk over empty files and slow
 reads

RSCAN failed on an empty index file, a time slice already over before the
first read answered the end of the data, a cursor became invalid when its
sequential key was updated, and read errors were reported as the end.
Sizes and timestamps are unsigned.
---
 libzdb/index.c       | 19 +++++++++++++++-
 libzdb/index_scan.c  | 53 +++++++++++++++++++++++++++++++++++++-------
 zdbd/commands_scan.c | 24 ++++++++++++++++----
 3 files changed, 83 insertions(+), 13 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index e5d2152..2a9f644 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -638,7 +638,24 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    // in sequential mode, the entry stay at the same place when the key is
+    // updated, length and crc can be different, the location needs to match
+    int valid = (item->idlength == key->idlength);
+
+    if(root->mode == ZDB_MODE_SEQUENTIAL) {
+        size_t relative = key->idxoffset - sizeof(index_header_t);
+
+        if(key->idxoffset < sizeof(index_header_t) || key->idlength != sizeof(seqid_t))
+            valid = 0;
+
+        if(relative % (sizeof(index_item_t) + sizeof(seqid_t)) != 0)
+            valid = 0;
+
+    } else if(item->length != key->length || item->crc != key->crc) {
+        valid = 0;
+    }
+
+    if(!valid) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..0bbc558 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -26,6 +26,19 @@ static inline index_scan_t index_scan_error(index_scan_t original, index_scan_st
     return original;
 }
 
+// a read didn't return the requested amount of bytes, this is expected when the
+// end of the file is reached and nothing more is there, otherwise it's an error
+static int index_scan_is_eof(int fd, off_t offset) {
+    off_t length = lseek(fd, 0, SEEK_END);
+    return (length >= 0 && length < (off_t) (offset + sizeof(index_item_t)));
+}
+
+// there is no entry at all on this file (only the header)
+static int index_scan_is_empty(int fd) {
+    off_t length = lseek(fd, 0, SEEK_END);
+    return (length >= 0 && length <= (off_t) sizeof(index_header_t));
+}
+
 //
 // oops, some mistake happened
 //
@@ -136,6 +149,10 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
 
     // reading the fixed-length
     if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+        // this file is empty, entry is on an even older file
+        if(index_scan_is_empty(scan.fd))
+            return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
         zdb_warnp("index rscan: previous-header: could not read previous offset datafile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
@@ -192,7 +209,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index rscan: previous-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
         }
 
         // trying to get entry
@@ -215,8 +232,12 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         if(scan.status == INDEX_SCAN_DELETED)
             continue;
 
-        if(scan.status == INDEX_SCAN_REQUEST_PREVIOUS)
+        if(scan.status == INDEX_SCAN_REQUEST_PREVIOUS) {
+            if(scan.fileid == 0)
+                return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+
             scan.fileid = scan.fileid - 1;
+        }
     }
 
     // never reached
@@ -249,7 +270,11 @@ static index_scan_t index_next_header_real(index_scan_t scan) {
 
     // reading the fixed-length
     if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        // zdb_warnp("index scan: next-header: could not read next offset indexfile");
+        if(!index_scan_is_eof(scan.fd, scan.target)) {
+            zdb_warnp("index scan: next-header: could not read next offset indexfile");
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+        }
+
         // this mean the entry expected is the first of the next indexfile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -308,7 +333,7 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, fileid)) < 0) {
             zdb_debug("[-] index scan: next-header: could not open requested file id (%u)\n", fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, fileid > root->indexid ? INDEX_SCAN_NO_MORE_DATA : INDEX_SCAN_UNEXPECTED);
         }
 
         // trying to get entry
@@ -346,7 +371,11 @@ static index_scan_t index_first_header_real(index_scan_t scan) {
 
     // reading the fixed-length
     if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        zdb_warnp("data: first-header: could not read next offset datafile");
+        if(!index_scan_is_eof(scan.fd, scan.target)) {
+            zdb_warnp("data: first-header: could not read next offset datafile");
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+        }
+
         // this mean the data expected is the first of the next datafile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -401,7 +430,7 @@ index_scan_t index_first_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: first-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, scan.fileid > root->indexid ? INDEX_SCAN_NO_MORE_DATA : INDEX_SCAN_UNEXPECTED);
         }
 
         scan = index_first_header_real(scan);
@@ -452,6 +481,10 @@ static index_scan_t index_last_header_real(index_scan_t scan) {
 
     // reading the fixed-length
     if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+        // this file is empty, last entry is on an older file
+        if(index_scan_is_empty(scan.fd))
+            return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
         zdb_warnp("index scan: previous-header: could not read previous offset indexfile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
@@ -514,7 +547,7 @@ index_scan_t index_last_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: last-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
         }
 
         // trying to get entry
@@ -537,8 +570,12 @@ index_scan_t index_last_header(index_root_t *root) {
         if(scan.status == INDEX_SCAN_DELETED)
             continue;
 
-        if(scan.status == INDEX_SCAN_REQUEST_PREVIOUS)
+        if(scan.status == INDEX_SCAN_REQUEST_PREVIOUS) {
+            if(scan.fileid == 0)
+                return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+
             scan.fileid = scan.fileid - 1;
+        }
     }
 
     // never reached
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..cf260b0 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -142,10 +142,10 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += entry->idlength;
 
         // adding the length of the payload
-        offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
+        offset += sprintf(response + offset, "\r\n:%u\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%u\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
@@ -246,7 +246,8 @@ int command_scan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always try to reach at least one entry, whatever the time it takes
+    do {
         zdbd_debug("[+] scan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -261,6 +262,13 @@ int command_scan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
+
+    // nothing could be read because of an error, this is not the end
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
     }
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
@@ -303,7 +311,8 @@ int command_rscan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // always try to reach at least one entry, whatever the time it takes
+    do {
         zdbd_debug("[+] rscan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -318,6 +327,13 @@ int command_rscan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
+
+    // nothing could be read because of an error, this is not the end
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
     }
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
-- 
2.43.0


From 34c51db242e796753accb6d84e84ab0bd5590fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 05/58] fix: recover from an incomplete index file header or
 last index entry

---
 libzdb/index_loader.c | 65 ++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2927d63..f0b4651 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -203,39 +203,42 @@ static size_t index_load_file(index_root_t *root) {
             return 1;
         }
 
-        if(length > 0) {
-            // we read something, but not the expected header, at least
-            // not this amount of data, which is a completly undefined behavior
-            // let's just stopping here
+        if(lseek(root->indexfd, 0, SEEK_END) >= (off_t) sizeof(index_header_t)) {
+            // the header is there but could not be fully read, which is a
+            // completly undefined behavior, let's just stopping here
             zdb_logerr("[-] index: header corrupted or incomplete\n");
             zdb_logerr("[-] index: expected %lu bytes, %ld read\n", sizeof(index_header_t), length);
             exit(EXIT_FAILURE);
         }
 
-        // we could not read anything, which basicly means that
-        // the file is empty, we probably just created it
-        //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
-            zdb_verbose("[+] index: discarding file\n");
-            close(root->indexfd);
-            return 0;
-        }
-
-        // if we are here, it's the first index file found
-        // and we are in read-only mode, we can't write on the index
-        // and it's empty, there is no use in doing anything
-        // let's crash
+        // if we are here, there is no complete header and we are in
+        // read-only mode, we can't write on the index and it's empty, there
+        // is no use in doing anything, let's crash
         if(root->status & INDEX_READ_ONLY) {
             zdb_logerr("[-] index: loader: no index found and readonly filesystem\n");
             zdb_logerr("[-] index: loader: cannot starts correctly\n");
             exit(EXIT_FAILURE);
         }
 
+        // we could not read a complete header, which basicly means that
+        // the file is empty: we probably just created it, or a previous
+        // instance was stopped while creating it
+        //
+        // nothing was ever written after the header, let's (re)create it
+        if(length > 0 || root->indexid > 0)
+            zdb_warning("[-] index: %s: incomplete file, creating it again", root->indexfile);
+
+        if(ftruncate(root->indexfd, 0) < 0)
+            zdb_diep(root->indexfile);
+
+        lseek(root->indexfd, 0, SEEK_SET);
+
         zdb_verbose("[+] index: creating empty file\n");
         header = index_initialize(root->indexfd, root->indexid, root);
+
+        // this is not the initial file, there is nothing wrong to continue
+        if(root->indexid > 0)
+            length = sizeof(index_header_t);
     }
 
     if(!index_descriptor_validate(&header, root))
@@ -323,6 +326,17 @@ static size_t index_load_file(index_root_t *root) {
         index_entry_t *fresh = NULL;
 
         entry = (index_item_t *) seeker;
+
+        // checking if this entry is complete, the last one could be truncated
+        // or not fully written if the system stopped while writing it
+        size_t available = filebuf + fullsize - seeker;
+
+        if(available < sizeof(index_item_t) || entry->idlength == 0)
+            break;
+
+        if(available < sizeof(index_item_t) + entry->idlength)
+            break;
+
         off_t offset = seeker - filebuf;
 
         // create a gateway struct to fill our index memory
@@ -378,6 +392,17 @@ static size_t index_load_file(index_root_t *root) {
         seeker += sizeof(index_item_t) + entry->idlength;
     }
 
+    // dropping incomplete entry, this one was never acknowledged and
+    // next entries needs to follow the last complete entry
+    if(seeker < filebuf + fullsize) {
+        zdb_warning("[-] index: %s: incomplete entry found at the end", root->indexfile);
+
+        if(!(root->status & INDEX_READ_ONLY)) {
+            if(ftruncate(root->indexfd, seeker - filebuf) < 0)
+                zdb_diep(root->indexfile);
+        }
+    }
+
     zdb_debug("[+] index: last offset: %lu\n", root->previous);
 
     // freeing buffer memory
-- 
2.43.0


From 505c28111dedc723604057e3adb8dc9a5d1b5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 06/58] fix: roll back incomplete writes and report failed
 syncs

---
 libzdb/data.c  | 24 +++++++++++++++++++++---
 libzdb/index.c | 19 +++++++++++++++++--
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..09c4ee7 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -33,7 +33,14 @@ static void data_entry_header_dump(data_entry_header_t *entry) {
 
 // force to sync the data buffer into the underlaying device
 static inline int data_sync(data_root_t *root, int fd) {
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        root->stats.errors += 1;
+        root->stats.lasterr = time(NULL);
+
+        zdb_warnp("data sync");
+        return -1;
+    }
+
     root->lastsync = time(NULL);
     return 1;
 }
@@ -43,6 +50,8 @@ static inline int data_sync(data_root_t *root, int fd) {
 // - we set --sync option on runtime, then each write is sync forced
 // - we set --synctime on runtime and after this period (in seconds)
 //   we force to sync the last write
+//
+// returns a negative value if the sync was needed but failed
 static inline int data_sync_check(data_root_t *root, int fd) {
     if(root->sync)
         return data_sync(root, fd);
@@ -95,8 +104,8 @@ static int data_write(int fd, void *buffer, size_t length, int syncer, data_root
     // update statistics
     zdb_rootsettings.stats.datadiskwrite += length;
 
-    if(syncer)
-        data_sync_check(root, fd);
+    if(syncer && data_sync_check(root, fd) < 0)
+        return 0;
 
     return 1;
 }
@@ -589,6 +598,13 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 
 
 
+// remove the last entry (or a part of it), which could not be completly
+// written, next entry needs to be written at the same place
+static void data_insert_rollback(data_root_t *root, off_t offset) {
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data_insert_rollback: ftruncate");
+}
+
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
 size_t data_insert(data_root_t *root, data_request_t *source) {
@@ -614,6 +630,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
+        data_insert_rollback(root, offset);
         free(header);
         return 0;
     }
@@ -622,6 +639,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
+        data_insert_rollback(root, offset);
         return 0;
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index 2a9f644..073730c 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -64,7 +64,12 @@ void index_io_error(index_root_t *root) {
 
 // force index to be sync'd with underlaying device
 static inline int index_sync(index_root_t *root, int fd) {
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        index_io_error(root);
+        zdb_warnp("index sync");
+        return -1;
+    }
+
     root->lastsync = time(NULL);
     return 1;
 }
@@ -74,6 +79,8 @@ static inline int index_sync(index_root_t *root, int fd) {
 // - we set --sync option at runtime, and each write is sync forced
 // - we set --synctime at runtime and after this period (in seconds)
 //   we force to sync the last writes
+//
+// returns a negative value if the sync was needed but failed
 static inline int index_sync_check(index_root_t *root, int fd) {
     if(root->sync)
         return index_sync(root, fd);
@@ -124,7 +131,8 @@ int index_write(int fd, void *buffer, size_t length, index_root_t *root) {
     zdb_rootsettings.stats.idxdiskwrite += length;
 
     // flush disk if needed
-    index_sync_check(root, fd);
+    if(index_sync_check(root, fd) < 0)
+        return 0;
 
     return 1;
 }
@@ -566,6 +574,13 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     // overwrite the flags
     if(!index_write(fd, &index_transition->flags, sizeof(index_transition->flags), root)) {
+        // restore the original flags, entry is still there
+        index_transition->flags &= ~INDEX_ENTRY_DELETED;
+        lseek(fd, entry->idxoffset + offsetof(index_item_t, flags), SEEK_SET);
+
+        if(write(fd, &index_transition->flags, sizeof(index_transition->flags)) < 0)
+            zdb_warnp("index_entry_delete restore");
+
         close(fd);
         return 1;
     }
-- 
2.43.0


From 103557c34ab8c5c61f08afe080ad4a64d27b4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 07/58] fix: survive disk errors when jumping to next files or
 creating a namespace

---
 libzdb/api.c              |   4 +-
 libzdb/data.c             | 158 ++++++++++++++++++++++++++++++++------
 libzdb/data.h             |   4 +
 libzdb/index.c            |  76 +++++++++++++++++-
 libzdb/index.h            |   7 ++
 libzdb/index_loader.c     | 113 +++++++++++++++++++++------
 libzdb/index_loader.h     |   2 +-
 libzdb/namespace.c        | 100 ++++++++++++++++++++++--
 libzdb/namespace.h        |   1 +
 zdbd/commands_namespace.c |   6 +-
 zdbd/commands_set.c       |   6 +-
 zdbd/redis.c              |   5 +-
 12 files changed, 414 insertions(+), 68 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 382dda3..191bddc 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -300,8 +300,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // if we do this after adding data, we could have an empty data file
     // which will fake the 'previous' offset when computing it on reload
     if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {
-        size_t newid = index_jump_next(ns->index);
-        data_jump_next(ns->data, newid);
+        if(!namespace_jump(ns))
+            return zdb_api_reply_error("Cannot write data right now");
     }
 
     return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
diff --git a/libzdb/data.c b/libzdb/data.c
index 09c4ee7..f35b0e7 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -251,15 +251,19 @@ static inline void data_release_dataid(data_root_t *root, fileid_t dataid, int f
 //
 // data management
 //
-void data_initialize(char *filename, data_root_t *root) {
+// create the header of a new datafile
+//
+// returns 0 on success (or if the filesystem is read-only), 1 otherwise
+static int data_initialize(char *filename, fileid_t dataid, data_root_t *root) {
     int fd;
 
     if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0) {
         // ignoring initializer on read-only filesystem
         if(errno == EROFS)
-            return;
+            return 0;
 
-        zdb_diep(filename);
+        zdb_warnp(filename);
+        return 1;
     }
 
     #ifdef __linux__
@@ -276,12 +280,17 @@ void data_initialize(char *filename, data_root_t *root) {
     header.version = ZDB_DATAFILE_VERSION;
     header.created = 0; // timestamp are not used anymore, this allows
     header.opened = 0;  // checksum comparaison more efficient across replicat
-    header.fileid = root->dataid;
+    header.fileid = dataid;
 
-    if(!data_write(fd, &header, sizeof(data_header_t), 1, root))
-        zdb_diep(filename);
+    if(!data_write(fd, &header, sizeof(data_header_t), 1, root)) {
+        zdb_warnp(filename);
+        close(fd);
+        return 1;
+    }
 
     close(fd);
+
+    return 0;
 }
 
 // simply set globally the current filename based on it's id
@@ -289,33 +298,64 @@ static void data_set_id(data_root_t *root) {
     sprintf(root->datafile, "%s/d%u", root->datadir, root->dataid);
 }
 
-static void data_open_final(data_root_t *root) {
-    // try to open the datafile in write mode to append new data
-    if((root->datafd = open(root->datafile, O_CREAT | O_RDWR | O_APPEND, 0600)) < 0) {
+// open a datafile in write mode to append new data
+static int data_open_append(char *filename) {
+    int fd;
+
+    if((fd = open(filename, O_CREAT | O_RDWR | O_APPEND, 0600)) < 0) {
         // maybe we are on a read-only filesystem
         // let's try to open it in read-only
-        if(errno != EROFS)
-            zdb_diep(root->datafile);
+        if(errno != EROFS) {
+            zdb_warnp(filename);
+            return -1;
+        }
 
-        if((root->datafd = open(root->datafile, O_RDONLY, 0600)) < 0)
-            zdb_diep(root->datafile);
+        if((fd = open(filename, O_RDONLY, 0600)) < 0) {
+            zdb_warnp(filename);
+            return -1;
+        }
 
         zdb_debug("[+] data: file opened in read-only mode\n");
     }
 
-    // jumping to the first entry
-    lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
+    return fd;
+}
 
-    // reading all indexes to find where is the last one
+// reading all entries to find where is the last one
+static void data_find_last(data_root_t *root) {
     data_entry_header_t header;
     int entries = 0;
 
     zdb_debug("[+] data: reading file, finding last entry\n");
 
-    while(read(root->datafd, &header, sizeof(data_entry_header_t)) == sizeof(data_entry_header_t)) {
-        root->previous = lseek(root->datafd, 0, SEEK_CUR) - sizeof(data_entry_header_t);
-        lseek(root->datafd, header.datalength + header.idlength, SEEK_CUR);
+    // jumping to the first entry
+    off_t length = lseek(root->datafd, 0, SEEK_END);
+    off_t offset = sizeof(data_header_t);
+    root->torn = 0;
+
+    while(offset < length) {
+        lseek(root->datafd, offset, SEEK_SET);
+
+        if(offset + (off_t) sizeof(data_entry_header_t) > length) {
+            root->torn = offset;
+            break;
+        }
+
+        if(read(root->datafd, &header, sizeof(data_entry_header_t)) != sizeof(data_entry_header_t)) {
+            zdb_warnp("data: finding last entry");
+            break;
+        }
 
+        off_t next = offset + sizeof(data_entry_header_t) + header.datalength + header.idlength;
+
+        // this entry is not complete
+        if(header.idlength == 0 || next > length) {
+            root->torn = offset;
+            break;
+        }
+
+        root->previous = offset;
+        offset = next;
         entries += 1;
     }
 
@@ -323,6 +363,34 @@ static void data_open_final(data_root_t *root) {
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
 }
 
+// checking if next entries can be added at the end of the current
+// datafile, this is not the case when:
+//  - the last entry is incomplete, because writing it was interrupted,
+//    this one is removed if the index doesn't reference it
+//  - the index references something which is not there
+//
+// returns 0 if the datafile can be used, 1 otherwise
+int data_tail_check(data_root_t *root, size_t referenced) {
+    size_t length = lseek(root->datafd, 0, SEEK_END);
+
+    if(root->torn == 0)
+        return (referenced > length);
+
+    zdb_warning("[-] data: %s: incomplete entry found at the end", root->datafile);
+
+    if(referenced > root->torn)
+        return 1;
+
+    if(ftruncate(root->datafd, root->torn) < 0) {
+        zdb_warnp(root->datafile);
+        return 1;
+    }
+
+    root->torn = 0;
+
+    return 0;
+}
+
 data_raw_t data_raw_error(data_raw_t raw) {
     free(raw.id);
     free(raw.payload.buffer);
@@ -417,11 +485,42 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
     return raw;
 }
 
+// create the next datafile, which will be used on the next jump
+//
+// if anything goes wrong, nothing is changed and current file is still
+// the one in use, returns 0 if the next file is ready
+int data_jump_prepare(data_root_t *root, fileid_t newid) {
+    char filename[ZDB_PATH_MAX];
+
+    snprintf(filename, sizeof(filename), "%s/d%u", root->datadir, newid);
+
+    int exists = (zdb_file_exists(filename) == ZDB_FILE_EXISTS);
+
+    if(data_initialize(filename, newid, root) || (root->nextfd = data_open_append(filename)) < 0) {
+        root->stats.errors += 1;
+        root->stats.lasterr = time(NULL);
+
+        if(!exists && unlink(filename) < 0)
+            zdb_warnp(filename);
+
+        root->nextfd = -1;
+        return 1;
+    }
+
+    return 0;
+}
+
 // jumping to the next id close the current data file
 // and open the next id file, it will create the new file
+//
+// returns the new file id or 0 if next file cannot be created, in that
+// case, nothing is changed
 size_t data_jump_next(data_root_t *root, fileid_t newid) {
     hook_t *hook = NULL;
 
+    if(root->nextfd < 0 && data_jump_prepare(root, newid))
+        return 0;
+
     zdb_verbose("[+] data: jumping to the next file\n");
 
     if(zdb_rootsettings.hook) {
@@ -444,8 +543,10 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
     root->dataid = newid;
     data_set_id(root);
 
-    data_initialize(root->datafile, root);
-    data_open_final(root);
+    root->datafd = root->nextfd;
+    root->nextfd = -1;
+
+    data_find_last(root);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->datafile);
@@ -715,6 +816,8 @@ data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t d
     root->lastsync = 0;
     root->previous = 0;
     root->secure = settings->secure;
+    root->nextfd = -1;
+    root->torn = 0;
 
     memset(&root->stats, 0x00, sizeof(data_stats_t));
 
@@ -723,14 +826,19 @@ data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t d
     return root;
 }
 
+// returns NULL if datafile could not be opened because of a disk error
 data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid) {
     data_root_t *root = data_init_lazy(settings, datapath, dataid);
 
-    // opening the file and creating it if needed
-    data_initialize(root->datafile, root);
-
+    // opening the file and creating it if needed, then
     // opening the final file for appending only
-    data_open_final(root);
+    if(data_initialize(root->datafile, dataid, root) || (root->datafd = data_open_append(root->datafile)) < 0) {
+        zdb_danger("[-] data: could not open data: %s", root->datafile);
+        data_destroy(root);
+        return NULL;
+    }
+
+    data_find_last(root);
 
     return root;
 }
diff --git a/libzdb/data.h b/libzdb/data.h
index 425706d..ce28932 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -22,11 +22,13 @@
         char *datafile;     // name of current datafile in use
         fileid_t dataid;    // id of the datafile currently in use
         int datafd;         // file descriptor of the current datafile in use
+        int nextfd;         // next file, ready to be used (see data_jump_prepare)
         int sync;           // flag to force data write sync
         int synctime;       // force to sync data after this timeout (on next write)
         time_t lastsync;    // keep track when the last sync was explictly made
         size_t previous;    // keep latest offset inserted to the datafile
         int secure;         // enable some safety (see secure zdb_settings_t)
+        size_t torn;        // offset of the incomplete last entry, if any
         data_stats_t stats; // data statistics (session time)
 
     } data_root_t;
@@ -134,7 +136,9 @@
     data_header_t *data_descriptor_validate(data_header_t *header, data_root_t *root);
 
     void data_destroy(data_root_t *root);
+    int data_jump_prepare(data_root_t *root, fileid_t newid);
     size_t data_jump_next(data_root_t *root, fileid_t newid);
+    int data_tail_check(data_root_t *root, size_t referenced);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
     void data_delete_files(char *datadir);
diff --git a/libzdb/index.c b/libzdb/index.c
index 073730c..1764c16 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -344,13 +344,80 @@ char *index_dirty_list_generate(index_root_t *root) {
     return dirtylist;
 }
 
+// create the next index file, which will be used on the next jump
+//
+// if anything goes wrong, nothing is changed and current file is still
+// the one in use, returns 0 if the next file is ready
+int index_jump_prepare(index_root_t *root) {
+    char filename[ZDB_PATH_MAX];
+    fileid_t fileid = root->indexid + 1;
+    index_header_t header;
+
+    snprintf(filename, sizeof(filename), "%s/i%u", root->indexdir, fileid);
+
+    if((root->nextfd = open(filename, O_CREAT | O_RDWR | O_APPEND, 0600)) < 0) {
+        zdb_warnp(filename);
+        index_io_error(root);
+        return 1;
+    }
+
+    // this file should not exists, except if a previous jump failed, in
+    // any case never discard entries
+    if(lseek(root->nextfd, 0, SEEK_END) > (off_t) sizeof(index_header_t)) {
+        zdb_logerr("[-] index: next file already exists and not empty: %s\n", filename);
+        close(root->nextfd);
+        root->nextfd = -1;
+        return 1;
+    }
+
+    if(ftruncate(root->nextfd, 0) < 0) {
+        zdb_warnp(filename);
+        index_jump_discard(root);
+        return 1;
+    }
+
+    int updated = root->updated;
+
+    if(index_initialize(root->nextfd, fileid, root, &header)) {
+        zdb_warnp(filename);
+        index_jump_discard(root);
+        return 1;
+    }
+
+    root->updated = updated;
+
+    return 0;
+}
+
+// remove the next file created, which won't be used
+void index_jump_discard(index_root_t *root) {
+    char filename[ZDB_PATH_MAX];
+
+    if(root->nextfd < 0)
+        return;
+
+    snprintf(filename, sizeof(filename), "%s/i%u", root->indexdir, root->indexid + 1);
+
+    if(unlink(filename) < 0)
+        zdb_warnp(filename);
+
+    close(root->nextfd);
+    root->nextfd = -1;
+}
+
 // jumping to the next index id file, this needs to be in sync with the
 // data file, we only do this when datafile changes basicly, this is
 // triggered by a datafile too big event
+//
+// returns the new file id or 0 if next file cannot be created, in that
+// case, nothing is changed
 size_t index_jump_next(index_root_t *root) {
     hook_t *hook = NULL;
     char *dirtylist = NULL;
 
+    if(root->nextfd < 0 && index_jump_prepare(root))
+        return 0;
+
     zdb_verbose("[+] index: jumping to the next file [closing %s]\n", root->indexfile);
 
     if(zdb_rootsettings.hook) {
@@ -382,8 +449,13 @@ size_t index_jump_next(index_root_t *root) {
 
     index_set_id(root, fileid);
 
-    index_open_final(root);
-    index_initialize(root->indexfd, root->indexid, root);
+    root->indexfd = root->nextfd;
+    root->nextfd = -1;
+
+    // index just created, not dirty
+    root->updated = 0;
+
+    zdb_verbose("[+] index: active file: %s\n", root->indexfile);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->indexfile);
diff --git a/libzdb/index.h b/libzdb/index.h
index 138622c..56f0b02 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -132,6 +132,7 @@
         INDEX_HEALTHY    = 1 << 1,  // no issue detected
         INDEX_READ_ONLY  = 1 << 2,  // index filesystem is read-only
         INDEX_DEGRADED   = 1 << 3,  // some error occured during index loads
+        INDEX_FAILED     = 1 << 4,  // index could not be loaded
 
     } index_status_t;
 
@@ -179,6 +180,7 @@
         char *indexfile;    // current index filename in use
         fileid_t indexid;   // current index file id in use (sync with data id)
         int indexfd;        // current file descriptor in use
+        int nextfd;         // next file, ready to be used (see index_jump_prepare)
         uint64_t nextentry; // next-entry is a global id used in sequential mode (next seq-id)
         uint32_t nextid;    // next-id is a localfile id used in direct mode (next id on this file)
         int sync;           // flag to force write sync
@@ -211,6 +213,9 @@
 
         size_t previous;    // keep latest offset inserted to the indexfile
 
+        fileid_t datalast;  // last datafile referenced when the index was loaded
+        size_t dataend;     // where ends the last data referenced in this datafile
+
     } index_root_t;
 
     // key used in direct mode
@@ -263,6 +268,8 @@
     // key length is uint8_t
     #define MAX_KEY_LENGTH  (1 << 8) - 1
 
+    int index_jump_prepare(index_root_t *root);
+    void index_jump_discard(index_root_t *root);
     size_t index_jump_next(index_root_t *root);
     int index_emergency(index_root_t *root);
 
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f0b4651..f17571b 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -83,24 +83,38 @@ static void index_dump_statistics(index_root_t *root) {
 // initialize an index file
 // this basicly create the header and write it
 //
-index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
-    index_header_t header;
-
-    memcpy(header.magic, "IDX0", 4);
-    header.version = ZDB_IDXFILE_VERSION;
-    header.created = 0; // not used anymore to keep coherence
-    header.opened = 0;  // across replicat checksum
-    header.fileid = indexid;
-    header.mode = root->mode;
-
-    if(!index_write(fd, &header, sizeof(index_header_t), root))
-        zdb_diep("index_initialize: write");
+// returns 0 on success, 1 if the header could not be written
+//
+int index_initialize(int fd, fileid_t indexid, index_root_t *root, index_header_t *header) {
+    memcpy(header->magic, "IDX0", 4);
+    header->version = ZDB_IDXFILE_VERSION;
+    header->created = 0; // not used anymore to keep coherence
+    header->opened = 0;  // across replicat checksum
+    header->fileid = indexid;
+    header->mode = root->mode;
+
+    if(!index_write(fd, header, sizeof(index_header_t), root))
+        return 1;
 
     // reset updated flag, this flag is used to notify
     // when entries have been written, not header
     root->updated = 0;
 
-    return header;
+    return 0;
+}
+
+// the index can't be loaded because of a disk error, loading process
+// is stopped and caller will be notified
+static size_t index_load_failed(index_root_t *root, char *reason) {
+    zdb_warnp(reason);
+    root->status |= INDEX_FAILED;
+
+    if(root->indexfd > 0)
+        close(root->indexfd);
+
+    root->indexfd = 0;
+
+    return 0;
 }
 
 static int index_try_rootindex(index_root_t *root) {
@@ -110,7 +124,7 @@ static int index_try_rootindex(index_root_t *root) {
         // the only case we support is when the filesystem is in
         // read only, otherwise we just crash, this should not happen
         if(errno != EROFS)
-            zdb_diep(root->indexfile);
+            return index_load_failed(root, root->indexfile);
 
         zdb_debug("[-] warning: index lives in a read-only filesystem\n");
 
@@ -127,8 +141,8 @@ static int index_try_rootindex(index_root_t *root) {
                 return 0;
 
             // if we are here, we can't read the indexfile for another reason
-            // this is not supported, let's crash
-            zdb_diep(root->indexfile);
+            // this is not supported
+            return index_load_failed(root, root->indexfile);
         }
 
         // we keep track that we are on a readonly filesystem
@@ -173,6 +187,23 @@ index_header_t *index_descriptor_validate(index_header_t *header, index_root_t *
     return header;
 }
 
+// keep track of where the last data referenced by the index ends, in
+// the last datafile used
+static void index_dataend_update(index_root_t *root, fileid_t dataid, index_item_t *item) {
+    size_t end = item->offset + sizeof(data_entry_header_t) + item->idlength + item->length;
+
+    if(dataid < root->datalast)
+        return;
+
+    if(dataid > root->datalast)
+        root->dataend = 0;
+
+    root->datalast = dataid;
+
+    if(end > root->dataend)
+        root->dataend = end;
+}
+
 // opening, reading then closing the index file
 // if the index was created, 0 is returned
 //
@@ -229,12 +260,13 @@ static size_t index_load_file(index_root_t *root) {
             zdb_warning("[-] index: %s: incomplete file, creating it again", root->indexfile);
 
         if(ftruncate(root->indexfd, 0) < 0)
-            zdb_diep(root->indexfile);
+            return index_load_failed(root, root->indexfile);
 
         lseek(root->indexfd, 0, SEEK_SET);
 
         zdb_verbose("[+] index: creating empty file\n");
-        header = index_initialize(root->indexfd, root->indexid, root);
+        if(index_initialize(root->indexfd, root->indexid, root, &header))
+            return index_load_failed(root, root->indexfile);
 
         // this is not the initial file, there is nothing wrong to continue
         if(root->indexid > 0)
@@ -264,7 +296,7 @@ static size_t index_load_file(index_root_t *root) {
         lseek(root->indexfd, 0, SEEK_SET);
 
         if(!index_write(root->indexfd, &header, sizeof(index_header_t), root))
-            zdb_diep(root->indexfile);
+            return index_load_failed(root, root->indexfile);
     }
 
     /*
@@ -297,8 +329,10 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: malloc");
 
     lseek(root->indexfd, 0, SEEK_SET);
-    if(read(root->indexfd, filebuf, fullsize) != fullsize)
-        zdb_diep("index buffer: read");
+    if(read(root->indexfd, filebuf, fullsize) != fullsize) {
+        free(filebuf);
+        return index_load_failed(root, "index buffer: read");
+    }
 
     // positioning seeker to beginin of index entries
     char *seeker = filebuf + sizeof(index_header_t);
@@ -384,6 +418,10 @@ static size_t index_load_file(index_root_t *root) {
         if(index_entry_is_deleted(fresh))
             index_entry_delete_memory(root, fresh);
 
+        // keep track of the end of the last data referenced
+        fileid_t dataid = (root->mode == ZDB_MODE_SEQUENTIAL) ? entry->dataid : root->indexid;
+        index_dataend_update(root, dataid, entry);
+
         // set the previous pointing to this entry
         // this is the last one we added
         root->previous = seeker - filebuf;
@@ -398,8 +436,10 @@ static size_t index_load_file(index_root_t *root) {
         zdb_warning("[-] index: %s: incomplete entry found at the end", root->indexfile);
 
         if(!(root->status & INDEX_READ_ONLY)) {
-            if(ftruncate(root->indexfd, seeker - filebuf) < 0)
-                zdb_diep(root->indexfile);
+            if(ftruncate(root->indexfd, seeker - filebuf) < 0) {
+                free(filebuf);
+                return index_load_failed(root, root->indexfile);
+            }
         }
     }
 
@@ -465,6 +505,9 @@ void index_internal_load(index_root_t *root) {
             index_set_id(root, fileid);
 
             if(index_load_file(root) == 0) {
+                if(root->status & INDEX_FAILED)
+                    return;
+
                 zdb_verbose("[-] index: loader: something went wrong with index %d\n", root->indexid);
                 break;
             }
@@ -473,7 +516,12 @@ void index_internal_load(index_root_t *root) {
     } else {
         // we need to create the index
         index_set_id(root, 0);
-        if(index_load_file(root) != 0) {
+        size_t loaded = index_load_file(root);
+
+        if(root->status & INDEX_FAILED)
+            return;
+
+        if(loaded != 0) {
             zdb_verbose("[-] index: loader: seems initial index could not be created\n");
             return;
         }
@@ -500,6 +548,9 @@ void index_internal_load(index_root_t *root) {
 
     // opening the real active index file in append mode
     index_open_final(root);
+
+    if(root->indexfd < 0)
+        root->status |= INDEX_FAILED;
 }
 
 void index_internal_allocate_single() {
@@ -576,6 +627,9 @@ index_root_t *index_init_lazy(zdb_settings_t *settings, char *indexdir, void *na
     root->mode = settings->mode;
     root->rotate = time(NULL);
     root->secure = settings->secure;
+    root->nextfd = -1;
+    root->datalast = 0;
+    root->dataend = 0;
 
     index_dirty_resize(root, 1);
 
@@ -620,6 +674,7 @@ index_root_t *index_rehash(index_root_t *root) {
 }
 
 // create an index and load files
+// returns NULL if index could not be loaded because of a disk error
 index_root_t *index_init(zdb_settings_t *settings, char *indexdir, void *namespace, index_branch_t **branches) {
     zdb_debug("[+] index: initializing\n");
 
@@ -631,6 +686,16 @@ index_root_t *index_init(zdb_settings_t *settings, char *indexdir, void *namespa
     index_rehash(root);
     index_internal_load(root);
 
+    if(root->status & INDEX_FAILED) {
+        zdb_danger("[-] index: could not load index: %s", indexdir);
+
+        // entries already loaded are not attached to anything
+        index_clean_namespace(root, namespace);
+        index_destroy(root);
+
+        return NULL;
+    }
+
     if(root->mode == ZDB_MODE_KEY_VALUE)
         index_dump(root, settings->dump);
 
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 5f1fc68..05dcbf6 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -2,7 +2,7 @@
     #define __ZDB_INDEX_LOADER_H
 
     // initialize index header file
-    index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root);
+    int index_initialize(int fd, fileid_t indexid, index_root_t *root, index_header_t *header);
 
     // initialize the whole index system
     index_root_t *index_init(zdb_settings_t *settings, char *indexdir, void *namespace, index_branch_t **branches);
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..5bd96a8 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -220,19 +220,74 @@ namespace_t *namespace_ensure(namespace_t *namespace) {
     return namespace;
 }
 
+// jump to the next index and data files
+//
+// both next files are created before leaving the current ones, if one
+// of them can't be created (disk error), current files are still used
+//
+// returns the new file id or 0 if files can't be changed
+size_t namespace_jump(namespace_t *namespace) {
+    fileid_t newid = namespace->index->indexid + 1;
+
+    if(index_jump_prepare(namespace->index))
+        return 0;
+
+    if(data_jump_prepare(namespace->data, newid)) {
+        index_jump_discard(namespace->index);
+        return 0;
+    }
+
+    newid = index_jump_next(namespace->index);
+
+    return data_jump_next(namespace->data, newid);
+}
+
 // lazy load a namespace
 // this just populates data and index from disk
 // based on an existing namespace object
 // this can be used to load and reload a namespace
+//
+// returns 0 on success, -1 if index or data can't be loaded
 static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     // now, we are sure the namespace exists, but it could be empty
     // let's call index and data initializer, they will take care of that
-    namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches);
-    namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid);
+    if(!(namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches)))
+        return -1;
+
+    if(!(namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid))) {
+        index_clean_namespace(namespace->index, namespace);
+        index_destroy(namespace->index);
+        namespace->index = NULL;
+
+        return -1;
+    }
+
+    // last write was maybe interrupted, ensure next entries can be added
+    // to the current datafile, otherwise leave this file as it is
+    if(!(namespace->index->status & INDEX_READ_ONLY)) {
+        size_t dataend = 0;
+
+        if(namespace->index->datalast == namespace->data->dataid)
+            dataend = namespace->index->dataend;
+
+        if(data_tail_check(namespace->data, dataend)) {
+            if(!namespace_jump(namespace))
+                zdb_warning("[-] namespace: %s: could not leave incomplete files", namespace->name);
+        }
+    }
 
     return 0;
 }
 
+// reload everything from an existing namespace, which was working, there is
+// nothing we can do if this is not possible anymore
+static void namespace_load_again(ns_root_t *nsroot, namespace_t *namespace) {
+    if(namespace_load_lazy(nsroot, namespace) < 0) {
+        zdb_danger("[-] namespace: %s: could not be loaded again", namespace->name);
+        exit(EXIT_FAILURE);
+    }
+}
+
 // load (or create if it doesn't exists) a namespace
 
 namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
@@ -258,8 +313,10 @@ namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
     namespace->version = NAMESPACE_CURRENT_VERSION; // set current version before reading descriptor
 
     if(ensure) {
-        if(!namespace_ensure(namespace))
+        if(!namespace_ensure(namespace)) {
+            namespace_free(namespace);
             return NULL;
+        }
     }
 
     // load descriptor from disk
@@ -279,7 +336,10 @@ namespace_t *namespace_load(ns_root_t *nsroot, char *name) {
         return NULL;
 
     // populating memory
-    namespace_load_lazy(nsroot, namespace);
+    if(namespace_load_lazy(nsroot, namespace) < 0) {
+        namespace_free(namespace);
+        return NULL;
+    }
 
     return namespace;
 }
@@ -350,8 +410,27 @@ int namespace_create(char *name) {
 
     zdb_log("[+] namespace: creating: %s\n", name);
 
+    char *indexpath = namespace_path(nsroot->settings->indexpath, name);
+    char *datapath = namespace_path(nsroot->settings->datapath, name);
+
+    int newindex = (zdb_dir_exists(indexpath) != ZDB_DIRECTORY_EXISTS);
+    int newdata = (zdb_dir_exists(datapath) != ZDB_DIRECTORY_EXISTS);
+
     // call the generic namespace loader
-    if(!(namespace = namespace_load(nsroot, name)))
+    if(!(namespace = namespace_load(nsroot, name))) {
+        // drop what was created, otherwise this namespace would
+        // be there on the next start
+        if(newindex)
+            zdb_dir_remove(indexpath);
+
+        if(newdata)
+            zdb_dir_remove(datapath);
+    }
+
+    free(indexpath);
+    free(datapath);
+
+    if(!namespace)
         return 0;
 
     // append the namespace to the main list
@@ -406,9 +485,14 @@ static int namespace_scanload(ns_root_t *root) {
 
         // load the namespace
         namespace_t *namespace;
-        if(!(namespace = namespace_load(root, ep->d_name)))
+        if(!(namespace = namespace_load_light(root, ep->d_name, 1)))
             continue;
 
+        if(namespace_load_lazy(root, namespace) < 0) {
+            zdb_danger("[-] could not load namespace %s, this is fatal", ep->d_name);
+            exit(EXIT_FAILURE);
+        }
+
         // commit to the main list
         namespace_push(root, namespace);
         loaded += 1;
@@ -613,7 +697,7 @@ int namespace_reload(namespace_t *namespace) {
     data_destroy(namespace->data);
 
     zdb_debug("[+] namespace: reload: reloading data\n");
-    namespace_load_lazy(nsroot, namespace);
+    namespace_load_again(nsroot, namespace);
 
     // hook notification
     namespace_reload_hook(namespace);
@@ -644,7 +728,7 @@ int namespace_flush(namespace_t *namespace) {
     data_delete_files(datapath);
 
     zdb_debug("[+] namespace: flushing: reloading data\n");
-    namespace_load_lazy(nsroot, namespace);
+    namespace_load_again(nsroot, namespace);
 
     free(indexpath);
     free(datapath);
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..ccec6f7 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -80,6 +80,7 @@
     int namespace_delete(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
+    size_t namespace_jump(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
     int namespace_is_fresh(namespace_t *namespace);
     int namespace_lock(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..efb2aed 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -589,8 +589,10 @@ int command_nsjump(redis_client_t *client) {
 
     zdbd_debug("[+] command: nsjump: forcing index and data jump\n");
 
-    size_t newid = index_jump_next(client->ns->index);
-    data_jump_next(client->ns->data, newid);
+    if(!namespace_jump(client->ns)) {
+        redis_hardsend(client, "-Cannot jump right now");
+        return 1;
+    }
 
     redis_hardsend(client, "+OK");
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..b7d7dd8 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -368,8 +368,10 @@ int command_set(redis_client_t *client) {
     zdb_settings_t *zdb_settings = zdb_settings_get();
 
     if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {
-        size_t newid = index_jump_next(client->ns->index);
-        data_jump_next(client->ns->data, newid);
+        if(!namespace_jump(client->ns)) {
+            redis_hardsend(client, "-Cannot write data right now");
+            return 1;
+        }
     }
 
     size_t offset = redis_set_handlers[mode](client, entry);
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..165d222 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1103,8 +1103,9 @@ void redis_files_rotate() {
 
         if(diffsec > zdbd_rootsettings.rotatesec) {
             zdbd_log("[+] system: rotation requested (%s, %ld seconds)\n", ns->name, diffsec);
-            size_t newid = index_jump_next(ns->index);
-            data_jump_next(ns->data, newid);
+
+            if(!namespace_jump(ns))
+                zdbd_log("[-] system: rotation failed (%s)\n", ns->name);
         }
     }
 }
-- 
2.43.0


From 548b2a0c4eb52a6a6008ad475ca8ed3e4e2fbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 08/58] fix: remove files on FLUSH and make FLUSH, NSDEL and
 NSSET atomic

---
 libzdb/data.c             |   6 +-
 libzdb/data.h             |   2 +-
 libzdb/filesystem.c       |  73 +++++++++++++----
 libzdb/filesystem.h       |   4 +-
 libzdb/index_loader.c     |  21 ++++-
 libzdb/index_loader.h     |   2 +-
 libzdb/namespace.c        | 168 +++++++++++++++++++++++++++++++-------
 libzdb/namespace.h        |   5 +-
 zdbd/commands_namespace.c |  80 ++++++++++++++----
 9 files changed, 290 insertions(+), 71 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index f35b0e7..3f7acb6 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -851,6 +851,8 @@ void data_emergency(data_root_t *root) {
 }
 
 // delete data files
-void data_delete_files(char *datadir) {
-    zdb_dir_clean_payload(datadir);
+//
+// returns 0 on success, 1 otherwise
+int data_delete_files(char *datadir) {
+    return zdb_dir_clean_payload(datadir, 'd', 0);
 }
diff --git a/libzdb/data.h b/libzdb/data.h
index ce28932..b29bbb0 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -141,7 +141,7 @@
     int data_tail_check(data_root_t *root, size_t referenced);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
-    void data_delete_files(char *datadir);
+    int data_delete_files(char *datadir);
 
     data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset);
     data_payload_t data_get(data_root_t *root, size_t offset, size_t length, fileid_t dataid, uint8_t idlength);
diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..6bb202d 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -13,6 +13,7 @@
 #include <sys/stat.h>
 #include <limits.h>
 #include <ftw.h>
+#include <dirent.h>
 #include "libzdb.h"
 #include "libzdb_private.h"
 
@@ -63,35 +64,71 @@ static int dir_remove_cb(const char *fpath, const struct stat *sb, int tflag, st
     if((value = remove(fullpath)))
         zdb_warnp(fullpath);
 
-    return 0;
+    return value;
 }
 
 int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
-static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
-    (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
-    char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
+// checking if a filename is a payload file: a single letter prefix followed
+// by the file id
+static int dir_payload_id(char *name, char prefix, uint32_t *fileid) {
+    char *end = NULL;
 
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    if(name[0] != prefix || name[1] < '0' || name[1] > '9')
+        return 0;
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    *fileid = strtoul(name + 1, &end, 10);
 
-    return 0;
+    return (*end == '\0');
 }
 
-int zdb_dir_clean_payload(char *path) {
-    return nftw(path, dir_clean_cb, 64, FTW_DEPTH | FTW_PHYS);
+// remove all payload files (index or data, based on the prefix) found in
+// this directory, starting from the file id provided
+//
+// files are removed from the last one to the first one, like that there is
+// never a hole in the list of files
+//
+// returns 0 if everything is removed, 1 otherwise
+int zdb_dir_clean_payload(char *path, char prefix, uint32_t first) {
+    struct dirent *entry;
+    char filename[ZDB_PATH_MAX];
+    uint32_t fileid;
+    DIR *dp;
+
+    while(1) {
+        uint32_t last = 0;
+        int found = 0;
+
+        if(!(dp = opendir(path))) {
+            zdb_warnp(path);
+            return 1;
+        }
+
+        while((entry = readdir(dp))) {
+            if(!dir_payload_id(entry->d_name, prefix, &fileid) || fileid < first)
+                continue;
+
+            if(!found || fileid > last)
+                last = fileid;
+
+            found = 1;
+        }
+
+        closedir(dp);
+
+        if(!found)
+            return 0;
+
+        snprintf(filename, sizeof(filename), "%s/%c%u", path, prefix, last);
+        zdb_debug("[+] filesystem: removing: %s\n", filename);
+
+        if(unlink(filename) < 0) {
+            zdb_warnp(filename);
+            return 1;
+        }
+    }
 }
 
 int zdb_file_exists(char *path) {
diff --git a/libzdb/filesystem.h b/libzdb/filesystem.h
index a6661be..a0a3fb3 100644
--- a/libzdb/filesystem.h
+++ b/libzdb/filesystem.h
@@ -1,10 +1,12 @@
 #ifndef __ZDB_FILESYSTEM_H
     #define __ZDB_FILESYSTEM_H
 
+    #include <stdint.h>
+
     int zdb_dir_exists(char *path);
     int zdb_dir_create(char *path);
     int zdb_dir_remove(char *path);
-    int zdb_dir_clean_payload(char *path);
+    int zdb_dir_clean_payload(char *path, char prefix, uint32_t first);
     int zdb_file_exists(char *path);
 
     #define ZDB_FILE_EXISTS             0
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f17571b..5b5a85d 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -740,8 +740,25 @@ void index_destroy_global() {
 }
 
 // delete index files (not the namespace descriptor)
-void index_delete_files(char *indexdir) {
-    zdb_dir_clean_payload(indexdir);
+//
+// the first file is kept (empty), because this file contains the mode of
+// the index, which needs to stay the same
+//
+// returns 0 on success, 1 otherwise
+int index_delete_files(char *indexdir) {
+    char filename[ZDB_PATH_MAX];
+
+    if(zdb_dir_clean_payload(indexdir, 'i', 1))
+        return 1;
+
+    snprintf(filename, sizeof(filename), "%s/i0", indexdir);
+
+    if(truncate(filename, sizeof(index_header_t)) < 0) {
+        zdb_warnp(filename);
+        return 1;
+    }
+
+    return 0;
 }
 
 // update (rewrite) current index header
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 05dcbf6..7579285 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -20,7 +20,7 @@
     int index_switch_mode(index_root_t *root);
 
     // gracefully clean everything
-    void index_delete_files(char *indexdir);
+    int index_delete_files(char *indexdir);
     void index_destroy(index_root_t *root);
     void index_destroy_global();
 #endif
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 5bd96a8..097ae06 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,8 +66,13 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// write the descriptor of a namespace
+//
+// everything is written at once, a descriptor is never half updated
+//
+// returns 0 on success, 1 otherwise
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
+    char buffer[sizeof(ns_header_t) + (2 * UINT8_MAX)];
     ns_header_t header;
 
     zdb_debug("[+] namespaces: updating header\n");
@@ -84,19 +89,31 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
-        zdb_warnp("namespace legacy header write");
+    ssize_t length = sizeof(ns_header_t);
+    memcpy(buffer, &header, sizeof(ns_header_t));
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
-        zdb_warnp("namespace header name write");
+    memcpy(buffer + length, namespace->name, header.namelength);
+    length += header.namelength;
 
     if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
-            zdb_warnp("namespace header password write");
+        memcpy(buffer + length, namespace->password, header.passlength);
+        length += header.passlength;
+    }
+
+    lseek(fd, 0, SEEK_SET);
+
+    if(write(fd, buffer, length) != length) {
+        zdb_warnp("namespace descriptor write");
+        return 1;
     }
 
     // ensure metadata are written
-    fsync(fd);
+    if(fsync(fd) < 0) {
+        zdb_warnp("namespace descriptor sync");
+        return 1;
+    }
+
+    return 0;
 }
 
 static int namespace_descriptor_open(namespace_t *namespace) {
@@ -124,14 +141,20 @@ static int namespace_descriptor_load(namespace_t *namespace) {
         return fd;
 
     if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
-        // probably new file, let's write initial namespace information
-        namespace_descriptor_update(namespace, fd);
+        int failed = 1;
+
+        // probably new file, let's write initial namespace information, but
+        // never overwrite an existing descriptor which can't be read
+        if(lseek(fd, 0, SEEK_END) < (off_t) sizeof(ns_header_t))
+            failed = namespace_descriptor_update(namespace, fd);
+
         close(fd);
-        return 0;
+        return failed ? -1 : 0;
     }
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
         zdb_danger("[-] %s: unsupported version detected", namespace->name);
+        close(fd);
         return -1;
     }
 
@@ -176,6 +199,8 @@ static void namespace_commit_hook(namespace_t *namespace) {
 
 // update persistence data of a namespace
 // basically, this rewrites it's metadata on disk
+//
+// returns 0 on success, another value if the metadata can't be written
 int namespace_commit(namespace_t *namespace) {
     int fd;
 
@@ -183,7 +208,10 @@ int namespace_commit(namespace_t *namespace) {
         return fd;
 
     // update metadata
-    namespace_descriptor_update(namespace, fd);
+    if(namespace_descriptor_update(namespace, fd)) {
+        close(fd);
+        return -1;
+    }
 
     close(fd);
 
@@ -242,6 +270,32 @@ size_t namespace_jump(namespace_t *namespace) {
     return data_jump_next(namespace->data, newid);
 }
 
+static void namespace_flushing_path(namespace_t *namespace, char *pathname) {
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-flushing", namespace->indexpath);
+}
+
+// remove all the files of a namespace, if a flush was requested
+static int namespace_flush_files(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
+
+    namespace_flushing_path(namespace, pathname);
+
+    if(zdb_file_exists(pathname) != ZDB_FILE_EXISTS)
+        return 0;
+
+    zdb_debug("[+] namespace: flushing: removing files\n");
+
+    if(data_delete_files(namespace->datapath) || index_delete_files(namespace->indexpath))
+        return 1;
+
+    if(unlink(pathname) < 0) {
+        zdb_warnp(pathname);
+        return 1;
+    }
+
+    return 0;
+}
+
 // lazy load a namespace
 // this just populates data and index from disk
 // based on an existing namespace object
@@ -251,6 +305,9 @@ size_t namespace_jump(namespace_t *namespace) {
 static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     // now, we are sure the namespace exists, but it could be empty
     // let's call index and data initializer, they will take care of that
+    if(namespace_flush_files(namespace))
+        return -1;
+
     if(!(namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches)))
         return -1;
 
@@ -387,6 +444,35 @@ static namespace_t *namespace_push(ns_root_t *root, namespace_t *namespace) {
     return namespace;
 }
 
+// when a namespace is deleted, index directory is renamed first (which is
+// atomic), then data and index can be removed
+static void namespace_deleted_path(zdb_settings_t *settings, char *name, char *pathname) {
+    snprintf(pathname, ZDB_PATH_MAX, "%s/%s%s", settings->indexpath, NAMESPACE_DELETED, name);
+}
+
+// remove all the files of a namespace deleted
+// returns 0 if there is nothing left, 1 otherwise
+static int namespace_deleted_clean(zdb_settings_t *settings, char *name) {
+    char pathname[ZDB_PATH_MAX];
+    char datapath[ZDB_PATH_MAX];
+
+    namespace_deleted_path(settings, name, pathname);
+    snprintf(datapath, sizeof(datapath), "%s/%s", settings->datapath, name);
+
+    if(zdb_dir_exists(pathname) != ZDB_DIRECTORY_EXISTS)
+        return 0;
+
+    zdb_debug("[+] namespace: removing: %s\n", datapath);
+    if(zdb_dir_exists(datapath) == ZDB_DIRECTORY_EXISTS && zdb_dir_remove(datapath))
+        return 1;
+
+    zdb_debug("[+] namespace: removing: %s\n", pathname);
+    if(zdb_dir_remove(pathname))
+        return 1;
+
+    return 0;
+}
+
 static void namespace_create_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
         return;
@@ -410,6 +496,11 @@ int namespace_create(char *name) {
 
     zdb_log("[+] namespace: creating: %s\n", name);
 
+    // ensure there is nothing left from a namespace
+    // deleted previously with the same name
+    if(namespace_deleted_clean(nsroot->settings, name))
+        return 0;
+
     char *indexpath = namespace_path(nsroot->settings->indexpath, name);
     char *datapath = namespace_path(nsroot->settings->datapath, name);
 
@@ -450,6 +541,9 @@ int namespace_valid_name(char *name) {
     if(strchr(name, '/'))
         return 0;
 
+    if(strncmp(name, NAMESPACE_DELETED, strlen(NAMESPACE_DELETED)) == 0)
+        return 0;
+
     // FIXME: better support (slash, coma, ...)
 
     if(strcmp(name, NAMESPACE_DEFAULT) == 0)
@@ -474,6 +568,12 @@ static int namespace_scanload(ns_root_t *root) {
         zdb_diep("opendir");
 
     while((ep = readdir(dp))) {
+        // namespace was deleted, but some files are still there
+        if(strncmp(ep->d_name, NAMESPACE_DELETED, strlen(NAMESPACE_DELETED)) == 0) {
+            namespace_deleted_clean(root->settings, ep->d_name + strlen(NAMESPACE_DELETED));
+            continue;
+        }
+
         if(!namespace_valid_name(ep->d_name))
             continue;
 
@@ -711,28 +811,33 @@ int namespace_reload(namespace_t *namespace) {
 // we don't touch to the namespace object itself (this object is linked to users)
 // we only refresh data and index pointers
 int namespace_flush(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
+    int fd;
+
     zdb_debug("[+] namespace: flushing: %s\n", namespace->name);
 
+    // keep track that files are being removed, if this is interrupted, this
+    // will be completed when loading the namespace
+    namespace_flushing_path(namespace, pathname);
+
+    if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
+        zdb_warnp(pathname);
+        return 1;
+    }
+
+    close(fd);
+
     zdb_debug("[+] namespace: flushing: cleaning index\n");
     index_clean_namespace(namespace->index, namespace);
 
-    char *indexpath = strdup(namespace->index->indexdir);
-    char *datapath = strdup(namespace->data->datadir);
-
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
     data_destroy(namespace->data);
 
-    zdb_debug("[+] namespace: flushing: removing files\n");
-    index_delete_files(indexpath);
-    data_delete_files(datapath);
-
+    // this removes all the files
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_again(nsroot, namespace);
 
-    free(indexpath);
-    free(datapath);
-
     return 0;
 }
 
@@ -753,8 +858,19 @@ static void namespace_delete_hook(namespace_t *namespace) {
 // note: this function assume namespace exists, you should
 // call this by checking before if everything was okay to delete it.
 int namespace_delete(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX];
+
     zdb_log("[+] namespace: removing: %s\n", namespace->name);
 
+    // from now, this namespace doesn't exists anymore, even
+    // if removing all the files is interrupted
+    namespace_deleted_path(nsroot->settings, namespace->name, pathname);
+
+    if(rename(namespace->indexpath, pathname) < 0) {
+        zdb_warnp(namespace->indexpath);
+        return 1;
+    }
+
     // unallocating keys attached to this namespace
     index_clean_namespace(namespace->index, namespace);
 
@@ -766,11 +882,7 @@ int namespace_delete(namespace_t *namespace) {
     namespace_kick_slot(namespace);
 
     // removing files
-    zdb_debug("[+] namespace: removing: %s\n", namespace->indexpath);
-    zdb_dir_remove(namespace->indexpath);
-
-    zdb_debug("[+] namespace: removing: %s\n", namespace->datapath);
-    zdb_dir_remove(namespace->datapath);
+    namespace_deleted_clean(nsroot->settings, namespace->name);
 
     // hook notification
     namespace_delete_hook(namespace);
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index ccec6f7..cbe8900 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -6,6 +6,9 @@
     // or any action without namespace specified
     #define NAMESPACE_DEFAULT  "default"
 
+    // directory prefix of a namespace deleted, not fully removed yet
+    #define NAMESPACE_DELETED  ".zdb-deleted-"
+
     // current expected version of header
     #define NAMESPACE_CURRENT_VERSION  1
 
@@ -71,7 +74,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index efb2aed..3c9c05d 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -94,15 +94,15 @@ int command_nsdel(redis_client_t *client) {
         return 1;
     }
 
-    // detach all clients attached to this namespace
-    redis_detach_clients(namespace);
-
     // delete the new namespace
     if(namespace_delete(namespace)) {
         redis_hardsend(client, "-Could not delete this namespace");
         return 1;
     }
 
+    // detach all clients attached to this namespace
+    redis_detach_clients(namespace);
+
     redis_hardsend(client, "+OK");
 
     return 0;
@@ -395,7 +395,6 @@ static int command_nsset_maxsize(namespace_t *namespace, char *value) {
 static int command_nsset_password(namespace_t *namespace, char *value) {
     // clearing password using "*" password
     if(strcmp(value, "*") == 0) {
-        free(namespace->password);
         namespace->password = NULL;
 
         zdbd_debug("[+] command: nsset: password cleared\n");
@@ -426,6 +425,22 @@ static int command_nsset_worm(namespace_t *namespace, char *value) {
 }
 
 // NSSET mode
+static int command_nsset_mode_apply(redis_client_t *client, namespace_t *namespace, index_mode_t mode) {
+    index_mode_t previous = namespace->index->mode;
+
+    namespace->index->mode = mode;
+
+    if(index_switch_mode(namespace->index)) {
+        namespace->index->mode = previous;
+        redis_hardsend(client, "-Could not update namespace");
+        return 1;
+    }
+
+    index_rehash(namespace->index);
+
+    return 0;
+}
+
 static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, char *value) {
      zdb_settings_t *settings = zdb_settings_get();
 
@@ -445,23 +460,17 @@ static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, ch
 
     if(strcmp(value, "user") == 0) {
         zdbd_debug("[+] command: nsset: switching to user mode\n");
-        namespace->index->mode = ZDB_MODE_KEY_VALUE;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
+        return command_nsset_mode_apply(client, namespace, ZDB_MODE_KEY_VALUE);
 
     } else if(strcmp(value, "seq") == 0) {
         zdbd_debug("[+] command: nsset: switching to sequential mode\n");
-        namespace->index->mode = ZDB_MODE_SEQUENTIAL;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
-
-    } else {
-        zdbd_debug("[-] command: nsset: unknown mode '%s'\n", value);
-        redis_hardsend(client, "-Invalid property value (expected: user, seq)");
-        return 1;
+        return command_nsset_mode_apply(client, namespace, ZDB_MODE_SEQUENTIAL);
     }
 
-    return 0;
+    zdbd_debug("[-] command: nsset: unknown mode '%s'\n", value);
+    redis_hardsend(client, "-Invalid property value (expected: user, seq)");
+
+    return 1;
 }
 
 
@@ -524,6 +533,9 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
+    // keep current settings, if new settings can't be saved
+    namespace_t saved = *namespace;
+
     //
     // testing properties which can be applied
     // to any namespace, including default one
@@ -574,7 +586,23 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    if(namespace_commit(namespace)) {
+        if(namespace->password != saved.password)
+            free(namespace->password);
+
+        namespace->password = saved.password;
+        namespace->maxsize = saved.maxsize;
+        namespace->public = saved.public;
+        namespace->worm = saved.worm;
+        namespace->locked = saved.locked;
+
+        redis_hardsend(client, "-Could not update namespace");
+        return 1;
+    }
+
+    // previous password replaced
+    if(namespace->password != saved.password)
+        free(saved.password);
 
     // confirmation
     redis_hardsend(client, "+OK");
@@ -649,6 +677,24 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    if(!client->writable) {
+        zdbd_debug("[-] command: flush: denied, read-only namespace\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        zdbd_debug("[-] command: flush: denied, namespace in worm mode\n");
+        redis_hardsend(client, "-Namespace is protected by worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From 5433f127369e00e4d9f2a32741ef8c50cb9d5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 09/58] fix: read everything sent by clients, reject malformed
 requests, challenge usable once

---
 zdbd/commands_namespace.c |  8 ++++++-
 zdbd/redis.c              | 47 ++++++++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 3c9c05d..42888d8 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -206,7 +206,13 @@ int command_select(redis_client_t *client) {
 
                 char *expected;
 
-                if(!(expected = zdb_hash_password(client->nonce, namespace->password))) {
+                expected = zdb_hash_password(client->nonce, namespace->password);
+
+                // a challenge can only be used one time
+                free(client->nonce);
+                client->nonce = NULL;
+
+                if(!expected) {
                     redis_hardsend(client, "-Internal generator error");
                     return 1;
                 }
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 165d222..305f819 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -173,6 +173,9 @@ redis_response_t *redis_send_response(redis_client_t *client, redis_response_t *
                 return NULL;
             }
 
+            if(errno == EINTR)
+                continue;
+
             if(errno != EAGAIN) {
                 zdbd_warnp("redis_send_reply: send");
 
@@ -435,17 +438,19 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     request->argc = atoi(buffer->reader + 1);
     zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
 
-    if(request->argc == 0) {
+    if(request->argc <= 0) {
+        request->argc = 0;
         resp_discard(client, "Missing arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // we don't have any command
     // with more than like 4 or 5 arguments
     // but let put a higher limit, just in case
     if(request->argc > 1024) {
+        request->argc = 0;
         resp_discard(client, "Too many arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // allocating needed requests per arguments announced
@@ -494,7 +499,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     if(*buffer->reader != '$') {
         zdbd_debug("[-] resp: request is not a string, rejecting\n");
         resp_discard(client, "Malformed query string");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     if(!(request->argv[request->fillin] = calloc(sizeof(resp_object_t), 1))) {
@@ -507,6 +512,12 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
 
     // reading the length of the array
     argument->length = atoi(buffer->reader + 1);
+
+    if(argument->length < 0) {
+        resp_discard(client, "Invalid payload length");
+        return RESP_STATUS_DISCARD;
+    }
+
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
@@ -696,6 +707,9 @@ go_again:
 
     pzdbd_debug("[+] redis: perform read on the socket\n");
     if((length = recv(fd, buffer->writer, buffer->remain, 0)) < 0) {
+        if(errno == EINTR)
+            goto go_again;
+
         if(errno != EAGAIN && errno != EWOULDBLOCK) {
             zdbd_warnp("client recv");
             return RESP_STATUS_ABNORMAL;
@@ -785,6 +799,11 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // this client or the server is going away, do not execute
+            // what could follow
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_DONE || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
@@ -800,15 +819,10 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
-        pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
-        goto go_again;
-    }
-
-    // success
-    pzdbd_debug("[+] redis: socket parsing succeed\n");
-    return RESP_STATUS_SUCCESS;
+    // polling system only notify us when new data arrives, we need to
+    // read everything available until there is nothing left
+    pzdbd_debug("[+] redis: everything available parsed, trying again\n");
+    goto go_again;
 }
 
 void socket_nonblock(int fd) {
@@ -925,6 +939,13 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // dropping responses never sent
+    while(client->responses) {
+        redis_response_t *next = client->responses->next;
+        redis_response_free(client->responses);
+        client->responses = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From 928d7e4d3c79d9caf73c0c0b8b2cb58bcedb754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 10/58] fix: resolve the owner of mirrored requests and ignore
 mirrors of closed clients

---
 zdbd/redis.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 305f819..653cd20 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -617,10 +617,16 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_settings_get()->iid;
         return 0;
     }
 
+    // there is nothing except the owner
+    if(client->request->argc < 2) {
+        zdbd_debug("[-] redis: owner check: malformed request, dropping\n");
+        return 1;
+    }
+
     // this comes from a replication client
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
@@ -638,12 +644,10 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // converting string into unsigned integer
     uint32_t ownerid = strtoul(temp, NULL, 10);
 
-    /* FIXME
-    if(ownerid == zdbd_rootsettings.iid) {
+    if(ownerid == zdb_settings_get()->iid) {
         zdbd_debug("[-] redis: owner check: looks like this comes from us, dropping\n");
         return 1;
     }
-    */
 
     // okay, let's pop this request from original object
     // so this request will looks like an original request
@@ -667,7 +671,7 @@ static resp_status_t redis_handle_resp_finished(redis_client_t *client) {
         redis_free_request(request);
         request->state = RESP_EMPTY;
 
-        return 1;
+        return RESP_STATUS_SUCCESS;
     }
 
     zdbd_debug("[+] redis: request parsed, calling dispatcher\n");
@@ -905,6 +909,7 @@ redis_client_t *socket_client_new(int fd) {
     client->request->state = RESP_EMPTY;
     client->request->argc = 0;
     client->request->argv = NULL;
+    client->request->owner = 0;
 
     // attach default namespace to this client
     client->ns = namespace_get_default();
@@ -1158,6 +1163,10 @@ int redis_posthandler_client(redis_client_t *client) {
     if(!client->executed)
         return 0;
 
+    // the namespace of the client was removed, nothing was executed
+    if(!client->ns)
+        return 0;
+
     for(size_t i = 0; i < clients.length; i++) {
         redis_client_t *checking = clients.list[i];
 
-- 
2.43.0


From 318cfe70b8c1594acd72fd3e45e717d25f9e962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 11/58] fix: tell index and payload read failures from missing
 keys, check HISTORY and KEYCUR keys

---
 libzdb/index.h          |  1 +
 libzdb/index_get.c      |  6 +++++-
 zdbd/commands.c         | 13 +++++++++++++
 zdbd/commands.h         |  1 +
 zdbd/commands_dataset.c | 21 +++++++++++++--------
 zdbd/commands_get.c     |  3 +--
 zdbd/commands_history.c | 19 +++++++++++++++----
 zdbd/commands_scan.c    | 10 ++++++++--
 zdbd/commands_set.c     | 13 +++++++++----
 9 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/libzdb/index.h b/libzdb/index.h
index 56f0b02..a7b4ffe 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -212,6 +212,7 @@
         // for 16384 index files, this would consume 2048 bytes
 
         size_t previous;    // keep latest offset inserted to the indexfile
+        int lookupfail;     // last lookup (index_get) failed because of a disk error
 
         fileid_t datalast;  // last datafile referenced when the index was loaded
         size_t dataend;     // where ends the last data referenced in this datafile
diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 51e1d21..9a4611b 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -40,8 +40,10 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     // reading index on disk
     index_item_t *item;
 
-    if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
+    if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t)))) {
+        index->lookupfail = 1;
         return NULL;
+    }
 
     // ensure this entry is the one of the requested key
     if(item->idlength != sizeof(seqid_t) || memcmp(item->id, id, sizeof(seqid_t))) {
@@ -84,6 +86,8 @@ index_entry_t *index_get(index_root_t *index, void *id, uint8_t idlength) {
     zdb_debug("[+] index: get: lookup key: ");
     zdb_debughex(id, idlength);
 
+    index->lookupfail = 0;
+
     if(!(entry = index_get_handlers[index->mode](index, id, idlength))) {
         zdb_debug("[-] index: get: key not found\n");
         return NULL;
diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..b28fe39 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -274,6 +274,19 @@ int command_error_locked(redis_client_t *client) {
 }
 
 // generic error for frozen namespace
+// a key could not be found, which doesn't mean it does not
+// exist if the index could not be read
+int command_error_lookup(redis_client_t *client, char *notfound) {
+    if(client->ns->index->lookupfail) {
+        zdbd_debug("[-] command: index could not be read\n");
+        redis_hardsend(client, "-Internal Error");
+        return 1;
+    }
+
+    redis_reply_stack(client, notfound, strlen(notfound));
+    return 1;
+}
+
 int command_error_frozen(redis_client_t *client) {
     zdbd_debug("[-] command: request interrupted, namespace frozen\n");
     redis_hardsend(client, "-Namespace is temporarily frozen (read-write disabled)");
diff --git a/zdbd/commands.h b/zdbd/commands.h
index e0417e0..15d5e46 100644
--- a/zdbd/commands.h
+++ b/zdbd/commands.h
@@ -21,6 +21,7 @@
 
     int command_error_locked(redis_client_t *client);
     int command_error_frozen(redis_client_t *client);
+    int command_error_lookup(redis_client_t *client, char *notfound);
 
     // defined in commands_set.c
     // used by commands_set.c and commands_dataset.c
diff --git a/zdbd/commands_dataset.c b/zdbd/commands_dataset.c
index d9f2a45..1e1ded2 100644
--- a/zdbd/commands_dataset.c
+++ b/zdbd/commands_dataset.c
@@ -35,6 +35,9 @@ int command_exists(redis_client_t *client) {
 
     zdbd_debug("[+] command: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
+    if(!entry && index->lookupfail)
+        return command_error_lookup(client, ":0\r\n");
+
     // key found but deleted
     if(entry && entry->flags & INDEX_ENTRY_DELETED) {
         zdbd_debug("[+] command: exists: entry found but deleted\n");
@@ -75,8 +78,7 @@ int command_check(redis_client_t *client) {
     // key not found at all
     if(!entry) {
         zdbd_debug("[-] command: check: key not found\n");
-        redis_hardsend(client, "$-1");
-        return 1;
+        return command_error_lookup(client, "$-1\r\n");
     }
 
     // key found but deleted
@@ -93,6 +95,12 @@ int command_check(redis_client_t *client) {
     data_root_t *data = client->ns->data;
     int status = data_check(data, entry->offset, entry->dataid);
 
+    if(status < 0) {
+        zdb_log("[-] command: check: cannot read payload\n");
+        redis_hardsend(client, "-Internal Error");
+        return 0;
+    }
+
     char response[32];
     sprintf(response, ":%d\r\n", status);
 
@@ -142,8 +150,7 @@ int command_del(redis_client_t *client) {
     // grabbing original entry
     if(!(entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length))) {
         zdbd_debug("[-] command: del: key not found\n");
-        redis_hardsend(client, "-Key not found");
-        return 1;
+        return command_error_lookup(client, "-Key not found\r\n");
     }
 
     // avoid double deletion
@@ -205,8 +212,7 @@ int command_length(redis_client_t *client) {
     // key not found at all
     if(!entry) {
         zdbd_debug("[-] command: length: key not found\n");
-        redis_hardsend(client, "$-1");
-        return 1;
+        return command_error_lookup(client, "$-1\r\n");
     }
 
     // key found but deleted
@@ -250,8 +256,7 @@ int command_keytime(redis_client_t *client) {
     // key not found at all
     if(!entry) {
         zdbd_debug("[-] command: keytime: key not found\n");
-        redis_hardsend(client, "$-1");
-        return 1;
+        return command_error_lookup(client, "$-1\r\n");
     }
 
     // key found but deleted
diff --git a/zdbd/commands_get.c b/zdbd/commands_get.c
index e311b17..adb64b7 100644
--- a/zdbd/commands_get.c
+++ b/zdbd/commands_get.c
@@ -18,8 +18,7 @@ static int command_get_single(redis_client_t *client, char *buffer, int length)
     // fetching index entry for this key
     if(!(entry = index_get(client->ns->index, buffer, length))) {
         zdbd_debug("[-] command: get: key not found\n");
-        redis_hardsend(client, "$-1");
-        return 1;
+        return command_error_lookup(client, "$-1\r\n");
     }
 
     // key found but deleted
diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..883379f 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -110,7 +110,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -155,14 +155,19 @@ int command_history(redis_client_t *client) {
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: history: invalid key size\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     // requesting a previous data, without any exact offset
     // this basicly request the first older entry of a specific key
     if(client->request->argc == 2) {
         // grabbing original entry
         if(!(entry = index_get(index, client->request->argv[1]->buffer, client->request->argv[1]->length))) {
             zdbd_debug("[-] command: history: key not found\n");
-            redis_hardsend(client, "-Key not found");
-            return 1;
+            return command_error_lookup(client, "-Key not found\r\n");
         }
 
         // checking for deletion
@@ -178,6 +183,12 @@ int command_history(redis_client_t *client) {
 
         index_item_t *item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength);
 
+        if(!item) {
+            zdb_log("[-] command: history: cannot read index entry\n");
+            redis_hardsend(client, "-Internal Error");
+            return 0;
+        }
+
         return history_send(client, item, &ekey);
     }
 
@@ -211,7 +222,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index cf260b0..2b87f3d 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -361,11 +361,14 @@ int command_keycur(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     resp_object_t *key = request->argv[1];
 
-    if(!(entry = index_get(index, key->buffer, key->length))) {
-        redis_hardsend(client, "-Key not found");
+    if(key->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
         return 1;
     }
 
+    if(!(entry = index_get(index, key->buffer, key->length)))
+        return command_error_lookup(client, "-Key not found\r\n");
+
     char response[64];
     size_t offset = 0;
 
@@ -482,6 +485,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index b7d7dd8..8924328 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(matching)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return matching;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
@@ -339,6 +340,10 @@ int command_set(redis_client_t *client) {
         // userkey id is not null
         if((entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length)))
             floating = entry->length;
+
+        // the key maybe exists, we don't know
+        if(!entry && index->lookupfail)
+            return command_error_lookup(client, "-Internal Error\r\n");
     }
 
     // checking if worm mode enabled and key already exists
-- 
2.43.0


From d32d839e48e13bfaa343abbcf62abbf14d40ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 12/58] fix: replace namespace descriptors at once

---
 libzdb/namespace.c | 70 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 097ae06..c729d29 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,11 +66,11 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// write the descriptor of a namespace
-//
-// everything is written at once, a descriptor is never half updated
-//
-// returns 0 on success, 1 otherwise
+static void namespace_descriptor_path(namespace_t *namespace, char *suffix, char *pathname) {
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace%s", namespace->indexpath, suffix);
+}
+
+// write the descriptor of a namespace to a file descriptor
 int namespace_descriptor_update(namespace_t *namespace, int fd) {
     char buffer[sizeof(ns_header_t) + (2 * UINT8_MAX)];
     ns_header_t header;
@@ -116,11 +116,56 @@ int namespace_descriptor_update(namespace_t *namespace, int fd) {
     return 0;
 }
 
+// write (or replace) the descriptor of a namespace
+//
+// a new file is written, then replaces the previous descriptor, there is
+// always one complete descriptor available
+//
+// returns 0 on success, 1 otherwise
+static int namespace_descriptor_replace(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX], newpath[ZDB_PATH_MAX];
+    int fd, failed;
+
+    namespace_descriptor_path(namespace, "", pathname);
+    namespace_descriptor_path(namespace, ".new", newpath);
+
+    if((fd = open(newpath, O_CREAT | O_TRUNC | O_WRONLY, 0600)) < 0) {
+        zdb_warning("[-] cannot create the namespace file");
+        return 1;
+    }
+
+    failed = namespace_descriptor_update(namespace, fd);
+    close(fd);
+
+    if(!failed && rename(newpath, pathname) < 0) {
+        zdb_warnp("namespace descriptor rename");
+        failed = 1;
+    }
+
+    if(failed) {
+        unlink(newpath);
+        return 1;
+    }
+
+    // ensure the new descriptor is the one which is found later
+    if((fd = open(namespace->indexpath, O_RDONLY)) < 0) {
+        zdb_warnp("namespace directory");
+        return 0;
+    }
+
+    if(fsync(fd) < 0)
+        zdb_warnp("namespace directory sync");
+
+    close(fd);
+
+    return 0;
+}
+
 static int namespace_descriptor_open(namespace_t *namespace) {
     char pathname[ZDB_PATH_MAX];
     int fd;
 
-    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+    namespace_descriptor_path(namespace, "", pathname);
 
     if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
         zdb_warning("[-] cannot create or open in read-write the namespace file");
@@ -146,7 +191,7 @@ static int namespace_descriptor_load(namespace_t *namespace) {
         // probably new file, let's write initial namespace information, but
         // never overwrite an existing descriptor which can't be read
         if(lseek(fd, 0, SEEK_END) < (off_t) sizeof(ns_header_t))
-            failed = namespace_descriptor_update(namespace, fd);
+            failed = namespace_descriptor_replace(namespace);
 
         close(fd);
         return failed ? -1 : 0;
@@ -202,18 +247,9 @@ static void namespace_commit_hook(namespace_t *namespace) {
 //
 // returns 0 on success, another value if the metadata can't be written
 int namespace_commit(namespace_t *namespace) {
-    int fd;
-
-    if((fd = namespace_descriptor_open(namespace)) < 0)
-        return fd;
-
     // update metadata
-    if(namespace_descriptor_update(namespace, fd)) {
-        close(fd);
+    if(namespace_descriptor_replace(namespace))
         return -1;
-    }
-
-    close(fd);
 
     // trigger updated hook
     namespace_commit_hook(namespace);
-- 
2.43.0


From 3c4974915336cacc55e3a788a5bbdbf4161e8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 13/58] fix: free the shared branches when the default
 namespace is sequential

---
 libzdb/namespace.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index c729d29..81c0f47 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -727,13 +727,12 @@ void namespace_free(namespace_t *namespace) {
 // let's clean all indices, data and namespace arrays
 int namespaces_destroy() {
     // freeing the big index buffer
-    // since branches want an index as argument, let's use
-    // the first namespace (default), since they all share
-    // the same buffer
+    // all namespaces share the same buffer (but namespaces
+    // in sequential mode don't use it)
     if(nsroot->branches) {
         zdb_debug("[+] namespaces: cleaning branches\n");
         for(uint32_t b = 0; b < buckets_branches; b++)
-            index_branch_free(nsroot->namespaces[0]->index->branches, b);
+            index_branch_free(nsroot->branches, b);
 
         // freeing the big index array
         free(nsroot->branches);
-- 
2.43.0


From ad58a4927a211644ab5925d79611e55326f76bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:16 +0000
Subject: [PATCH 14/58] fix: keep mode and settings consistent when NSSET mode
 meets disk errors or power loss

---
 libzdb/index_loader.c     | 4 ++++
 zdbd/commands_namespace.c | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 5b5a85d..18a993e 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -800,6 +800,10 @@ int index_switch_mode(index_root_t *root) {
         return 1;
     }
 
+    // settings are always saved immediately
+    if(fsync(fd) < 0)
+        zdb_warnp("index_switch_mode: sync");
+
     close(fd);
 
     return 0;
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 42888d8..d30e0cb 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -591,8 +591,9 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
-    // update persistant setting
-    if(namespace_commit(namespace)) {
+    // update persistant setting (the mode is already saved in the index
+    // header, there is nothing about it in the descriptor)
+    if(namespace_commit(namespace) && strcmp(command, "mode") != 0) {
         if(namespace->password != saved.password)
             free(namespace->password);
 
-- 
2.43.0


From 384ed634009abd1cf5f4eb5edcfbc4f6e06a0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 15/58] fix: a command argument of exactly 256 bytes overflowed
 its buffer

---
 zdbd/commands.c           | 4 +++-
 zdbd/commands_namespace.c | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index b28fe39..ab1897e 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -86,7 +86,9 @@ int command_admin_authorized(redis_client_t *client) {
 int command_args_overflow(redis_client_t *client, int argidx, int maxlen) {
     resp_request_t *request = client->request;
 
-    if(request->argv[argidx]->length > maxlen) {
+    // maxlen is the size of the buffer which receives
+    // the string, null terminator included
+    if(request->argv[argidx]->length >= maxlen) {
         redis_hardsend(client, "-Argument too long");
         return 0;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index d30e0cb..b6a0db2 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -525,7 +525,7 @@ int command_nsset(redis_client_t *client) {
         return 1;
 
     // limit size of the value
-    if(!command_args_overflow(client, 3, 63))
+    if(!command_args_overflow(client, 3, 64))
         return 1;
 
     sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From 49df11da8ee710ae7f4122f0c39ccca7cd4c6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 16/58] fix: refuse a null byte in the name of a new namespace

---
 zdbd/commands_namespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index b6a0db2..3b66558 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -31,7 +31,8 @@ int command_nsnew(redis_client_t *client) {
     // get string formatted namespace
     sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
 
-    if(!namespace_valid_name(target)) {
+    // a null byte would truncate the name (even to an empty name)
+    if(strlen(target) != (size_t) request->argv[1]->length || !namespace_valid_name(target)) {
         zdbd_debug("[-] command: nsnew: namespace name doesn't fit critera\n");
         redis_hardsend(client, "-This name is not allowed");
         return 1;
-- 
2.43.0


From c4a419a69f214360e5492afbbb42cc8297360be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 17/58] fix: count the timeout of WAIT on the monotonic clock

---
 zdbd/redis.c | 12 ++++++------
 zdbd/redis.h |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 653cd20..bd60576 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1063,7 +1063,7 @@ void redis_client_set_watcher(redis_client_t *client, command_t *handler, size_t
     client->watching = handler;
 
     // set initial waiting time and timeout
-    gettimeofday(&client->watchtime, NULL);
+    clock_gettime(CLOCK_MONOTONIC, &client->watchtime);
     client->watchtimeout = timeoutms;
 }
 
@@ -1077,15 +1077,15 @@ void redis_client_unset_watcher(redis_client_t *client) {
     memset(&client->watchtime, 0, sizeof(client->watchtime));
 }
 
-uint64_t timeval_delta_ms(struct timeval *begin, struct timeval *end) {
+uint64_t timespec_delta_ms(struct timespec *begin, struct timespec *end) {
     uint64_t deltams = (end->tv_sec - begin->tv_sec) * 1000;
-    deltams += (end->tv_usec - begin->tv_usec) / 1000;
+    deltams += (end->tv_nsec - begin->tv_nsec) / 1000000;
 
     return deltams;
 }
 
 static void redis_watch_timeout() {
-    struct timeval timecheck;
+    struct timespec timecheck;
     char response[64];
 
     for(size_t i = 0; i < clients.length; i++) {
@@ -1097,9 +1097,9 @@ static void redis_watch_timeout() {
 
         // checking if watching timeout is reached
         if(checking->watching) {
-            gettimeofday(&timecheck, NULL);
+            clock_gettime(CLOCK_MONOTONIC, &timecheck);
 
-            uint64_t deltams = timeval_delta_ms(&checking->watchtime, &timecheck);
+            uint64_t deltams = timespec_delta_ms(&checking->watchtime, &timecheck);
             if(deltams > checking->watchtimeout) {
                 zdbd_debug("[+] redis: trigger: client %d waiting timeout\n", checking->fd);
 
diff --git a/zdbd/redis.h b/zdbd/redis.h
index 0fc8d22..7ab6164 100644
--- a/zdbd/redis.h
+++ b/zdbd/redis.h
@@ -128,7 +128,7 @@
         // we keep track if a client wants to monitor some event
         // and a pointer to the last command executed
         size_t watchtimeout;          // watch command timeout
-        struct timeval watchtime;     // tracker for timeout
+        struct timespec watchtime;    // tracker for timeout
         command_t *watching;
         command_t *executed;
 
-- 
2.43.0


From 631b648f2291c45842d885844970acbeab9e0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 18/58] fix: take back the data record of a command which could
 not be indexed

---
 libzdb/api.c            | 7 +++++++
 libzdb/data.c           | 9 +++++++++
 libzdb/data.h           | 1 +
 zdbd/commands_dataset.c | 2 ++
 zdbd/commands_set.c     | 6 ++++++
 5 files changed, 25 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 191bddc..297a182 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -131,6 +131,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
+    size_t previous = ns->data->previous;
+
     // insert the data on the datafile
     // this will returns us the offset where the header is
     size_t offset = data_insert(ns->data, &dreq);
@@ -212,6 +214,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
+    size_t previous = ns->data->previous;
+
     // insert the data on the datafile
     // this will returns us the offset where the header is
     // size_t offset = data_insert(value, valuelength, id, idlength);
@@ -245,6 +249,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
 
     if(!(idxentry = index_set(ns->index, &setter, existing))) {
         // cannot insert index (disk issue)
+        data_insert_cancel(ns->data, previous);
         return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
     }
 
@@ -404,6 +409,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     }
 
     time_t timestamp = time(NULL);
+    size_t previous = ns->data->previous;
 
     // update data file, flag entry deleted
     if(!data_delete(ns->data, entry->id, entry->idlength, timestamp)) {
@@ -414,6 +420,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     // mark index entry as deleted
     if(index_entry_delete(ns->index, entry)) {
         zdb_debug("[-] command: del: index delete flag failed\n");
+        data_insert_cancel(ns->data, previous);
         return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
     }
 
diff --git a/libzdb/data.c b/libzdb/data.c
index 3f7acb6..cf91687 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -751,6 +751,15 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
     return offset;
 }
 
+// take back the last entry inserted, which could not be indexed
+// the previous offset is the one set on the root before the insertion
+void data_insert_cancel(data_root_t *root, size_t previous) {
+    zdb_debug("[-] data: discarding last entry (offset %lu)\n", root->previous);
+
+    data_insert_rollback(root, root->previous);
+    root->previous = previous;
+}
+
 // return the offset of the next entry which will be added
 // you probably don't need this, you should get the offset back
 // when data is really inserted, but this could be needed, for
diff --git a/libzdb/data.h b/libzdb/data.h
index b29bbb0..2fd2fe3 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -153,6 +153,7 @@
 
     // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags);
     size_t data_insert(data_root_t *root, data_request_t *source);
+    void data_insert_cancel(data_root_t *root, size_t previous);
     size_t data_next_offset(data_root_t *root);
 
     data_scan_t data_previous_header(data_root_t *root, fileid_t dataid, size_t offset);
diff --git a/zdbd/commands_dataset.c b/zdbd/commands_dataset.c
index 1e1ded2..6e6e16c 100644
--- a/zdbd/commands_dataset.c
+++ b/zdbd/commands_dataset.c
@@ -168,6 +168,7 @@ int command_del(redis_client_t *client) {
     }
 
     time_t timestamp = timestamp_from_set(request, 2);
+    size_t previous = data->previous;
 
     // update data file, flag entry deleted
     if(!data_delete(data, entry->id, entry->idlength, timestamp)) {
@@ -179,6 +180,7 @@ int command_del(redis_client_t *client) {
     // mark index entry as deleted
     if(index_entry_delete(index, entry)) {
         zdbd_debug("[-] command: del: index delete flag failed\n");
+        data_insert_cancel(data, previous);
         redis_hardsend(client, "-Cannot delete key (index)");
         return 0;
     }
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 8924328..8985e12 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -117,6 +117,8 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         }
     }
 
+    size_t previous = data->previous;
+
     // insert the data into the datafile
     // this will return the offset where the header is located
     size_t offset = data_insert(data, &dreq);
@@ -151,6 +153,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
 
     if(!index_set(index, &setter, existing)) {
         // cannot insert index (disk issue)
+        data_insert_cancel(data, previous);
         redis_hardsend(client, "-Cannot write index right now");
         return 0;
     }
@@ -227,6 +230,8 @@ static size_t redis_set_handler_sequential(redis_client_t *client, index_entry_t
         }
     }
 
+    size_t previous = data->previous;
+
     // insert the data into the datafile
     // this will return us the offset where the header is located
     // size_t offset = data_insert(value, valuelength, id, idlength);
@@ -262,6 +267,7 @@ static size_t redis_set_handler_sequential(redis_client_t *client, index_entry_t
 
     if(!(idxentry = index_set(index, &setter, existing))) {
         // cannot insert index (disk issue)
+        data_insert_cancel(data, previous);
         redis_hardsend(client, "-Cannot write index right now");
         return 0;
     }
-- 
2.43.0


From 94aeb8bb7d178fc1ed082ff508fe606941075fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 19/58] fix: let index-rebuild skip deletions of missing keys
 and report its failures

---
 tools/index-rebuild/index-rebuild.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 931ea73..57c3e8d 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -47,8 +47,10 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
     // only take care of next index id if it's not the first
     // doing it at the end to avoid creating an empty index
     // for non-existing data
-    if(fileid > 0)
-        index_jump_next(zdbindex);
+    if(fileid > 0 && !index_jump_next(zdbindex)) {
+        fprintf(stderr, "[-] index-rebuild: could not create next index file\n");
+        exit(EXIT_FAILURE);
+    }
 
     return 0;
 }
@@ -105,7 +107,10 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
         if(entry->flags & DATA_ENTRY_DELETED) {
-            if(index_entry_delete(zdbindex, existing)) {
+            // nothing to delete if the key is already deleted (a
+            // deletion interrupted before reaching the index leaves
+            // its record on the data file and can be issued again)
+            if(existing && !index_entry_is_deleted(existing) && index_entry_delete(zdbindex, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not delete index item\n");
                 return -1;
             }
@@ -143,7 +148,7 @@ int index_rebuild(index_root_t *zdbindex, data_root_t *zdbdata, time_t timestamp
 
         // processing this file
         if((entries = index_rebuild_pass(zdbindex, zdbdata, timestamp)) < 0)
-            break;
+            return 1;
 
         entrycount += entries;
     }
-- 
2.43.0


From 02b6a2b464aa2ac76be6c31a110f6a2895639872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 20/58] fix: let the library set keys by the mode of the
 namespace

---
 libzdb/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 297a182..48ea101 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -309,7 +309,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
             return zdb_api_reply_error("Cannot write data right now");
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From 6d8fd0f48f5a3575902d68c867446a8569f518b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 21/58] fix: compare payloads in the library before answering
 up to date

---
 libzdb/api.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 48ea101..c81796a 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,26 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+// matching checksum is not enough to know if the payload is
+// the same, payload needs to be compared
+static int api_set_unchanged(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
+    index_entry_t *x = existing; // shortcut
+
+    if(x->crc != dreq->crc || x->length != dreq->datalength)
+        return 0;
+
+    data_payload_t payload = data_get(ns->data, x->offset, x->length, x->dataid, x->idlength);
+
+    // could not read existing payload, replacing it
+    if(!payload.buffer)
+        return 0;
+
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return matching;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,8 +146,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_unchanged(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing payload match, ignoring\n");
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -209,8 +229,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_set_unchanged(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing payload match, ignoring\n");
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
-- 
2.43.0


From dffdb4d3a4be350cdb9977a65fc2e09c121ce895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 22/58] fix: drop the data of a library set which could not be
 indexed

---
 libzdb/api.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index c81796a..10aae62 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -183,8 +183,11 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .id = key,
     };
 
-    if(!index_set(ns->index, &setter, existing))
+    if(!index_set(ns->index, &setter, existing)) {
+        // cannot insert index (disk issue)
+        data_insert_cancel(ns->data, previous);
         return zdb_api_reply_error("Cannot write index right now");
+    }
 
     return zdb_api_reply_buffer(key, ksize);
 }
-- 
2.43.0


From 681fc6cdfce2c4bfb7ed121f7fe2596b235fddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 23/58] fix: let the library report read errors and keys which
 are too long

---
 libzdb/api.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 10aae62..da7860a 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,20 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+// keys longer than this limit cannot be stored (length is one byte)
+#define ZDB_API_KEY_LENGTH_MAX  255
+
+// key was not found: either it does not exist or the index
+// could not be read, which does not say anything about the key
+static zdb_api_t *zdb_api_reply_missing(namespace_t *ns, zdb_api_type_t type) {
+    if(ns->index->lookupfail) {
+        zdb_debug("[-] api: index could not be read\n");
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+    }
+
+    return zdb_api_reply(type, NULL);
+}
+
 // matching checksum is not enough to know if the payload is
 // the same, payload needs to be compared
 static int api_set_unchanged(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
@@ -299,6 +313,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > ZDB_API_KEY_LENGTH_MAX)
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -310,6 +327,10 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         // userkey id is not null
         if((entry = index_get(ns->index, key, ksize)))
             floating = entry->length;
+
+        // the key maybe exists, we don't know
+        if(!entry && ns->index->lookupfail)
+            return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
     }
 
     // check if namespace limitation is set
@@ -342,10 +363,13 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
 zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
+    if(ksize > ZDB_API_KEY_LENGTH_MAX)
+        return zdb_api_reply_error("Key too large");
+
     // fetching index entry for this key
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return zdb_api_reply_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // key found but deleted
@@ -377,12 +401,17 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry;
+
+    if(ksize > ZDB_API_KEY_LENGTH_MAX)
+        return zdb_api_reply_error("Key too large");
+
+    entry = index_get(ns->index, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
     if(!entry)
-        return zdb_api_reply(ZDB_API_FALSE, NULL);
+        return zdb_api_reply_missing(ns, ZDB_API_FALSE);
 
     // key found but deleted
     if(entry && entry->flags & INDEX_ENTRY_DELETED) {
@@ -394,12 +423,17 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry;
+
+    if(ksize > ZDB_API_KEY_LENGTH_MAX)
+        return zdb_api_reply_error("Key too large");
+
+    entry = index_get(ns->index, key, ksize);
 
     // key not found at all
     if(!entry) {
         zdb_debug("[-] api: check: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return zdb_api_reply_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // key found but deleted
@@ -413,16 +447,25 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+
+    if(status < 0) {
+        zdb_log("[-] api: check: cannot read payload\n");
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+    }
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
 zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
+    if(ksize > ZDB_API_KEY_LENGTH_MAX)
+        return zdb_api_reply_error("Key too large");
+
     // grabbing original entry
     if(!(entry = index_get(ns->index, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return zdb_api_reply_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // avoid double deletion
-- 
2.43.0


From 3bb33d636f6855311f247adc062a64c1896c18ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 24/58] fix: refuse to load an index whose header could not be
 read

---
 libzdb/index_loader.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 18a993e..87ba82a 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -227,11 +227,9 @@ static size_t index_load_file(index_root_t *root) {
 
         if(length < 0) {
             // read failed, probably caused by a system error
-            // this is probably an unrecoverable issue, let's skip this
-            // index file (this could break consistancy)
-            zdb_warnp("index: header read");
-            root->status |= INDEX_DEGRADED;
-            return 1;
+            // skipping this file would hide its keys (and new entries would
+            // be written over its header), let's refuse to load this index
+            return index_load_failed(root, "index: header read");
         }
 
         if(lseek(root->indexfd, 0, SEEK_END) >= (off_t) sizeof(index_header_t)) {
-- 
2.43.0


From 93b44a33a8502163500c74f7256a98b06a9fd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 25/58] fix: refuse to open a database without its directories

---
 libzdb/bootstrap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..dec7644 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -114,6 +114,13 @@ zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
     char *datapath = realpath(zdb_settings->datapath, NULL);
     char *indexpath = realpath(zdb_settings->indexpath, NULL);
 
+    if(!datapath || !indexpath) {
+        zdb_warnp("system: data or index directory");
+        free(datapath);
+        free(indexpath);
+        return NULL;
+    }
+
     if(strcmp(datapath, indexpath) == 0) {
         zdb_danger("[-] system: cannot use the same directory for index and data path");
         return NULL;
-- 
2.43.0


From b79e48601d55a50e97401b0f8e0a1cb4eb8caf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 26/58] fix: do not let hooks inherit the locks of the database

---
 libzdb/bootstrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index dec7644..cb6a81c 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -74,7 +74,7 @@ static int zdb_lock(char *lockpath) {
 
     zdb_debug("[+] bootstrap: checking lockfile: %s\n", lockpath);
 
-    if((fd = open(lockpath, O_CREAT | O_RDONLY, 0664)) < 0) {
+    if((fd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0664)) < 0) {
         zdb_warnp(lockpath);
         return -1;
     }
-- 
2.43.0


From 91e096351ebeebdbd7f3d38668b92b0819c83231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 27/58] fix: refuse to load a data file whose entries could not
 be read

The lookup of the last entry stopped on a read error as if the end of
the file was reached: an incomplete entry was not noticed, and the next
entries were added behind it.
---
 libzdb/data.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index cf91687..7a9c346 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -322,7 +322,9 @@ static int data_open_append(char *filename) {
 }
 
 // reading all entries to find where is the last one
-static void data_find_last(data_root_t *root) {
+//
+// returns 0 on success, 1 if the file could not be read
+static int data_find_last(data_root_t *root) {
     data_entry_header_t header;
     int entries = 0;
 
@@ -343,7 +345,7 @@ static void data_find_last(data_root_t *root) {
 
         if(read(root->datafd, &header, sizeof(data_entry_header_t)) != sizeof(data_entry_header_t)) {
             zdb_warnp("data: finding last entry");
-            break;
+            return 1;
         }
 
         off_t next = offset + sizeof(data_entry_header_t) + header.datalength + header.idlength;
@@ -361,6 +363,8 @@ static void data_find_last(data_root_t *root) {
 
     zdb_debug("[+] data: entries read: %d, last offset: %lu\n", entries, root->previous);
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
+
+    return 0;
 }
 
 // checking if next entries can be added at the end of the current
@@ -847,7 +851,13 @@ data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid
         return NULL;
     }
 
-    data_find_last(root);
+    // without knowing where the last entry ends, adding
+    // new entries is not possible
+    if(data_find_last(root)) {
+        zdb_danger("[-] data: could not read data: %s", root->datafile);
+        data_destroy(root);
+        return NULL;
+    }
 
     return root;
 }
-- 
2.43.0


From afe3a6fc9d5bb49ad8b9310ed65e43397baace7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 28/58] fix: do not take a hook killed or not started for a
 successful one

---
 libzdb/hook.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..16c9705 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -126,6 +126,10 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // nothing to wait for
+            hook->finished = hook->created;
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
@@ -145,18 +149,31 @@ pid_t hook_execute(hook_t *hook) {
     return 0;
 }
 
+// a hook is only successful when it exits by itself with 0
+static int hook_exit_status(int status) {
+    if(WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+
 int hook_execute_wait(hook_t *hook) {
     pid_t child;
     int status;
 
-    child = hook_execute(hook);
+    // hook could not be started
+    if((child = hook_execute(hook)) == 0)
+        return hook->status;
+
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
-    if(waitpid(child, &status, 0) < 0)
+    if(waitpid(child, &status, 0) < 0) {
         zdb_warnp("waitpid");
+        status = -1;
+    }
 
     hook->finished = time(NULL);
-    hook->status = WEXITSTATUS(status);
+    hook->status = (status == -1) ? EXIT_FAILURE : hook_exit_status(status);
 
     // update stats, since we wait, this won't be handled
     // by recurring scrubber
@@ -232,7 +249,7 @@ void libzdb_hooks_cleanup() {
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-                hook->status = WEXITSTATUS(status);
+                hook->status = hook_exit_status(status);
                 break;
             }
         }
-- 
2.43.0


From beb9803a08c87c32ff40bef31e9d1e10e83e5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 29/58] fix: do not overflow the reply buffer of HOOKS with
 long arguments

---
 zdbd/commands_system.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..7af5c11 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,7 +132,20 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // arguments have no fixed length (eg: dirty list)
+    size_t total = 64;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        total += 256;
+
+        for(size_t s = 0; s < hook->argc && hook->argv[s]; s++)
+            total += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), total)))
         return 1;
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
-- 
2.43.0


From a867e3c807ac6d621d9fca1e834dd01a20bedc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 30/58] fix: flag the active index file as dirty when an entry
 is appended

---
 libzdb/index_set.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index a6ee2e9..5f785e4 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -183,6 +183,9 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
         return 1;
     }
 
+    // flag index file as dirty, it was just modified
+    index_dirty_set(root, root->indexid, 1);
+
     return 0;
 }
 
-- 
2.43.0


From f5c417ada549ddb86517bdd5fac13a8266ab1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 31/58] fix: keep the dirty list when a namespace is reloaded

---
 libzdb/namespace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 81c0f47..15d5d64 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -827,6 +827,10 @@ int namespace_reload(namespace_t *namespace) {
     zdb_debug("[+] namespace: reload: cleaning index\n");
     index_clean_namespace(namespace->index, namespace);
 
+    // keep the dirty list, nothing was saved by reloading
+    index_dirty_t dirty = namespace->index->dirty;
+    namespace->index->dirty.map = NULL;
+
     zdb_debug("[+] namespace: reload: destroying objects\n");
     index_destroy(namespace->index);
     data_destroy(namespace->data);
@@ -834,6 +838,11 @@ int namespace_reload(namespace_t *namespace) {
     zdb_debug("[+] namespace: reload: reloading data\n");
     namespace_load_again(nsroot, namespace);
 
+    for(size_t i = 0; i < dirty.length && i < namespace->index->dirty.length; i++)
+        namespace->index->dirty.map[i] |= dirty.map[i];
+
+    free(dirty.map);
+
     // hook notification
     namespace_reload_hook(namespace);
 
-- 
2.43.0


From 89126a6041309236b1ec625a59b384186e2da80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 32/58] fix: take deletions and overwrites into account for
 timed rotations

---
 libzdb/index.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 1764c16..d081385 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -118,9 +118,9 @@ int index_write(int fd, void *buffer, size_t length, index_root_t *root) {
     }
 
     // flag current indexfile as dirty if we
-    // did any write on it
-    if(fd == root->indexfd)
-        root->updated = 1;
+    // did any write on it, which can be done through
+    // another file descriptor (eg: entry deleted)
+    root->updated = 1;
 
     if(response != (ssize_t) length) {
         zdb_logerr("[-] index write: partial write\n");
-- 
2.43.0


From c72ceeb8361476f8c6f013f659a673a0bd55c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 33/58] fix: flag the index file as dirty when its mode is
 changed

---
 libzdb/index_loader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 87ba82a..934ef33 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -804,5 +804,8 @@ int index_switch_mode(index_root_t *root) {
 
     close(fd);
 
+    // flag index file as dirty, it was just modified
+    index_dirty_set(root, 0, 1);
+
     return 0;
 }
-- 
2.43.0


From f295b58cee2e0037debc4723e8166f6173c5f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 34/58] fix: do not mirror commands which were refused

---
 zdbd/redis.c | 15 +++++++++++++++
 zdbd/redis.h |  1 +
 2 files changed, 16 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index bd60576..6d3bdff 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -257,6 +257,9 @@ resp_status_t redis_delayed_write(int fd) {
 int redis_reply_heap(redis_client_t *client, void *payload, size_t length, void (*destructor)(void *)) {
     redis_response_t *response;
 
+    if(length > 0 && *((char *) payload) == '-')
+        client->refused = 1;
+
     // create a response based on parameters
     if(!(response = redis_response_new(payload, length, destructor))) {
         zdbd_warnp("redis_reply_head: malloc");
@@ -288,6 +291,9 @@ int redis_reply_heap(redis_client_t *client, void *payload, size_t length, void
 int redis_reply_stack(redis_client_t *client, void *payload, size_t length) {
     redis_response_t response;
 
+    if(length > 0 && *((char *) payload) == '-')
+        client->refused = 1;
+
     response.buffer = payload;
     response.reader = payload;
     response.length = length;
@@ -675,6 +681,7 @@ static resp_status_t redis_handle_resp_finished(redis_client_t *client) {
     }
 
     zdbd_debug("[+] redis: request parsed, calling dispatcher\n");
+    client->refused = 0;
     value = redis_dispatcher(client);
     zdbd_debug("[+] redis: dispatcher done, return code: %d\n", value);
 
@@ -883,6 +890,7 @@ redis_client_t *socket_client_new(int fd) {
     client->watching = NULL;
     client->mirror = 0;
     client->master = 0;
+    client->refused = 0;
     client->nonce = NULL;
 
     // initialize wait timeout
@@ -1000,6 +1008,13 @@ int redis_mirror_client(redis_client_t *source, redis_client_t *target) {
         return 0;
     }
 
+    // the command was refused or failed, nothing changed here and replaying
+    // it (as admin) on the other side could succeed
+    if(source->refused) {
+        zdbd_debug("[-] redis: mirror: command failed, not forwarding\n");
+        return 0;
+    }
+
     // computing the buffer size
     size_t length = 0;
     size_t offset = 0;
diff --git a/zdbd/redis.h b/zdbd/redis.h
index 7ab6164..2d0e415 100644
--- a/zdbd/redis.h
+++ b/zdbd/redis.h
@@ -120,6 +120,7 @@
         int admin;        // is the client is admin
         int mirror;       // does this client needs a mirroring
         int master;       // does this client is a 'master' (forwarder)
+        int refused;      // does the last command was answered by an error
         char *nonce;      // nonce challenge used by secure auth
         buffer_t buffer;  // per-client buffer
 
-- 
2.43.0


From ae8e814d37185933109f7137e762b53309a86378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 35/58] fix: do not read beyond the line of a header

---
 zdbd/redis.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 6d3bdff..f14ca3f 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -411,6 +411,16 @@ static void redis_free_request(resp_request_t *request) {
     request->argv = NULL;
 }
 
+// reads the number announced by a header line, without looking further
+// than the end of this line (the buffer is not a null-terminated string)
+static int redis_resp_number(char *line, char *endline) {
+    *endline = '\0';
+    int value = atoi(line + 1);
+    *endline = '\n';
+
+    return value;
+}
+
 static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
@@ -441,7 +451,7 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     }
 
     // reading the amount of arguments
-    request->argc = atoi(buffer->reader + 1);
+    request->argc = redis_resp_number(buffer->reader, match);
     zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
 
     if(request->argc <= 0) {
@@ -517,7 +527,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     resp_object_t *argument = request->argv[request->fillin];
 
     // reading the length of the array
-    argument->length = atoi(buffer->reader + 1);
+    argument->length = redis_resp_number(buffer->reader, match);
 
     if(argument->length < 0) {
         resp_discard(client, "Invalid payload length");
-- 
2.43.0


From fc4b1bae0c2321c41d409d06159b8c89ed4ee485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 36/58] fix: do not load a namespace whose password can't be
 read

---
 libzdb/namespace.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 15d5d64..2c54c00 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -211,14 +211,19 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     if(header.passlength) {
         if(!(namespace->password = calloc(sizeof(char), header.passlength + 1))) {
             zdb_warnp("namespace password malloc");
-            return 0;
+            close(fd);
+            return -1;
         }
 
         // skip the namespace name, jump to password
         lseek(fd, sizeof(ns_header_t) + header.namelength, SEEK_SET);
 
-        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
+        // never open a namespace without the right password
+        if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength) {
             zdb_warnp("namespace password read");
+            close(fd);
+            return -1;
+        }
     }
 
     zdb_log("[+] namespace: [%s] opened, analyzing...\n", namespace->name);
-- 
2.43.0


From a1ec2f46512460080cff2decbca460875159cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 37/58] fix: NSINFO does not report free space over the limit

---
 zdbd/commands_namespace.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 3b66558..809e6be 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -304,7 +304,12 @@ int command_nsinfo(redis_client_t *client) {
     uint64_t nextid = zdb_index_next_id(namespace->index);
 
     // compute free space available
-    size_t available = namespace->maxsize - namespace->index->stats.datasize;
+    size_t available = 0;
+
+    // the limit can be lowered below what's already stored
+    if(namespace->maxsize > namespace->index->stats.datasize)
+        available = namespace->maxsize - namespace->index->stats.datasize;
+
     int len = 0;
 
     len += sprintf(info, "# namespace\n");
-- 
2.43.0


From eee68d18875dff6d2dcaa5d0804b3220c5f7b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 38/58] fix: integrity-check could not check any data file,
 read errors counted as success

---
 tools/integrity-check/integrity-check.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..00a8eeb 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -52,11 +52,15 @@ int data_integrity(data_root_t *zdbdata) {
     // the entry headers starts with the amount of bytes
     // of the key, which is needed to read the full header
     uint8_t idlength;
+    ssize_t length;
     data_entry_header_t *entry = NULL;
     size_t entrycount = 0;
     char *buffer = NULL;
 
-    while(read(zdbdata->datafd, &idlength, sizeof(idlength)) == sizeof(idlength)) {
+    while((length = read(zdbdata->datafd, &idlength, sizeof(idlength))) != 0) {
+        if(length < 0)
+            zdb_diep("data read failed");
+
         // we have the length of the key
         ssize_t entrylength = sizeof(data_entry_header_t) + idlength;
         if(!(entry = realloc(entry, entrylength)))
@@ -127,12 +131,12 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    if(*datafile != 'd') {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
+    fileid_t dataid = atoi(datafile + 1);
 
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
@@ -162,6 +166,7 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    // the exit code can't hold the amount of errors
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 59e556f21754b7e071bf7b447f40ca7894fc5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 39/58] fix: quick-compact wrote unusable files and stopped
 silently on disk errors

---
 tools/quick-compaction/quick-compact.c | 36 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..b642940 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -8,6 +8,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <errno.h>
 #include "libzdb.h"
 
 static struct option long_options[] = {
@@ -63,22 +64,28 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
 
     // opening index file
     zdbindex->indexid = fileid;
-    if(index_open_readonly(zdbindex, fileid) < 0)
+    if(index_open_readonly(zdbindex, fileid) < 0) {
+        // there is no more files only when this
+        // index doesn't exists, anything else is an error
+        if(errno != ENOENT || fileid == 0)
+            diep("index open");
+
         return 1;
+    }
 
     printf("[+] quick-compact: opening datafile id: %d\n", fileid);
 
     // opening data file
     zdbdata->dataid = fileid;
     if((zdbdata->datafd = zdb_data_open_readonly(zdbdata)) < 0)
-        return 1;
+        diep("data open");
 
     // validating header
     if(!(header = zdb_data_descriptor_load(zdbdata)))
-        return 1;
+        exit(EXIT_FAILURE);
 
     if(!zdb_data_descriptor_validate(header, zdbdata))
-        return 1;
+        exit(EXIT_FAILURE);
 
     printf("[+] quick-compact: data header seems correct\n");
     printf("[+] quick-compact: data created at: %s\n", zdb_header_date(header->created, datestr, sizeof(datestr)));
@@ -110,7 +117,9 @@ static int quick_descriptor_copy(instance_t *input, instance_t *output) {
     if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0)
         diep(pathname);
 
-    namespace_descriptor_update(input->namespace, fd);
+    if(namespace_descriptor_update(input->namespace, fd))
+        exit(EXIT_FAILURE);
+
     close(fd);
 
     return 0;
@@ -144,13 +153,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%u", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -180,7 +189,12 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     // processing each entries in index
     // FIXME: read the whole index in memory and parse it in memory
     //        this will be way much faster
-    while(read(input->zdbindex->indexfd, buffer, sizeof(index_item_t)) == sizeof(index_item_t)) {
+    ssize_t itemlen;
+
+    while((itemlen = read(input->zdbindex->indexfd, buffer, sizeof(index_item_t))) != 0) {
+        if(itemlen != sizeof(index_item_t))
+            diep("index read");
+
         index_item_t *item = (index_item_t *) buffer;
         uint32_t truelen = item->length;
         uint32_t trueoff = item->offset;
@@ -199,7 +213,9 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         }
 
         // update offset which could be modified by
-        // previous truncation
+        // previous truncation, the entry is written at
+        // the end of the target datafile
+        dataoffset = lseek(datafd, 0, SEEK_CUR);
         item->offset = dataoffset;
 
         // always reset dataid to this fileid
@@ -229,7 +245,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
-- 
2.43.0


From ecd5825301258252013202c21206f63c7a87123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 40/58] fix: namespace-editor claimed success when the settings
 could not be written

---
 tools/namespace-editor/namespace-editor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/namespace-editor/namespace-editor.c b/tools/namespace-editor/namespace-editor.c
index e8dc840..8dd69e9 100644
--- a/tools/namespace-editor/namespace-editor.c
+++ b/tools/namespace-editor/namespace-editor.c
@@ -57,7 +57,10 @@ int namespace_edit(char *dirname, char *nsname, namespace_t *namespace) {
     ns->maxsize = namespace->maxsize;
 
     // writing changes
-    namespace_commit(ns);
+    if(namespace_commit(ns)) {
+        fprintf(stderr, "[-] could not write namespace\n");
+        return 1;
+    }
 
     printf("[+]\n");
     printf("[+] ----------------------------------------\n");
-- 
2.43.0


From 5b56c8d7186fd8753635ed95feafce01f4c6852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 41/58] fix: index-rebuild succeeded with a part of the data
 when a file could not be read

---
 tools/index-rebuild/index-rebuild.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 57c3e8d..a7d5cc3 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -5,6 +5,7 @@
 #include <inttypes.h>
 #include <getopt.h>
 #include <unistd.h>
+#include <errno.h>
 #include "libzdb.h"
 
 static struct option long_options[] = {
@@ -30,15 +31,21 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
 
     // opening data file
     zdbdata->dataid = fileid;
-    if((zdbdata->datafd = zdb_data_open_readonly(zdbdata)) < 0)
+    if((zdbdata->datafd = zdb_data_open_readonly(zdbdata)) < 0) {
+        // there is no more files only when this
+        // datafile doesn't exists, anything else is an error
+        if(errno != ENOENT)
+            zdb_diep("data open");
+
         return 1;
+    }
 
     // validating header
     if(!(header = zdb_data_descriptor_load(zdbdata)))
-        return 1;
+        exit(EXIT_FAILURE);
 
     if(!zdb_data_descriptor_validate(header, zdbdata))
-        return 1;
+        exit(EXIT_FAILURE);
 
     printf("[+] index-rebuild: data header seems correct\n");
     printf("[+] index-rebuild: data created at: %s\n", zdb_header_date(header->created, datestr, sizeof(datestr)));
@@ -58,6 +65,7 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
 ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t timestamp) {
     size_t entrycount = 0;
     uint8_t idlength;
+    ssize_t length;
     data_entry_header_t *entry = NULL;
 
     // now it's time to read each entries
@@ -66,7 +74,10 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
     // the entry headers starts with the amount of bytes
     // of the key, which is needed to read the full header
 
-    while(read(zdbdata->datafd, &idlength, sizeof(idlength)) == sizeof(idlength)) {
+    while((length = read(zdbdata->datafd, &idlength, sizeof(idlength))) != 0) {
+        if(length < 0)
+            zdb_diep("data read");
+
         // we have the length of the key
         ssize_t entrylength = sizeof(data_entry_header_t) + idlength;
         if(!(entry = realloc(entry, entrylength)))
@@ -106,6 +117,12 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         // this is needed to keep track of the history
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
+        // existing entry could not be read
+        if(!existing && zdbindex->lookupfail) {
+            fprintf(stderr, "[-] index-rebuild: could not read index item\n");
+            return -1;
+        }
+
         if(entry->flags & DATA_ENTRY_DELETED) {
             // nothing to delete if the key is already deleted (a
             // deletion interrupted before reaching the index leaves
-- 
2.43.0


From 2f0a2a0cb938b8f1945920e8ecfad1d75cdd4fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 42/58] fix: db-sync ignored errors: it copied error messages
 as values, skipped refused keys and took a failed listing for the end

---
 utilities/db-sync/db-sync.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ae12484..683dcf6 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -182,8 +182,27 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        // key was removed since it was listed
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: could not read key: %s\n", input->str);
+            return 1;
+        }
+
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: could not write key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -244,11 +263,19 @@ int synchronize(sync_t *sync) {
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, &status);
+        if(fetchsync(sync, &keylist, &status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
 
+    // everything was listed only if the source says so
+    if(reply->type == REDIS_REPLY_ERROR && strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] source: could not list keys: %s\n", reply->str);
+        return 1;
+    }
+
     printf("\n[+] database synchronized\n");
     return 0;
 }
-- 
2.43.0


From e3b57d244c2e830821e26b6c89fcfe54d3f9a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:49 +0000
Subject: [PATCH 43/58] fix: db-replicate crashed on an empty source, lost keys
 written between the copy and the wait, ignored errors

---
 utilities/db-replicate/db-replicate.c | 83 ++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c60ffd3..cf0c7a1 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -22,6 +22,9 @@ typedef struct sync_t {
     redisContext *sourcep;  // source payload
     redisContext *target;
 
+    char *cursor;           // last position reached on the source
+    size_t cursorlen;
+
 } sync_t;
 
 
@@ -119,8 +122,27 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len)))
-            return 0;
+        // key was removed since it was listed
+        if(input->type == REDIS_REPLY_NIL) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
+        if(input->type != REDIS_REPLY_STRING) {
+            fprintf(stderr, "\n[-] source: could not read key: %s\n", input->str);
+            return 1;
+        }
+
+        if(!(output = redisCommand(sync->target, "SET %b %b", key, keylen, input->str, input->len))) {
+            fprintf(stderr, "\n[-] target: %s\n", sync->target->errstr);
+            return 1;
+        }
+
+        if(output->type == REDIS_REPLY_ERROR) {
+            fprintf(stderr, "\n[-] target: could not write key: %s\n", output->str);
+            return 1;
+        }
 
         status->transfered += input->len;
         status->copied += 1;
@@ -137,6 +159,21 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
     return 0;
 }
 
+// next keys of the source, following the last position reached
+redisReply *scan(sync_t *sync) {
+    redisReply *reply;
+
+    if(!sync->cursor)
+        reply = redisCommand(sync->sourceq, "SCAN");
+    else
+        reply = redisCommand(sync->sourceq, "SCAN %b", sync->cursor, sync->cursorlen);
+
+    if(!reply)
+        fprintf(stderr, "\n[-] source: %s\n", sync->sourceq->errstr);
+
+    return reply;
+}
+
 int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
     redisReply *reply = from;
     keylist_t keylist = {
@@ -164,17 +201,36 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
             status->requested += 1;
         }
 
+        // everything before this position is (about to be) replicated
+        free(sync->cursor);
+
+        sync->cursorlen = reply->element[0]->len;
+        if(!(sync->cursor = malloc(sync->cursorlen))) {
+            perror("malloc");
+            exit(EXIT_FAILURE);
+        }
+
+        memcpy(sync->cursor, reply->element[0]->str, sync->cursorlen);
+
         // query next key
-        if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        if(!(reply = scan(sync)))
             return 1;
 
         // original reply will be free'd here
         // that's why new reply is already prepared ^
-        fetchsync(sync, &keylist, status);
+        if(fetchsync(sync, &keylist, status))
+            return 1;
+
         keylist.length = 0;
         keylist.size = 0;
     }
 
+    // everything was listed only if the source says so
+    if(reply->type == REDIS_REPLY_ERROR && strcmp(reply->str, "No more data")) {
+        fprintf(stderr, "\n[-] source: could not list keys: %s\n", reply->str);
+        return 1;
+    }
+
     return 0;
 }
 
@@ -188,7 +244,7 @@ int replicate(sync_t *sync) {
 
     printf("[+] namespace ready, %lu keys to transfert (%.2f MB)\n", status.keys, MB(status.size));
 
-    if(!(reply = redisCommand(sync->sourceq, "SCAN")))
+    if(!(reply = scan(sync)))
         return 1;
 
     int value = replicate_from_reply(sync, reply, &status);
@@ -198,16 +254,12 @@ int replicate(sync_t *sync) {
 }
 
 int synchronize(sync_t *sync) {
-    redisReply *reply, *wait, *from;
+    redisReply *wait, *from;
     status_t status = {0};
 
     printf("[+] synchronizing databases\n");
 
     while(1) {
-        printf("[+] fetching last id\n");
-        if(!(reply = redisCommand(sync->sourceq, "RSCAN")))
-            return 1;
-
         printf("[+] waiting trigger on master\n");
         if(!(wait = redisCommand(sync->sourceq, "WAIT SET")))
             return 1;
@@ -215,14 +267,15 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
-        // fetching from last ket we know
-        if(!(from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        // fetching from last position we reached, keys added
+        // before waiting are found on next trigger (or timeout)
+        if(!(from = scan(sync)))
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
-        replicate_from_reply(sync, from, &status);
+        if(replicate_from_reply(sync, from, &status))
+            return 1;
 
-        freeReplyObject(reply);
         printf("\n");
     }
 
@@ -261,7 +314,7 @@ void usage(char *program) {
 }
 
 int main(int argc, char **argv) {
-    sync_t sync;
+    sync_t sync = {0};
     int option_index = 0;
     char *inhost = NULL, *outhost = NULL;
     int inport = 9900, outport = 9900;
-- 
2.43.0


From 17e69dc5f6145fc2c9079a432d4bee6b902f7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 44/58] fix: hook list was never cleaned while any hook was
 running: one hook that never ends made the server grow forever

---
 libzdb/hook.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 16c9705..07d827d 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -219,18 +219,18 @@ void libzdb_hooks_cleanup() {
     if(!zdb_rootsettings.hook)
         return;
 
+    // no hooks active at all, nothing to do
+    if(hooks->active == 0)
+        return;
+
+    // there are some active hooks on the list
+    // let's see if any of them expired and needs
+    // some cleanup (even if some others are still running)
+    hook_expired_cleanup(hooks);
+
     // no pending child
-    if(zdb_rootsettings.stats.childwait == 0) {
-        // no hooks active at all, nothing to do
-        if(hooks->active == 0)
-            return;
-
-        // there are some active hooks on the list
-        // let's see if any of them expired and needs
-        // some cleanup
-        hook_expired_cleanup(hooks);
+    if(zdb_rootsettings.stats.childwait == 0)
         return;
-    }
 
     // some child were executed, check if they are done
     // if nothing are done, just wait next time
@@ -246,6 +246,10 @@ void libzdb_hooks_cleanup() {
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
+            // empty slot
+            if(hook == NULL)
+                continue;
+
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-- 
2.43.0


From 777701642a8f6916fba61b561bd9210d6a3d36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 45/58] fix: server could not start on a read-only filesystem

---
 libzdb/namespace.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 2c54c00..e9b3e91 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -1,6 +1,7 @@
 #define _GNU_SOURCE
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <string.h>
 #include <stdint.h>
 #include <unistd.h>
@@ -168,8 +169,11 @@ static int namespace_descriptor_open(namespace_t *namespace) {
     namespace_descriptor_path(namespace, "", pathname);
 
     if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
-        zdb_warning("[-] cannot create or open in read-write the namespace file");
-        return -1;
+        // an existing namespace can still be used on a read-only filesystem
+        if(errno != EROFS || (fd = open(pathname, O_RDONLY)) < 0) {
+            zdb_warning("[-] cannot create or open in read-write the namespace file");
+            return -1;
+        }
     }
 
     return fd;
-- 
2.43.0


From ed4777884240e004bcfa9ab7234d2d121099f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 46/58] fix: server stopped on FLUSH when the data filesystem
 is read-only

---
 libzdb/namespace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index e9b3e91..58862b7 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -869,6 +869,12 @@ int namespace_flush(namespace_t *namespace) {
 
     zdb_debug("[+] namespace: flushing: %s\n", namespace->name);
 
+    // data can't be removed from a read-only filesystem
+    if(access(namespace->datapath, W_OK) < 0) {
+        zdb_warnp(namespace->datapath);
+        return 1;
+    }
+
     // keep track that files are being removed, if this is interrupted, this
     // will be completed when loading the namespace
     namespace_flushing_path(namespace, pathname);
-- 
2.43.0


From e9191d264b1b983e86cabf5f879860227ae245cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 47/58] fix: names, settings and passwords with a null byte
 were silently truncated: an empty password, lost by a restart, or another
 namespace deleted

---
 zdbd/auth.c               |  3 ++-
 zdbd/commands.c           | 18 ++++++++++++++++++
 zdbd/commands_namespace.c |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..2613b9e 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -11,7 +11,8 @@ int zdbd_password_check(char *input, int length, char *expected) {
     char password[192];
     sprintf(password, "%.*s", length, input);
 
-    if(strcmp(password, expected) == 0) {
+    // a null byte would hide the end of the input
+    if(strlen(password) == (size_t) length && strcmp(password, expected) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands.c b/zdbd/commands.c
index ab1897e..d74a7c1 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -83,6 +83,18 @@ int command_admin_authorized(redis_client_t *client) {
     return 1;
 }
 
+// arguments copied as strings would be silently truncated by a null byte
+static int command_args_nullbyte(redis_client_t *client, int argidx) {
+    resp_object_t *argument = client->request->argv[argidx];
+
+    if(memchr(argument->buffer, '\0', argument->length)) {
+        redis_hardsend(client, "-Invalid argument");
+        return 1;
+    }
+
+    return 0;
+}
+
 int command_args_overflow(redis_client_t *client, int argidx, int maxlen) {
     resp_request_t *request = client->request;
 
@@ -93,6 +105,9 @@ int command_args_overflow(redis_client_t *client, int argidx, int maxlen) {
         return 0;
     }
 
+    if(command_args_nullbyte(client, argidx))
+        return 0;
+
     return 1;
 }
 
@@ -104,6 +119,9 @@ int command_args_namespace(redis_client_t *client, int argidx) {
         return 0;
     }
 
+    if(command_args_nullbyte(client, argidx))
+        return 0;
+
     return 1;
 }
 
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 809e6be..7632ac7 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -175,7 +175,7 @@ int command_select(redis_client_t *client) {
                 // to ensure we check exact password
                 sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
 
-                if(strcmp(password, namespace->password) != 0) {
+                if(strlen(password) != (size_t) request->argv[2]->length || strcmp(password, namespace->password) != 0) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From ade6f76276835c664e8b5cc179990c45ad388563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:18 +0000
Subject: [PATCH 48/58] fix: index_raw_fetch_entry took a read error for the
 end of the file: index-dump printed part of the index and succeeded

---
 libzdb/index_get.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 9a4611b..b9ed6aa 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -108,8 +108,13 @@ index_entry_t *index_get(index_root_t *index, void *id, uint8_t idlength) {
 index_item_t *index_raw_fetch_entry(index_root_t *root) {
     uint8_t idlength;
     index_item_t *entry = NULL;
+    ssize_t length;
 
-    if(read(root->indexfd, &idlength, sizeof(idlength)) != sizeof(idlength))
+    // only the real end of the file ends the list, not a read error
+    if((length = read(root->indexfd, &idlength, sizeof(idlength))) < 0)
+        zdb_diep("index_raw_fetch_entry: read");
+
+    if(length != sizeof(idlength))
         return NULL;
 
     // we have the length of the key
-- 
2.43.0


From 46d593fc4cfa3c6ed2353ff096cf4c33b26445dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:18 +0000
Subject: [PATCH 49/58] fix: namespace-dump dereferenced NULL when the
 namespace could not be loaded

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..f221e3a 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] namespace-dump: could not load namespace\n");
+        exit(EXIT_FAILURE);
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From 04843ce3dfbf5a962ad097a731921da373b228fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 50/58] fix: a SET whose memory could not be allocated was
 refused but stayed in the index file

---
 libzdb/index_branch.c | 12 +++++++++---
 libzdb/index_set.c    | 19 ++++++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/libzdb/index_branch.c b/libzdb/index_branch.c
index a1a2229..c58cee2 100644
--- a/libzdb/index_branch.c
+++ b/libzdb/index_branch.c
@@ -49,8 +49,12 @@ index_branch_t **index_buckets_init() {
 index_branch_t *index_branch_init(index_branch_t **branches, uint32_t branchid) {
     // zdb_debug("[+] initializing branch id 0x%x\n", branchid);
 
-    branches[branchid] = malloc(sizeof(index_branch_t));
-    index_branch_t *branch = branches[branchid];
+    index_branch_t *branch;
+
+    if(!(branch = malloc(sizeof(index_branch_t))))
+        return NULL;
+
+    branches[branchid] = branch;
 
     branch->length = 0;
     branch->last = NULL;
@@ -109,7 +113,9 @@ index_entry_t *index_branch_append(index_branch_t **branches, uint32_t branchid,
         return NULL;
 
     // grabbing the branch
-    branch = index_branch_get_allocate(branches, branchid);
+    if(!(branch = index_branch_get_allocate(branches, branchid)))
+        return NULL;
+
     branch->length += 1;
 
     // adding this item and pointing previous last one
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 5f785e4..145dcd1 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -223,7 +223,10 @@ index_entry_t *index_insert_memory_handler_memkey(index_root_t *root, index_set_
     uint32_t branchkey = index_key_hash(entry->id, entry->idlength);
 
     // commit entry into memory
-    index_branch_append(root->branches, branchkey, entry);
+    if(root->branches && !index_branch_append(root->branches, branchkey, entry)) {
+        free(entry);
+        return NULL;
+    }
 
     // update statistics (if the key exists)
     // maybe it doesn't exists if it comes from a replay
@@ -404,6 +407,9 @@ static index_entry_t * (*index_update_entry[])(index_root_t *root, index_set_t *
 
 
 index_entry_t *index_insert_entry_memkey(index_root_t *root, index_set_t *set) {
+    size_t last = root->previous;
+    index_entry_t *entry;
+
     // ensure flags are empty
     set->entry->flags = 0;
 
@@ -413,8 +419,15 @@ index_entry_t *index_insert_entry_memkey(index_root_t *root, index_set_t *set) {
         return NULL;
     }
 
-    // update memory system
-    return index_insert_memory_handler_memkey(root, set);
+    // update memory system, if this is not possible, the entry
+    // can't stay on disk, the caller will drop the data
+    if(!(entry = index_insert_memory_handler_memkey(root, set))) {
+        zdb_debug("[-] index: add new entry failed: could not allocate memory\n");
+        index_append_entry_rollback(root, set->entry->idxoffset, last);
+        return NULL;
+    }
+
+    return entry;
 }
 
 index_entry_t *index_insert_entry_sequential(index_root_t *root, index_set_t *set) {
-- 
2.43.0


From 948f47a022b82fd9977440c16f76c70580e2feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 51/58] fix: a stored SET was answered like an unchanged value
 (or an error) when its reply could not be allocated

---
 zdbd/commands_set.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 8985e12..8274162 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -74,6 +74,21 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
     return matching;
 }
 
+// the value is stored, reply with the key, this doesn't need any
+// allocation which could fail and hide the fact that data are written
+static void set_reply_key(redis_client_t *client, unsigned char *id, uint8_t idlength) {
+    char response[MAX_KEY_LENGTH + 16];
+
+    size_t length = sprintf(response, "$%u\r\n", idlength);
+    memcpy(response + length, id, idlength);
+    length += idlength;
+
+    memcpy(response + length, "\r\n", 2);
+    length += 2;
+
+    redis_reply_stack(client, response, length);
+}
+
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
     resp_request_t *request = client->request;
     index_root_t *index = client->ns->index;
@@ -163,13 +178,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
     // OK or Error when inserting a key, but we reply with the key itself
     //
     // this is how the sequential-id can return the generated id
-    redis_bulk_t response = redis_bulk(id, idlength);
-    if(!response.buffer) {
-        redis_hardsend(client, "$-1");
-        return 0;
-    }
-
-    redis_reply_heap(client, response.buffer, response.length, free);
+    set_reply_key(client, id, idlength);
 
     return offset;
 }
@@ -277,14 +286,7 @@ static size_t redis_set_handler_sequential(redis_client_t *client, index_entry_t
     // OK or Error when inserting a key, we reply with the key itself
     //
     // this is how the sequential-id can returns the id generated
-    // redis_bulk_t response = redis_bulk(id, idlength);
-    redis_bulk_t response = redis_bulk(&id, idlength);
-    if(!response.buffer) {
-        redis_hardsend(client, "-Internal Error (bulk)");
-        return 0;
-    }
-
-    redis_reply_heap(client, response.buffer, response.length, free);
+    set_reply_key(client, (unsigned char *) &id, idlength);
 
     return offset;
 }
-- 
2.43.0


From 08446fc1fc6d6e1431854a4755ecae2193519c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 52/58] fix: GET replied not found (and leaked the value) when
 the reply could not be allocated

---
 zdbd/commands_get.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_get.c b/zdbd/commands_get.c
index adb64b7..0ccb69d 100644
--- a/zdbd/commands_get.c
+++ b/zdbd/commands_get.c
@@ -44,7 +44,9 @@ static int command_get_single(redis_client_t *client, char *buffer, int length)
 
     redis_bulk_t response = redis_bulk(payload.buffer, payload.length);
     if(!response.buffer) {
-        redis_hardsend(client, "$-1");
+        // the key exists, do not reply like it was not found
+        redis_hardsend(client, "-Internal Error (memory)");
+        free(payload.buffer);
         return 0;
     }
 
-- 
2.43.0


From 23042a36c5e60524823680cb51f461805e63d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 53/58] fix: SCAN, RSCAN and KSCAN lost keys or crashed when
 the list of the keys could not grow

---
 zdbd/commands_scan.c | 54 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 2b87f3d..cbb6e6d 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -33,13 +33,21 @@ uint64_t ustime() {
 // growing it up a little bit
 static scan_list_t *scanlist_append(scan_list_t *scanlist, index_scan_t *scan, scan_info_t *info) {
     if(scanlist->length + 1 > scanlist->allocated) {
-        scanlist->allocated += 32;
+        size_t allocated = scanlist->allocated + 32;
+        index_item_t **items;
+        scan_info_t *scansinfo;
 
-        if(!(scanlist->items = realloc(scanlist->items, scanlist->allocated * sizeof(index_item_t *))))
+        // on failure, keep the list like it was
+        if(!(items = realloc(scanlist->items, allocated * sizeof(index_item_t *))))
             return NULL;
 
-        if(!(scanlist->scansinfo = realloc(scanlist->scansinfo, scanlist->allocated * sizeof(scan_info_t))))
+        scanlist->items = items;
+
+        if(!(scansinfo = realloc(scanlist->scansinfo, allocated * sizeof(scan_info_t))))
             return NULL;
+
+        scanlist->scansinfo = scansinfo;
+        scanlist->allocated = allocated;
     }
 
     scanlist->items[scanlist->length] = scan->header;
@@ -159,7 +167,13 @@ static scan_info_t *scan_initial_info(scan_info_t *info, scan_list_t *scanlist,
         return NULL;
 
     scaninfo_from_scan(info, scan);
-    scanlist_append(scanlist, scan, info);
+
+    if(!scanlist_append(scanlist, scan, info)) {
+        free(scan->header);
+        scan->status = INDEX_SCAN_UNEXPECTED;
+        scanlist_free(scanlist);
+        return NULL;
+    }
 
     return info;
 }
@@ -261,7 +275,11 @@ int command_scan(redis_client_t *client) {
         scaninfo_from_scan(&info, &scan);
 
         // append object to the list
-        scanlist_append(&scanlist, &scan, &info);
+        if(!scanlist_append(&scanlist, &scan, &info)) {
+            free(scan.header);
+            scan.status = INDEX_SCAN_UNEXPECTED;
+            break;
+        }
 
     } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
@@ -326,7 +344,11 @@ int command_rscan(redis_client_t *client) {
         scaninfo_from_scan(&info, &scan);
 
         // append object to the list
-        scanlist_append(&scanlist, &scan, &info);
+        if(!scanlist_append(&scanlist, &scan, &info)) {
+            free(scan.header);
+            scan.status = INDEX_SCAN_UNEXPECTED;
+            break;
+        }
 
     } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
@@ -394,10 +416,13 @@ int command_keycur(redis_client_t *client) {
 
 list_t *list_append(list_t *list, void *item) {
     if(list->length + 1 > list->allocated) {
-        list->allocated += 32;
+        void **items;
 
-        if(!(list->items = realloc(list->items, list->allocated * sizeof(void *))))
+        if(!(items = realloc(list->items, (list->allocated + 32) * sizeof(void *))))
             return NULL;
+
+        list->items = items;
+        list->allocated += 32;
     }
 
     list->items[list->length] = item;
@@ -508,12 +533,19 @@ int command_kscan(redis_client_t *client) {
             if(entry->idlength < key->length)
                 continue;
 
-            if(memcmp(entry->id, key->buffer, key->length) == 0)
-                list_append(&keys, entry);
+            if(memcmp(entry->id, key->buffer, key->length) == 0) {
+                if(!list_append(&keys, entry)) {
+                    redis_hardsend(client, "-Internal Error");
+                    list_free(&keys);
+                    return 1;
+                }
+            }
         }
     }
 
-    command_kscan_send_list(client, &keys);
+    if(command_kscan_send_list(client, &keys))
+        redis_hardsend(client, "-Internal Error");
+
     list_free(&keys);
 
     return 0;
-- 
2.43.0


From b7bca10900cf61d117de9d34c5f562fddeae0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 54/58] fix: a reply which could not be queued was skipped (or
 cut), the next replies were taken for it

---
 zdbd/redis.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index f14ca3f..527eecf 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -251,6 +251,14 @@ resp_status_t redis_delayed_write(int fd) {
     return 0;
 }
 
+// a reply could not be queued, what follows on that connection would be taken
+// for this reply, shutdown the connection, next read or write will discard it
+static int redis_reply_lost(redis_client_t *client) {
+    zdbd_warnp("redis: reply lost, dropping client");
+    shutdown(client->fd, SHUT_RDWR);
+    return 1;
+}
+
 // entry point when you want to send data to the client, and the buffer
 // was allocated on the heap (malloc), this function will just take the payload
 // create a response based on that, and send it (pushing on the queue if needed)
@@ -262,8 +270,10 @@ int redis_reply_heap(redis_client_t *client, void *payload, size_t length, void
 
     // create a response based on parameters
     if(!(response = redis_response_new(payload, length, destructor))) {
-        zdbd_warnp("redis_reply_head: malloc");
-        return 1;
+        if(destructor)
+            destructor(payload);
+
+        return redis_reply_lost(client);
     }
 
     if(client->responses == NULL) {
@@ -319,12 +329,14 @@ int redis_reply_stack(redis_client_t *client, void *payload, size_t length) {
 
     // duplicate payload
     if(!(copypayload = malloc(length)))
-        return 1;
+        return redis_reply_lost(client);
 
     memcpy(copypayload, payload, length);
 
-    if(!(newresponse = redis_response_new(copypayload, length, free)))
-        return 1;
+    if(!(newresponse = redis_response_new(copypayload, length, free))) {
+        free(copypayload);
+        return redis_reply_lost(client);
+    }
 
     // maybe some part of the buffer was already sent
     // but not everything, this means we need to reflect that change
-- 
2.43.0


From cb8c81c88b34ec0b2335bef45bfbb00824aee14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 55/58] fix: NSNEW created a namespace in a directory named
 (null) when its path could not be allocated

---
 libzdb/namespace.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 58862b7..c2d6491 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -414,6 +414,13 @@ namespace_t *namespace_load_light(ns_root_t *nsroot, char *name, int ensure) {
     namespace->locked = NS_LOCK_UNLOCKED;           // by default, namespace are unlocked
     namespace->version = NAMESPACE_CURRENT_VERSION; // set current version before reading descriptor
 
+    // never use paths which are not set
+    if(!namespace->name || !namespace->indexpath || !namespace->datapath) {
+        zdb_warnp("namespace path malloc");
+        namespace_free(namespace);
+        return NULL;
+    }
+
     if(ensure) {
         if(!namespace_ensure(namespace)) {
             namespace_free(namespace);
@@ -549,6 +556,12 @@ int namespace_create(char *name) {
     char *indexpath = namespace_path(nsroot->settings->indexpath, name);
     char *datapath = namespace_path(nsroot->settings->datapath, name);
 
+    if(!indexpath || !datapath) {
+        free(indexpath);
+        free(datapath);
+        return 0;
+    }
+
     int newindex = (zdb_dir_exists(indexpath) != ZDB_DIRECTORY_EXISTS);
     int newdata = (zdb_dir_exists(datapath) != ZDB_DIRECTORY_EXISTS);
 
-- 
2.43.0


From d8740a7393d910217f2f5588c12bb2b6709f5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 56/58] fix: a namespace refused because the list could not
 grow was there after a restart

---
 libzdb/namespace.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index c2d6491..f0ed064 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -566,7 +566,18 @@ int namespace_create(char *name) {
     int newdata = (zdb_dir_exists(datapath) != ZDB_DIRECTORY_EXISTS);
 
     // call the generic namespace loader
-    if(!(namespace = namespace_load(nsroot, name))) {
+    namespace = namespace_load(nsroot, name);
+
+    // append the namespace to the main list
+    if(namespace && !namespace_push(nsroot, namespace)) {
+        index_clean_namespace(namespace->index, namespace);
+        index_destroy(namespace->index);
+        data_destroy(namespace->data);
+        namespace_free(namespace);
+        namespace = NULL;
+    }
+
+    if(!namespace) {
         // drop what was created, otherwise this namespace would
         // be there on the next start
         if(newindex)
@@ -582,10 +593,6 @@ int namespace_create(char *name) {
     if(!namespace)
         return 0;
 
-    // append the namespace to the main list
-    if(!namespace_push(nsroot, namespace))
-        return 0;
-
     // hook notification
     namespace_create_hook(namespace);
 
-- 
2.43.0


From 3f9da0810f106db84f2c348cd231e1131a649d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 57/58] fix: NSSET password removed the password when the new
 one could not be allocated

---
 zdbd/commands_namespace.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 7632ac7..4688a32 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -404,7 +404,9 @@ static int command_nsset_maxsize(namespace_t *namespace, char *value) {
 }
 
 // NSSET password
-static int command_nsset_password(namespace_t *namespace, char *value) {
+static int command_nsset_password(redis_client_t *client, namespace_t *namespace, char *value) {
+    char *password;
+
     // clearing password using "*" password
     if(strcmp(value, "*") == 0) {
         namespace->password = NULL;
@@ -413,7 +415,13 @@ static int command_nsset_password(namespace_t *namespace, char *value) {
 
     } else {
         // updating password
-        namespace->password = strdup(value);
+        if(!(password = strdup(value))) {
+            zdbd_warnp("nsset: password: strdup");
+            redis_hardsend(client, "-Could not update namespace");
+            return 1;
+        }
+
+        namespace->password = password;
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
 
@@ -580,7 +588,7 @@ int command_nsset(redis_client_t *client) {
             return 1;
 
     } else if(strcmp(command, "password") == 0) {
-        if(command_nsset_password(namespace, value) == 1)
+        if(command_nsset_password(client, namespace, value) == 1)
             return 1;
 
     } else if(strcmp(command, "public") == 0) {
-- 
2.43.0


From 7e879b1b24d11e3f4162ba778e81e406bf832a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 58/58] fix: NSINFO and HOOKS never replied (or replied nil)
 when the reply could not be allocated

---
 zdbd/commands_namespace.c | 6 ++++--
 zdbd/commands_system.c    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 4688a32..dc13b88 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -297,8 +297,10 @@ int command_nsinfo(redis_client_t *client) {
     }
 
     // allocate large buffer for info
-    if(!(info = calloc(sizeof(char), 8192)))
+    if(!(info = calloc(sizeof(char), 8192))) {
+        redis_hardsend(client, "-Internal Error (memory)");
         return 1;
+    }
 
     // value is hard-capped to 32 bits, even if internal uses 64 bits
     uint64_t nextid = zdb_index_next_id(namespace->index);
@@ -382,7 +384,7 @@ int command_nsinfo(redis_client_t *client) {
 
     redis_bulk_t response = redis_bulk(info, len);
     if(!response.buffer) {
-        redis_hardsend(client, "$-1");
+        redis_hardsend(client, "-Internal Error (memory)");
         free(info);
         return 0;
     }
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 7af5c11..0b546ec 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -112,7 +112,7 @@ int command_info(redis_client_t *client) {
 
     redis_bulk_t response = redis_bulk(info, len);
     if(!response.buffer) {
-        redis_hardsend(client, "$-1");
+        redis_hardsend(client, "-Internal Error (memory)");
         return 0;
     }
 
@@ -145,8 +145,10 @@ int command_hooks(redis_client_t *client) {
             total += strlen(hook->argv[s]) + 32;
     }
 
-    if(!(info = calloc(sizeof(char), total)))
+    if(!(info = calloc(sizeof(char), total))) {
+        redis_hardsend(client, "-Internal Error (memory)");
         return 1;
+    }
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
 
-- 
2.43.0

