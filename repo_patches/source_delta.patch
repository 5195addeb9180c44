From 8e879aeb07eb3229b057b78c1c957d7708f9a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 01/52] fix: removexattr must not drop a name that the inode
 does not use as attribute

---
 src/s3ql/fs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..f979fdd 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -363,16 +363,16 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
+        # Don't touch the name unless this inode is really using it
         try:
-            name_id = self._del_name(name)
+            name_id = self.db.get_int_val(
+                'SELECT name_id FROM ext_attributes_v WHERE inode=? AND name=?', (id_, name)
+            )
         except NoSuchRowError:
             raise FUSEError(pyfuse3.ENOATTR)
 
-        changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
-        )
-        if changes == 0:
-            raise FUSEError(pyfuse3.ENOATTR)
+        self.db.execute('DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id))
+        self._del_name(name)
 
         self.inodes[id_].ctime_ns = time_ns()
 
-- 
2.43.0


From 3ae2c5ee9e8dcbcd9cfbc28722c40f4c660ac81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 02/52] fix: setxattr must not add a name reference when
 replacing a value

---
 src/s3ql/fs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index f979fdd..f95b54d 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,10 +351,18 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
-            self.db.execute(
-                'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+            # When changing the value of an existing attribute, the inode already holds a
+            # reference to the name.
+            changes = self.db.execute(
+                'UPDATE ext_attributes SET value=? WHERE inode=? '
+                'AND name_id=(SELECT id FROM names WHERE name=?)',
+                (value, id_, name),
             )
+            if changes == 0:
+                self.db.execute(
+                    'INSERT INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
+                    (id_, self._add_name(name), value),
+                )
             self.inodes[id_].ctime_ns = time_ns()
 
     async def removexattr(self, id_: InodeT, name: bytes, ctx: RequestContext) -> None:
-- 
2.43.0


From f435fda19f63630147c1fde36e120943332ed493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 03/52] fix: forget the looked up inode when unlink, rmdir or
 rename fail

---
 src/s3ql/fs.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index f95b54d..fa792b4 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -651,13 +651,14 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
-
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -665,16 +666,17 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
-
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -805,8 +807,11 @@ class Operations(pyfuse3.Operations):
             target_exists = True
 
         if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
+            id_old, id_new = inode_old.id, inode_new.id
+            try:
+                await self._replace(id_p_old, name_old, id_p_new, name_new, id_old, id_new)
+            finally:
+                await self.forget([(id_old, 1), (id_new, 1)])
         else:
             self._rename(id_p_old, name_old, id_p_new, name_new)
             await self.forget([(inode_old.id, 1)])
-- 
2.43.0


From a901086ab9bea98178e091f5219cd1e19817585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 04/52] fix: refuse to unlink the control file

---
 src/s3ql/fs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index fa792b4..7f63bda 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -442,6 +442,9 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
+        if name0 == CTRL_NAME:
+            raise FUSEError(errno.EACCES)
+
         conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
         queue = [id0]  # Directories that we still need to delete
@@ -650,6 +653,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe:
             raise FUSEError(errno.EPERM)
 
+        # The control file has no directory entry that could be removed
+        if name == CTRL_NAME:
+            raise FUSEError(errno.EACCES)
+
         inode = self._lookup(id_p, name, ctx)
         id_ = inode.id
         try:
-- 
2.43.0


From f7da6387207e15d6493b6ca9bfa696c62dd40a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 05/52] fix: recognize . and .. in lookup

---
 src/s3ql/fs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 7f63bda..4c35a15 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -170,10 +170,10 @@ class Operations(pyfuse3.Operations):
             object.__setattr__(inode, 'uid', os.getuid())
             object.__setattr__(inode, 'gid', os.getgid())
 
-        elif name == '.':
+        elif name == b'.':
             inode = self.inodes[id_p]
 
-        elif name == '..':
+        elif name == b'..':
             id_ = self.db.get_inode_val("SELECT parent_inode FROM contents WHERE inode=?", (id_p,))
             inode = self.inodes[id_]
 
-- 
2.43.0


From 8c08bec14c099d6851ac69de20f71c922a2f1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 06/52] fix: refuse to rename into an unlinked directory

---
 src/s3ql/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 4c35a15..6a1480a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -801,6 +801,10 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning('Attempted to move entry %s to unlinked parent %d', name_new, id_p_new)
+            raise FUSEError(errno.EINVAL)
+
         inode_old = self._lookup(id_p_old, name_old, ctx)
 
         try:
-- 
2.43.0


From e77ed5f19d091edb37edfa539da2c07629116f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 07/52] fix: setattr must not apply part of a request that it
 rejects

---
 src/s3ql/fs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 6a1480a..b2d3e84 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -977,6 +977,12 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or inode.locked:
             raise FUSEError(errno.EPERM)
 
+        # Check everything before changing anything
+        if (fields.update_atime and attr.st_atime_ns.bit_length() > 63) or (
+            fields.update_mtime and attr.st_mtime_ns.bit_length() > 63
+        ):
+            raise FUSEError(errno.EINVAL)
+
         if fields.update_mode:
             inode.mode = attr.st_mode
 
@@ -987,13 +993,9 @@ class Operations(pyfuse3.Operations):
             inode.gid = attr.st_gid
 
         if fields.update_atime:
-            if attr.st_atime_ns.bit_length() > 63:
-                raise FUSEError(errno.EINVAL)
             inode.atime_ns = attr.st_atime_ns
 
         if fields.update_mtime:
-            if attr.st_mtime_ns.bit_length() > 63:
-                raise FUSEError(errno.EINVAL)
             inode.mtime_ns = attr.st_mtime_ns
 
         inode.ctime_ns = now_ns
-- 
2.43.0


From 1af506cb990e1cb576f931f86daa09512abd17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 08/52] fix: compute number of blocks without floating point

---
 src/s3ql/fs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index b2d3e84..487c924 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -11,7 +11,6 @@ from __future__ import annotations
 import collections
 import errno
 import logging
-import math
 import os
 import stat
 import struct
@@ -692,7 +691,7 @@ class Operations(pyfuse3.Operations):
         and the inode itself from the database and inode cache.
         '''
         log.debug('purging inode %d', id_)
-        await self.cache.remove(id_, 0, int(math.ceil(size / self.max_obj_size)))
+        await self.cache.remove(id_, 0, -(-size // self.max_obj_size))
         # Since the inode is not open, it's not possible that new blocks
         # get created at this point and we can safely delete the inode
         self.db.execute(
@@ -1008,7 +1007,7 @@ class Operations(pyfuse3.Operations):
             # Determine blocks to delete
             last_block = len_ // self.max_obj_size
             cutoff = len_ % self.max_obj_size
-            total_blocks = int(math.ceil(inode.size / self.max_obj_size))
+            total_blocks = -(-inode.size // self.max_obj_size)
 
             # Adjust file size
             inode.size = len_
-- 
2.43.0


From 772a6802b75670286ea14390c307380ecee6bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 09/52] fix: report EIO when truncating a block that the
 backend lost

---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 487c924..80e097c 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1024,7 +1024,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From 2d3fd5ae77e970e123bcb20d38f6fab0f45cff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 10/52] fix: refuse control file names in unlinked directories
 as well

---
 src/s3ql/fs.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 80e097c..c4b61fd 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -791,9 +791,11 @@ class Operations(pyfuse3.Operations):
         log.debug('started with %d, %r, %d, %r', id_p_old, name_old, id_p_new, name_new)
         if name_new == CTRL_NAME or name_old == CTRL_NAME:
             log.warning(
-                'Attempted to rename s3ql control file (%s -> %s)',
-                get_path(id_p_old, self.db, name_old),
-                get_path(id_p_new, self.db, name_new),
+                'Attempted to rename s3ql control file (%s in %d -> %s in %d)',
+                name_old,
+                id_p_old,
+                name_new,
+                id_p_new,
             )
             raise FUSEError(errno.EACCES)
 
@@ -929,9 +931,7 @@ class Operations(pyfuse3.Operations):
         log.debug('started with %d, %d, %r', id_, new_id_p, new_name)
 
         if new_name == CTRL_NAME or id_ == CTRL_INODE:
-            log.warning(
-                'Attempted to create s3ql control file at %s', get_path(new_id_p, self.db, new_name)
-            )
+            log.warning('Attempted to create s3ql control file in directory %d', new_id_p)
             raise FUSEError(errno.EACCES)
 
         now_ns = time_ns()
@@ -1213,9 +1213,7 @@ class Operations(pyfuse3.Operations):
         size: int = 0,
     ) -> _Inode:
         if name == CTRL_NAME:
-            log.warning(
-                'Attempted to create s3ql control file at %s', get_path(id_p, self.db, name)
-            )
+            log.warning('Attempted to create s3ql control file in directory %d', id_p)
             raise FUSEError(errno.EACCES)
 
         now_ns = time_ns()
-- 
2.43.0


From 84124ffa971754a37084caa1224ff16be9d8d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 11/52] fix: do not treat a block as saved while the object it
 shares is being uploaded

---
 src/s3ql/block_cache.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..0f11c6a 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -460,6 +460,7 @@ class BlockCache:
             raise
 
         upload_registered = False
+        saved = True
         try:
             try:
                 old_obj_id: int | None = self.db.get_int_val(
@@ -507,14 +508,24 @@ class BlockCache:
                         (obj_id, el.inode, el.blockno),
                     )
 
-                el.dirty = False
+                # If the object is still being uploaded, this block is not saved either. It must
+                # not be considered clean before we know that the upload has succeeded, because it
+                # could then be expired from the cache.
+                if (event := self.in_flight_uploads.get(obj_id)) is not None:
+                    await event.wait()
+                    saved = (
+                        self.db.get_int_val('SELECT phys_size FROM objects WHERE id=?', (obj_id,))
+                        != -1
+                    )
+
+                el.dirty = not saved
                 self._unmark_in_transit(el)
                 set_in_transit = False
                 await self.block_lock.release(el.key)
 
                 if old_obj_id == obj_id:
                     log.debug('unchanged, obj_id=%d', obj_id)
-                    return False
+                    return not saved
 
         except:
             if set_in_transit:
@@ -531,7 +542,8 @@ class BlockCache:
         else:
             log.debug('no old object')
 
-        return upload_registered
+        # If the block could not be saved, the caller needs to try again
+        return upload_registered or not saved
 
     async def _deref_obj(self, obj_id: int) -> None:
         '''Decrease reference count for *obj_id*
-- 
2.43.0


From 8369711d57bf26e2b30aedff46f8df3561dfbde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 12/52] fix: blocks in transit must be registered in the
 database

---
 src/s3ql/block_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 0f11c6a..8b9b2e4 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -448,14 +448,14 @@ class BlockCache:
                 return False
 
             log.debug('uploading %s..', el)
-            self._mark_in_transit(el)
-            set_in_transit = True
             el.seek(0)
             sha = await trio.to_thread.run_sync(sha256_fh, el)
             hash_ = sha.digest()
+
+            # Not done any earlier, so that blocks in transit are always registered in the database
+            self._mark_in_transit(el)
+            set_in_transit = True
         except:
-            if set_in_transit:
-                self._unmark_in_transit(el)
             await self.block_lock.release(el.key)
             raise
 
-- 
2.43.0


From 07fda24fad767120e0dc6aa1e4d1f981929f9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 13/52] fix: include unsaved data of forgotten inodes when
 replicating a tree

---
 src/s3ql/fs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c4b61fd..3a09f56 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -523,6 +523,10 @@ class Operations(pyfuse3.Operations):
         make_inode = self.inodes.create_inode
         db = self.db
 
+        # Make sure that all blocks are in the database, including those of inodes that
+        # the kernel has already forgotten about.
+        await self.cache.start_flush()
+
         # Copy target attributes
         # These come from setxattr, so they may have been deleted
         # without being in open_inodes
-- 
2.43.0


From 617e352ead88fa504bac866ac912568e503c86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 14/52] fix: run only one batch at a time and none while writes
 are being inhibited

---
 src/s3ql/database.py | 53 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..cf2e3a4 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -193,6 +193,9 @@ class Connection:
         # Set to a trio.Event while inhibit_writes is active, None otherwise.
         self._inhibit_writes_event: trio.Event | None = None
 
+        # Held while a batch (see `batch()`) is in progress.
+        self.batch_lock = trio.Lock()
+
         cur = self.conn.cursor()
 
         # We initialize in NORMAL locking mode before entering WAL mode, then switch to
@@ -335,21 +338,24 @@ class Connection:
             raise RuntimeError('inhibit_writes is already active')
 
         log.debug('inhibit_writes: starting')
-        self._inhibit_writes_event = trio.Event()
-        sqlite3ext.set_writes_inhibited(True)
-
-        # Switch to NORMAL locking mode temporarily so we can open a second connection.
-        # We need to do a read after changing the mode to actually release the exclusive lock.
-        self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
-        self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
-
-        # Open a second connection and start a read transaction.
-        # This establishes a WAL "end mark" that prevents checkpointing past this point,
-        # ensuring the main database file stays consistent while we read it.
-        second_conn = apsw.Connection(self.file)
-        second_cur = second_conn.cursor()
-        second_cur.execute('BEGIN DEFERRED')
-        second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
+
+        # A second connection cannot be opened while a transaction is in progress
+        async with self.batch_lock:
+            self._inhibit_writes_event = trio.Event()
+            sqlite3ext.set_writes_inhibited(True)
+
+            # Switch to NORMAL locking mode temporarily so we can open a second connection.
+            # We need to do a read after changing the mode to actually release the exclusive lock.
+            self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
+            self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
+
+            # Open a second connection and start a read transaction.
+            # This establishes a WAL "end mark" that prevents checkpointing past this point,
+            # ensuring the main database file stays consistent while we read it.
+            second_conn = apsw.Connection(self.file)
+            second_cur = second_conn.cursor()
+            second_cur.execute('BEGIN DEFERRED')
+            second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
         log.debug('inhibit_writes: active, writes to main DB file will be rejected')
 
@@ -612,7 +618,13 @@ class BatchedTransactionManager:
         self.batch_size = 100
 
     async def __aenter__(self) -> BatchedTransactionManager:
-        await self.start_batch()
+        # There can be only one transaction at a time
+        await self.conn.batch_lock.acquire()
+        try:
+            await self.start_batch()
+        except:
+            self.conn.batch_lock.release()
+            raise
         return self
 
     async def __aexit__(
@@ -621,9 +633,12 @@ class BatchedTransactionManager:
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if self.in_tx:
-            self.conn.execute('COMMIT')
-            self.in_tx = False
+        try:
+            if self.in_tx:
+                self.conn.execute('COMMIT')
+                self.in_tx = False
+        finally:
+            self.conn.batch_lock.release()
 
     async def start_batch(self) -> None:
         self.stamp = time.time()
-- 
2.43.0


From 3391d7f0895a62ddfbc4fa653764cdc215a61853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 15/52] fix: remove_tree must not remove entries that have
 vanished in the meantime

---
 src/s3ql/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 3a09f56..4c0484b 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -470,6 +470,14 @@ class Operations(pyfuse3.Operations):
                 for row in query_chunk:
                     name = cast(bytes, row[0])
                     id_ = cast(InodeT, row[2])
+
+                    # May have been removed or renamed by other requests since we got the list
+                    if not conn.has_val(
+                        'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? AND inode=?',
+                        (id_p, row[1], id_),
+                    ):
+                        continue
+
                     if conn.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
                         # First delete subdirectories
                         if not reinserted:
-- 
2.43.0


From 59d91e4ca2348e637f1df7a1648437e1b5bc71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 16/52] fix: fail cleanly when locking or removing in a
 directory that does not exist

---
 src/s3ql/fs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 4c0484b..e76a85a 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -391,7 +391,13 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d', id0)
         queue = [(id0, -1)]
-        self.inodes[id0].locked = True
+
+        # These come from setxattr, so the inode may not exist (the same applies to the parent
+        # inode in remove_tree() and the inodes in copy_tree()).
+        try:
+            self.inodes[id0].locked = True
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
         conn = self.db
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -438,8 +444,11 @@ class Operations(pyfuse3.Operations):
 
         log.debug('started with %d, %s', id_p0, name0)
 
-        if self.inodes[id_p0].locked:
-            raise FUSEError(errno.EPERM)
+        try:
+            if self.inodes[id_p0].locked:
+                raise FUSEError(errno.EPERM)
+        except KeyError:
+            raise FUSEError(errno.ENOENT)
 
         if name0 == CTRL_NAME:
             raise FUSEError(errno.EACCES)
-- 
2.43.0


From 26c38fe69df595696093265f80a3d1608b40006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 17/52] fix: remove_tree must not remove its top entry twice
 and always forget it

---
 src/s3ql/fs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index e76a85a..16a5be5 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -523,9 +523,15 @@ class Operations(pyfuse3.Operations):
             # window in which the file could be looked up again and would also impose a performance
             # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
-        await self._remove(id_p0, name0, id0, force=True)
-
-        await self.forget([(id0, 1)])
+        try:
+            # The entry itself may have been removed or renamed by other requests as well
+            if conn.has_val(
+                'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
+                (id_p0, name0, id0),
+            ):
+                await self._remove(id_p0, name0, id0, force=True)
+        finally:
+            await self.forget([(id0, 1)])
         log.debug('finished')
 
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
-- 
2.43.0


From 64ac344cff86c9460476bb03940f4f6edba49ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 18/52] fix: copy_tree must not copy entries that vanished
 while waiting

---
 src/s3ql/fs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 16a5be5..58e1ed8 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -592,6 +592,14 @@ class Operations(pyfuse3.Operations):
                         if id_ in self.open_inodes:
                             await self.cache.start_flush(id_)
 
+                            # Entry may have been removed or renamed while we were waiting
+                            if not db.has_val(
+                                'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? '
+                                'AND inode=?',
+                                (src_id, name_id, id_),
+                            ):
+                                continue
+
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
                             inode_new = make_inode(
-- 
2.43.0


From 7c5337359fa98071f7ecbe7c21c759d18f1f67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 19/52] fix: gs: do not leave data of a failed download attempt
 in the output

---
 src/s3ql/backends/gs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..7332efd 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -446,6 +446,8 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                # A previous attempt may have written partial data
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From ea83967b46861e8fc1cd11db0437cd82029226ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 20/52] fix: gs: retry requests rejected with 429 (Too Many
 Requests)

---
 src/s3ql/backends/gs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 7332efd..bc01d16 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
-- 
2.43.0


From c1032e68cc6e2b98aa44143b9d2a13261e51dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 21/52] fix: gs: accept listing pages without items

---
 src/s3ql/backends/gs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index bc01d16..efb60ee 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -395,8 +395,7 @@ class AsyncBackend(AsyncBackendBase):
         next_token: str | None = str(next_token_obj) if next_token_obj is not None else None
 
         if 'items' not in json_resp:
-            assert next_token is None
-            return ([], None)
+            return ([], next_token)
 
         items = json_resp['items']
         assert isinstance(items, list)
-- 
2.43.0


From 48db1cf8125dd5d297100b7b028e8f339220110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 22/52] fix: s3c: do not silently end listing on malformed
 replies

---
 src/s3ql/backends/s3c.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..f5a3177 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -299,8 +299,9 @@ class AsyncBackend(AsyncBackendBase):
         names: builtins.list[str] = []
         for x in etree.findall(root_xmlns_prefix + 'Contents'):
             key = x.findtext(root_xmlns_prefix + 'Key')
-            if key is not None:
-                names.append(key)
+            if key is None:
+                raise RuntimeError('Key element not found in response')
+            names.append(key)
 
         is_truncated = etree.find(root_xmlns_prefix + 'IsTruncated')
         if is_truncated is None:
@@ -309,7 +310,7 @@ class AsyncBackend(AsyncBackendBase):
             page_token = None
         elif len(names) == 0:
             next_marker = etree.find(root_xmlns_prefix + 'NextMarker')
-            if next_marker is None:
+            if next_marker is None or not next_marker.text:
                 raise RuntimeError('NextMarker element not found in response')
             page_token = next_marker.text
         else:
-- 
2.43.0


From 0c1a0e6590f39373a62c72f7721bdf7d70445e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 23/52] fix: s3c4: report what has not been deleted when bulk
 deletion fails

---
 src/s3ql/backends/s3c4.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..8f4daa5 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -91,12 +91,15 @@ class AsyncBackend(s3c.AsyncBackend):
         failures: list[str] = []
         processed = 0
         for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+            size = len(batch)
+            try:
+                await self._delete_multi(batch)
+            finally:
+                failures.extend(batch)
+                processed += size
+                keys[:] = failures + keys[len(keys) - (total - processed) :]
             if log_progress:
                 log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
-- 
2.43.0


From b41daa1db8d743477545e92d321a09503a492f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 24/52] fix: s3c4: do not hide other errors behind missing
 objects in bulk deletion

---
 src/s3ql/backends/s3c4.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 8f4daa5..d4f157e 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -146,15 +146,22 @@ class AsyncBackend(s3c.AsyncBackend):
                             errtag.findtext(ns_p + 'Code'),
                         )
 
-                errcode = error_tags[0].findtext(ns_p + 'Code')
-                errmsg = error_tags[0].findtext(ns_p + 'Message')
-                errkey_text = error_tags[0].findtext(ns_p + 'Key')
-                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+                # Objects that do not exist count as deleted
+                failed_tags = []
+                for errtag in error_tags:
+                    errkey_text = errtag.findtext(ns_p + 'Key')
+                    if errtag.findtext(ns_p + 'Code') == 'NoSuchKey' and errkey_text:
+                        keys.remove(errkey_text[offset:])
+                    else:
+                        failed_tags.append(errtag)
+                if not failed_tags:
+                    return
 
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
-                    raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
+                errcode = failed_tags[0].findtext(ns_p + 'Code')
+                errmsg = failed_tags[0].findtext(ns_p + 'Message')
+                errkey_text = failed_tags[0].findtext(ns_p + 'Key')
+                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+                raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
                 await conn.discard()
-- 
2.43.0


From 6560af27dde97571a758776ae01a94977af8af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 25/52] fix: swift: do not consider unprocessed objects deleted
 when bulk deletion is aborted

---
 src/s3ql/backends/swift.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..d902972 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -731,9 +731,13 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+
+        # If the server did not process all keys, then we don't know which ones it has deleted.
+        processed = resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(failed_keys)
+        if processed >= len(keys):
+            for key in keys[:]:
+                if key not in failed_keys:
+                    keys.remove(key)
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
-- 
2.43.0


From e1e2790567b062078a20db963384349e0a48041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 26/52] fix: swift: verify ETag after upload, as documented

---
 src/s3ql/backends/swift.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index d902972..98d4639 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -457,6 +457,13 @@ class AsyncBackend(AsyncBackendBase):
 
         # Success
         if 200 <= resp.status <= 299:
+            if md5_hex is not None:
+                etag = resp.headers['ETag'].strip('"').lower()
+                if etag != md5_hex:
+                    raise BadDigestError(
+                        'BadDigest',
+                        f'MD5 mismatch when uploading {path} (received: {etag}, sent: {md5_hex})',
+                    )
             return resp
 
         # Expired auth token
-- 
2.43.0


From d2622f88eaebd7443ffbbef0209986b47d698034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 27/52] fix: no whitespace at the beginning or end of metadata
 headers

---
 src/s3ql/backends/s3c.py   | 2 +-
 src/s3ql/backends/swift.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index f5a3177..2d4adef 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -458,7 +458,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 98d4639..cf8799b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -129,7 +129,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
-- 
2.43.0


From 0d216343333fc88d34a0b45fb4e22e86d07a7a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 28/52] fix: report damaged metadata headers as corrupted
 object

---
 src/s3ql/backends/s3c.py   | 31 +++++++++++++++++++------------
 src/s3ql/backends/swift.py | 29 ++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 2d4adef..c29be0f 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -708,17 +708,24 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
-
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+        try:
+            meta = literal_eval('{ %s }' % buf)
+            if not isinstance(meta, dict) or not all(isinstance(k, str) for k in meta):
+                raise ValueError('not a mapping of names')
+
+            # Decode bytes values
+            for k, v in meta.items():
+                if not isinstance(v, bytes):
+                    continue
+                try:
+                    meta[k] = b64decode(v)
+                except binascii.Error:
+                    # This should trigger a MD5 mismatch below
+                    meta[k] = None
+
+            checksum = checksum_basic_mapping(meta)
+        except (SyntaxError, ValueError, TypeError) as exc:
+            raise CorruptedObjectError('Invalid metadata: %s' % exc)
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -727,7 +734,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        md5 = b64encode(checksum).decode('ascii')
         if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index cf8799b..118e9d9 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -168,17 +168,24 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
+            if not isinstance(meta, dict) or not all(isinstance(k, str) for k in meta):
+                raise ValueError('not a mapping of names')
 
-        # Decode bytes values
-        for k, v in meta.items():
-            if not isinstance(v, bytes):
-                continue
-            try:
-                meta[k] = b64decode(v)
-            except binascii.Error:
-                # This should trigger a MD5 mismatch below
-                meta[k] = None
+            # Decode bytes values
+            for k, v in meta.items():
+                if not isinstance(v, bytes):
+                    continue
+                try:
+                    meta[k] = b64decode(v)
+                except binascii.Error:
+                    # This should trigger a MD5 mismatch below
+                    meta[k] = None
+
+            checksum = checksum_basic_mapping(meta)
+        except (SyntaxError, ValueError, TypeError) as exc:
+            raise CorruptedObjectError('Invalid metadata: %s' % exc)
 
         # Check MD5. There is a case to be made for treating a mismatch as a
         # `CorruptedObjectError` rather than a `BadDigestError`, because the MD5
@@ -187,7 +194,7 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        md5 = b64encode(checksum).decode('ascii')
         if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
-- 
2.43.0


From 42d668b81c9bcd47e2339ac420b8b335a293d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 29/52] fix: gs: retry when the token server has a temporary
 problem

---
 src/s3ql/backends/gs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index efb60ee..abed8c3 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -611,8 +611,13 @@ class AsyncBackend(AsyncBackendBase):
             resp = await conn.send_request(
                 'POST', '/o/oauth2/token', headers=headers, body=[body.encode('utf-8')]
             )
-            json_resp = _parse_json_response(resp, await conn.readall())
+            body_resp = await conn.readall()
 
+        # Problems of the server say nothing about the credentials
+        if 500 <= resp.status <= 599 or resp.status in (408, 429):
+            raise _parse_error_response(resp, body_resp)
+
+        json_resp = _parse_json_response(resp, body_resp)
         if 'error' in json_resp:
             raise AuthenticationError(str(json_resp['error']))
 
-- 
2.43.0


From 56d966c46630754cc8eab2e4a35ab3b9c28849a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 30/52] fix: thaw_basic_mapping: reject everything that is not
 a mapping of names to elementary values

---
 src/s3ql/common.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..3dea408 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -341,9 +341,17 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (UnicodeDecodeError, SyntaxError, ValueError, TypeError, RecursionError, MemoryError):
         raise ThawError()
 
+    if not isinstance(d, dict):
+        raise ThawError()
+    for k, v in d.items():
+        if not isinstance(k, str):
+            raise ThawError()
+        if not isinstance(v, (str, bytes, int, float, complex, bool)) and v is not None:
+            raise ThawError()
+
     # Decode bytes values
     for k, v in d.items():
         if not isinstance(v, bytes):
-- 
2.43.0


From aa40edf129e70a2351ebccb20ae0659d7f528684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 31/52] fix: checksum_basic_mapping: support complex values, as
 documented

---
 src/s3ql/backends/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/backends/common.py b/src/s3ql/backends/common.py
index 0923d76..6117614 100644
--- a/src/s3ql/backends/common.py
+++ b/src/s3ql/backends/common.py
@@ -624,6 +624,8 @@ def checksum_basic_mapping(metadata: BasicMappingT, key: bytes | None = None) ->
         elif isinstance(val, (bytes, bytearray)):
             assert len(val).bit_length() <= 32
             chk.update(b'\0b' + struct.pack('<I', len(val)))
+        elif isinstance(val, complex):
+            val = b'\0c' + struct.pack('<dd', val.real, val.imag)
         else:
             raise ValueError("Don't know how to checksum %s instances" % type(val))
         chk.update(val)
-- 
2.43.0


From 655fd7e510f713cbfe9353f7f433f49bd084d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 32/52] fix: gs: report damaged metadata as corrupted object

---
 src/s3ql/backends/gs.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index abed8c3..d57ad05 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -719,10 +719,15 @@ def _unwrap_user_meta(json_resp: dict[str, object]) -> BasicMappingT:
                 break
             parts.append(part)
         buf = ''.join(parts)
-        meta: BasicMappingT = literal_eval('{ %s }' % buf)
-        for k, v in meta.items():
-            if isinstance(v, bytes):
-                meta[k] = b64decode(v)
+        try:
+            meta: BasicMappingT = literal_eval('{ %s }' % buf)
+            if not isinstance(meta, dict):
+                raise ValueError('not a mapping')
+            for k, v in meta.items():
+                if isinstance(v, bytes):
+                    meta[k] = b64decode(v)
+        except (ValueError, SyntaxError, TypeError) as exc:
+            raise CorruptedObjectError('Invalid metadata: ' + str(exc))
 
         return meta
 
@@ -730,11 +735,8 @@ def _unwrap_user_meta(json_resp: dict[str, object]) -> BasicMappingT:
     for k, v in meta_raw.items():
         try:
             v2 = literal_eval(v)
-        except ValueError as exc:
+            meta[k] = b64decode(v2) if isinstance(v2, bytes) else v2
+        except (ValueError, SyntaxError, TypeError) as exc:
             raise CorruptedObjectError('Invalid metadata value: ' + str(exc))
-        if isinstance(v2, bytes):
-            meta[k] = b64decode(v2)
-        else:
-            meta[k] = v2
 
     return meta
-- 
2.43.0


From ed6a850b326641cec5aa8acbc26183a01b576409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 33/52] fix: do not apply leftover write-ahead log to
 downloaded metadata

---
 src/s3ql/database.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index cf2e3a4..fc0dc00 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -943,6 +943,12 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # A write-ahead log left behind by a crash belongs to the old contents of the file, but
+        # SQLite would apply it to the downloaded database.
+        for suffix in ('-wal', '-shm'):
+            if os.path.exists(self.db_file + suffix):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From ec2cdd7215dba76cc53d9483612a349e3f7bf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 34/52] fix: mount: request fsck when local and remote
 parameters differ

---
 src/s3ql/mount.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..c90f265 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -583,10 +583,11 @@ async def get_metadata(
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
-        if local_param.seq_no > param.seq_no:
+        # If the sequence numbers are equal, we may have crashed after saving the parameters locally
+        # but before uploading them.
+        if local_param != param:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From 729449c20b63a8ee9c5c63aebdcd078aa43ee661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 35/52] fix: fsck: detect that remote metadata is outdated

---
 src/s3ql/fsck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..220459b 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1317,12 +1317,14 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        # May also differ with equal sequence numbers, if we crashed before uploading
+        remote_outdated = local_param != param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        if remote_outdated:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
-- 
2.43.0


From 2de5fd6259f113fc64482d4a5df44dcac4809194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 36/52] fix: publish sequence number before using it locally

---
 src/s3ql/adm.py   |  4 +++-
 src/s3ql/fsck.py  | 13 +++++++++++--
 src/s3ql/mount.py |  5 +++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..2bfe971 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -329,8 +329,10 @@ async def shrink_db(ctx: typer.Context, storage_url: StorageUrl, *, stack: Async
     (param, db) = await get_metadata(backend, cachepath)
     param.seq_no += 1
     param.is_mounted = True
-    write_params(cachepath, param)
+    # Upload first, so that the sequence number cannot be handed out to a mount on a different
+    # computer if we crash in between.
     await upload_params(backend, param)
+    write_params(cachepath, param)
 
     old_size = os.path.getsize(db.file)
     db.execute('VACUUM')
diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 220459b..01e3f16 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1315,6 +1315,7 @@ async def fsck(
 
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    remote_outdated = False
     if local_param is not None:
         log.info('Using cached metadata.')
         # May also differ with equal sequence numbers, if we crashed before uploading
@@ -1447,10 +1448,18 @@ async def fsck(
             include_most_recent=check_current_metadata,
         )
 
+    # If there are no local changes, upload parameters first so that the sequence number cannot be
+    # handed out to a mount on a different computer if we crash in between. Otherwise, they must not
+    # become outdated at any time.
+    has_local_changes = local_param is param and (param.is_mounted or remote_outdated)
     param.is_mounted = True
     param.seq_no += 1
-    write_params(cachepath, param)
-    await upload_params(backend, param)
+    if has_local_changes:
+        write_params(cachepath, param)
+        await upload_params(backend, param)
+    else:
+        await upload_params(backend, param)
+        write_params(cachepath, param)
 
     fsck = Fsck(cachepath + '-cache', backend, param, db)
     await fsck.check(check_cache)
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index c90f265..9f5bad3 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -363,9 +363,10 @@ async def mount(
 
         param.seq_no += 1
         param.is_mounted = True
-        write_params(cachepath, param)
-
+        # Upload first, so that the sequence number cannot be handed out to a mount on a different
+        # computer if we crash in between.
         await upload_params(backend, param)
+        write_params(cachepath, param)
 
         nursery.start_soon(metadata_upload_task.run, name='metadata-upload-task')
         cm.callback(metadata_upload_task.stop)
-- 
2.43.0


From 742ea855d412ebbb2c64b99e51328f68d2da269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 37/52] fix: restore-metadata: do not leave old parameters with
 a different database

---
 src/s3ql/adm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 2bfe971..51b52e9 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -562,6 +562,12 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # If we are interrupted, the incomplete database must not be taken for the current metadata.
+    try:
+        os.unlink(cachepath + '.params')
+    except FileNotFoundError:
+        pass
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From ac1720891cc074d91fb74b253ab2076d6fac7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 38/52] fix: MultiLock: release lock even if cancelled

---
 src/s3ql/multi_lock.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..81a1b21 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,11 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # Must not be interrupted, otherwise the key would stay locked forever.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From d04849b6de7302c55e3e4751edbfd2f536fa1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:33 +0000
Subject: [PATCH 39/52] fix: local backend: list() omitted objects for long
 prefixes

The names of the directories below s3ql_data_ are cumulative (123/123456/...), so concatenating
all path components does not give the beginning of the key.
---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..37c718c 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -228,8 +228,8 @@ class AsyncBackend(AsyncBackendBase):
         for path, dirnames, filenames in os.walk(base, topdown=True):
             # Do not look in wrong directories
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                # Below the top level, every directory name repeats the names of its parents
+                prefix_l = '' if path == self.prefix else 's3ql_data_'
 
                 dirs_to_walk = list()
                 for name in dirnames:
-- 
2.43.0


From f5394afe8178504f83e0b34c0dfaf67e589f91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:33 +0000
Subject: [PATCH 40/52] fix: local backend: concurrent writes of the same
 object used the same temporary file

All tasks of an event loop run in the same thread, so process and thread id do not make the name
unique.
---
 src/s3ql/backends/local.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 37c718c..1d5eb76 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -8,8 +8,8 @@ This work can be distributed under the terms of the GNU GPLv3.
 
 from __future__ import annotations
 
-import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
@@ -34,6 +34,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# Makes the names of temporary files unique within this process
+_tmp_counter = itertools.count()
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -169,7 +172,7 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), next(_tmp_counter))
 
             fh.seek(0)
             with ExitStack() as es:
-- 
2.43.0


From 5e0d693d6712908de771ebb059e45fed9a25ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 41/52] fix: expire_backups: wrong ages when reconstructing the
 state

The age of a backup is the number of later backups. Counting from the current time made every backup
(including the most recent one) at least one cycle too old.
---
 contrib/expire_backups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index dafcfbf..89617cd 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -144,10 +144,12 @@ def main(args: Sequence[str] | None = None) -> None:
 def upgrade_to_state(backup_list):
     log.info('Several existing backups detected, trying to convert absolute ages to cycles')
 
-    now = datetime.now()
+    # Ages are counted in backups, so the most recent backup has age zero no matter how long ago
+    # it was made.
+    newest = datetime.strptime(max(backup_list), '%Y-%m-%d_%H:%M:%S')
     age = dict()
     for x in sorted(backup_list):
-        age[x] = now - datetime.strptime(x, '%Y-%m-%d_%H:%M:%S')
+        age[x] = newest - datetime.strptime(x, '%Y-%m-%d_%H:%M:%S')
         log.info('Backup %s is %s hours old', x, age[x])
 
     deltas = [abs(x - y) for x in age.values() for y in age.values() if x != y]
-- 
2.43.0


From 64c8357597b3082d260394b3addc43f539997e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 42/52] fix: fsck: cached blocks were lost if the upload had
 not completed

If the process died between registering and uploading a new object, the checksum of
the cached block agreed with the one recorded for the (not existing) object. fsck.s3ql
considered the block clean and removed it from the cache, and removed the object because
it was not in storage. Objects without a size have not been uploaded completely, so store
the cached block.
---
 src/s3ql/fsck.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 01e3f16..e41c02d 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -270,7 +270,7 @@ class Fsck:
             # Check if stored object has same checksum
             try:
                 row = self.conn.get_row(
-                    'SELECT obj_id, hash '
+                    'SELECT obj_id, hash, phys_size '
                     'FROM inode_blocks JOIN objects ON obj_id = objects.id '
                     'WHERE inode=? AND blockno=?',
                     (
@@ -281,11 +281,13 @@ class Fsck:
             except NoSuchRowError:
                 pass
             else:
-                (obj_id, hash_is) = row
+                (obj_id, hash_is, phys_size) = row
                 assert isinstance(obj_id, int)
                 assert hash_is is None or isinstance(hash_is, bytes)
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
+                elif hash_should == hash_is and phys_size == -1:
+                    log.debug('Upload of object %d not completed, cached block is dirty', obj_id)
                 elif hash_should == hash_is:
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
@@ -295,23 +297,27 @@ class Fsck:
             self.log_error("Writing dirty block %d of inode %d to backend", blockno, inode)
 
             try:
-                obj_id = self.conn.get_int_val(
-                    'SELECT id FROM objects WHERE hash=?', (hash_should,)
+                (obj_id, phys_size) = self.conn.get_row_typed(
+                    (int, int), 'SELECT id, phys_size FROM objects WHERE hash=?', (hash_should,)
                 )
 
             except NoSuchRowError:
+                phys_size = -1
                 obj_id = self.conn.rowid(
                     'INSERT INTO objects (refcount, phys_size, length, hash) VALUES(1, -1, ?, ?)',
                     (size, hash_should),
                 )
+            else:
+                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
+            # Without a size, the upload of the object was interrupted and this may be the only
+            # copy of the data.
+            if phys_size == -1:
                 with open(os.path.join(self.cachedir, filename), "rb") as fh:
                     size = os.fstat(fh.fileno()).st_size
                     obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
-            else:
-                self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
                 old_obj_id = self.conn.get_int_val(
@@ -334,7 +340,8 @@ class Fsck:
                 self.conn.execute(
                     'UPDATE objects SET refcount=refcount-1 WHERE id=?', (old_obj_id,)
                 )
-                self.unlinked_objects.add(old_obj_id)
+                if old_obj_id != obj_id:
+                    self.unlinked_objects.add(old_obj_id)
 
             if not keep_cache:
                 os.unlink(os.path.join(self.cachedir, filename))
-- 
2.43.0


From 2c2c8704c8a614bbffd5aa7ceb25b8ff7bd02f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 43/52] fix: fsck: crashed on directories that can not be
 reached from the root

---
 src/s3ql/fsck.py | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index e41c02d..f20ee23 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -186,6 +186,17 @@ class Fsck:
         else:
             log.warning(msg, *args, **kwargs)
 
+    def _path_of(self, inode: InodeT, name: bytes | None = None) -> str:
+        '''Return path for use in messages
+
+        In contrast to `get_path`, this works if there is no path to *inode* either.
+        '''
+
+        try:
+            return to_str(get_path(inode, self.conn, name))
+        except (NoSuchRowError, RuntimeError):
+            return '[inode %d]%s' % (inode, '' if name is None else '/' + to_str(name))
+
     def check_foreign_keys(self) -> None:
         '''Check for referential integrity
 
@@ -422,7 +433,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 newname = ('-%d' % inode).encode()
             else:
                 newname = escape(path) + ('-%d' % inode).encode()
@@ -484,7 +495,7 @@ class Fsck:
             self.found_errors = True
             try:
                 path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
+            except (NoSuchRowError, RuntimeError):
                 path = '[inode %d, parent %d]' % (inode, inode_p)
 
             self.log_error(
@@ -512,11 +523,10 @@ class Fsck:
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
             ):
-                path = get_path(id_p, self.conn, name)
                 self.log_error(
                     'Extended attribute %d of %s refers to non-existing name %d, renaming..',
                     rowid,
-                    to_str(path),
+                    self._path_of(id_p, name),
                     orig_name_id,
                 )
 
@@ -658,7 +668,7 @@ class Fsck:
                     "Size of inode %d (%s) does not agree with number of blocks, "
                     "setting from %d to %d",
                     id_,
-                    to_str(get_path(cast(InodeT, id_), self.conn)),
+                    self._path_of(cast(InodeT, id_)),
                     size_old,
                     size,
                 )
@@ -715,7 +725,7 @@ class Fsck:
                     self.log_error(
                         "Inode %d (%s) has wrong reference count, setting from %d to %d",
                         id_,
-                        to_str(get_path(cast(InodeT, id_), self.conn)),
+                        self._path_of(cast(InodeT, id_)),
                         cnt_old,
                         cnt,
                     )
@@ -778,7 +788,10 @@ class Fsck:
                 )
             )
             for name, name_id, id_p in affected_entries:
-                path = get_path(cast(InodeT, id_p), self.conn, name)
+                try:
+                    path = get_path(cast(InodeT, id_p), self.conn, name)
+                except (NoSuchRowError, RuntimeError):
+                    path = b'[%d]/%s' % (id_p, name)
                 self.log_error("File may lack data, moved to /lost+found: %s", to_str(path))
                 (lof_id, newname) = self.resolve_free(b"/lost+found", escape(path))
 
@@ -949,7 +962,7 @@ class Fsck:
                 self.log_error(
                     'Inode %d (%s): directory entry has no type, changed to %s.',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                     made_to,
                 )
                 self.conn.execute('UPDATE inodes SET mode=? WHERE id=?', (mode, inode))
@@ -960,7 +973,7 @@ class Fsck:
                     'Inode %d (%s): symlink does not have target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
@@ -969,7 +982,7 @@ class Fsck:
                     'Inode %d (%s): symlink size (%d) does not agree with target '
                     'length (%d). This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                     size,
                     len(target),
                 )
@@ -982,7 +995,7 @@ class Fsck:
                     'Inode %d (%s) is not regular file but has non-zero size. '
                     'This is may confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
             if target is not None and not stat.S_ISLNK(mode):
@@ -991,7 +1004,7 @@ class Fsck:
                     'Inode %d (%s) is not symlink but has symlink target. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
             if rdev != 0 and not (stat.S_ISBLK(mode) or stat.S_ISCHR(mode)):
@@ -1000,7 +1013,7 @@ class Fsck:
                     'Inode %d (%s) is not device but has device number. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
             if has_children and not stat.S_ISDIR(mode):
@@ -1009,7 +1022,7 @@ class Fsck:
                     'Inode %d (%s) is not a directory but has child entries. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
             if not stat.S_ISREG(mode) and self.conn.has_val(
@@ -1020,17 +1033,16 @@ class Fsck:
                     'Inode %d (%s) is not a regular file but has data blocks. '
                     'This is probably going to confuse your system!',
                     inode,
-                    to_str(get_path(inode, self.conn)),
+                    self._path_of(inode),
                 )
 
         for name, id_p in self.conn.query_typed(
             (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE LENGTH(name) > 255'
         ):
-            path = get_path(id_p, self.conn, name)
             self.log_error(
                 'Entry name %s... in %s has more than 255 characters, this could cause problems',
                 to_str(name[:40]),
-                to_str(path[: -len(name)]),
+                self._path_of(id_p, b''),
             )
             self.found_errors = True
 
-- 
2.43.0


From 9a9ef265251bdf20ab35c1f029e7783f7d8d80f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 44/52] fix: fsck: crashed if the inode of lost+found was
 missing

---
 src/s3ql/fsck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index f20ee23..6340931 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -398,7 +398,10 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = 0
         if not stat.S_ISDIR(mode):
             self.found_errors = True
             self.log_error(
-- 
2.43.0


From b0b225ceb58781f5648ac41f8101c763ee8968bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 45/52] fix: fsck: removing blocks of missing inodes left
 unreferenced objects

---
 src/s3ql/fsck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 6340931..b0f487e 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -152,6 +152,10 @@ class Fsck:
             self.check_contents_inode()
             self.check_contents_parent_inode()
 
+            # This must come before checking the objects, because blocks that are
+            # removed here affect their reference count.
+            self.check_inode_blocks_inode()
+
             self.check_objects_temp()
             self.check_objects_hash()
             await self.check_objects_refcount()
@@ -160,7 +164,6 @@ class Fsck:
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 4ad51541b29d4101cc87de010d1aabb86990c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 46/52] fix: fsck: names of recovered extended attributes were
 not bytes

---
 src/s3ql/fsck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b0f487e..b6d5fa2 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -537,7 +537,7 @@ class Fsck:
                 )
 
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % rowid)
                 if not self.conn.has_val(
                     "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
-- 
2.43.0


From 6058a374e8e4263f8bd65de076220283a3095c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 47/52] fix: fsck: new names could get the id of a missing name
 that was still in use

---
 src/s3ql/fsck.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b6d5fa2..69f9c43 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1246,7 +1246,7 @@ class Fsck:
 
         return (inode_p, newname)
 
-    def _add_name(self, name: bytes | str) -> int:
+    def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
         Name is inserted in table if it does not yet exist.
@@ -1255,7 +1255,18 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # Do not use an id that is still referenced somewhere
+            name_id = 1 + max(
+                cast(int, self.conn.get_val(query) or 0)
+                for query in (
+                    'SELECT MAX(id) FROM names',
+                    'SELECT MAX(name_id) FROM contents',
+                    'SELECT MAX(name_id) FROM ext_attributes',
+                )
+            )
+            self.conn.execute(
+                'INSERT INTO names (id, name, refcount) VALUES(?,?,?)', (name_id, name, 1)
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From fe50137c21842402d57c5b42e5f3e4abecaac9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:11 +0000
Subject: [PATCH 48/52] fix: fsck: crashed on a directory with several entries
 that is part of a loop

---
 src/s3ql/fsck.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 69f9c43..34a54f3 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -619,8 +619,14 @@ class Fsck:
                     "SELECT inode FROM loopcheck2 ORDER BY inode ASC LIMIT 1"
                 )
 
+            # If there is more than one entry for this directory, take the one that was used above
+            old_parent = self.conn.get_inode_val(
+                'SELECT parent_inode FROM loopcheck WHERE inode=?', (inode,)
+            )
             (name, name_id) = self.conn.get_row_typed(
-                (bytes, int), "SELECT name, name_id FROM contents_v WHERE inode=? LIMIT 1", (inode,)
+                (bytes, int),
+                "SELECT name, name_id FROM contents_v WHERE inode=? AND parent_inode=? LIMIT 1",
+                (inode, old_parent),
             )
             (id_p, name) = self.resolve_free(b"/lost+found", name)
 
@@ -630,8 +636,9 @@ class Fsck:
                 inode,
             )
             self.conn.execute(
-                'UPDATE contents SET parent_inode=?, name_id=? WHERE inode=? AND name_id=?',
-                (id_p, self._add_name(name), inode, name_id),
+                'UPDATE contents SET parent_inode=?, name_id=? '
+                'WHERE inode=? AND name_id=? AND parent_inode=?',
+                (id_p, self._add_name(name), inode, name_id, old_parent),
             )
             self._del_name(name_id)
             self.conn.execute('UPDATE loopcheck SET parent_inode=? WHERE inode=?', (id_p, inode))
-- 
2.43.0


From 4b6569f1b7450163196ba5181973bec5716a00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:27 +0000
Subject: [PATCH 49/52] fix: fsck: moving lost+found back to the root also
 moved other entries of it

---
 src/s3ql/fsck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 34a54f3..6a0c8f8 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -385,7 +385,8 @@ class Fsck:
                 )
                 self.log_error("Moving lost+found directory to root")
                 self.conn.execute(
-                    "UPDATE contents SET parent_inode = ? WHERE inode = ?", (ROOT_INODE, inode_l)
+                    "UPDATE contents SET parent_inode = ? WHERE name_id = ? AND parent_inode = ?",
+                    (ROOT_INODE, name_id, inode_l),
                 )
             except NoSuchRowError:
                 self.log_error("Recreating missing lost+found directory")
-- 
2.43.0


From 401fd4f4ff03e05c2df136112b7b569eea2883cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 50/52] fix: fsck: endless recursion if lost+found had a second
 entry in itself

---
 src/s3ql/fsck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 6a0c8f8..5c07b0b 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -587,7 +587,7 @@ class Fsck:
         self.conn.execute(
             'UPDATE loopcheck SET parent_inode = '
             '(SELECT contents.parent_inode FROM contents '
-            ' WHERE contents.inode = loopcheck.inode LIMIT 1)'
+            ' WHERE contents.inode = loopcheck.inode ORDER BY contents.parent_inode LIMIT 1)'
         )
         self.conn.execute('CREATE TEMPORARY TABLE loopcheck2 (inode INTEGER PRIMARY KEY)')
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
-- 
2.43.0


From 7b50d5204e0a938a8eb6124eed3d60c8e259a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 51/52] fix: fsck: crashed if several directories contained
 themselves as lost+found

---
 src/s3ql/fsck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 5c07b0b..de0d2f7 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -380,7 +380,7 @@ class Fsck:
                 # back to the root.
                 (inode_l, name_id) = self.conn.get_row_typed(
                     (InodeT, int),
-                    "SELECT inode, name_id FROM contents_v WHERE name=? AND parent_inode=inode",
+                    "SELECT inode, name_id FROM contents_v WHERE name=? AND parent_inode=inode LIMIT 1",
                     (b"lost+found",),
                 )
                 self.log_error("Moving lost+found directory to root")
-- 
2.43.0


From 25684e049181927b60a402c374bca5eee52dcaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:57 +0000
Subject: [PATCH 52/52] fix: nothing could be stored with compression algorithm
 bzip2-0

---
 src/s3ql/backends/comprenc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..7be3b76 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -466,7 +466,8 @@ class AsyncComprencBackend(AsyncBackend):
             if algorithm is CompressAlgorithm.ZLIB:
                 compr: CompressorProtocol = zlib.compressobj(level)
             elif algorithm is CompressAlgorithm.BZIP2:
-                compr = bz2.BZ2Compressor(level)
+                # bzip2 does not have a level 0
+                compr = bz2.BZ2Compressor(max(level, 1))
             elif algorithm is CompressAlgorithm.LZMA:
                 compr = lzma.LZMACompressor(preset=level)
             buf = io.BytesIO()
-- 
2.43.0

