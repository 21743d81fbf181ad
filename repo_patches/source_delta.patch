From ef6b07ca1c2e21ef956c8eb822ed06544ab95f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 01/38] fix: protect the first call of each thread-safe stream
 method by the mutex

---
 src/rsfile/rsfile_streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..cac58d6 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -181,6 +181,7 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy  # the very first call must be thread-safe too
 
         return attr
 
-- 
2.43.0


From 58b9eefee2f55a1df66c0c32639f3f987a03ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 02/38] fix: protect iteration over thread-safe streams by the
 mutex, and support next()

---
 src/rsfile/rsfile_streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index cac58d6..f0e1a58 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -186,7 +186,11 @@ class RSThreadSafeWrapper(object):
         return attr
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._checkClosed()
+        return self  # each line must be read through __next__() below, under protection of the mutex
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From 3c1dc35485a5ca6b07cc66c21c875b25837cf2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 03/38] fix: release the lock of a lock_file() context manager
 when its body raises

---
 src/rsfile/rsfileio_abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..4b05152 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -527,9 +527,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     @contextmanager
     def _lock_remover(self, length, offset, whence):
         # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            yield
+        finally:
+            # we unlock on __exit__(), even if an exception is propagating
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From 5c2997d8acd2247adc40c6042f3a3064e780d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 04/38] fix: flush buffered data before a lock_file() context
 manager releases its lock

---
 src/rsfile/rsfile_streams.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index f0e1a58..ada7dd3 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -5,6 +5,7 @@ import functools
 import multiprocessing
 import os
 import threading
+from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 
@@ -30,6 +31,28 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+
+@contextmanager
+def _flushing_lock_remover(stream, lock_remover):
+    # data written under the protection of the lock must reach the file BEFORE this lock gets released
+    with lock_remover:
+        try:
+            yield
+        finally:
+            stream.flush()
+
+
+@contextmanager
+def _secured_lock_remover(mutex, lock_remover):
+    # releasing a lock (and flushing data before that) is a stream operation like others, to be done under the mutex
+    lock_remover.__enter__()
+    try:
+        yield
+    finally:
+        with mutex:
+            lock_remover.__exit__(None, None, None)
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +73,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +117,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -171,6 +194,9 @@ class RSThreadSafeWrapper(object):
         with self.mutex:
             return getattr(self.wrapped_stream, name)(*args, **kwargs)
 
+    def lock_file(self, *args, **kwargs):
+        return _secured_lock_remover(self.mutex, self._secure_call("lock_file", *args, **kwargs))
+
     def __getattr__(self, name):
 
         attr = getattr(self.wrapped_stream, name)  # might raise AttributeError
-- 
2.43.0


From bfac19f94de44cd1bb2bd76c9a371bab5cc00d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 05/38] fix: wake up threads waiting for a lock when the stream
 owning it gets closed

---
 src/rsfile/rsfile_registries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..178f441 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -222,6 +222,9 @@ class IntraProcessLockRegistryClass(object):
 
             self._lock_registry[unique_id][1] = remaining_locks
 
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters, like on simple unlocking
+
             return removed_locks
 
     def try_deleting_unique_id_entry(self, unique_id):
-- 
2.43.0


From beb4abf3379926ba70b832e1e25abd9ed83ebad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 06/38] fix: reject byte ranges starting before the beginning
 of file in lock_file()

---
 src/rsfile/rsfileio_abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 4b05152..d905c8b 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -562,6 +562,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             raise IOError("Can't obtain exclusive lock on non-writable stream, or shared lock on non-readable stream.")
 
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:
+            raise defs.BadValueTypeError("a byte range can't be locked before the beginning of the file.")
+
         blocking = timeout is None  # here, it means "forever waiting for the lock"
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
-- 
2.43.0


From fc4b11182b76f11f1700a60982e2dec8ac5cc36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 07/38] fix: return None in readinto() on non-blocking streams
 without available data

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index d905c8b..38bdf2e 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -400,8 +400,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:  # non-blocking stream with no data available
+            return None
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 24c1a87bba27bb221411c5a11b12cf05bc7eb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 08/38] fix: support streams whose file descriptor is 0

---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 178f441..aa59975 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -250,7 +250,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 38bdf2e..788b57c 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -170,7 +170,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..641c138 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -188,11 +188,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 0c1ffc150653b03f0090f99c9bb52bdb375f16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 09/38] fix: do not truncate wrapped file descriptors in the
 io.FileIO replacement

---
 src/rsfile/rsfile_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..7666720 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -34,7 +34,8 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        # like in stdlib, a stream which only wraps an existing file descriptor must not be truncated
+        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From 1fb16c9fee903984b119661cc57670e48e3c8699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 10/38] fix: close the file descriptor when refusing to open a
 directory

---
 src/rsfile/rsfileio_unix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 641c138..73a0696 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -125,6 +125,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
             if stat.S_ISDIR(stats):
+                unix.close(self._fileno)  # the stream never gets to own it
                 raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
 
             # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
-- 
2.43.0


From c1a9efab7e7b3acb8061f64e9e5245c0c1ef3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 11/38] fix: call the custom opener only once all arguments
 have been validated

---
 src/rsfile/rsfile_factories.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..a930cf0 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,20 +237,10 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener:
-        if raw_kwargs["fileno"] is not None:
-            raise defs.BadValueTypeError("can't provide both fileno and opener")
-        raw_kwargs["fileno"] = opener(
-            name, mode
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
-
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
+        if opener or raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -271,6 +261,16 @@ def rsopen(
             2,
         )
 
+    if opener:
+        if raw_kwargs["fileno"] is not None:
+            raise defs.BadValueTypeError("can't provide both fileno and opener")
+        raw_kwargs["fileno"] = opener(
+            name, mode
+        )  # we give it the original "name" as parameter, not the normalized path
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
     raw = RSFileIO(**raw_kwargs)
-- 
2.43.0


From 92f936c3d63949852d9b18bb58d9490296db1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 12/38] fix: do not mask data losses reported by fdatasync()

---
 src/rsfile/rsfileio_unix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 73a0696..a68a35b 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -182,8 +182,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fdatasync(self._fileno)  # not supported on Mac OS X
                 # print("FDATASYNC_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno in (errno.EIO, errno.ENOSPC, errno.EDQUOT):
+                    raise  # some data is lost, and a subsequent fsync() might wrongly report success
 
         unix.fsync(self._fileno)  # last attempt : metadata flush without full_sync guarantees
         # print("FSYNC_UNIX_DONE")
-- 
2.43.0


From bd556b9b4b973d3e78c937bb22a1d722b4b2ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 13/38] fix: close all pending file descriptors even when
 closing one of them fails

---
 src/rsfile/rsfileio_unix.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index a68a35b..db6b422 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -53,9 +53,15 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
+                close_error = None
                 for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
                     # fcntl() lock autoremoving)
-                    unix.close(fd)
+                    try:
+                        unix.close(fd)
+                    except unix.error as e:
+                        close_error = e  # a problem on a descriptor must not prevent others from being closed
+                if close_error is not None:
+                    raise close_error
 
             return not res
 
-- 
2.43.0


From db620b110830ec2d35ba78800e41d1e84957e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 14/38] fix: release the file descriptor even when unlocking
 fails on close

---
 src/rsfile/rsfileio_abstract.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 788b57c..def1e19 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -214,17 +214,18 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
-                    # We are careful, in case object initialization failed
-                    if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
-                        for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
-                            self._lock_registry_inode, self._lock_registry_descriptor
-                        ):
-                            # print (">>>>>>>> ", (handle, shared, start, end))
-                            length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                    try:
+                        # We are careful, in case object initialization failed
+                        if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
+                            for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
+                                self._lock_registry_inode, self._lock_registry_descriptor
+                            ):
+                                # print (">>>>>>>> ", (handle, shared, start, end))
+                                length = None if end is None else (end - start)
+                                self._inner_file_unlock(length, start)
+                    finally:
+                        # Mark the raw stream as closed, even if some operations failed
+                        self._inner_close_streams()  # Might raise OverflowError
 
     '''
     def __del__(self):
-- 
2.43.0


From b3d12869f0df2b26c7f685a64171d7ce9d95ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 15/38] fix: keep byte ranges share-locked by other handles
 when releasing a shared lock

---
 src/rsfile/rsfile_registries.py | 40 ++++++++++++++++++++++++++++++++-
 src/rsfile/rsfileio_unix.py     | 26 +++++++++++++++++----
 2 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index aa59975..c00728b 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -101,7 +101,8 @@ class IntraProcessLockRegistryClass(object):
                     [],
                     [],
                     0,
-                ]  # [condition, locks, data, number of threads waiting]
+                    set(),
+                ]  # [condition, locks, data, number of threads waiting, kernel-acquired (handle, start, end) ranges]
             return False
 
     def _try_locking_range(self, unique_id, handle, new_length, new_start, new_shared):
@@ -160,6 +161,7 @@ class IntraProcessLockRegistryClass(object):
         for index, (other_handle, shared, start, end) in enumerate(locks):
             if other_handle == handle and start == new_start and end == new_end:
                 del locks[index]
+                self._lock_registry[unique_id][4].discard((handle, start, end))
                 # print ("THREAD %s NOTIFYING %s" % ( threading.current_thread().name, unique_id))
                 self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
                 if not locks:
@@ -202,6 +204,41 @@ class IntraProcessLockRegistryClass(object):
 
             return self._try_unlocking_range(unique_id, handle, length, offset)
 
+    def confirm_file_lock(self, unique_id, handle, length, offset):
+        """
+        Tells that a registered lock has been acquired at kernel level too.
+        """
+        assert unique_id, unique_id
+        assert handle is not None, handle
+        with self.mutex:
+            self._check_forking()
+
+            self._ensure_entry_exists(unique_id, create=True)
+            self._lock_registry[unique_id][4].add((handle, offset, (offset + length) if length else None))
+
+    def get_uncovered_ranges(self, unique_id, length, offset):
+        """
+        Returns, as a list of (length, offset) pairs, the parts of a byte range which
+        aren't covered by any lock acquired at kernel level by this process.
+        """
+        assert unique_id, unique_id
+        with self.mutex:
+            self._check_forking()
+
+            end = (offset + length) if length else None  # None -> infinity
+            ranges = []
+            if self._ensure_entry_exists(unique_id, create=False):
+                for (_, other_start, other_end) in sorted(self._lock_registry[unique_id][4], key=lambda x: x[1]):
+                    if end is not None and other_start >= end:
+                        break
+                    if other_start > offset:
+                        ranges.append((other_start - offset, offset))
+                    if other_end is None or (end is not None and other_end >= end):
+                        return ranges  # nothing left uncovered after that
+                    offset = max(offset, other_end)
+            ranges.append((None if end is None else end - offset, offset))
+            return ranges
+
     def remove_file_locks(self, unique_id, handle):
         assert unique_id, unique_id
         assert handle is not None, handle
@@ -217,6 +254,7 @@ class IntraProcessLockRegistryClass(object):
             for record in self._lock_registry[unique_id][1]:
                 if record[0] == handle:
                     removed_locks.append(record)
+                    self._lock_registry[unique_id][4].discard((handle, record[2], record[3]))
                 else:
                     remaining_locks.append(record)
 
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index db6b422..3c7544a 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -299,13 +299,31 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         unix.lockf(fd, operation, length, abs_offset, os.SEEK_SET)
 
+        with IntraProcessLockRegistry.mutex:
+            if shared:
+                # fcntl() locks of a process are merged, so another handle might just have
+                # released a shared lock overlapping ours: we ensure that we really own the byte range
+                try:
+                    unix.lockf(fd, operation | unix.LOCK_NB, length, abs_offset, os.SEEK_SET)
+                except unix.error:
+                    self._unlock_uncovered_ranges(length, abs_offset)
+                    raise
+            IntraProcessLockRegistry.confirm_file_lock(
+                self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+            )
+
+    def _unlock_uncovered_ranges(self, length, abs_offset):
+        # we must not unlock bytes on which other handles of this process still have a shared lock
+        for (_length, _offset) in IntraProcessLockRegistry.get_uncovered_ranges(
+            self._lock_registry_inode, length, abs_offset
+        ):
+            # 0 is the "infinity" value for fcntl
+            unix.lockf(self._fileno, unix.LOCK_UN, _length or 0, _offset, os.SEEK_SET)
+
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
-
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            self._unlock_uncovered_ranges(length, abs_offset)
         finally:
             self._purge_pending_related_file_descriptors()
-- 
2.43.0


From 17418f11456906b1768058112531ef6a886dc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 16/38] fix: custom openers receive os.open() flags, like in
 the stdlib

---
 src/rsfile/rsfile_factories.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index a930cf0..f94b79a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,6 +237,7 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
+    erase = extended_kwargs["truncate"]
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
@@ -265,7 +266,7 @@ def rsopen(
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
-            name, mode
+            name, _get_opener_flags(raw_kwargs, erase=erase and not locking)
         )  # we give it the original "name" as parameter, not the normalized path
         if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
             raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
@@ -346,6 +347,30 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
+def _get_opener_flags(raw_kwargs, erase):
+    """
+    Returns the os.open() flags to be given to a custom opener, like in the stdlib.
+    """
+    if raw_kwargs["read"] and raw_kwargs["write"]:
+        flags = os.O_RDWR
+    elif raw_kwargs["write"]:
+        flags = os.O_WRONLY
+    else:
+        flags = os.O_RDONLY
+    if raw_kwargs["append"]:
+        flags |= os.O_APPEND
+    if raw_kwargs["must_create"]:
+        flags |= os.O_CREAT | os.O_EXCL
+    elif not raw_kwargs["must_not_create"]:
+        flags |= os.O_CREAT
+    if erase:  # NOT when locking is requested, since the file is not locked yet
+        flags |= os.O_TRUNC
+    if raw_kwargs["synchronized"]:
+        flags |= getattr(os, "O_SYNC", 0)
+    flags |= getattr(os, "O_BINARY", 0) | getattr(os, "O_NOINHERIT", 0) | getattr(os, "O_CLOEXEC", 0)
+    return flags
+
+
 def parse_standard_args(name, mode, fileno, handle, closefd):
     # note: name can also be a fileno here, for retrocompatibility...
 
-- 
2.43.0


From 8737c02e341e50e9e0c32d53a4c00e92de94e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 17/38] fix: FileIO replacement supports openers, and streams
 keep the name given to their opener

---
 src/rsfile/rsfile_factories.py |  6 ++++--
 src/rsfile/rsfile_utilities.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f94b79a..c2e63e5 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -266,7 +266,7 @@ def rsopen(
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
-            name, _get_opener_flags(raw_kwargs, erase=erase and not locking)
+            name, get_opener_flags(raw_kwargs, erase=erase and not locking)
         )  # we give it the original "name" as parameter, not the normalized path
         if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
             raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
@@ -275,6 +275,8 @@ def rsopen(
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
     raw = RSFileIO(**raw_kwargs)
+    if opener:
+        raw.name = name  # like in stdlib, not the descriptor returned by the opener
     result = raw
     try:
 
@@ -347,7 +349,7 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
-def _get_opener_flags(raw_kwargs, erase):
+def get_opener_flags(raw_kwargs, erase):
     """
     Returns the os.open() flags to be given to a custom opener, like in the stdlib.
     """
diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 7666720..a3f5069 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -28,12 +28,21 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True):
+    def __init__(self, name, mode="r", closefd=True, opener=None):
 
         (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
+        if opener:
+            if raw_kwargs["fileno"] is not None:
+                raise BadValueTypeError("can't provide both fileno and opener")
+            raw_kwargs["fileno"] = opener(name, get_opener_flags(raw_kwargs, erase=extended_kwargs["truncate"]))
+            if int(raw_kwargs["fileno"]) < 0:
+                raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+            raw_kwargs["path"] = None  # irrelevant in this case
         RSFileIO.__init__(self, **raw_kwargs)
+        if opener:
+            self.name = name
         # like in stdlib, a stream which only wraps an existing file descriptor must not be truncated
         if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
-- 
2.43.0


From e7558c5d0b30ba66fc7f5659839340692bcbd710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 18/38] fix: patched open() and FileIO accept standard
 arguments (file=, positional closefd, path-like objects, empty path)

---
 src/rsfile/rsfile_utilities.py  | 19 +++++++++++++++++--
 src/rsfile/rsfileio_abstract.py |  2 +-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index a3f5069..8c5a93b 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import os
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -12,8 +14,20 @@ def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
     tolerant mode for str/unicode mixes in python2.
     """
     params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    # like in stdlib, the 7th positional argument is "closefd", and the first one can be given as "file"
+    names = ("file", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
+    if len(args) > len(names):
+        raise TypeError("open() takes at most %d positional arguments (%d given)" % (len(names), len(args)))
+    for (name, value) in zip(names, args):
+        if name in kwargs:
+            raise TypeError("open() got multiple values for argument '%s'" % name)
+        kwargs[name] = value
+    if "file" in kwargs:
+        if "name" in kwargs:
+            raise TypeError("open() got multiple values for argument 'name'")
+        kwargs["name"] = kwargs.pop("file")
     params.update(kwargs)
-    stream = rsopen(*args, **params)
+    stream = rsopen(**params)
     return stream
 
 
@@ -28,8 +42,9 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True, opener=None):
+    def __init__(self, file, mode="r", closefd=True, opener=None):
 
+        name = os.fspath(file) if isinstance(file, os.PathLike) else file
         (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index def1e19..c302854 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -100,7 +100,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if path is not None and not isinstance(path, (bytes, str)):
             raise defs.BadValueTypeError("If provided, path must be a string.")
 
-        if bool(path) + (fileno is not None) + (handle is not None) != 1:
+        if (path is not None) + (fileno is not None) + (handle is not None) != 1:
             raise defs.BadValueTypeError("File must provide path, fileno or handle value, and only one of these.")
 
         if not read and not write:
-- 
2.43.0


From 5915035e2b0d617a42bc04df3e0b783d603984bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 19/38] fix: thread-safe streams must not belong to reference
 cycles, so that discarding them flushes and closes them

---
 src/rsfile/rsfile_streams.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index ada7dd3..0582c1f 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -203,8 +203,14 @@ class RSThreadSafeWrapper(object):
 
         if not name.startswith("_") and callable(attr):
             # print ("<<<<<<< WRAPPING METHOD", name)
+            # this cached function must not reference 'self', else the stream, as part of a reference cycle,
+            # wouldn't be properly flushed and closed when it gets discarded
+            wrapped_stream, mutex = self.wrapped_stream, self.mutex
+
             def _method_proxy(*args, **kwargs):
-                return self._secure_call(name, *args, **kwargs)
+                with mutex:
+                    return getattr(wrapped_stream, name)(*args, **kwargs)
+
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
             return _method_proxy  # the very first call must be thread-safe too
-- 
2.43.0


From 70ce47861de56de92dc34e1596111569ea178c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 20/38] fix: append streams start at the end of the file, even
 when it got erased or locked by their opening

---
 src/rsfile/rsfile_factories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index c2e63e5..b892bbe 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -290,6 +290,10 @@ def rsopen(
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
 
+            if raw_kwargs["append"] and (locking or extended_kwargs["truncate"]):
+                # the size of the file may have changed since its opening
+                raw.seek(0, os.SEEK_END)
+
         if buffering is None:
             buffering = -1
 
-- 
2.43.0


From ba8effdf06b9f90973304927974ac2ef03555ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:19 +0000
Subject: [PATCH 21/38] fix: readline(size) on buffered streams must not return
 more than size bytes

---
 src/rsfile/rsfile_streams.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 0582c1f..e7baa40 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -152,6 +152,21 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def readline(self, size=-1):
+        # the version of _pyio may return more than *size* bytes, when the line spans several buffers
+        if size is None or size < 0:
+            return super(RSBufferedReader, self).readline(size)
+        res = bytearray()
+        while len(res) < size:
+            readahead = self.peek(1)[: size - len(res)]
+            chunk = self.read((readahead.find(b"\n") + 1) or len(readahead) or 1)
+            if not chunk:
+                break
+            res += chunk
+            if res.endswith(b"\n"):
+                break
+        return bytes(res)
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 32a75ffe9b6ca66d85b2f069ea2825edc1f156ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 22/38] fix: a failed seek() on buffered random streams must
 not corrupt their position

---
 src/rsfile/rsfile_streams.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index e7baa40..44f78f4 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -178,7 +178,10 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    def seek(self, pos, whence=os.SEEK_SET):
+        # the version of _pyio moves the raw stream back before seeking, and thus corrupts positions if this seek fails
+        self.flush()
+        return defs.io_module.BufferedReader.seek(self, pos, whence)
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From e41d21559b57a8d68588bc13f2a6e8418e5ca232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 23/38] fix: readinto() on buffered streams must not fail when
 the buffer spans several internal ones

---
 src/rsfile/rsfile_streams.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 44f78f4..3691ba4 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -167,6 +167,18 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
                 break
         return bytes(res)
 
+    def _readinto(self, buf, read1):
+        if read1:
+            return super(RSBufferedReader, self)._readinto(buf, read1)
+        # the version of _pyio fails when *buf* spans several internal buffers
+        self._checkClosed("readinto of closed file")
+        view = memoryview(buf).cast("B")
+        if view.readonly:
+            raise TypeError("readinto() argument must be a read-write bytes-like object")
+        data = self.read(len(view)) or b""
+        view[: len(data)] = data
+        return len(data)
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 2ccbc6a04a2be62037e17e5afad3656882e8bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 24/38] fix: truncate() on buffered random streams must discard
 read-ahead data

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 3691ba4..c6deab3 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -195,6 +195,10 @@ class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBuffer
         self.flush()
         return defs.io_module.BufferedReader.seek(self, pos, whence)
 
+    def truncate(self, pos=None):
+        self._reset_buffers()  # contrary to _pyio, do not serve read-ahead data which doesn't exist anymore
+        return super(RSBufferedRandom, self).truncate(pos)
+
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
     pass
-- 
2.43.0


From 1e1398e6e69f60c0a01b15906261e56b82cb0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 25/38] fix: closed buffered readers must not go on serving
 read-ahead data

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index c6deab3..6b86132 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -152,6 +152,10 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def read(self, size=None):
+        self._checkClosed("read of closed file")  # else _pyio goes on serving read-ahead data
+        return super(RSBufferedReader, self).read(size)
+
     def readline(self, size=-1):
         # the version of _pyio may return more than *size* bytes, when the line spans several buffers
         if size is None or size < 0:
-- 
2.43.0


From 961c5c58f88f6e4676ec0713d20eb85b7e35ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 26/38] fix: write_to_file(must_create=True) must not mix its
 data with those written before it got the lock

---
 src/rsfile/rsfile_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 8c5a93b..eccde57 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -196,6 +196,8 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
+        if must_create:
+            myfile.truncate(0)  # others might have written to the file between its creation and its locking
         myfile.write(data)
         myfile.flush()
         if sync:
-- 
2.43.0


From 852fa5d12d2f98f33cef4d45f2ba894738171496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 27/38] fix: unbuffered write_to_file() and append_to_file()
 must not silently drop data on short writes

---
 src/rsfile/rsfile_utilities.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index eccde57..963a46e 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -155,6 +155,14 @@ def read_from_file(
         return full_data
 
 
+def _write_all(myfile, data):
+    res = myfile.write(data)
+    # if unbuffered, might write only part of the data, so we have to "loop while"
+    while not isinstance(data, str) and res < memoryview(data).nbytes:
+        data = memoryview(data).cast("B")[res:]
+        res = myfile.write(data)
+
+
 def write_to_file(
     filename,
     data,
@@ -198,7 +206,7 @@ def write_to_file(
 
         if must_create:
             myfile.truncate(0)  # others might have written to the file between its creation and its locking
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -243,7 +251,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From bf014fa5bc859bee1358f39271d795ab25f76e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 28/38] fix: iter() on thread-safe streams must wait for their
 mutex like other calls

---
 src/rsfile/rsfile_streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 6b86132..5ba8afe 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -256,7 +256,7 @@ class RSThreadSafeWrapper(object):
         return attr
 
     def __iter__(self):
-        self._checkClosed()
+        self._secure_call("_checkClosed")
         return self  # each line must be read through __next__() below, under protection of the mutex
 
     def __next__(self):
-- 
2.43.0


From 4c253419c3fae3479966628b6db7c357d5c711d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 29/38] fix: lock_file() without timeout must not loop forever
 on errors which no waiting can cure

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index c302854..ac35b40 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -634,6 +634,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
+                        if low_level_blocking and e.errno in (errno.EBADF, errno.EINVAL, errno.EOVERFLOW):
+                            raise  # waiting forever would not help
                         check_timeout(e)
 
             finally:
-- 
2.43.0


From 60cf2cb257b07dc1d88f49f4c8c3625597f2ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 30/38] fix: an opener must not be called when the other
 arguments are invalid

---
 src/rsfile/rsfile_factories.py | 9 ++++++++-
 src/rsfile/rsfile_utilities.py | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index b892bbe..1e3fc0f 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -263,8 +263,15 @@ def rsopen(
         )
 
     if opener:
-        if raw_kwargs["fileno"] is not None:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
+        # the opener may create or erase the file, so the other arguments must be valid
+        if not closefd:
+            raise defs.BadValueTypeError("Cannot use closefd=False without providing a descriptor to wrap.")
+        if not (raw_kwargs["read"] or raw_kwargs["write"]):
+            raise defs.BadValueTypeError("File can't be both non-writable and non-readable.")
+        if raw_kwargs["must_create"] and raw_kwargs["must_not_create"]:
+            raise defs.BadValueTypeError("File can't be wanted both as existing and unexisting.")
         raw_kwargs["fileno"] = opener(
             name, get_opener_flags(raw_kwargs, erase=erase and not locking)
         )  # we give it the original "name" as parameter, not the normalized path
diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 963a46e..23453c2 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -51,6 +51,8 @@ class RSFileIOWrapper(RSFileIO):
         if opener:
             if raw_kwargs["fileno"] is not None:
                 raise BadValueTypeError("can't provide both fileno and opener")
+            if not closefd:
+                raise BadValueTypeError("Cannot use closefd=False without providing a descriptor to wrap.")
             raw_kwargs["fileno"] = opener(name, get_opener_flags(raw_kwargs, erase=extended_kwargs["truncate"]))
             if int(raw_kwargs["fileno"]) < 0:
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-- 
2.43.0


From 96b136d3ab91799b10a2af49c53f94e40c23e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 31/38] fix: buffered readinto() on a non-blocking stream
 reported end-of-file when no data was available

---
 src/rsfile/rsfile_streams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 5ba8afe..80d9ecd 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -179,7 +179,9 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
         view = memoryview(buf).cast("B")
         if view.readonly:
             raise TypeError("readinto() argument must be a read-write bytes-like object")
-        data = self.read(len(view)) or b""
+        data = self.read(len(view))
+        if data is None:
+            return None  # non-blocking stream with no data available, NOT the end of file
         view[: len(data)] = data
         return len(data)
 
-- 
2.43.0


From 9241c40b3058c8967f262323bb330c0641890dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 32/38] fix: on Windows, locking from an offset up to infinity
 must not exceed the 64-bit range

---
 src/rsfile/rsfileio_windows.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..39ab736 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -429,9 +429,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             abs_offset = 0
 
         if not length:  # 0 or None
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = (utilities.MAX_DWORD, utilities.MAX_DWORD)
-        else:
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
+            length = 2**64 - 1 - abs_offset  # up to infinity, but ranges going beyond 64 bits are refused by the OS
+        (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
 
         overlapped = win32.OVERLAPPED()  # contains ['Internal', 'InternalHigh', 'Offset', 'OffsetHigh', 'dword',
         # 'hEvent', 'object']
-- 
2.43.0


From e55888ada760e635c6745a0ee4f615f18ffc82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 33/38] fix: on Windows, opening a stream for writing must not
 leak a C file descriptor

---
 src/rsfile/rsfileio_windows.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 39ab736..1f9db30 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -178,11 +178,12 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
+            if self._fileno is None:
+                # it gets closed along with the handle, so as not to leak C file descriptors
+                self._fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                if not os.get_blocking(self._fileno):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
-- 
2.43.0


From 92db26f2d6b5c3ff08fce89291a4df32d011e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 34/38] fix: on Windows, errors of the OS must not leave
 streams in reference cycles, which lost the data of dropped streams

---
 src/rsfile/rsfileio_windows.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1f9db30..6bb7317 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -44,9 +44,6 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             except win32.error as e:
                 # WARNING - this is not always a subclass of OSERROR
 
-                traceback = sys.exc_info()[2]
-                # print repr(e)str(e[1])+" - "+str(e[2
-
                 # pywin32's pywintypes.error instances have no errno
                 if hasattr(e, "errno"):
                     errno = e.errno
@@ -61,7 +58,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 else:
                     strerror = e.strerror.decode(WIN32_MSG_ENCODING, "replace")
 
-                raise IOError(errno, strerror, str(self._name)).with_traceback(traceback)
+                # (a local variable for the traceback would create a reference cycle, delaying the finalization of streams)
+                raise IOError(errno, strerror, str(self._name)).with_traceback(e.__traceback__)
 
         return wrapper
 
-- 
2.43.0


From 9527a40f97bb97f8b004eb140206ddc4d0ab11a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 35/38] fix: on Windows, raw write() of no data must return 0,
 and not extend the file

---
 src/rsfile/rsfileio_windows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 6bb7317..333e73e 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -389,6 +389,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         #print(">> WIN32 WRITING BYTES", len(buffer))
 
+        if not len(buffer):
+            return 0  # nothing to do, and especially no gap to fill
+
         if self._append:  # yep, no atomicity around here, as in truncate(), since FILE_APPEND_DATA can't be used
             self._inner_seek(0, defs.SEEK_END)
 
-- 
2.43.0


From d2ee20196fe9e8adb691fb31ff3c8d0370b2b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 36/38] fix: on Windows, unique_id() and times() must not leak
 a C file descriptor with the pywin32 backend

---
 src/rsfile/rsbackend/windows_pywin32.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 3e62d6f..9147718 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -87,7 +87,14 @@ def GetFileInformationByHandle(handle):
     ##print(">>>>>>", info.__dict__)
 
     # to workaround bugs, we don't deal with "PyTime" objects, we fallback to stdlib...
-    mystat = os.fstat(_open_osfhandle(handle, 0))
+    # (on a duplicate of the handle, since closing a C file descriptor closes its handle too)
+    process = win32api.GetCurrentProcess()
+    duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
+    fileno = _open_osfhandle(duplicate.Detach(), 0)
+    try:
+        mystat = os.fstat(fileno)
+    finally:
+        os.close(fileno)
     info.ftCreationTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_ctime))
     info.ftLastAccessTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_atime))
     info.ftLastWriteTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_mtime))
-- 
2.43.0


From c907da53e9cddf002b09cc682352aa9d64eb8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 37/38] fix: files whose name isn't decodable with the
 filesystem encoding must be openable

---
 src/rsfile/rsfileio_unix.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 3c7544a..29f0862 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -95,14 +95,6 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
-            if isinstance(path, str):
-                strname = path.encode(
-                    sys.getfilesystemencoding()
-                )  # let's take no risks - and do not use locale.getpreferredencoding(
-                # ) here
-            else:
-                strname = path
-
             flags = 0  # Note that unix.O_LARGEFILE is actually irrelevant
 
             if synchronized:
@@ -126,7 +118,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 flags |= unix.O_CREAT  # by default - we create the file iff it doesn't exists
 
             # print("Creating unix stream with context", locals())
-            self._fileno = self._handle = unix.open(strname, flags, permissions)
+            self._fileno = self._handle = unix.open(
+                path, flags, permissions
+            )  # str paths get encoded like anywhere else in the stdlib, so undecodable names are supported
 
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
-- 
2.43.0


From 84369d2f85560d255528c4fa273d3d2710d11eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 38/38] fix: unlock_file() must accept the relative offsets
 that lock_file() accepts

---
 src/rsfile/rsfileio_abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index ac35b40..6b317d1 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -654,8 +654,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if length is not None and (not isinstance(length, int) or length < 0):
             raise defs.BadValueTypeError("length must be None or positive integer.")
 
-        if offset is not None and (not isinstance(offset, int) or offset < 0):
-            raise defs.BadValueTypeError("offset must be None or positive integer.")
+        if offset is not None and not isinstance(offset, int):
+            raise defs.BadValueTypeError("offset must be None or an integer.")
 
         if whence not in defs.SEEK_VALUES:
             raise defs.BadValueTypeError("whence must be a valid SEEK_* value")
@@ -664,6 +664,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         # print ("---------->", multiprocessing.current_process().name, " UNLOCKED ", (unix.LOCK_UN, length,
         # abs_offset, os.SEEK_SET))
         abs_offset = self._convert_relative_offset_to_absolute(offset, whence)
+        if abs_offset < 0:
+            raise defs.BadValueTypeError("a byte range can't be unlocked before the beginning of the file.")
 
         with IntraProcessLockRegistry.mutex:  # IMPORTANT - keep the registry lock during the whole operation
             IntraProcessLockRegistry.unregister_file_lock(
-- 
2.43.0

