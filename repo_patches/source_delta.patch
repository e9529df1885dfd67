From 63c040e5a6c0e1b58ca658039f1a0a5da10caa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:30 +0000
Subject: [PATCH 01/22] fix: release locks when loading fails and skip the save
 after a failed operation

A mutating operation loads the data after taking the collection lock (and the
buffer lock). If the load raised, the locks stayed held forever. An operation
whose body raised still wrote the resource, creating missing files.
---
 .../buffers/file_buffered_collection.py               |  6 +++++-
 synced_collections/data_types/synced_collection.py    | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..6be6d71 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -63,7 +63,11 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        try:
+            super().__enter__()
+        except BaseException:
+            self._collection._buffer_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..f3e0af9 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -41,11 +41,18 @@ class _LoadAndSave:
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
-        self._collection._load()
+        try:
+            self._collection._load()
+        except BaseException:
+            # __exit__ will not be called, so the lock must be released here.
+            self._collection._thread_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # A failed operation has nothing to save.
+            if exc_type is None:
+                self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
 
-- 
2.43.0


From 99ce9da9d300d4522b9c4233c87a105136b612e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:53 +0000
Subject: [PATCH 02/22] fix: bind thread locks to the file of the root
 collection

Nested collections used a lock shared by all nested collections of their class
instead of the lock of their file. Changing the filename of a collection took
the lock away from other collections bound to the old file, replaced the lock of
collections bound to the new file, and released the wrong lock in operations
that were waiting for the old one.
---
 .../backends/collection_json.py               | 20 +++++++++++--------
 .../data_types/synced_collection.py           | 16 +++++++++++++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..02dc70f 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -9,6 +9,7 @@ import os
 import sys
 import uuid
 from collections.abc import Mapping, Sequence
+from threading import RLock
 from typing import Callable, FrozenSet
 from typing import Sequence as Sequence_t
 
@@ -218,15 +219,18 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
-        with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
-
+        # The new file needs a lock, which other collections bound to that file
+        # may already be using. Likewise, the lock of the old file must be kept.
+        if self._supports_threading:
+            with self._cls_lock:
+                if value not in self._locks:
+                    self._locks[value] = RLock()
+        self._load_and_save._lock()
+        old_lock = self._thread_lock
+        try:
             self._filename = value
-
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
+        finally:
+            old_lock.__exit__(None, None, None)
 
     @property
     def _lock_id(self):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index f3e0af9..5eb7d2d 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -39,8 +39,18 @@ class _LoadAndSave:
     def __init__(self, collection):
         self._collection = collection
 
+    def _lock(self):
+        """Acquire the thread lock of the resource the collection is bound to."""
+        while True:
+            lock = self._collection._thread_lock
+            lock.__enter__()
+            if lock is self._collection._thread_lock:
+                return
+            # The collection was bound to another resource in the meantime.
+            lock.__exit__(None, None, None)
+
     def __enter__(self):
-        self._collection._thread_lock.__enter__()
+        self._lock()
         try:
             self._collection._load()
         except BaseException:
@@ -268,7 +278,9 @@ class SyncedCollection(Collection):
                 Since locks support the context manager protocol, this method
                 can typically be invoked directly as part of a ``with`` statement.
                 """
-                return type(self)._locks[self._lock_id]
+                # Nested collections share the lock of their root.
+                root = self if self._root is None else self._root
+                return type(root)._locks[root._lock_id]
 
             cls._thread_lock = _thread_lock
             cls._threading_support_is_active = True
-- 
2.43.0


From 000d7f99efe090fbb9d46decc3227649868db72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:12 +0000
Subject: [PATCH 03/22] fix: guard reads with the same locks as writes

A read refreshes the in-memory data from the resource. Without a lock it could
undo a concurrent write, observe a half-applied one, or fail while iterating.
Iterators and key views now refer to a copy of the data.
---
 .../buffers/file_buffered_collection.py       | 10 +--
 .../data_types/synced_collection.py           | 66 ++++++++++++++-----
 synced_collections/data_types/synced_dict.py  | 20 +++---
 synced_collections/data_types/synced_list.py  |  5 +-
 4 files changed, 69 insertions(+), 32 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 6be6d71..7d6d87e 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -61,19 +61,19 @@ class _BufferedLoadAndSave(_LoadAndSave):
     acquire the buffer lock in addition to the default behavior.
     """
 
-    def __enter__(self):
+    def _acquire(self):
         self._collection._buffer_lock.__enter__()
         try:
-            super().__enter__()
+            super()._acquire()
         except BaseException:
             self._collection._buffer_lock.__exit__(None, None, None)
             raise
 
-    def __exit__(self, exc_type, exc_val, exc_tb):
+    def _release(self):
         try:
-            super().__exit__(exc_type, exc_val, exc_tb)
+            super()._release()
         finally:
-            self._collection._buffer_lock.__exit__(exc_type, exc_val, exc_tb)
+            self._collection._buffer_lock.__exit__(None, None, None)
 
 
 class FileBufferedCollection(BufferedCollection):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5eb7d2d..9114578 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -49,13 +49,21 @@ class _LoadAndSave:
             # The collection was bound to another resource in the meantime.
             lock.__exit__(None, None, None)
 
-    def __enter__(self):
+    def _acquire(self):
+        """Acquire all locks guarding the data of the collection."""
         self._lock()
+
+    def _release(self):
+        """Release the locks acquired by :meth:`_acquire`."""
+        self._collection._thread_lock.__exit__(None, None, None)
+
+    def __enter__(self):
+        self._acquire()
         try:
             self._collection._load()
         except BaseException:
-            # __exit__ will not be called, so the lock must be released here.
-            self._collection._thread_lock.__exit__(None, None, None)
+            # __exit__ will not be called, so the locks must be released here.
+            self._release()
             raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -64,7 +72,20 @@ class _LoadAndSave:
             if exc_type is None:
                 self._collection._save()
         finally:
-            self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
+            self._release()
+
+
+class _Locked:
+    """A context manager that holds the locks used by :class:`_LoadAndSave`."""
+
+    def __init__(self, load_and_save):
+        self._load_and_save = load_and_save
+
+    def __enter__(self):
+        self._load_and_save._acquire()
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        self._load_and_save._release()
 
 
 class SyncedCollection(Collection):
@@ -475,6 +496,15 @@ class SyncedCollection(Collection):
             else:
                 self._root._load()
 
+    @property
+    def _locked(self):
+        """Get a context guarding the in-memory data against other threads.
+
+        Reads refresh the in-memory data, so they need the same protection as
+        writes do.
+        """
+        return _Locked(self._load_and_save)
+
     def _validate(self, data):
         """Validate the input data.
 
@@ -491,20 +521,24 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._locked:
+            self._load()
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        # Iterate over a copy, which other threads cannot modify.
+        with self._locked:
+            self._load()
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._locked:
+            self._load()
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -515,20 +549,18 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._locked:
+            self._load()
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        return repr(self())
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        return str(self())
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..5603e55 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -201,20 +201,24 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        with self._locked:
+            self._load()
+            return self._to_base().keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        with self._locked:
+            self._load()
+            return self._to_base().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        with self._locked:
+            self._load()
+            return self._to_base().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._locked:
+            self._load()
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..1abe835 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -201,8 +201,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        with self._locked:
+            self._load()
+            return reversed(list(self._data))
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-- 
2.43.0


From c5243b07ffdcf3524f59723c23e4849aede16d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:56 +0000
Subject: [PATCH 04/22] fix: apply clear, reset, list pop and list reverse to
 current data atomically

clear() and reset() on a nested collection did not load first, so they undid
changes made through other handles. They also mixed up the lock order, replaced
the data shared by the memory buffer, and applied parts of rejected data. pop()
and reverse() of lists were sequences of separately saved steps.
---
 .../buffers/buffered_collection.py            |  8 ++++++
 .../data_types/synced_collection.py           | 26 ++++++++++++++++++-
 synced_collections/data_types/synced_dict.py  | 14 ++++++----
 synced_collections/data_types/synced_list.py  | 25 +++++++++++++-----
 4 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index b519848..54380d4 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -141,6 +141,14 @@ class BufferedCollection(SyncedCollection):
             else:
                 self._root._load()
 
+    def _load_for_overwrite(self):
+        """Load the data before an operation that replaces all of this collection.
+
+        While buffered, the data must be in the buffer before it is replaced.
+        """
+        if self._root is not None or self._is_buffered:
+            self._load()
+
     def _save_to_buffer(self):
         """Store data in buffer.
 
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 9114578..a8fc945 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -4,7 +4,7 @@
 """Implement the SyncedCollection class."""
 from abc import abstractmethod
 from collections import defaultdict
-from collections.abc import Collection
+from collections.abc import Collection, Mapping, Sequence
 from inspect import isabstract
 from threading import RLock
 from typing import Any, DefaultDict, List
@@ -26,6 +26,21 @@ _collection_resolver = AbstractTypeResolver(
 )
 
 
+def _unsynced(data):
+    """Replace all synced collections contained in data by plain copies.
+
+    Data added to a collection must be copied before the locks of that collection
+    are acquired, because reading another synced collection requires its locks.
+    """
+    if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
+        return data()
+    if isinstance(data, Mapping):
+        return {key: _unsynced(value) for key, value in data.items()}
+    if isinstance(data, Sequence) and not isinstance(data, (str, bytes)):
+        return [_unsynced(value) for value in data]
+    return data
+
+
 class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
@@ -496,6 +511,15 @@ class SyncedCollection(Collection):
             else:
                 self._root._load()
 
+    def _load_for_overwrite(self):
+        """Load the data before an operation that replaces all of this collection.
+
+        Nested collections replace only a part of the resource. A root replaces
+        everything, so its resource does not even need to be readable.
+        """
+        if self._root is not None:
+            self._load()
+
     @property
     def _locked(self):
         """Get a context guarding the in-memory data against other threads.
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 5603e55..dc5e248 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -11,7 +11,7 @@ give a dict-like API to a synchronized data structure.
 from collections.abc import Mapping, MutableMapping
 
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsynced
 
 # Identifies mappings, which are the base type for this class.
 _mapping_resolver = AbstractTypeResolver(
@@ -190,8 +190,11 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
+            self._validate(data)
+            data = _unsynced(data)
+            with self._locked:
+                self._load_for_overwrite()
+                self._update(data, _validate=True)
                 self._save()
         else:
             raise ValueError(
@@ -231,8 +234,9 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
+        with self._locked:
+            self._load_for_overwrite()
+            self._data.clear()
             self._save()
 
     def update(self, other=None, **kwargs):  # noqa: D102
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 1abe835..e3255db 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -16,7 +16,7 @@ from ..numpy_utils import (
     _numpy_cache_blocklist,
 )
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsynced
 
 # Identifies sequences, which are the base type for this class.
 _sequence_resolver = AbstractTypeResolver(
@@ -156,7 +156,7 @@ class SyncedList(SyncedCollection, MutableSequence):
                     self._data[i] = self._from_base(data[i], parent=self)
 
                 if len(self._data) > len(data):
-                    self._data = self._data[: len(data)]
+                    del self._data[len(data) :]
                 else:
                     new_data = data[len(self) :]
                     if not _validate:
@@ -185,8 +185,11 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
+            self._validate(data)
+            data = _unsynced(data)
+            with self._locked:
+                self._load_for_overwrite()
+                self._update(data, _validate=True)
                 self._save()
         else:
             raise ValueError(
@@ -239,10 +242,20 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
+        with self._locked:
+            self._load_for_overwrite()
+            self._data.clear()
             self._save()
 
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            ret = self._data.pop(index)
+        return ret
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
+
     def __lt__(self, other):
         if isinstance(other, type(self)):
             return self() < other()
-- 
2.43.0


From cc1fa70d9d949e6caadd0bd1ae0ad67691a92d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:02 +0000
Subject: [PATCH 05/22] fix: reload values that compare equal but differ in
 type, and null values

Updating the in-memory data skipped entries where old and new value compare
equal, such as 1, 1.0 and True, also inside nested containers. A nested
container that became null kept its old content.
---
 synced_collections/data_types/synced_dict.py | 19 +++++++++++++------
 synced_collections/data_types/synced_list.py | 20 ++++++++++++++------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index dc5e248..18c4424 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,14 +141,21 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
+                        if new_value is existing:
                             continue
                         if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
-                            try:
-                                existing._update(new_value)
-                                continue
-                            except ValueError:
-                                pass
+                            # Passing None to _update would be a no-op.
+                            if new_value is not None:
+                                try:
+                                    existing._update(new_value)
+                                    continue
+                                except ValueError:
+                                    pass
+                        # Values of different types may be equal (1 == True).
+                        elif (
+                            type(new_value) is type(existing) and new_value == existing
+                        ):
+                            continue
 
                         # Fall through if the new value is not identical to the
                         # existing value and
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e3255db..da128c3 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -143,14 +143,22 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
                 for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
+                    if data[i] is self._data[i]:
                         continue
                     if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
-                        try:
-                            self._data[i]._update(data[i])
-                            continue
-                        except ValueError:
-                            pass
+                        # Passing None to _update would be a no-op.
+                        if data[i] is not None:
+                            try:
+                                self._data[i]._update(data[i])
+                                continue
+                            except ValueError:
+                                pass
+                    # Values of different types may be equal (1 == True).
+                    elif (
+                        type(data[i]) is type(self._data[i])
+                        and data[i] == self._data[i]
+                    ):
+                        continue
                     if not _validate:
                         self._validate(data[i])
                     self._data[i] = self._from_base(data[i], parent=self)
-- 
2.43.0


From 06c5342e5c5fec15dae4fa0752d6d1468f8d68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:25 +0000
Subject: [PATCH 06/22] fix: validate and copy arguments before the data is
 locked and changed

update() applied a part of rejected data, could not be given a key named
'other', accepted None, and merged aliased children of the same collection
wrongly. Reading a synced argument while holding the locks of the modified
collection could deadlock with the opposite assignment.
---
 synced_collections/data_types/synced_dict.py | 22 +++++++++++---------
 synced_collections/data_types/synced_list.py |  6 ++++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 18c4424..31eec60 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -179,6 +179,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
     def __setitem__(self, key, value):
         self._validate({key: value})
+        value = _unsynced(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(value, parent=self)
 
@@ -246,20 +247,21 @@ class SyncedDict(SyncedCollection, MutableMapping):
             self._data.clear()
             self._save()
 
-    def update(self, other=None, **kwargs):  # noqa: D102
-        if other is not None:
-            # Convert sequence of key, value pairs to dict before validation
-            if _mapping_resolver.get_type(other) != "MAPPING":
-                other = dict(other)
-        else:
-            other = {}
+    def update(self, other=(), /, **kwargs):  # noqa: D102
+        # Convert sequence of key, value pairs to dict before validation
+        if _mapping_resolver.get_type(other) != "MAPPING":
+            other = dict(other)
 
+        # The order here is important to ensure that the promised sequence of
+        # overrides is obeyed: kwargs > other > existing data.
+        other = {**other, **kwargs}
+        self._validate(other)
+        other = _unsynced(other)
         with self._load_and_save:
-            # The order here is important to ensure that the promised sequence of
-            # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **other}, _validate=True)
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = _unsynced(default)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index da128c3..c84da35 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -208,6 +208,7 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def __setitem__(self, key, value):
         self._validate(value)
+        value = _unsynced(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(data=value, parent=self)
 
@@ -220,6 +221,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         # Convert input to a list so that iterators work as well as iterables.
         iterable_data = list(iterable)
         self._validate(iterable_data)
+        iterable_data = _unsynced(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data += [
                 self._from_base(data=value, parent=self) for value in iterable_data
@@ -228,11 +230,13 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def insert(self, index, item):  # noqa: D102
         self._validate(item)
+        item = _unsynced(item)
         with self._load_and_save, self._suspend_sync:
             self._data.insert(index, self._from_base(data=item, parent=self))
 
     def append(self, item):  # noqa: D102
         self._validate(item)
+        item = _unsynced(item)
         with self._load_and_save, self._suspend_sync:
             self._data.append(self._from_base(data=item, parent=self))
 
@@ -240,12 +244,14 @@ class SyncedList(SyncedCollection, MutableSequence):
         # Convert iterable to a list to ensure generators are exhausted only once
         iterable_data = list(iterable)
         self._validate(iterable_data)
+        iterable_data = _unsynced(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data.extend(
                 [self._from_base(data=value, parent=self) for value in iterable_data]
             )
 
     def remove(self, value):  # noqa: D102
+        value = _unsynced(value)
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
-- 
2.43.0


From 8296e32bcde62a4de3354270b70bb436c62adc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:25 +0000
Subject: [PATCH 07/22] fix: compare synced lists with plain operands correctly
 in __lt__

---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index c84da35..444aa4c 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -274,7 +274,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 9cf749119ff95cebad5eb408993899d7d0075b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:37 +0000
Subject: [PATCH 08/22] fix: make attribute access of missing and protected
 names consistent

Deleting a missing attribute raised KeyError instead of AttributeError. Reading
an unset protected name returned the item stored under that name.
---
 synced_collections/data_types/attr_dict.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..9438899 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -40,9 +40,13 @@ class AttrDict:
         if name.startswith("__"):
             raise AttributeError(f"{type(self)} has no attribute '{name}'")
         try:
-            return self.__getitem__(name)
+            value = self.__getitem__(name)
         except KeyError as e:
             raise AttributeError(e)
+        # Protected names always refer to the object, never to its items.
+        if name in self._PROTECTED_KEYS:
+            raise AttributeError(f"{type(self)} has no attribute '{name}'")
+        return value
 
     def __setattr__(self, key, value):
         # This logic assumes that __setitem__ will not be called until after
@@ -62,4 +66,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From ad5d84bb920c928e31a8e37ac02d8c2c432f06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:35 +0000
Subject: [PATCH 09/22] fix: reject keys with dots in dicts nested in
 attribute-access lists

---
 synced_collections/backends/collection_json.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 02dc70f..ba48004 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -599,6 +599,9 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    # Nested dictionaries are subject to the same rules as in the attr dicts.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -615,6 +618,9 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    # Nested dictionaries are subject to the same rules as in the attr dicts.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -631,3 +637,6 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    # Nested dictionaries are subject to the same rules as in the attr dicts.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
-- 
2.43.0


From fcd507f3f2b104c55e99fc0c477b686d1b170a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:02 +0000
Subject: [PATCH 10/22] fix: reject nested non-string keys and values a
 JSON-encoded Zarr collection cannot store

---
 .../backends/collection_zarr.py               | 22 +++++++++++++++++--
 synced_collections/validators.py              |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..3574d8e 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -2,10 +2,12 @@
 # All rights reserved.
 # This software is licensed under the BSD 3-Clause License.
 """Implements a Zarr :class:`~.SyncedCollection` backend."""
+from contextlib import suppress
 from copy import deepcopy
 
 from .. import SyncedCollection, SyncedDict, SyncedList
-from ..validators import require_string_key
+from ..numpy_utils import NumpyConversionWarning
+from ..validators import json_format_validator, require_string_key
 
 try:
     import numcodecs
@@ -51,10 +53,24 @@ class ZarrCollection(SyncedCollection):
                 "The Zarr package must be installed to use the ZarrCollection."
             )
 
+        # The codec determines what data is valid.
+        self._object_codec = numcodecs.JSON() if codec is None else codec
         super().__init__(**kwargs)
         self._group = group
         self._name = name
-        self._object_codec = numcodecs.JSON() if codec is None else codec
+
+    def _validate(self, data):
+        """Validate the input data, which must be supported by the codec."""
+        super()._validate(data)
+        codec = (self if self._root is None else self._root)._object_codec
+        if isinstance(codec, numcodecs.JSON):
+            try:
+                json_format_validator(data)
+            except TypeError:
+                # Warn about the conversion of NumPy data even if it is rejected.
+                with suppress(NumpyConversionWarning):
+                    self._from_base(data, parent=self)
+                raise
 
     def _load_from_resource(self):
         """Load the data from the Zarr group.
@@ -211,6 +227,8 @@ class ZarrList(ZarrCollection, SyncedList):
 
     """
 
+    _validators = (require_string_key,)
+
     def __init__(self, group=None, name=None, data=None, parent=None, *args, **kwargs):
         super().__init__(
             group=group, name=name, data=data, parent=parent, *args, **kwargs
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From 691d7ac97869a03a3f9b1295d7fa43c0ee4eb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:12 +0000
Subject: [PATCH 11/22] fix: make the buffered context of a nested collection
 buffer its root

---
 synced_collections/buffers/buffered_collection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index 54380d4..6ed3baf 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -83,8 +83,13 @@ class BufferedCollection(SyncedCollection):
     """
 
     def __init__(self, *args, **kwargs):
+        # Nested collections are buffered exactly when their root is. This must be
+        # defined before the nested collections are created.
+        parent = kwargs.get("parent")
+        self.buffered = (
+            _CounterFuncContext(self._flush) if parent is None else parent.buffered
+        )
         super().__init__(*args, **kwargs)
-        self.buffered = _CounterFuncContext(self._flush)
 
     @classmethod
     def __init_subclass__(cls):
-- 
2.43.0


From ef9616111506518f74ef83695fec78f6651604d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:23 +0000
Subject: [PATCH 12/22] fix: keep buffer bookkeeping consistent when a
 backend-wide flush fails or runs concurrently

---
 .../buffers/file_buffered_collection.py       | 83 +++++++++----------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 7d6d87e..f7557dc 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -40,18 +40,25 @@ class _FileBufferedContext(_CounterFuncContext):
 
     def __enter__(self):
         super().__enter__()
-        if self._buffer_capacity is not None:
+        buffer_capacity, self._buffer_capacity = self._buffer_capacity, None
+        if buffer_capacity is not None:
             self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
+            try:
+                self._cls.set_buffer_capacity(buffer_capacity)
+            except BaseException:
+                # The context was not entered, so it will not be exited either.
+                self.__exit__(None, None, None)
+                raise
         else:
             self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
         original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        try:
+            super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            if original_buffer_capacity is not None:
+                self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
@@ -218,8 +225,8 @@ class FileBufferedCollection(BufferedCollection):
             buffering implementation.
 
         """
-        cls._BUFFER_CAPACITY = new_capacity
         with cls._BUFFER_LOCK:
+            cls._BUFFER_CAPACITY = new_capacity
             if new_capacity < cls._CURRENT_BUFFER_SIZE:
                 cls._flush_buffer(force=True)
 
@@ -312,42 +319,34 @@ class FileBufferedCollection(BufferedCollection):
         # independently decide whether or not to flush based on whether it's
         # still buffered (if buffered contexts are nested).
         remaining_collections = {}
-        while True:
-            # This is the only part that needs to be locked; once items are
-            # removed from the buffer they can be safely handled on separate
-            # threads.
-            with cls._BUFFER_LOCK:
-                try:
-                    (
-                        col_id,
-                        collection,
-                    ) = cls._buffered_collections.popitem()
-                except KeyError:
-                    break
-
-            if collection._is_buffered and not force:
-                # If force is false, then the only way for the collection to
-                # still be buffered is if there are nested buffered contexts.
-                # In that case, flush_buffer was called due to the exit of an
-                # inner buffered context, and we shouldn't do anything with
-                # this object, so we just put it back in the list *and* skip
-                # the flush.
-                remaining_collections[col_id] = collection
-                continue
-            elif force and retain_in_force:
-                # If force is true, the collection must still be buffered.
-                # In that case, the retain_in_force parameter controls whether
-                # we we want to put it back in the remaining_collections list
-                # after flushing any writes.
-                remaining_collections[col_id] = collection
+        # Other threads must not change the buffer until the collections that
+        # remain buffered are registered again.
+        with cls._BUFFER_LOCK:
+            while cls._buffered_collections:
+                col_id, collection = cls._buffered_collections.popitem()
+
+                if collection._is_buffered and not force:
+                    # If force is false, then the only way for the collection to
+                    # still be buffered is if there are nested buffered contexts.
+                    # In that case, flush_buffer was called due to the exit of an
+                    # inner buffered context, and we shouldn't do anything with
+                    # this object, so we just put it back in the list *and* skip
+                    # the flush.
+                    remaining_collections[col_id] = collection
+                    continue
+                elif force and retain_in_force:
+                    # If force is true, the collection must still be buffered.
+                    # In that case, the retain_in_force parameter controls whether
+                    # we we want to put it back in the remaining_collections list
+                    # after flushing any writes.
+                    remaining_collections[col_id] = collection
 
-            try:
-                collection._flush(force=force)
-            except (OSError, MetadataError) as err:
-                issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+                try:
+                    collection._flush(force=force)
+                except Exception as err:
+                    issues[collection._filename] = err
+            cls._buffered_collections.update(remaining_collections)
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
-- 
2.43.0


From d144c06124bc52cb9b35187a40c723610594ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 13/22] fix: detect files changed while they are being loaded
 into the buffer

---
 synced_collections/buffers/file_buffered_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index f7557dc..2b39086 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -264,11 +264,13 @@ class FileBufferedCollection(BufferedCollection):
                 # is valid either since the resource could have been modified
                 # between when _data was last updated and when this load is being
                 # called. As a result, we have to load from the resource here to be
-                # safe.
+                # safe. The metadata must not be newer than the loaded data.
+                metadata = self._get_file_metadata()
                 data = self._load_from_resource()
                 with self._thread_lock, self._suspend_sync:
                     self._update(data)
                 self._initialize_data_in_buffer()
+                type(self)._buffer[self._filename]["metadata"] = metadata
 
         # This storage can be safely updated every time on every thread.
         type(self)._buffered_collections[id(self)] = self
-- 
2.43.0


From 292915b702258953c58ca34540dfac275b5111dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 14/22] fix: flush serialized buffer contents written by
 another collection on the same file

---
 .../buffers/serialized_file_buffered_collection.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..cadf858 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,7 +109,9 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
+                    # The contents may have been changed by another collection
+                    # pointing to the same file.
+                    blob = cached_data["contents"]
 
                     # If the contents have not been changed since the initial read,
                     # we don't need to rewrite it.
-- 
2.43.0


From bed034997b252eb5bf235a4bfb392f186feb2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:56 +0000
Subject: [PATCH 15/22] fix: keep the data of collections sharing an in-memory
 buffer apart and drop conflicting entries

---
 .../buffers/memory_buffered_collection.py     | 119 +++++++++---------
 1 file changed, 56 insertions(+), 63 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..7567418 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -4,12 +4,10 @@
 """A standardized buffering implementation for file-based backends.
 
 The buffering method implemented here involves a single buffer of references to
-in-memory objects containing data. These objects are the base types of a given
-:class:`~.SyncedCollection` type, e.g. a dict for all dict-like collections,
-and are the underlying data stores for those types. This buffering method
-exploits the fact that all mutable collection types in Python are references,
-so modifying one such collection results in modifying all of them, thereby
-removing any need for more complicated synchronization protocols.
+the in-memory objects containing the current data of each file. All other
+collections pointing to the same file are updated from that object whenever they
+load data, so no data has to be encoded or copied unless multiple collections
+point to the same file.
 """
 
 from ..errors import MetadataError
@@ -20,12 +18,11 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
     """A :class:`~.SyncedCollection` that defers all I/O when buffered.
 
     This class extends the :class:`~.FileBufferedCollection` and implements a
-    concrete storage mechanism in which collections store a reference to their
-    data in a buffer. This method takes advantage of the reference-based semantics
-    of built-in Python mutable data types like dicts and lists. All collections
-    referencing the same file are pointed to the same underlying data store in
-    buffered mode, allowing all changes in one to be transparently reflected in
-    the others. To further improve performance, the buffer size is determined
+    concrete storage mechanism in which the buffer stores a reference to the
+    collection that holds the current data of a file. All other collections
+    referencing the same file are updated from that collection in buffered mode,
+    allowing all changes in one to be transparently reflected in the others. To
+    further improve performance, the buffer size is determined
     only based on the number of modified collections stored, not the total number.
     As a result, the maximum capacity is only reached when a large number of
     modified collections are stored, and unmodified collections are only removed
@@ -101,62 +98,50 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             originally loaded into the buffer and modified.
 
         """
-        # Different files in the buffer can be safely flushed simultaneously,
-        # but a given file can only be flushed on one thread at once.
-        if not self._is_buffered or force:
+        with self._buffer_lock:
+            # If this object is still buffered _and_ this wasn't a force flush,
+            # that implies a nesting of buffered contexts, so the data stays in
+            # the buffer.
+            if self._is_buffered and not force:
+                return
+
             try:
                 cached_data = type(self)._buffer[self._filename]
             except KeyError:
                 # If we got to this point, it means that another collection
                 # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
-            else:
+                return
+
+            modified = cached_data["modified"]
+            flushed = False
+            try:
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
-                try:
+                if modified:
                     # Validate that the file hasn't been changed by
                     # something else.
-                    if cached_data["modified"]:
-                        if cached_data["metadata"] != self._get_file_metadata():
-                            raise MetadataError(self._filename, cached_data["contents"])
-                        self._save_to_resource()
-                finally:
-                    # Whether or not an error was raised, the cache must be
-                    # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
-                    if cached_data["modified"]:
-                        type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
-                        del type(self)._buffer[self._filename]
-                    else:
-                        # Have to update the metadata on a force flush because
-                        # we could modify this item again later, leading to
-                        # another (possibly forced) flush afterwards that will
-                        # appear invalid if the metadata isn't updated to the
-                        # metadata after the current flush.
-                        cached_data["metadata"] = self._get_file_metadata()
-                        cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
-            with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
+                    if cached_data["metadata"] != self._get_file_metadata():
+                        raise MetadataError(
+                            self._filename, cached_data["owner"]._to_base()
+                        )
+                    self._update_from_owner()
+                    self._save_to_resource()
+                    # Have to update the metadata on a force flush because
+                    # we could modify this item again later, leading to
+                    # another (possibly forced) flush afterwards that will
+                    # appear invalid if the metadata isn't updated to the
+                    # metadata after the current flush.
+                    cached_data["metadata"] = self._get_file_metadata()
+                    cached_data["modified"] = False
+                flushed = True
+            finally:
+                # If an error was raised, the cache must be cleared to ensure a
+                # valid final buffer state even if we're force flushing, in
+                # which case we otherwise never delete.
+                if modified:
+                    type(self)._CURRENT_BUFFER_SIZE -= 1
+                if not (force and flushed):
+                    del type(self)._buffer[self._filename]
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -194,7 +179,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
             if self._filename in type(self)._buffer:
-                # Always track all instances pointing to the same data.
+                # The most recently saved collection holds the current data.
+                type(self)._buffer[self._filename]["owner"] = self
 
                 # If all we had to do is set the flag, it could be done without any
                 # check, but we also need to increment the number of modified
@@ -224,14 +210,21 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
 
         """
         super()._load_from_buffer()
+        self._update_from_owner()
 
-        # Set local data to the version in the buffer.
-        self._data = type(self)._buffer[self._filename]["contents"]
+    def _update_from_owner(self):
+        """Update this collection to match the data in the buffer."""
+        owner = type(self)._buffer[self._filename]["owner"]
+        if owner is not self:
+            with self._suspend_sync:
+                self._update(owner._to_base())
 
     def _initialize_data_in_buffer(self, modified=False):
         """Create the initial entry for the data in the cache.
 
         Stores the following information:
+            - The collection owning the current data, to which all other
+              collections pointing to the same file are updated.
             - The metadata provided by :meth:`~._get_file_metadata`. Used to
               check if a file has been modified on disk since it was loaded
               into the buffer.
@@ -249,7 +242,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         metadata = self._get_file_metadata()
         type(self)._buffer[self._filename] = {
-            "contents": self._data,
+            "owner": self,
             "metadata": metadata,
             "modified": modified,
         }
-- 
2.43.0


From 7a5004c7d6e3764f02d96cb61d9b18aa49b798bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:01 +0000
Subject: [PATCH 16/22] fix: do not cache the classification of proxies and
 numpy array subclasses

---
 synced_collections/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..006761c 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -92,7 +92,11 @@ class AbstractTypeResolver:
                 if id_func(obj):
                     enum_type = data_type
                     break
-            if obj_type not in self.cache_blocklist:
+            # Neither subclasses of blocked types nor proxies, which claim to be of
+            # the type of the proxied object, can be classified by their type.
+            if obj.__class__ is obj_type and not issubclass(
+                obj_type, tuple(self.cache_blocklist)
+            ):
                 self.type_map[obj_type] = enum_type
 
         return enum_type
-- 
2.43.0


From 45ae970e7cc43dd048bbadf70975ceb162da585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:26 +0000
Subject: [PATCH 17/22] fix: forget a collection once its own buffered context
 was flushed

A collection that left its per-object context stayed registered as
buffered.  The next backend-wide flush then wrote the file although a
newer collection on the same file was still inside its own context.
---
 synced_collections/buffers/memory_buffered_collection.py        | 2 ++
 .../buffers/serialized_file_buffered_collection.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 7567418..3ff8f17 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -104,6 +104,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             # the buffer.
             if self._is_buffered and not force:
                 return
+            if not force:
+                type(self)._buffered_collections.pop(id(self), None)
 
             try:
                 cached_data = type(self)._buffer[self._filename]
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index cadf858..4bd6072 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -101,6 +101,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # but a given file can only be flushed on one thread at once.
         with self._buffer_lock:
             if not self._is_buffered or force:
+                if not force:
+                    type(self)._buffered_collections.pop(id(self), None)
                 try:
                     cached_data = type(self)._buffer[self._filename]
                 except KeyError:
-- 
2.43.0


From f31c75b3c187c1861fdbf76ee0d39d56261c520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:47 +0000
Subject: [PATCH 18/22] fix: create a missing file when buffered data returns
 to its initial state

With the serialized buffer, changes that cancel out left a missing file
missing.  Other collections on that file then kept showing the data
from before the last change.
---
 .../buffers/serialized_file_buffered_collection.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index 4bd6072..5c53c55 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -219,6 +219,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 buffer_size_change = len(blob) - len(cached_data["contents"])
                 type(self)._CURRENT_BUFFER_SIZE += buffer_size_change
                 cached_data["contents"] = blob
+                if cached_data["metadata"] is None:
+                    # A missing file must be created by the next flush even if
+                    # the final data is the same as the initial data.
+                    cached_data["hash"] = None
             else:
                 # The only methods that could safely call sync without a load are
                 # destructive operations like `reset` or `clear` that completely
-- 
2.43.0


From 2675f3e11db1ef1c0f0470e68ffe6260790391cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:24 +0000
Subject: [PATCH 19/22] fix: search lists atomically in index, count and
 contains

A writer in another thread could move elements between the element accesses
of a search, so that an element that was always present was not found.
---
 synced_collections/data_types/synced_list.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 444aa4c..1acc5a5 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -217,6 +217,23 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._load()
             return reversed(list(self._data))
 
+    # The inherited implementations access the elements one by one, so they must
+    # be protected from writers in other threads.
+    def __contains__(self, value):
+        value = _unsynced(value)
+        with self._locked:
+            return super().__contains__(value)
+
+    def index(self, value, *args, **kwargs):  # noqa: D102
+        value = _unsynced(value)
+        with self._locked:
+            return super().index(value, *args, **kwargs)
+
+    def count(self, value):  # noqa: D102
+        value = _unsynced(value)
+        with self._locked:
+            return super().count(value)
+
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
         iterable_data = list(iterable)
-- 
2.43.0


From 69b321dd289a96d176369e8e1a067e6ba73db2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:21 +0000
Subject: [PATCH 20/22] fix: validate the items of 0d NumPy arrays

A 0d array holding an object that is not JSON serializable passed validation
and its item was stored in the collection.
---
 synced_collections/backends/collection_json.py | 3 +++
 synced_collections/validators.py               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ba48004..beb1c26 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -106,6 +106,9 @@ def json_attr_dict_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        else:
+            # The items of 0d arrays can be arbitrary objects.
+            json_attr_dict_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable."
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 6f33b02..d43f1eb 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -141,6 +141,9 @@ def json_format_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        else:
+            # The items of 0d arrays can be arbitrary objects.
+            json_format_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable"
-- 
2.43.0


From 76ef4085c049d235744999210144cbbc4d4aa27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:13 +0000
Subject: [PATCH 21/22] fix: return built-in integers from MongoDB collections

The BSON decoder creates Int64 objects, which ended up in the results of (),
values() and items().
---
 synced_collections/backends/collection_mongodb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/synced_collections/backends/collection_mongodb.py b/synced_collections/backends/collection_mongodb.py
index ebebb26..b5e2975 100644
--- a/synced_collections/backends/collection_mongodb.py
+++ b/synced_collections/backends/collection_mongodb.py
@@ -13,6 +13,17 @@ except ImportError:
     MONGO = False
 
 
+def _to_builtin(data):
+    """Convert the Int64 objects created by the BSON decoder to int."""
+    if isinstance(data, dict):
+        return {key: _to_builtin(value) for key, value in data.items()}
+    if isinstance(data, list):
+        return [_to_builtin(value) for value in data]
+    if MONGO and isinstance(data, bson.Int64):
+        return int(data)
+    return data
+
+
 class MongoDBCollection(SyncedCollection):
     r"""A :class:`~.SyncedCollection` that synchronizes with a MongoDB document.
 
@@ -87,7 +98,7 @@ class MongoDBCollection(SyncedCollection):
 
         """
         blob = self._collection.find_one(self._uid)
-        return blob["data"] if blob is not None else None
+        return _to_builtin(blob["data"]) if blob is not None else None
 
     def _save_to_resource(self):
         """Write the data to a MongoDB document."""
-- 
2.43.0


From 0374d8cef82511e475e2a6e138db9a2415c4a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:27:03 +0000
Subject: [PATCH 22/22] fix: decide once whether a collection is buffered

The check returned the context object, so callers evaluated it a second time.
If another thread left its own buffered context in between, the collection was
treated as unbuffered although the backend-wide context was still active, and
the write bypassed the buffer.  Leaving the backend-wide context then failed
with a MetadataError.
---
 synced_collections/buffers/buffered_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index 6ed3baf..33c6a74 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -182,7 +182,8 @@ class BufferedCollection(SyncedCollection):
     @property
     def _is_buffered(self):
         """Check if we should write to the buffer or not."""
-        return self.buffered or type(self)._buffer_context
+        # Evaluated once: other threads may leave their contexts at any time.
+        return bool(self.buffered) or bool(type(self)._buffer_context)
 
     def _flush(self):
         """Flush data associated with this instance from the buffer."""
-- 
2.43.0

