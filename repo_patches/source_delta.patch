From 99978b66dba03536d3d0adfae87c0c2388886973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 01/70] fix: Container.read returns stored falsy values instead
 of the default

---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 2395d32307441dc76139dea7a29814afd428c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 02/70] fix: Container.delete only pops from the groups that
 hold the id

---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..d2f901a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From e3d19593966511b25114a3c9640b9bf85bed5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 03/70] fix: honour a Container primary that is not the first
 listed group

---
 citrine/storage/container.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d2f901a..babdc41 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -110,6 +110,15 @@ class ContainerProperties:
         """
         return self.___groups___
 
+    @property
+    def secondaries(self) -> Tuple[Group]:
+        """
+        The ordered set of groups in the container, without the primary
+        :return:
+        """
+        return tuple(group for group in self.groups
+                     if group is not self.primary)
+
     @property
     def size(self) -> int:
         """
@@ -319,7 +328,7 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        source_groups = self.secondaries
 
         if transfer:
             fn = lambda group, key: self.primary.insert(key, group.pop(key))
@@ -338,13 +347,13 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            discarded = list(source_groups)
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = (self.primary,)
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
+                self.___groups___ = (self.primary,)
             return discarded
         return []
 
@@ -364,7 +373,7 @@ class Container(Persistent, ContainerProperties):
         :param default: default value to return if the object does not exist
         :return: the desired object if it exists, or the default if provided
         """
-        for group in self.groups:
+        for group in (self.primary,) + self.secondaries:
             if group.has_key(id):
                 return group.get(id)
         return default
-- 
2.43.0


From 5991e7b222f7b91a15c38f70d467b7682130e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 04/70] fix: overwriting an existing key never exceeds a strict
 Collection's limit

---
 citrine/storage/collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..9ed9f6c 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
@@ -161,7 +162,8 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if (new_keys and self.strict
+                and self.size + len(new_keys) > self.max_size):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
-- 
2.43.0


From f4c27129bfad9a99890edd9369ec85b63223b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 05/70] fix: Collection.setdefault enforces the strict capacity
 limit

---
 citrine/storage/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 9ed9f6c..c28de9d 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -195,6 +195,11 @@ class Collection(Persistent):
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
         """
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
+            raise CollectionCapacityError(
+                f'Cannot insert "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From ebb2fc010e0dc3b3b5cbee55625fd5a018350bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 06/70] fix: a Group.update rejected for capacity leaves the
 group unchanged

---
 citrine/storage/group.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..91c4a04 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, CollectionCapacityError
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -322,8 +322,9 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = [key for key in collection.keys() if not self.has_key(key)]
+        if (new_keys and self.strict
+                and len(new_keys) + self.size > self.max_size):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
@@ -332,6 +333,16 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # check every collection before writing to any of them, otherwise a
+        # rejected update would leave part of its items behind
+        for index, items in split_collection.items():
+            target = self.collections[index]
+            added = sum(1 for key in items if not target.has_key(key))
+            if (added and target.strict
+                    and target.size + added > target.max_size):
+                raise CollectionCapacityError(
+                    "Cannot update collection; maximum size reached!")
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From 13f7d1e48e2587d2ee0fd44227bedb72cb4f552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 07/70] fix: Group iteration is not cut short by falsy keys or
 values

---
 citrine/storage/group.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 91c4a04..53c075e 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -403,7 +403,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(v is not None for v in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -428,23 +428,9 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        # the range applies to the keys, so the order has to follow them too
+        for _, value in self.iteritems(min, max):
+            yield value
 
     def items(self):
         """
@@ -472,7 +458,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(key is not None for key in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From a2132ffeedeccf480fd019e32f20245dd3c29fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 08/70] fix: Group.minKey, maxKey and popitem work when a
 collection is empty

---
 citrine/storage/group.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 53c075e..94e42d3 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -491,8 +491,15 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        def highest(collection):
+            # a collection with nothing in range must not hide the others
+            try:
+                return (collection.maxKey(max),)
+            except ValueError:
+                return ()
+
+        return maximum(chain.from_iterable(
+            highest(collection) for collection in self.collections))
 
     def minKey(self, min=None):
         """
@@ -501,8 +508,15 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        def lowest(collection):
+            # a collection with nothing in range must not hide the others
+            try:
+                return (collection.minKey(min),)
+            except ValueError:
+                return ()
+
+        return minimum(chain.from_iterable(
+            lowest(collection) for collection in self.collections))
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From 071bf1c17e158971fb968a2e55767a59e7cfb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 09/70] fix: Group.new honours strict and leaves the custom
 definition alone

---
 citrine/storage/group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 94e42d3..472e4d1 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,8 +269,10 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
-        # ensure any gaps are filled if custom definition is provided
+            return Group(collections=collections, strict=strict)
+        # ensure any gaps are filled if custom definition is provided, without
+        # changing the caller's own definition
+        custom = dict(custom)
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
             raise KeyError("Custom collection keys must be integers")
@@ -289,7 +291,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 992beaf17fdffd033a09a8c9abde43f2f6a80786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/70] fix: ContainerDb.create passes strict on to the new
 container

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 7e7da9c31d58529738cccb573c74fbf216b49e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 11/70] fix: get_primes stops at max rather than before it
 starts

---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..907f1d2 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From b83a3b5f9aa66d094fdae8fcafb575ebb90b27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 12/70] fix: condense keeps the object being moved when the
 primary rejects it

---
 citrine/storage/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index babdc41..65b391a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -331,7 +331,9 @@ class Container(Persistent, ContainerProperties):
         source_groups = self.secondaries
 
         if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
+            # the object may only leave its group once it is in the primary
+            fn = lambda group, key: (
+                self.primary.insert(key, group.get(key)), group.pop(key))
         else:
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
-- 
2.43.0


From 50f984fc59f32543fe99545564331dfd935f9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 13/70] fix: resize never takes the secondary groups out of the
 container

---
 citrine/storage/container.py | 39 +++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 65b391a..bb8ecd1 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -286,27 +286,23 @@ class Container(Persistent, ContainerProperties):
         )
 
         # set the new group as the primary and makes the old primary a secondary
+        old_primary = self.primary
+        groups = (new_primary, old_primary) + self.secondaries
         if transaction_manager:
             with transaction_manager as tm:
-                self.___groups___ = (new_primary,) + self.groups
+                self.___groups___ = groups
                 self.___primary___ = new_primary
                 tm.commit()
         else:
-            self.___groups___ = (new_primary,) + self.groups
+            self.___groups___ = groups
             self.___primary___ = new_primary
 
         if condense:
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-        else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
-        return removed
+            return self.condense(transfer=transfer,
+                                 transaction_manager=transaction_manager)
+        # if we only want to move over the data from the old primary, the other
+        # groups have to stay in the container (and readable) all along
+        return self.__merge((old_primary,), transfer, transaction_manager)
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
             -> List[Group]:
@@ -328,8 +324,17 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.secondaries
+        return self.__merge(self.secondaries, transfer, transaction_manager)
+
+    def __merge(self, source_groups, transfer, transaction_manager):
+        """
+        Merges the given groups into the primary group, see ``condense``.
 
+        :param source_groups: secondary groups to merge, highest priority first
+        :param transfer: whether to empty and remove the source groups
+        :param transaction_manager: transaction manager to use, if any
+        :return: groups removed from the container
+        """
         if transfer:
             # the object may only leave its group once it is in the primary
             fn = lambda group, key: (
@@ -350,12 +355,14 @@ class Container(Persistent, ContainerProperties):
 
         if transfer:
             discarded = list(source_groups)
+            remaining = tuple(group for group in self.groups
+                              if not any(group is src for src in discarded))
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.primary,)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.primary,)
+                self.___groups___ = remaining
             return discarded
         return []
 
-- 
2.43.0


From b85fbb0b6fc5960a1af22be7aac5a6a45c46bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 14/70] fix: resize refuses a capacity below the number of
 stored objects

---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index bb8ecd1..4d44130 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -271,6 +271,10 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        if capacity < self.size:
+            raise ValueError(f'Cannot resize to {capacity}; container holds ' +
+                             f'{self.size} objects')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 45eb62c47327427eddfdbf9e4392f09701dd9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 15/70] fix: a transaction whose commit fails is aborted and
 autocommit restored

---
 citrine/persistence.py         | 22 ++++++++++++-----
 citrine/storage/transaction.py | 44 ++++++++++++++++++++++++----------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..eb48922 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -38,14 +38,24 @@ class CitrineTransactionManager(TransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except Exception:
+            # a failed commit must not leave its transaction (or the lack of
+            # autocommit) behind for the operations that come after it
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class CitrineThreadTransactionManager(ThreadTransactionManager):
diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..51afb71 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,24 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except Exception:
+            # a failed commit must not leave its transaction (or the lack of
+            # autocommit) behind for the operations that come after it
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +67,24 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except Exception:
+            # a failed commit must not leave its transaction (or the lack of
+            # autocommit) behind for the operations that come after it
             self.abort()
             self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From 95a3f1817788d6012bad643a0c0feb8c1ed9e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 16/70] fix: indexing a connection by several ids accepts falsy
 values

---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From 818fce5780ee47ef0f6f79c53472bc0cd578833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 17/70] fix: ContainerDb opens its storage once, so existing
 databases can be opened by path

---
 citrine/database/containerdb.py | 65 +++++++++++++++++----------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..990cc1c 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,6 +1,7 @@
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
+from ZODB.MappingStorage import MappingStorage
 from ZODB.POSException import POSKeyError
 
 from citrine.connection.container_connection import ContainerConnection
@@ -98,35 +99,15 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
-        try:
-            super().__init__(
-                storage=storage, pool_size=pool_size,
-                pool_timeout=pool_timeout, cache_size=cache_size,
-                cache_size_bytes=cache_size_bytes,
-                historical_pool_size=historical_pool_size,
-                historical_cache_size=historical_cache_size,
-                historical_cache_size_bytes=historical_cache_size_bytes,
-                historical_timeout=historical_timeout,
-                database_name=database_name, databases=databases,
-                xrefs=xrefs, large_record_size=large_record_size,
-                **storage_args)
-        except POSKeyError:
-            # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
-                self.close()
-            db = DB(storage)
-            conn = db.open()
-            with conn.transaction_manager as tm:
-                # if this exists, do nothing, the exception is unrelated to
-                # the database being new!!
-                if not getattr(conn.root, 'container', None):
-                    conn.root.container = Container.new()
-                    tm.commit()
-            conn.close()
-            if not isinstance(storage, FileStorage):
-                db.close()
-        super().__init__(
+        # the storage is opened once, here, as it may be needed more than once
+        own_storage = storage is None or isinstance(storage, str)
+        if storage is None:
+            storage = MappingStorage(**storage_args)
+        elif own_storage:
+            storage = FileStorage(storage, **storage_args)
+        else:
+            assert not storage_args
+        db_args = dict(
             storage=storage, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
             cache_size_bytes=cache_size_bytes,
@@ -135,8 +116,30 @@ class ContainerDb(DB):
             historical_cache_size_bytes=historical_cache_size_bytes,
             historical_timeout=historical_timeout,
             database_name=database_name, databases=databases,
-            xrefs=xrefs, large_record_size=large_record_size,
-            **storage_args)
+            xrefs=xrefs, large_record_size=large_record_size)
+        try:
+            try:
+                super().__init__(**db_args)
+            except POSKeyError:
+                # often happens if the db is newly created
+                if databases is not None:
+                    databases.pop(database_name, None)
+                db = DB(storage)
+                conn = db.open()
+                with conn.transaction_manager as tm:
+                    # if this exists, do nothing, the exception is unrelated to
+                    # the database being new!!
+                    if not getattr(conn.root, 'container', None):
+                        conn.root.container = Container.new()
+                        tm.commit()
+                conn.close()
+                # closing db would close the storage, which is still needed
+                super().__init__(**db_args)
+        except Exception:
+            # do not leave a storage that nobody can reach open (and locked)
+            if own_storage:
+                storage.close()
+            raise
 
     @classmethod
     def create(cls, file_name: str, capacity: int = DEFAULT_CONTAINER_SIZE,
-- 
2.43.0


From 023e4070defce948343fd3793c680ef371bf86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 18/70] fix: ContainerDb.create does not replace the container
 of an existing database

---
 citrine/database/containerdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 990cc1c..cd49306 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -189,8 +189,10 @@ class ContainerDb(DB):
         # store the container in the database
         conn = DB(storage).open()
         with conn.transaction_manager as tm:
-            conn.root.container = container
-            tm.commit()
+            # an existing database keeps its contents
+            if not getattr(conn.root, 'container', None):
+                conn.root.container = container
+                tm.commit()
         conn.close()
         return storage
 
-- 
2.43.0


From 500b07a7960c6baaf2fecd2f57449c993fe4f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 19/70] fix: a connection's autocommit setting is the one its
 operations follow

---
 citrine/connection/container_connection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index d88131b..b4467c9 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -70,7 +70,6 @@ class ContainerConnectionProperties:
     # should be overridden by instances of implementing class
     ___metadata___ = None
     ___root___ = None
-    ___autocommit___ = None
 
     @property
     def container(self):
@@ -133,13 +132,12 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        return self.transaction_manager.autocommit
 
     @autocommit.setter
     def autocommit(self, value):
         if not isinstance(value, bool):
             raise TypeError("'autocommit' must be a boolean")
-        self.___autocommit___ = value
         self.transaction_manager.autocommit = value
 
 
@@ -155,10 +153,11 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         super().__init__(db=db, cache_size=cache_size, before=before,
                          cache_size_bytes=cache_size_bytes)
         self.___metadata___ = ContainerConnectionMeta(self)
-        self.___autocommit___ = autocommit
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
+        if not autocommit:
+            self.transaction_manager.autocommit = False
         self.open(self.transaction_manager)
 
         self.___root___ = self.root
-- 
2.43.0


From f669edb4c13e1f09fd1b97a341f40bc9862ab971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 20/70] fix: a group read raises when several databases hold
 the id

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..7d096e2 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From 922d45fa38fedf50856b36e681725314f95519d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 21/70] fix: group reads accept a timeout

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 7d096e2..61a3055 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 132ca617a62a47bd39e22473e56b406e985a74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 22/70] fix: group reads can return multiple results

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 61a3055..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From 4624da437a0c427ca3b163ba0c28626349499906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 23/70] fix: per-database connection arguments override the
 group defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From b7541884f95df6d876964c2609c42e51d7c198cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 24/70] fix: expanding a DbContainer keeps the stored objects
 reachable

---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index eb48922..69ed97f 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -129,10 +129,14 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        items = [item for container in self.containers.values()
+                 for item in container.items()]
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        # the container an id belongs to depends on the number of containers
+        for id, obj in items:
+            self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 3ea3648b48eab2687581ff512236d3446202721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 25/70] fix: CitrineThreadTransactionManager provides what
 autocommit needs

---
 citrine/persistence.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 69ed97f..48a254b 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -68,6 +68,13 @@ class CitrineThreadTransactionManager(ThreadTransactionManager):
         super().__init__()
         self.manager = CitrineTransactionManager()
 
+    def __getattr__(self, name):
+        # autocommit, logger, and transaction_uuid belong to the manager of the
+        # current thread
+        if name == 'manager':
+            raise AttributeError(name)
+        return getattr(self.manager, name)
+
 
 def autocommit(fn):
     """
-- 
2.43.0


From 6c1280dd52de1fc10555733f51d22e67de94aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 26/70] fix: ManagedConnection.setup creates a valid container

---
 citrine/connection/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/connection.py b/citrine/connection/connection.py
index f8d8f4b..0d0c03c 100644
--- a/citrine/connection/connection.py
+++ b/citrine/connection/connection.py
@@ -156,7 +156,7 @@ class ManagedConnection(CitrineConnection):
             logging.warning('MISSING CONTAINER OBJECT "root.container", ' +
                             'CREATING NEW')
             with self:
-                self.root.container = Container()
+                self.root.container = Container.new()
 
         if not hasattr(self.root, 'meta'):
             logging.warning('MISSING METADATA OBJECT "root.meta", ' +
-- 
2.43.0


From 80f4f16bedff9cb5413525354479d8dcb521ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 27/70] fix: generated database modules can be imported

---
 citrine/cluster_tools/dbmodule/consts.py   | 8 ++++----
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..d9535c9 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,10 +6,10 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = True
 '''
@@ -18,10 +18,10 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = False
 '''
diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..00b7153 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -140,7 +140,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 614b829dc82624905db9283eea768658b598e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 28/70] fix: overwriting an existing database module replaces
 it

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 00b7153..1a35521 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,10 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
@@ -175,7 +178,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From 473c75a884d16740c16ff4f724f6125565db172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 29/70] fix: deleting a database module only deletes the
 module's own files

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 1a35521..112de83 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -60,8 +60,9 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
         return
     name = split(path)[1]
     affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
-                    or file == '__init__.py']
+                if isfile(join(path, file))
+                and (file in (name, '__init__.py')
+                     or file.startswith(f'{name}.'))]
     for file in affected:
         remove(file)
     if remove_empty and not len(listdir(path)):
-- 
2.43.0


From 65a610742f25aab63fcd7ec050974103db9c04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 30/70] fix: a destroyed database module leaves its group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From 68d0591113e8d7eec85b1378190ded77bed21d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 31/70] fix: condensing with a transaction manager commits
 every object

A transaction that has been committed ignores further commits, so all but the
first object only reached the database when the whole operation ended.
---
 citrine/storage/container.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4d44130..53d5344 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -347,10 +347,14 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
-                        fn(group, key)
+            for group in source_groups:
+                for key in list(group.keys()):
+                    # a transaction can only be committed once, so every object
+                    # needs one of its own
+                    with transaction_manager as tm:
+                        # it may have been deleted since the keys were listed
+                        if group.has_key(key):
+                            fn(group, key)
                         tm.commit()
         else:
             for group in source_groups:
-- 
2.43.0


From 5797e7a4b6acb3d52483b851c0e9ac5613c45951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 32/70] fix: storage.storage can be imported

---
 citrine/storage/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/storage.py b/citrine/storage/storage.py
index a81e631..1019942 100644
--- a/citrine/storage/storage.py
+++ b/citrine/storage/storage.py
@@ -4,7 +4,7 @@ Classes and functions for managing a single object database
 from ZODB import DB
 
 from citrine.exceptions import CitrineIncompatibleMethodError
-from citrine.connection import ManagedConnection
+from citrine.connection.connection import ManagedConnection
 
 from citrine.storage.transaction import TransactionManager
 
-- 
2.43.0


From fe7122b0cb5bdb1a806628c52034922a316c8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 33/70] fix: auto_transaction disables automatic transactions,
 as documented

---
 citrine/persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index 48a254b..69ab553 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -87,7 +87,7 @@ def autocommit(fn):
 
     def decorator(obj, id, *args, **kwargs):
         tm = obj.transaction_manager
-        if not tm.autocommit:
+        if not (tm.autocommit and getattr(obj, 'auto_transaction', True)):
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
             return fn(obj, id, *args, **kwargs)
-- 
2.43.0


From a582c33aaf6c9e655cae8aec15f7ea9464aec386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 34/70] fix: properties defined after "object" accept objects

The class that defines the "object" property hides the Object model in the
rest of the module, so target, result, to, tag, preview, subject, describes
and the like refused every object.
---
 activitystreams/properties.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..b0aa96a 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -16,6 +16,7 @@ from jsonld.tools import is_activity_datetime, \
 from jsonld.tools import is_nonnegative
 from jsonld.tools import SetterValidator
 
+from activitystreams import models
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
@@ -691,7 +692,7 @@ class Object(ActivityStreamsProperty):
 
     @object.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def object(self, val):
         self.___object___ = val
 
@@ -735,7 +736,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +760,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +808,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(models.Object, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +835,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +858,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(models.Object, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1341,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(models.Object, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1357,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(models.Object, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1373,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(models.Object,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1389,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(models.Object,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 70d154eedae840550ac3b32f6037871a6e1c6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 35/70] fix: hreflang keeps the value it is given

The setter wrote to a different attribute than the getter reads.
---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index b0aa96a..8696f92 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1027,7 +1027,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From b208f54d8b89652e591426fc3d42f4f70a8a71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 36/70] fix: deleted and closed accept timestamps in JSON

Neither property took a string, so documents that state when a question was
closed or an object was deleted could not be read.
---
 activitystreams/properties.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 8696f92..616947e 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -618,9 +618,11 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
-        self.___closed___ = val
+        self.___closed___ = parse_activitystream_datetime(val) \
+            if isinstance(val, str) else val
 
 
 class Origin(ActivityStreamsProperty):
@@ -1412,7 +1414,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 35ce73b757c6f311d58520df0d65cb4c38f09281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 37/70] fix: Tombstone sets the formerType property

The constructor took former_type, which is not the name of the property, so
the value was lost; and the property refused the name of a type, which is what
the vocabulary's own examples give.
---
 activitystreams/models.py     | 4 ++--
 activitystreams/properties.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..8f44f81 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -917,9 +917,9 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, formerType=None, deleted=None, **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = formerType
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 616947e..e92378c 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1391,7 +1391,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(models.Object,)).check
+    @SetterValidator(types=(models.Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 8f34d917801bf1a4be93fb922e94c4bdbd7c9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 38/70] fix: linking the type property keeps the namespace of
 Object and Link

A package replaces the "type" attribute of the classes it links the type
property to, so the namespace of its Object and Link ended in the description
of a property object: engines could not read {"type": "Object"} or
{"type": "Link"}, and silently dropped such values inside other objects.
---
 activitystreams/models.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 8f44f81..903b341 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -20,6 +20,18 @@ ACTIVITYSTREAMS_NS = 'https://www.w3.org/ns/activitystreams'
 SECURE_URLS_ONLY = False
 
 
+def type_name(cls):
+    """
+    Gets the name of the type a class represents. Packages replace the "type"
+    attribute of classes that have the property linked to them with a property
+    object, so the name has to come from the first class that still has it
+    :param cls: class to get the type of
+    :return: name of the type
+    """
+    return next(val for val in (kls.__dict__.get('type') for kls in cls.mro())
+                if isinstance(val, str))
+
+
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
 # CORE TYPES
 #   REF: https://www.w3.org/TR/activitystreams-vocabulary/#types
@@ -42,7 +54,7 @@ class Object(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -99,7 +111,7 @@ class Link(ApplicationActivityJson):
     @classmethod
     def __get_namespace__(cls):
         # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        return f'{ACTIVITYSTREAMS_NS}#{type_name(cls)}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From a4596f4cd96ea50c5b85cd345e4522062facdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 39/70] fix: Object and Link keep the type and id they are
 given

Once the type property is linked, the attribute always exists, with the value
None, so the type passed to the constructor was never used; Link did not set
its id at all.
---
 activitystreams/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 903b341..6b20bcb 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -67,7 +67,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -116,12 +116,13 @@ class Link(ApplicationActivityJson):
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
                  context=None, type=None,
-                 acontext=ACTIVITYSTREAMS_NS,
+                 acontext=ACTIVITYSTREAMS_NS, id=None,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
         # __get_properties__ on classes
         ApplicationActivityJson.__init__(self, acontext=acontext)
+        self.id = id
         self.href = href
         self.rel = rel
         self.mediaType = mediaType
@@ -131,7 +132,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 5f9a56cd929face35eb665dd7c9869a16b999f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 40/70] fix: collections keep their items

Once the items property is linked, the attribute always exists, with the value
None, so the items passed to the constructor were never used;
OrderedCollectionPage did not pass them on at all.  Iterating over a
collection without items raised a TypeError.
---
 activitystreams/models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 6b20bcb..cd209b0 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -365,7 +365,8 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        if getattr(self, 'items', None) is None:
+            self.items = items
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
@@ -375,7 +376,7 @@ class Collection(Object):
 
     def __iter__(self):
         if not self.items:
-            yield
+            return
         for item in self.items:
             yield item
 
@@ -486,8 +487,8 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 cc=cc, bcc=bcc, mediaType=mediaType,
                                 duration=duration, totalItems=totalItems,
                                 current=current, first=first, last=last,
-                                partOf=partOf, next=next, prev=prev,
-                                acontext=acontext)
+                                items=items, partOf=partOf, next=next,
+                                prev=prev, acontext=acontext)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From 2d69618c80fd310b4293b28645a6a723befa585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 41/70] fix: ordered collections count their items, and no link
 is opened for it

Without totalItems in the data, an ordered collection claimed to have none
however many it had.  Counting read the items property, which requests the
collection from the web when the items are given as a link.
---
 activitystreams/models.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index cd209b0..93fb9ff 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -7,7 +7,6 @@ handled correctly.
 # Vocabulary document. This whole module is intentionally barely one level of
 # abstraction from the spec
 import logging
-from collections.abc import Sized
 
 from jsonld import ApplicationActivityJson
 from jsonld import jsonld_get
@@ -367,11 +366,14 @@ class Collection(Object):
         # they should be given precedence
         if getattr(self, 'items', None) is None:
             self.items = items
+        else:
+            items = self.items
 
         # supplied value takes priority, followed by size of items if they are
-        # sizeable, defaulting to 0 if not
+        # sizeable, defaulting to 0 if not. Reading the property would open a
+        # link, so this looks at the value itself
         self.totalItems = totalItems if totalItems else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
+            len(items) if isinstance(items, (list, tuple, set)) else 0
         )
 
     def __iter__(self):
@@ -411,6 +413,8 @@ class OrderedCollection(Collection):
                          current=current, first=first, last=last,
                          acontext=acontext, **kwargs)
         self.orderedItems = orderedItems
+        if not totalItems and isinstance(orderedItems, (list, tuple, set)):
+            self.totalItems = len(orderedItems)
 
 
 class CollectionPage(Collection):
@@ -467,9 +471,6 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                  first=None, last=None, items=None, partOf=None, next=None,
                  prev=None, startIndex=None, orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
-        # OrderedCollection has no special handling in its init that
-        # CollectionPage doesn't already do
-        OrderedCollection.__init__(self, orderedItems=orderedItems)
         CollectionPage.__init__(self, id=id, type=type,
                                 attachment=attachment,
                                 attributedTo=attributedTo,
@@ -489,6 +490,11 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 current=current, first=first, last=last,
                                 items=items, partOf=partOf, next=next,
                                 prev=prev, acontext=acontext)
+        # OrderedCollection has no other special handling in its init that
+        # CollectionPage doesn't already do
+        self.orderedItems = orderedItems
+        if not totalItems and isinstance(orderedItems, (list, tuple, set)):
+            self.totalItems = len(orderedItems)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From c948f375919cedb1712b6a490411e0b24f20a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 42/70] fix: engines can be made from several packages

Whatever was passed was wrapped in a tuple, even a list of packages, and adding
or subtracting a package or an engine raised a TypeError.
---
 jsonld/engine/jsonld_engine.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..1805079 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -3,7 +3,6 @@ Module for storing the JsonLdEngine class, which is capable of transforming
 json text into python objects (and vice-versa) based on the loaded packages
 """
 import logging
-from collections.abc import Iterable
 from typing import Iterable as typeIterable
 
 from jsonld.engine.json_input import PropertyJsonIntake
@@ -17,7 +16,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = (packages,) if isinstance(packages, JsonLdPackage) \
+            else tuple(packages)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
@@ -34,7 +34,7 @@ class JsonLdEngine(PropertyJsonIntake):
     @property
     def packages(self):
         if not hasattr(self, '___packages___'):
-            self.__packages___ = tuple()
+            self.___packages___ = tuple()
         return self.___packages___
 
     def __load_objects(self) -> None:
@@ -69,6 +69,12 @@ class JsonLdEngine(PropertyJsonIntake):
         # give registered classes a reference back to their engine
         setattr(cls, '__jsonld_engine__', self)
 
+    def __without(self, packages) -> tuple:
+        # packages are identified by their (unique) namespace
+        removed = {package.namespace for package in packages}
+        return tuple(package for package in self.packages
+                     if package.namespace not in removed)
+
     # TODO: set up method that handles queues and connect to __getitem__ for
     #   easy handling of a data queue (vital for multithreading!)
     def __getitem__(self, keys):
@@ -90,7 +96,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -102,10 +108,10 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(self.__without((other,)))
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            return JsonLdEngine(self.__without(other.packages))
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From 35f394dd2aba882286d47ee6c93b74a701bd3692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 43/70] fix: packages do not require a property mapping

The mapping is optional, but leaving it out raised an AttributeError.
---
 jsonld/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..80b3534 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping if property_mapping else {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From 2cf431f0dca668b544c6d12214c2ea21b4b3d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 44/70] fix: combining packages keeps properties and the links
 to them

Adding or subtracting packages lost the property mapping, and subtracting kept
properties of the package that was subtracted instead of those that remain.
---
 jsonld/package.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 80b3534..73c1357 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -156,8 +156,13 @@ class JsonLdPackage(ClassCloner):
                            if prp.__get_namespace__() not in new_namespaces)
         properties = kept_props + other.properties
 
+        # links made by either package hold in the combined package
+        mapping = {ns: (*self.property_mapping.get(ns, ()),
+                        *other.property_mapping.get(ns, ()))
+                   for ns in (*self.property_mapping, *other.property_mapping)}
+
         return JsonLdPackage(namespace=self.namespace, objects=objects,
-                             properties=properties)
+                             properties=properties, property_mapping=mapping)
 
     def __sub__(self, other):
         if not isinstance(other, JsonLdPackage):
@@ -167,9 +172,16 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
+        # links between what remains are kept
+        mapping = {obj_ns: tuple(ns for ns in prp_ns
+                                 if ns not in removed_prp_ns)
+                   for obj_ns, prp_ns in self.property_mapping.items()
+                   if obj_ns not in removed_obj_ns}
+
         return JsonLdPackage(namespace=self.namespace,
                              objects=remaining_objs,
-                             properties=remaining_prps)
+                             properties=remaining_prps,
+                             property_mapping=mapping)
-- 
2.43.0


From 70f09294f33c2655dba54eeecb2da67b43713931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 45/70] fix: reading an object of unknown type raises the
 ValueError meant for it

The exception was created but not raised, and reading the object then failed
with "'NoneType' object has no attribute '__get_properties__'".
---
 jsonld/engine/json_input.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..258b241 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -61,10 +61,7 @@ class PropertyJsonIntake:
             class_type = 'default'
 
         # gets the class for the object that needs to be created from the
-        object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
-        return object_class
+        return self.class_registry.get(class_type)
 
     def _unpack_objects(self, data, context):
         """
@@ -112,6 +109,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From e0d5a7e9d673cde8a11fd9357fbdfff47f35fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 46/70] fix: data without a context can be read

The default context was an http URL, which the document loader that is
installed with the package refuses.
---
 jsonld/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/utils.py b/jsonld/utils.py
index a852f12..77eb3f3 100644
--- a/jsonld/utils.py
+++ b/jsonld/utils.py
@@ -33,7 +33,7 @@ JSON_LD_KEYMAP = {
 }
 
 DEFAULT_TYPE = 'https://www.w3.org/ns/activitystreams#Object'
-DEFAULT_CONTEXT = "http://www.w3.org/ns/activitystreams#"
+DEFAULT_CONTEXT = "https://www.w3.org/ns/activitystreams"
 
 DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
-- 
2.43.0


From 33b862485c60bb6a7306eb40d0ba4c162fb24bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 47/70] fix: booleans and None are written to JSON as such

They became the strings "True", "False" and "None".
---
 jsonld/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..05522e7 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -43,6 +43,8 @@ class PropertyJsonLD(PropertyAwareObject):
         self.___acontext___ = value
 
     __data_handler_fns = {
+        type(None): lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
-- 
2.43.0


From b430fc9699f5a860f12d9e25d8c5a38d4837e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 48/70] fix: nested objects keep properties whose name is part
 of "acontext"

The name of the property to leave out was passed as a plain string, so the
test for it matched parts of the string as well, such as "context".
---
 jsonld/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 05522e7..f46be80 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -57,7 +57,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From c76029d768c6be6b2810ee290452bd145b77cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 49/70] fix: classes do not take over the property list of a
 parent class

Whenever an object of the parent class had been created before, the properties
that the inheriting class adds were left out of its JSON.
---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..22187e0 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -321,7 +321,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        # the copy of a parent class is not the one of this class
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From 4c83daf241141b005dc91a1d8841b9eb8429c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 50/70] fix: converting an object does not change the namespace
 of other classes

Moving an Object into a package stored its namespace on the class, from where
all classes of the package inherited it: every Note claimed to be an Object
from then on, and Mentions claimed to be Links.
---
 jsonld/kamino.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..31e5122 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -112,6 +112,9 @@ class ClassCloner:
                  for name in getattr(obj, '__properties__', ())}
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
+        # the namespace belongs to the class, the new one has its own; setting
+        # it would change the class for every object, and its child classes
+        data.pop('__namespace__', None)
         obj.__class__ = new_class
         obj.__properties__ = obj.__get_properties__(refresh=True)
         for name, val in data.items():
-- 
2.43.0


From 9c70a501a20b58ae31d815fa9d086230019a9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 51/70] fix: the whole host of a URL is checked for characters
 it cannot contain

The check only looked at the first character.
---
 jsonld/docloader.py | 2 +-
 jsonld/tools/url.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From 6726559eb17f5dd898352fc6baa5a45ff3224d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 52/70] fix: writing a datetime keeps the instant

Datetimes of other timezones were written with their local time marked as UTC,
and fractions of seconds were dropped.
---
 jsonld/tools/datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..b708b0b 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -74,6 +74,8 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement handling for timezone-aware datetimes
-    # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    # "Z" is UTC, so a datetime that knows its timezone is moved there first
+    if obj.tzinfo is not None:
+        obj = obj.astimezone(timezone.utc)
+    return obj.strftime('%Y-%m-%dT%H:%M:%S.%fZ' if obj.microsecond
+                        else '%Y-%m-%dT%H:%M:%SZ')
-- 
2.43.0


From 0a712143a6caf4580710ea94827b2512bf515c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 53/70] fix: kinds of text and dictionaries are written to JSON
 as such

A subclass of str was written as a list of characters, and one of dict (or
any other mapping) as a list of its keys, without the values.
---
 jsonld/jsonld.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index f46be80..20c0cfc 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -3,7 +3,7 @@ Tools for working with json-ld data
 """
 import logging
 import json
-from collections.abc import Iterable
+from collections.abc import Iterable, Mapping
 from numbers import Number
 
 from jsonld.base import PropertyAwareObject, contextualproperty
@@ -60,6 +60,11 @@ class PropertyJsonLD(PropertyAwareObject):
             return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
+        # kinds of text and dictionaries are iterable, but not lists
+        if isinstance(value, str):
+            return value
+        if isinstance(value, Mapping):
+            return self.__data_handler_fns[dict](value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From b8f146e5e4cdec68f7d8c85899d33767525e2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 54/70] fix: urls that cannot be parsed are invalid, not an
 error

Text such as "http://[" made the check raise a ValueError, so that properties
that take any text, such as url, refused it.
---
 jsonld/tools/url.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index b053ed4..2b6c111 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -38,7 +38,11 @@ def validate_url(url, secure: bool = False, **kwargs):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference url that cannot be parsed')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
-- 
2.43.0


From d8ab309e1b4dceeaea5f97876e4de18988cbf4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 55/70] fix: writing and deleting fail when the container was
 resized meanwhile

---
 citrine/storage/container.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 53d5344..edc7eef 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -354,6 +354,7 @@ class Container(Persistent, ContainerProperties):
                     with transaction_manager as tm:
                         # it may have been deleted since the keys were listed
                         if group.has_key(key):
+                            self.__keep_groups()
                             fn(group, key)
                         tm.commit()
         else:
@@ -401,6 +402,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier for the object to be stored
         :param obj: the object to be stored
         """
+        self.__keep_groups()
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -411,9 +413,19 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
+        self.__keep_groups()
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
+    def __keep_groups(self):
+        """
+        Makes the running transaction fail if the groups of the container are
+        changed (e.g. by a resize) before it is committed, as it would write to
+        the primary group, or delete from the groups, of the past.
+        """
+        if self._p_jar is not None:
+            self._p_jar.readCurrent(self)
+
     def __add__(self, other):
         """
         Combines either two containers or a container and a group. The
-- 
2.43.0


From 063b9f18f0e95af4f24597f3d0937734afe90ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:19 +0000
Subject: [PATCH 56/70] fix: the groups of a container are looked up in the
 transaction that changes them

---
 citrine/storage/container.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index edc7eef..bb884e1 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -290,16 +290,12 @@ class Container(Persistent, ContainerProperties):
         )
 
         # set the new group as the primary and makes the old primary a secondary
-        old_primary = self.primary
-        groups = (new_primary, old_primary) + self.secondaries
         if transaction_manager:
             with transaction_manager as tm:
-                self.___groups___ = groups
-                self.___primary___ = new_primary
+                old_primary = self.__set_primary(new_primary)
                 tm.commit()
         else:
-            self.___groups___ = groups
-            self.___primary___ = new_primary
+            old_primary = self.__set_primary(new_primary)
 
         if condense:
             return self.condense(transfer=transfer,
@@ -308,6 +304,19 @@ class Container(Persistent, ContainerProperties):
         # groups have to stay in the container (and readable) all along
         return self.__merge((old_primary,), transfer, transaction_manager)
 
+    def __set_primary(self, new_primary):
+        """
+        Places a new primary group in front of all others. The groups there are
+        have to be looked up in the transaction that changes them.
+
+        :param new_primary: group to use as the primary
+        :return: the previous primary group
+        """
+        old_primary = self.primary
+        self.___groups___ = (new_primary, old_primary) + self.secondaries
+        self.___primary___ = new_primary
+        return old_primary
+
     def condense(self, transfer: bool = True, transaction_manager=None) \
             -> List[Group]:
         """
@@ -364,17 +373,24 @@ class Container(Persistent, ContainerProperties):
 
         if transfer:
             discarded = list(source_groups)
-            remaining = tuple(group for group in self.groups
-                              if not any(group is src for src in discarded))
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = remaining
+                    self.__discard(discarded)
                     tm.commit()
             else:
-                self.___groups___ = remaining
+                self.__discard(discarded)
             return discarded
         return []
 
+    def __discard(self, discarded):
+        """
+        Removes groups from the container
+
+        :param discarded: the groups to remove
+        """
+        self.___groups___ = tuple(group for group in self.groups
+                                  if not any(group is src for src in discarded))
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
-- 
2.43.0


From d28b59bcdaf750266f895a9db1a9a4ea86ec2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 57/70] fix: merging groups keeps the objects that can be read

---
 citrine/storage/container.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index bb884e1..c6393bb 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -348,12 +348,15 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: groups removed from the container
         """
+        # what gets into the primary hides everything stored for the key, so it
+        # has to be the object that is read for it, which may not be the one of
+        # the group if the groups were changed meanwhile
         if transfer:
             # the object may only leave its group once it is in the primary
             fn = lambda group, key: (
-                self.primary.insert(key, group.get(key)), group.pop(key))
+                self.primary.insert(key, self.read(key)), group.pop(key))
         else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+            fn = lambda group, key: self.primary.insert(key, self.read(key))
 
         if transaction_manager:
             for group in source_groups:
-- 
2.43.0


From 5a49c30c7260bebaaf6b3ea726df2d43336e5e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 58/70] fix: an object that only a secondary group holds can be
 deleted, hidden, or copied by one transaction at a time

---
 citrine/storage/collection.py | 23 +++++++++++++++++++++++
 citrine/storage/container.py  | 19 ++++++++++++++++++-
 citrine/storage/group.py      |  9 +++++++++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index c28de9d..c14a054 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -2,6 +2,7 @@
 Classes and functions for managing collections of objects into a ZODB database.
 """
 import logging
+from bisect import bisect_right
 from math import ceil
 from uuid import uuid4
 
@@ -292,3 +293,25 @@ class Collection(Persistent):
         :return: whether the key is present as a boolean
         """
         return self.tree.has_key(key)
+
+    def read_current(self, key=None):
+        """
+        Makes the running transaction fail if another one is committed before
+        it that changes what is stored for the key, or that is the first to
+        store anything if there is no key. Does nothing if the collection is
+        not in a database.
+        :param key: the identifier, which does not need to be present
+        """
+        node = self.tree
+        # go down to the bucket the key belongs to; if there is only a single
+        # one, it is stored as a part of the tree
+        while key is not None and isinstance(node, BTree):
+            state = node.__getstate__()
+            if state is None or len(state) == 1:
+                break
+            nodes = state[0]
+            node = nodes[2 * bisect_right(nodes[1::2], key)]
+        if node._p_jar is not None:
+            # it has to be loaded to have a version
+            node._p_activate()
+            node._p_jar.readCurrent(node)
diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index c6393bb..ff8e673 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -356,7 +356,11 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: (
                 self.primary.insert(key, self.read(key)), group.pop(key))
         else:
-            fn = lambda group, key: self.primary.insert(key, self.read(key))
+            # the object must not be deleted, or written to one of the other
+            # groups, meanwhile
+            fn = lambda group, key: (
+                self.primary.insert(key, self.read(key)),
+                [other.read_current(key) for other in self.secondaries])
 
         if transaction_manager:
             for group in source_groups:
@@ -391,6 +395,10 @@ class Container(Persistent, ContainerProperties):
 
         :param discarded: the groups to remove
         """
+        # nothing may be stored in them meanwhile
+        for group in discarded:
+            for collection in group.collections:
+                collection.read_current()
         self.___groups___ = tuple(group for group in self.groups
                                   if not any(group is src for src in discarded))
 
@@ -422,6 +430,12 @@ class Container(Persistent, ContainerProperties):
         :param obj: the object to be stored
         """
         self.__keep_groups()
+        # an object of another group is not replaced but hidden, which must not
+        # undo its removal
+        if not self.primary.has_key(id):
+            for group in self.secondaries:
+                if group.has_key(id):
+                    group.read_current(id)
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -433,6 +447,9 @@ class Container(Persistent, ContainerProperties):
         :return: removed object
         """
         self.__keep_groups()
+        # the object must not be written (or copied) to the primary meanwhile
+        if self.has(id) and not self.primary.has_key(id):
+            self.primary.read_current(id)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 472e4d1..13e07a7 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -528,3 +528,12 @@ class Group(Persistent):
         :return: whether the key is present as a boolean
         """
         return Collection.has_key
+
+    @groupfn
+    def read_current(self, key):
+        """
+        Makes the running transaction fail if another one is committed before
+        it that changes what is stored for the key
+        :param key: the identifier, which does not need to be present
+        """
+        return Collection.read_current
-- 
2.43.0


From fed145a7bf823ea3d1e6d1aa039ae9a43200a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 59/70] fix: condensing without a transaction manager fails
 when the container was resized meanwhile

---
 citrine/storage/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index ff8e673..fe388db 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -374,6 +374,7 @@ class Container(Persistent, ContainerProperties):
                             fn(group, key)
                         tm.commit()
         else:
+            self.__keep_groups()
             for group in source_groups:
                 for key in list(group.keys()):
                     fn(group, key)
-- 
2.43.0


From 3ced25f85180f0206c19bac12a4306d6500e191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:45 +0000
Subject: [PATCH 60/70] fix: an answer that reports an error is not loaded as a
 document

---
 jsonld/docloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index cd27967..3e41efe 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -76,6 +76,8 @@ class RequestsJsonLoader:
 
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
         response = requests.get(url, headers=self.headers)
+        # what comes with an error is not the document that was asked for
+        response.raise_for_status()
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 50224862f4bd1b1d644988d9072cb54fed15b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:24 +0000
Subject: [PATCH 61/70] fix: deleting a database module deletes its compiled
 code

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 112de83..7fb08a9 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -65,6 +65,8 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
                      or file.startswith(f'{name}.'))]
     for file in affected:
         remove(file)
+    # importing the module may have left its compiled code there
+    rmtree(join(path, '__pycache__'), ignore_errors=True)
     if remove_empty and not len(listdir(path)):
         rmdir(path)
 
-- 
2.43.0


From 63ca290b98e0c48f1cb9cd02960c41f3e4ce2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:54 +0000
Subject: [PATCH 62/70] fix: a database module is opened and deleted whatever
 the spelling of its path

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 7fb08a9..b5a9713 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, basename, join, exists, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -55,10 +55,12 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     If ``remove`` is True, then the entire directory will be destroyed no matter
     what. This will supersede ``remove_empty``.
     """
+    # the path may end with a separator or be relative to the module
+    path = abspath(path)
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    name = basename(path)
     affected = [join(path, file) for file in listdir(path)
                 if isfile(join(path, file))
                 and (file in (name, '__init__.py')
@@ -102,7 +104,8 @@ def import_db(path):
     """
     # imports the db, opens it, and returns the object
     from importlib.util import spec_from_file_location, module_from_spec
-    init_path = join(path, '__init__.py')
+    # the module is named after its directory, however the path is spelled
+    init_path = join(abspath(path), '__init__.py')
     if not exists(init_path):
         raise FileNotFoundError(init_path)
     spec = spec_from_file_location('db', init_path)
-- 
2.43.0


From 8255b671447cc50fc81e163c60d9c76c31721f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:54 +0000
Subject: [PATCH 63/70] fix: an empty mapping given to a module registry is
 used

---
 citrine/cluster_tools/clusterdb/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..f6149eb 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -40,7 +40,7 @@ class ClusterRegistryContainer(Persistent):
 
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
-        self.modules = modules if modules else PersistentMapping()
+        self.modules = modules if modules is not None else PersistentMapping()
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From a5a221b4903100b658e1babcdec8f2a6264bb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:33 +0000
Subject: [PATCH 64/70] fix: blocks of a database may be nested and used by
 several threads

---
 citrine/database/containerdb.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index cd49306..0d9b75e 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+from threading import local
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -99,6 +101,8 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        # blocks may be nested, and entered by several threads at a time
+        self.__context_manager_connections = local()
         # the storage is opened once, here, as it may be needed more than once
         own_storage = storage is None or isinstance(storage, str)
         if storage is None:
@@ -387,8 +391,10 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        entered = self.__context_manager_connections.__dict__.setdefault(
+            'entered', [])
+        entered.append(self.open())
+        return entered[-1]
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        self.__context_manager_connections.entered.pop().close()
-- 
2.43.0


From 638b4d55a3761fe7a848b974e6c7fd852c50f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 65/70] fix: blocks of a managed storage may be nested and used
 by several threads

---
 citrine/storage/storage.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/citrine/storage/storage.py b/citrine/storage/storage.py
index 1019942..ee1cb43 100644
--- a/citrine/storage/storage.py
+++ b/citrine/storage/storage.py
@@ -1,6 +1,8 @@
 """
 Classes and functions for managing a single object database
 """
+from threading import local
+
 from ZODB import DB
 
 from citrine.exceptions import CitrineIncompatibleMethodError
@@ -89,6 +91,8 @@ class ManagedStorage(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        # blocks may be nested, and entered by several threads at a time
+        self.__context_connections = local()
         super().__init__(storage=storage, pool_size=pool_size,
                          pool_timeout=pool_timeout, cache_size=cache_size,
                          cache_size_bytes=cache_size_bytes,
@@ -165,8 +169,9 @@ class ManagedStorage(DB):
         DOES NOT ALLOW FOR USING AN EXISTING TRANSACTION MANAGER!
         :return: CitrineConnection
         """
-        self.__context_connection = self.open()
-        return self.__context_connection
+        entered = self.__context_connections.__dict__.setdefault('entered', [])
+        entered.append(self.open())
+        return entered[-1]
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         """
@@ -176,10 +181,7 @@ class ManagedStorage(DB):
         :param exc_tb:
         :return:
         """
-        self.__context_connection.close()
-        self.__context_connection = None
-        del self.__context_connection
-
+        self.__context_connections.entered.pop().close()
 
     @CitrineIncompatibleMethodError.override_method
     def open_then_close_db_when_connection_closes(self):
-- 
2.43.0


From 5152c0833f4c5bee3aa586f8784182ab17dce055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 66/70] fix: a database that is refused is not left in the
 collection

---
 citrine/database/containerdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 0d9b75e..7d286a7 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -140,6 +140,10 @@ class ContainerDb(DB):
                 # closing db would close the storage, which is still needed
                 super().__init__(**db_args)
         except Exception:
+            # do not leave a database that nobody can use with the others
+            if databases is not None \
+                    and databases.get(database_name) is self:
+                del databases[database_name]
             # do not leave a storage that nobody can reach open (and locked)
             if own_storage:
                 storage.close()
-- 
2.43.0


From 76657267a2f000cccee4efb6d14baf007389c8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 67/70] fix: data applies the transforms it is given

---
 jsonld/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 20c0cfc..2803f16 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -91,7 +91,8 @@ class PropertyJsonLD(PropertyAwareObject):
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
             data = {
                 # change name of property, if provided in mapping
-                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
+                rename.get(prop, prop): self.__handler(transforms.get(
+                    prop, lambda val: val)(getattr(self, prop, None)))
                 for prop in self.__properties__
                 # if include_null is True or the property is not None
                 if (include_none or getattr(self, prop) is not None)
-- 
2.43.0


From f093c7ff375ed7ab9e8d2c1d24b1f26a56a2e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 68/70] fix: closed handles lists of timestamps as it does
 single ones

Timestamps in a list were written in a format that could not be read again,
and read as text.
---
 activitystreams/properties.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e92378c..4077840 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -614,6 +614,9 @@ class Closed(ActivityStreamsProperty):
         val = getattr(self, '___closed___', None)
         if isinstance(val, datetime):
             return datetime_str(val)
+        if isinstance(val, list):
+            return [datetime_str(item) if isinstance(item, datetime) else item
+                    for item in val]
         return val
 
     @closed.setter
@@ -621,6 +624,9 @@ class Closed(ActivityStreamsProperty):
     @SetterValidator(types=(Object, Link, datetime, bool, str),
                      additional=(is_activity_datetime,)).check
     def closed(self, val):
+        if isinstance(val, list):
+            val = [parse_activitystream_datetime(item)
+                   if isinstance(item, str) else item for item in val]
         self.___closed___ = parse_activitystream_datetime(val) \
             if isinstance(val, str) else val
 
-- 
2.43.0


From f5e21bef58854322f9d32d8c97038d20005c06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 69/70] fix: clients of a server get the container that was
 asked for

strict had no effect, create_missing_container=False made a container all the
same, a database without a container was refused instead of getting one, and a
connect that failed left its connection to the server open.
---
 citrine/client/container_client.py | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..90ec032 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -8,9 +8,11 @@ from ZODB.FileStorage import FileStorage
 
 from ZEO.ClientStorage import ClientStorage
 from ZEO.asyncio.client import ClientThread
+from transaction import TransactionManager
 
 from citrine.connection.container_connection import ContainerConnection
 from citrine.database.containerdb import ContainerDb
+from citrine.exceptions import IncompatibleDatabaseError
 from citrine.storage.consts import DEFAULT_CONTAINER_SIZE
 from citrine.storage.container import Container
 
@@ -179,21 +181,30 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
-        # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
-            pool_timeout=pool_timeout, cache_size=cache_size,
-            cache_size_bytes=cache_size_bytes,
-            historical_pool_size=historical_pool_size,
-            historical_cache_size=historical_cache_size,
-            historical_cache_size_bytes=historical_cache_size_bytes,
-            historical_timeout=historical_timeout, database_name=database_name,
-            databases=databases, xrefs=xrefs,
-            large_record_size=large_record_size)
-
-        # If not connection.container and create==True, create a new Container
-        with client as connection:
-            if not getattr(connection.root, 'container', None):
-                with connection.transaction_manager as tm:
-                    connection.root.container = Container.new(strict=strict)
+        try:
+            # If there is no container yet, create one if that is wanted
+            conn = DB(client).open(TransactionManager())
+            with conn.transaction_manager as tm:
+                if not getattr(conn.root, 'container', None):
+                    if not create_missing_container:
+                        raise IncompatibleDatabaseError(
+                            f'Cannot connect to {addr}; database lacks a ' +
+                            "Container object at 'root.container'")
+                    conn.root.container = Container.new(strict=strict)
                     tm.commit()
-        return client
+            conn.close()
+
+            # Link to a local ContainerDb
+            return cls.load(client, pool_size=pool_size,
+                pool_timeout=pool_timeout, cache_size=cache_size,
+                cache_size_bytes=cache_size_bytes,
+                historical_pool_size=historical_pool_size,
+                historical_cache_size=historical_cache_size,
+                historical_cache_size_bytes=historical_cache_size_bytes,
+                historical_timeout=historical_timeout,
+                database_name=database_name, databases=databases,
+                xrefs=xrefs, large_record_size=large_record_size)
+        except Exception:
+            # do not leave a connection that nobody can reach open
+            client.close()
+            raise
-- 
2.43.0


From 7a77f489fff1f0e81acdf13a6e992217224a9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:11 +0000
Subject: [PATCH 70/70] fix: containers answer membership tests and can be
 iterated

in was False for every id, as the method only had its documentation, and
iterating raised TypeError.
---
 citrine/storage/container.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index fe388db..8f41979 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -478,9 +478,16 @@ class Container(Persistent, ContainerProperties):
         :param item:
         :return:
         """
+        return bool(self.has(item))
 
     def __iter__(self):
         """
         Iterates over all items stored in the group as key-value pairs.
         :return:
         """
+        groups = (self.primary,) + self.secondaries
+        for place, group in enumerate(groups):
+            for id, obj in group.items():
+                # an object hidden by another with its id cannot be read
+                if not any(prior.has_key(id) for prior in groups[:place]):
+                    yield id, obj
-- 
2.43.0

