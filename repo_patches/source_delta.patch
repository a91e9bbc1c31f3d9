From aa0d09600e070c2f49a792c218b52249bfa5cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 01/27] fix: copy the items when a linked list is built from
 another linked list

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 2 files changed, 9 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..3a12ec3 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..77440a9 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
-- 
2.43.0


From 285afcb278780d501c352fc0c38f9e48acce2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 02/27] fix: extend a linked list with copies of the other
 list's items

---
 extra/lists/circular_linked_list.py |  2 +-
 extra/lists/doubly_linked_list.py   | 13 +++----------
 extra/lists/linked_list.py          | 12 +++---------
 3 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3a12ec3..0726695 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -984,16 +984,9 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._tail = other._tail
-            self._length += other._length
-        else:
-            self._tail.set_next(other._head)
-            self._tail = other._tail
-            self._length += other._length
+        prev_node = None if self.is_empty() else self._tail
+        for item in other.to_list():
+            prev_node = self._insert_value(prev_node, item)
 
     # =============================      SET     ==============================
     def __setitem__(self, idx, item):
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 77440a9..25ff0cd 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1399,15 +1399,9 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._length = other._length
-        else:
-            last_node, _ = self._get_node(self._length)
-            last_node.set_next(other._head)
-            self._length += other._length
+        prev_node, _ = self._get_node(self._length)
+        for item in other.to_list():
+            prev_node = self._insert_value(prev_node, item)
 
     # =============================     SET      ==============================
     def _replace_value(self, idx, new_value):
-- 
2.43.0


From 07f8c7329e1bb42fe874a804a3dc5d3660b325bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 03/27] fix: slices of a linked list with a negative step

---
 extra/lists/linked_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 25ff0cd..44bd1f5 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1108,6 +1108,9 @@ class LinkedList(Extra):
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
             indices = range(*idx.indices(self._length))
+            descending = indices.step < 0
+            if descending:
+                indices = indices[::-1]
             max_idx = indices[-1] if indices else -1
             indices = set(indices)
             # start getting wanted nodes
@@ -1121,7 +1124,7 @@ class LinkedList(Extra):
                                                         curr_node.get_data())
                 curr_node = curr_node.get_next()
                 counter += 1
-            return out_llist
+            return out_llist.reverse() if descending else out_llist
         else:
             if idx == self._length:
                 raise IndexError("Given index is out of the boundaries!!")
-- 
2.43.0


From da1bc028ca5b50958961fd16c7fcd272aeaf1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 04/27] fix: reject a non-boolean inplace flag in
 LinkedList.rotate_right

---
 extra/lists/linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 44bd1f5..64b2a8f 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -2103,6 +2103,8 @@ class LinkedList(Extra):
         │ 2 │⟶│ 3 │⟶│ 4 │⟶│ 1 │⟶
         └───┘ └───┘ └───┘ └───┘
         """
+        if type(inplace) != bool:
+            raise TypeError("`inplace` is a boolean flag (True by default)!!")
         self._validate_rotation_distance(distance)
         rotated = self._rotate(distance, "RIGHT")
         if not inplace:
-- 
2.43.0


From f04a1ca35aafdd40085721e388db080ab0dd9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:25 +0000
Subject: [PATCH 05/27] fix: setting an item of an empty CircularLinkedList
 raises IndexError

---
 extra/lists/circular_linked_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..13392e4 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,7 +932,9 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
-        idx = idx % self._length if self._length != 0 else 0
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
+        idx = idx % self._length
         super()._replace_value(idx, item)
 
     # =============================    REMOVE    ==============================
-- 
2.43.0


From 713b683e4592ad407adb71bc1467e27cf17b04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 06/27] fix: drop the last node of an emptied DoublyLinkedList

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 0726695..3924167 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1078,8 +1078,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From 510ba2d6e53597e25db228436eaa81a7ea1c5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 07/27] fix: dequeuing the head of a PriorityQueue keeps the
 other priorities

---
 extra/lists/doubly_linked_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3924167..95d1903 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1093,6 +1093,10 @@ class DoublyLinkedList(LinkedList):
                 prev_node.set_next(next_node)
                 self._tail = prev_node
                 self._length -= 1
+            elif prev_node is None:
+                next_node.set_prev(None)
+                self._head = next_node
+                self._length -= 1
             else:
                 super()._remove_node(prev_node, node_to_be_removed)
 
-- 
2.43.0


From 89471dc4fbc866d0660dacf5d32f609a5d2aeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 08/27] fix: keep both priority bounds of PriorityQueue current
 after every removal

---
 extra/lists/priority_queue.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..819ec6a 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -371,7 +371,12 @@ class PriorityQueue(Queue):
         node = PriorityNode(item, priority)
         self._min_priority = min(self._min_priority, node.get_priority())
         self._max_priority = max(self._max_priority, node.get_priority())
+        was_full = self.is_full()
         super()._enqueue(node)
+        if was_full:
+            # an item has been dropped to make room for the new one
+            self._update_min_priority()
+            self._update_max_priority()
 
     # =============================      TOP     ==============================
     def top(self):
@@ -483,16 +488,16 @@ class PriorityQueue(Queue):
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_min_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
-                        self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
+            self._update_min_priority()
+            self._update_max_priority()
         return node_data
 
     def clear(self):
-- 
2.43.0


From 01454744962d0bf536e4bb19822de04993aed543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 09/27] fix: copy the items when a SkipList is built from
 another SkipList

---
 extra/lists/skip_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From 68dc9209a697b97ad84708c2c2e5401585018d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 10/27] fix: never treat the sentinel of a SkipList as an
 element

---
 extra/lists/skip_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..a97dc4e 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -743,6 +743,8 @@ class SkipList(Extra):
         if type(value) not in {int, float}:
             return False
         self._validate_item(value)
+        if value == float("-inf"):
+            return False  # the sentinel isn't an element
         _, found_node, _ = self._search(value)
         return found_node.get_data() == value
 
@@ -976,7 +978,7 @@ class SkipList(Extra):
         In the previuos example, the top level was deleted when we removed `4`
         since it was empty after removal.
         """
-        if type(value) not in {int, float}:
+        if type(value) not in {int, float} or value == float("-inf"):
             return
         # search for that value
         prev_node, found_node, last_accessed_nodes = self._search(value)
-- 
2.43.0


From 024e12433372060009a5dc8511fc309a6017c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 11/27] fix: searching an empty Tree, BinaryTree or SplayTree

---
 extra/trees/splay_tree.py | 2 ++
 extra/trees/tree.py       | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..ea2858c 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -391,6 +391,8 @@ class SplayTree(BST):
         root.
         """
         super()._validate_item(find_val)
+        if self.is_empty():
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..fdbb256 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [] if self.is_empty() else [self._root]
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From 954996a8220ad6c95af48a45043712d246734e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 12/27] fix: keep the binary search tree order when a removed
 node's replacement has a subtree

---
 extra/trees/bst.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..a7cf2fc 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -899,7 +899,12 @@ class BST(BinaryTree):
                 new_replacement = replacement.get_right()
             # swap data
             self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            # the only subtree of the replacement takes its place
+            parent = replacement.get_parent()
+            if parent.get_left() is replacement:
+                parent.set_left(new_replacement)
+            else:
+                parent.set_right(new_replacement)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From 35779e19bc9415bee119cde17db77dd07f09def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 13/27] fix: restore the heap order upwards when a value is
 removed from a heap

---
 extra/trees/_heap.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..fb01915 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -229,7 +229,21 @@ class Heap(ABC, Extra):
         # add the new value
         self._heap.append(value)
         # swap between parents when needed
-        idx = len(self._heap) - 1
+        self.__sift_up(len(self._heap) - 1, is_min_heap)
+
+    def __sift_up(self, idx, is_min_heap):
+        """
+        Moves the value at the given index up till the heap-order property is
+        satisfied.
+
+        Parameters
+        ----------
+        idx: int
+            The index of the value.
+        is_min_heap: bool
+            A flag to indicate whether the current heap instance is a
+            `MinHeap()` or a `MaxHeap()`.
+        """
         while idx != 0:
             parent_idx = (idx - 1) // 2
             current = self._heap[idx]
@@ -352,6 +366,9 @@ class Heap(ABC, Extra):
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
         self._heap.pop()
+        # the moved value could be out of order with the parent as well
+        if del_idx < len(self._heap):
+            self.__sift_up(del_idx, is_min_heap)
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From 9abf1c5659889c05f0dda3b7b44e77fe08c5e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 14/27] fix: iterate over an empty heap, and return a copy from
 to_list

---
 extra/trees/_heap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index fb01915..906deb1 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -381,9 +381,10 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
-        btree = self._transform()
-        for node in btree:
-            yield node
+        if not self.is_empty():
+            btree = self._transform()
+            for node in btree:
+                yield node
 
     def to_list(self):
         """
@@ -395,7 +396,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap.copy()
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From e9d543b4a482bb44c1327f2cee00dcd5d7cd0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 15/27] fix: remove from a Treap that has negative priorities

---
 extra/trees/treap.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..a06a3ad 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -556,17 +556,14 @@ class Treap(BST):
             # rotate till removed_node is leaf
             parent = removed_node.get_parent()
             while not removed_node.is_leaf():
-                # get children's priority
+                # get the children
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From 2828ceafc205457478127ce5b3f0b1963ca23399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 16/27] fix: words that contain '}' in Trie, RadixTrie and
 SuffixTrie

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..f35ba9f 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,8 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
+            if child is None:
+                break
+            child_data = child.get_data()
             if child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
-- 
2.43.0


From cdf0e023d673eaf2a08cfc85e388772d40879e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 17/27] fix: removing the last word of a Trie stops at the root

---
 extra/trees/trie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index f35ba9f..19cf811 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -720,7 +720,11 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (
+                curr_node is not self._root
+                and not curr_node._is_word
+                and curr_node.is_leaf()
+            ):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From 837206338c9ab4f6e8f488c42a0ce36f3806778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 18/27] fix: recolor a RedBlackTree only as far as an insertion
 needs it

---
 extra/trees/red_black_tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..757f01a 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -536,6 +536,9 @@ class RedBlackTree(BST):
                         great_grandparent.set_left(grandparent)
                     else:
                         great_grandparent.set_right(grandparent)
+                    return self._root
+                # grandparent is black now, so there is nothing left to do
+                return grandparent
             # recursively do the same over grandparent
             return self.__recolor(grandparent)
 
@@ -577,7 +580,10 @@ class RedBlackTree(BST):
             self._length += 1
         else:
             # insert new node
+            length_before = self._length
             new_node = super()._insert(value)
+            if self._length == length_before:
+                return  # the value was already there
             # recolor starting from new_node till root
             self._root = self.__recolor(new_node)
             # root is always black (isn't essential tho!!)
-- 
2.43.0


From 2937cd335305f4cd114f3cc278b1fd65c6404f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 19/27] fix: keep the red-black properties when a value is
 removed from a RedBlackTree

---
 extra/trees/red_black_tree.py | 89 +++++++++++------------------------
 1 file changed, 28 insertions(+), 61 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 757f01a..8e7d30b 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -733,6 +733,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -775,10 +776,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -796,20 +798,14 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
-        # make sure root is always black
-        self._root.set_color(Color.BLACK)
+        # the loop stops at a red node or at the root, both end up black
+        double_black_node.set_color(Color.BLACK)
 
     def remove(self, del_value):
         """
-        Removes the `del_value` from the `RedBlackTree()` instance which is one
-        of the following cases:
-
-        - Case I  : The removed node is 'red', and its replacement is either \
-            'red' or None.
-        - Case II : The removed node is 'red', and its replacement is 'black'.
-        - Case III: The removed node is 'black', and its replacement is \
-            either 'black' or None.
-        - Case IV : The removed node is 'black', and its replacement is 'red'.
+        Removes the `del_value` from the `RedBlackTree()` instance.
+        The node that leaves the tree is either the node of that value or its
+        replacement, and the colors are fixed only when this node is 'black'.
 
         Parameters
         ----------
@@ -872,56 +868,27 @@ class RedBlackTree(BST):
             return
         # find replacement
         replacement = self._find_replacement(removed_node)
-        # print("replacement:", replacement)
-
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+        if replacement is None:
+            replacement = removed_node
+        else:
+            # move the data only, the color belongs to the position
+            removed_node._data, replacement._data = (
+                replacement._data,
+                removed_node._data,
+            )
+        # replacement has one child at most, this child takes its place
+        parent = replacement.get_parent()
+        child = replacement.get_left() or replacement.get_right()
+        if parent.get_left() is replacement:
+            parent.set_left(child)
+        else:
+            parent.set_right(child)
+        if replacement.get_color() == Color.BLACK:
+            if child is not None:
+                # the only child of a black node is always red
+                child.set_color(Color.BLACK)
             else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            # handle this double black
-            self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
+                self.__handle_double_black(parent, None)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From 7394d4d6f6ff3b994e9f311dcf44d1501357cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 20/27] fix: the black height of an empty RedBlackTree

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 8e7d30b..2166537 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -943,6 +943,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From 3e58b83987025ec96c6031b622937a711bb8f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 21/27] fix: rebalance an AVL node whose heavy child is even
 with a single rotation

---
 extra/trees/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..84d6fe1 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -750,7 +750,10 @@ class AVL(BST):
         left_height, right_height = parent.get_children_heights()
         node = (
             parent.get_left()
-            if left_height > right_height else parent.get_right()
+            if left_height > right_height
+            # a single rotation is the one that works with even heights
+            or (left_height == right_height and parent.is_left_child())
+            else parent.get_right()
         )
 
         # determine the direction
-- 
2.43.0


From 65c10d61129af90651a9e030bd604082e5847d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 22/27] fix: look at every suffix for the longest repeated
 substring

---
 extra/trees/suffix_trie.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..029fe16 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -422,28 +422,6 @@ class SuffixTrie(Extra):
         return [k for k, v in sorted(self._suffix_array, key=lambda x: x[1])]
 
     # =============================    LCS/LRS   ==============================
-    def __get_deepest_nodes(self):
-        """
-        Returns a list of the trie nodes found in the deepest one or two levels
-        of the `SuffixTrie()` instance. It returns a list of the deepest two
-        level only if the height of the SuffixTrie exceeds 2. Other than that,
-        it returns a list of the deepest level.
-
-        Returns
-        -------
-        list:
-            A list of the deepest `TrieNode()` objects found in the
-            `SuffixTrie()` instanece.
-        """
-        if self._rt.is_empty():
-            return self._rt._root
-        level_nodes = (
-            self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
-        )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
-
     def _get_ancestors_data(self, node):
         """
         Gets all the data in the ancestors (parent, then grand-parent, then
@@ -532,7 +510,8 @@ class SuffixTrie(Extra):
             return []
         lcs_set = set()
         longest_length = 0
-        for node in self.__get_deepest_nodes():
+        # the deepest branch above a suffix is a substring that is repeated
+        for node in self._leaf_nodes.values():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
             lcs_set.add(lcs)
-- 
2.43.0


From ea0bbb16c7334e357594878c5d990c9e4d856d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 23/27] fix: accept the empty suffix as the first one of the
 lowest common ancestor

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 029fe16..cdbaa6b 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -602,7 +602,7 @@ class SuffixTrie(Extra):
             raise TypeError("`i` and `j` should be integer values!!")
         elif i < 0 or j < 0:
             raise ValueError("`i` and `j` should be postive integer values!!")
-        elif i >= len(self._word) or j > len(self._word):
+        elif i > len(self._word) or j > len(self._word):
             raise ValueError(
                 f"`i` and `j` values can't exceed {len(self._word)} "
                 + f"since it is the length of given word: `{self._word}`!!"
-- 
2.43.0


From 436dc33591a0ce3d17daecf29ed55a44292c5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 24/27] fix: compare the heights of the root's subtrees in
 BinaryTree.is_balanced

---
 extra/trees/binary_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..a071f71 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -745,12 +745,12 @@ class BinaryTree(Tree):
         left_depth = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + super()._get_height(self._root.get_left())
         )
         right_depth = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + super()._get_height(self._root.get_right())
         )
         return abs(left_depth - right_depth) <= 1
 
-- 
2.43.0


From d930e6b7f5dedb6d7d82c4b75e22f5d710602639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 25/27] fix: a linked list is greater than another exactly when
 the other is less than it

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 64b2a8f..0b38f90 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From fa17ba725b9a0d1b9051bb584c8551645605c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 26/27] fix: setting an item of a CircularLinkedList to None
 raises ValueError

---
 extra/lists/circular_linked_list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 13392e4..7a72a7f 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -934,6 +934,7 @@ class CircularLinkedList(LinkedList):
         self._validate_index(idx)
         if self.is_empty():
             raise IndexError(f"{self.__name__} is empty!!")
+        super()._validate_item(item)
         idx = idx % self._length
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 227c27edce1175406152d3c1ccd3336a53fa0f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 27/27] fix: removing a word that isn't in a Trie warns as
 documented

---
 extra/trees/trie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 19cf811..ed042db 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -717,7 +717,12 @@ class Trie(Tree):
         elif word == "":
             return
         last_node, remaining_word = self._follow_path(word)
-        if remaining_word == "":  # found the whole word
+        if remaining_word != "" or not last_node._is_word:
+            warnings.warn(
+                f"`{word}` doesn't exist in `{self.__name__}`",
+                UserWarning
+            )
+        else:  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
             while (
-- 
2.43.0

