BI, BST, AVLF, RBF, SPF, TRF, HPF, TREE = ("extra/trees/%s.py" % f for f in (
    "binary_tree", "bst", "avl", "red_black_tree", "splay_tree", "treap", "_heap", "tree"))
PUB = ["public methods", "children, parents and marks of the nodes"]
NODE = [("_root", "the root node", TREE)]
SETWHY = ("The tests insert and remove a few fixed or random values and look at the end result; which rotation, replacement or "
          "repair case runs depends on the shape that the whole history has produced.")
SHWHY = ("The tests compare the answers for a few hand-drawn trees; wrong answers show only on particular shapes (lop-sided "
         "subtrees, one-child chains, empty or single-node trees).")
SETTEXT = (" holds each number inserted and not removed since, once; membership, length, minimum, maximum and emptiness agree "
           "with that set. Inserting a present value or removing an absent one changes nothing in the set and warns; non-numbers "
           "are refused without effect, the minimum or maximum of an empty tree raises an IndexError, and trees built from one "
           "another are independent. In every node all values to the left are smaller and all to the right larger, and each "
           "child's parent is the node above it, from which sibling, uncle and grandparent follow.")
SHAPETEXT = ("height (edges on the longest path), number of leaves, the levels, iteration and list conversion (level by level), "
             "pre-, in-, post-order and breadth-first traversal (also by name), left and right side views, and whether it is "
             "perfect, strict (no node with one child) or balanced (the root's subtrees differ by at most one level) are exactly "
             "those of its nodes")

prop("B01", "A binary search tree is a sorted set, changed where it must be",
     "After any history of insertions, removals, constructions and clears a BST" + SETTEXT +
     " Inserting adds one leaf and moves no other node; removing a value moves nothing but what takes its place: "
     "its only child's subtree, or its in-order predecessor or successor.",
     "histories inputs", "all histories of calls on binary search trees over ints and floats, infinities included", SETWHY,
     BST, [("insertion at a leaf, removal with a replacement", BST + ":BST._insert_node, _remove, _find_replacement, _transplant")],
     NODE, PUB)
prop("B02", "A binary search tree reports its own shape",
     "In every reachable binary search tree " + SHAPETEXT + ". Asking never changes the tree; an unknown traversal name raises a "
     "ValueError, and an empty tree is perfect, strict and balanced, with a warning.",
     "histories inputs", "all shapes reachable by any history of calls", SHWHY,
     BST + " " + BI + " " + TREE, [("shape queries", BI + ":BinaryTree.is_balanced, is_perfect, is_strict, traverse, get_leftside_view; " + TREE + ":Tree.get_height, count_leaf_nodes")],
     NODE, PUB)
prop("A01", "An AVL tree is a sorted set",
     "After any history of insertions, removals, constructions and clears an AVL tree" + SETTEXT,
     "histories inputs", "all histories of calls on AVL trees", SETWHY,
     AVLF + " " + BST, [("rotations", AVLF + ":AVL._rebalance; " + BST + ":BST._rotate_left, _rotate_right")], NODE, PUB)
prop("A02", "An AVL tree is balanced at every node and reports its shape",
     "After every call on an AVL tree the heights of the two subtrees of every node differ by at most one, and every node's stored "
     "height is its true height. Moreover " + SHAPETEXT + ", and asking never changes the tree.",
     "histories inputs", "all histories of calls on AVL trees", SETWHY,
     AVLF + " " + BI, [("rebalancing after insertion and removal", AVLF + ":AVL._get_unbalanced_node, _rebalance, _insert, _remove")],
     NODE + [("_height", "stored height of a node", AVLF)], PUB)
prop("R01", "A red-black tree is a sorted set",
     "After any history of insertions, removals, constructions and clears a RedBlackTree" + SETTEXT,
     "histories inputs", "all histories of calls on red-black trees", SETWHY,
     RBF + " " + BST, [("insertion and removal", RBF + ":RedBlackTree.insert, remove, _find_replacement")], NODE, PUB)
prop("R02", "A red-black tree obeys the colour rules and reports its shape",
     "After every call on a RedBlackTree the root is black, no red node has a red child, every way from the root down to a "
     "missing child passes the same number of black nodes, and the reported black height is that number (0 for an empty tree). "
     "Moreover " + SHAPETEXT + ", and asking never changes the tree.",
     "histories inputs", "all histories of calls on red-black trees", SETWHY,
     RBF + " " + BI, [("recolouring and rotations", RBF + ":RedBlackTree.__recolor, __handle_double_black")],
     NODE + [("_color", "colour of a node", RBF)], PUB)
prop("S01", "A splay tree is a sorted set",
     "After any history of insertions, removals, searches, constructions and clears a SplayTree" + SETTEXT +
     " Searching for something that is not a number is refused.",
     "histories inputs", "all histories of calls, searches included, on splay trees", SETWHY,
     SPF + " " + BST, [("splaying", SPF + ":SplayTree._splay, insert, remove, __contains__")], NODE, PUB)
prop("S02", "A splay tree splays the node it reached to the root, and reports its shape",
     "Inserting a value, finding one, or missing one brings the inserted, found or last visited node to the root by the zig, "
     "zig-zig and zig-zag steps of splaying; removing a value leaves the tree that results from taking the value out as a search "
     "tree does and splaying one of the remaining nodes. Moreover " + SHAPETEXT +
     ", and only searches, insertions and removals ever move a node.",
     "histories inputs", "all histories of calls on splay trees", SETWHY,
     SPF + " " + BI, [("splay steps", SPF + ":SplayTree.__splaying, __zig_zig, __zig_zag")], NODE, PUB)
prop("P01", "A treap is a sorted set",
     "After any history of insertions (with or without a priority), removals, constructions and clears a Treap" + SETTEXT +
     " A priority that is not a number is refused.",
     "histories inputs", "all histories of calls on treaps", SETWHY,
     TRF + " " + BST, [("insertion and removal by rotations", TRF + ":Treap.insert, remove")], NODE, PUB)
prop("P02", "A treap keeps its priorities heap-ordered and reports its shape",
     "After every call on a Treap no node has a larger priority than its parent, and every node keeps the priority its value was "
     "inserted with (a given one is used as it is, negative, fractional and equal ones included) for as long as the value is "
     "present. Moreover " + SHAPETEXT + ", and asking never changes the tree.",
     "histories inputs", "all histories of calls on treaps, with any priorities", SETWHY,
     TRF + " " + BI, [("rotations by priority", TRF + ":Treap.insert, remove")],
     NODE + [("_priority", "priority of a node", TRF)], PUB)

for _id, _c, _ext, _other in (("H01", "Min", "smallest", "largest"), ("H02", "Max", "largest", "smallest")):
    prop(_id, "A %s-heap holds what was put in and has its %s value on top" % (_c.lower(), _ext),
         "After any history of insertions, removals by value, removals of an extreme, constructions and clears a %sHeap holds exactly the "
         "numbers inserted and not removed (each as often as inserted), and no node is %s than its parent. The %s and the %s values "
         "reported and removed are those of the contents; removing a value takes out one occurrence of it. Length, emptiness, "
         "membership, iteration and list conversion agree with the contents; the list is the complete tree read level by level, "
         "the children of position i standing at 2i+1 and 2i+2. Removing a missing value warns, an extreme of an empty heap raises an IndexError, "
         "non-numbers are refused without effect, and a heap shares nothing with the collection it was built from (any iterable of numbers, which is left as it was) or the lists obtained from it."
         % (_c, "smaller" if _c == "Min" else "larger", _ext, _other),
         "histories inputs", "all histories of calls on heaps over ints and floats, duplicates included",
         "The tests insert and drain a few lists; whether sifting goes the right way depends on the values around the hole.",
         HPF + " extra/trees/%s_heap.py" % _c.lower(), [("sifting", HPF + ":Heap.__sift_up, __rebalance, insert, remove"), ("extremes", "extra/trees/%s_heap.py:%sHeap.get_min, get_max, remove_min, remove_max" % (_c.lower(), _c))],
         [("_heap", "the values level by level", HPF)], ["public methods"])

TN = [("children lists and left/right links", "how nodes hang together", TREE)]
GENWHY = ("The tests build two or three fixed trees; a wrong count, order or height shows only for particular shapes, and only after "
          "nodes have been shared, swapped or re-hung.")
prop("T01", "A tree of nodes answers for exactly the nodes below its root",
     "However its nodes were hung together (appending a child, replacing all children, swapping the data of two nodes, changing the "
     "root, clearing), a Tree's length, emptiness, height (edges on the longest path), depth of the root (0), number of leaves, levels, "
     "iteration and list conversion (level by level, left to right) and membership are those of the nodes reachable from its root, "
     "an empty tree having none of them. A node reports its data, its children in order and whether it is a leaf. A tree read from a folder "
     "has one node per file and folder, named after it, the entries of each folder as its children in the order of their names. Nodes "
     "holding None or a library object, children that are not nodes, and paths that do not exist or are not text are refused without effect, and asking "
     "never changes a tree.",
     "histories inputs", "all histories of building and changing trees of any shape, and all folders", GENWHY,
     TREE, [("questions answered by walking down from the root", TREE + ":Tree.__count_nodes, _get_height, _count_leaf_nodes, _get_nodes_per_level, __iter__, _search"),
            ("folders", TREE + ":Tree.from_path, __form_tree_from_path"), ("nodes", TREE + ":TreeNode.set_child, set_children, swap")],
     NODE + TN, PUB)
prop("T02", "A binary tree of nodes reports its shape, however it was built",
     "However its nodes were hung together (setting left or right children, swapping data, changing the root, clearing, inverting, or parsing "
     "nested lists), a BinaryTree's length, emptiness, membership, " + SHAPETEXT + ". Inverting mirrors the tree at every node. Parsing [x, a, b] (or a "
     "tuple) gives a root x with the trees of a and b on its left and right, [x] a single node; lists of no or more than three elements and invalid data are refused. "
     "A node reports its data, children, whether it is a leaf and whether it has exactly one child. An unknown traversal name raises a ValueError, "
     "an empty tree is perfect, strict and balanced, with a warning, and asking never changes a tree.",
     "histories inputs", "all histories of building and changing binary trees of any shape, and all nested lists", GENWHY,
     BI + " " + TREE, [("shape queries", BI + ":BinaryTree.is_balanced, is_perfect, is_strict, get_leftside_view, get_rightside_view, traverse"),
                       ("building", BI + ":BinaryTree.parse, __create_subtree, invert; BinaryTreeNode.set_left, set_right")],
     NODE + TN, PUB)

TRI, RAD, SUF = ("extra/trees/%s.py" % f for f in ("trie", "radix_trie", "suffix_trie"))
WWHY = ("The tests insert and remove a few English words; which nodes are made, split, unmarked or cut off depends on how all the "
        "words inserted and removed so far share prefixes.")
WTEXT = (" holds exactly the words inserted and not removed since: membership, prefix search (the empty prefix is always there) and "
         "auto-completion (every word with the prefix, each once, in any order) agree with that set, for words of any characters that are not all blank. Inserting a present word "
         "or removing the empty one changes nothing, removing an absent one warns and changes nothing; blank words, None, library objects and things that are "
         "not text are refused without effect; auto-completing anything but text is refused. ")
WSHAPE = ("Length (nodes, the root included), emptiness, height, leaves, levels, iteration and list conversion agree with the nodes, "
          "asking never changes them, and tries never affect one another.")
prop("W01", "A trie holds exactly its words, with one node for each of their prefixes",
     "After any history of insertions, removals and clears a Trie" + WTEXT +
     "There is exactly one node for every non-empty prefix of every word held, carrying one character, below the node of the prefix one shorter. " + WSHAPE,
     "histories inputs", "all histories of calls on tries, with words over any characters", WWHY,
     TRI, [("walking down and inserting the rest", TRI + ":Trie._follow_path, insert"), ("cutting off what leads to no word", TRI + ":Trie.remove"),
           ("collecting words", TRI + ":Trie._get_candidates, auto_complete")],
     [("_is_word", "a word ends at this node", TRI), ("_nodes_count", "number of nodes", TRI)], PUB)
prop("W02", "A radix trie holds exactly its words, splitting nodes only where they part",
     "After any history of insertions, removals and clears a RadixTrie" + WTEXT +
     "No two children of a node start with the same character, every leaf ends a word, and no node has an empty label. Inserting a word adds at most its own node and one node where it parts from the others; removing one "
     "takes away exactly the nodes that lead to no word any more; so as long as nothing was removed every node but the root ends a word or has at least two children. " + WSHAPE,
     "histories inputs", "all histories of calls on radix tries, with words over any characters", WWHY,
     RAD + " " + TRI, [("splitting", RAD + ":RadixTrie._insert"), ("walking down by labels", TRI + ":Trie._follow_path"), ("removal", RAD + ":RadixTrie.remove; " + TRI + ":Trie.remove")],
     [("_is_word", "a word ends at this node", TRI), ("_nodes_count", "number of nodes", TRI)], PUB)

XWHY = ("The tests ask about a few words such as banana; wrong answers show only on texts with particular repetitions and overlaps.")
XIN = "all texts (with the end mark $ dropped) and all "
prop("X01", "A suffix trie finds every substring and counts all its occurrences",
     "A SuffixTrie of a text contains a pattern as a substring exactly when the text does, and the number of occurrences it counts for a non-empty pattern is the number of positions at "
     "which the pattern starts in the text, overlapping ones included (0 for things that are not text). A suffix trie is only made from non-empty text: None and library objects are refused with a "
     "ValueError or TypeError, other things that are not text with a TypeError. Questions never change the trie.",
     "inputs", XIN + "patterns", XWHY,
     SUF + " " + TRI, [("following a pattern down", SUF + ":SuffixTrie.has_substring, count_pattern_occurrences; " + TRI + ":Trie._follow_path")],
     [("_rt", "radix trie of all suffixes, each followed by $", SUF)], ["public methods"])
prop("X02", "The suffix array lists the start of every suffix in alphabetical order",
     "The suffix array of a text of n characters lists each of 0..n once, so that the suffixes starting there come in "
     "alphabetical order (the empty suffix counting as the end mark $).", "inputs", XIN + "their suffixes", XWHY,
     SUF, [("collecting and sorting the suffixes", SUF + ":SuffixTrie.to_suffix_array")], [("_rt", "radix trie of all suffixes, each followed by $", SUF)], ["to_suffix_array()"])
prop("X03", "Longest repeated substrings are all of them, and nothing else",
     "The longest repeated substrings (also under the name of longest common substrings) reported for a text are exactly the longest texts that occur in it at least twice, overlapping occurrences included, each once, in any order; "
     "when no character repeats, that is the empty text alone.", "inputs", XIN + "repetitions in them", XWHY,
     SUF, [("looking at the inner nodes", SUF + ":SuffixTrie.get_longest_repeated_substring, get_longest_common_substring, _get_ancestors_data")],
     [("_rt", "radix trie of all suffixes, each followed by $", SUF)], ["get_longest_repeated_substring()", "get_longest_common_substring()"])
prop("X04", "The lowest common ancestor of two suffixes is their longest common prefix",
     "For any two different positions from 0 to the length of the text, the lowest common ancestor of the suffixes starting there is the longest text "
     "that both start with, in either order of the positions. Positions out of that range raise a ValueError, and ones that are not integers a TypeError.",
     "inputs", XIN + "pairs of positions", XWHY,
     SUF, [("comparing the ways to two leaves", SUF + ":SuffixTrie.get_lowest_common_ancestor, _get_ancestors_data")],
     [("_rt", "radix trie of all suffixes, each followed by $", SUF)], ["get_lowest_common_ancestor(i, j)"])
prop("X05", "A suffix trie is the compressed trie of all suffixes",
     "A SuffixTrie has a leaf for every suffix of its text (the empty one included) and an inner node below the root exactly where two suffixes part, each carrying the text that "
     "leads to it from the node above (the leaves' ending in $). Length (the root included), number of leaves, height, iteration and list conversion (level by level, in any order within a level) agree with that.",
     "inputs", XIN + "ways their suffixes share prefixes", XWHY,
     SUF + " " + RAD, [("inserting all suffixes", SUF + ":SuffixTrie.__init__; " + RAD + ":RadixTrie._insert")],
     [("_rt", "radix trie of all suffixes, each followed by $", SUF)], ["public methods"])

VWHY = "The tests compare no more than a few pictures; padding, connectors and levels depend on the widths and shape of what is drawn."
prop("V01", "A printed list shows its items in order, each in its own cell",
     "Printing a linked list, stack, queue, deque, priority queue or skip list (str or repr) gives the picture of its kind: one cell per item, as wide as the item's text plus a blank on each side, in the order of the items, with the arrows "
     "and borders of the kind joining the cells, and all lines of the cells aligned. A circular list's closing arrow leads from its last cell back to the middle of its first one, a priority queue shows priorities "
     "exactly when SHOW_PRIORITY is set, and a skip list shows each level, highest first, with each item in the same column on all of its levels. Empty collections have the empty picture of their kind. Printing changes nothing.",
     "inputs", "all contents of lists of every kind", VWHY,
     "extra/lists/linked_list.py extra/lists/doubly_linked_list.py extra/lists/circular_linked_list.py extra/lists/stack.py extra/lists/queue.py extra/lists/deque.py extra/lists/priority_queue.py extra/lists/skip_list.py",
     [("joining drawn cells", "extra/lists/linked_list.py:LinkedList._print_linked_list; extra/lists/queue.py:Queue._print_queue; extra/lists/stack.py:Stack.__repr__; extra/lists/skip_list.py:SkipList.__print_level")], [], ["repr()", "str()"])
prop("V02", "A printed tree shows every node once, at its place",
     "Printing a tree, trie, radix trie or suffix trie gives one line per node, children below their parent in order, indented under it and joined to it by branches that run down exactly to the last child; ends of words are ticked. Printing a binary tree, search tree or heap "
     "gives one line of nodes per level, each node's text once, joined by slashes and underscores to its children, left ones to the left and right ones to the right, without overlaps. Red-black trees show colours, "
     "and treaps show priorities exactly when SHOW_PRIORITY is set. Empty trees have the empty picture of their kind. Printing changes nothing.",
     "inputs", "all shapes of trees of every kind, with texts of any width", VWHY,
     TREE + " " + BI + " " + TRI + " " + SUF + " " + RBF + " " + TRF + " " + HPF,
     [("drawing general trees", TREE + ":Tree.__print_subtree"), ("drawing binary trees", BI + ":BinaryTree._print_subtree")], [], ["repr()", "str()"])

NWHY = "The tests link two or three nodes of a class once; kin, heights and back links depend on the order in which nodes are linked, relinked and cut loose."
prop("N01", "A list node keeps its data, and doubly linked ones link both ways",
     "However list nodes are linked, relinked and cut loose by hand, every node has the data it was given last (text with its line breaks escaped), and the next, previous or lower node it was given last; "
     "giving a doubly linked or priority node a next (previous) node also makes it that node's previous (next) one, and no other node changes. A priority node has the priority it was given last, or a whole "
     "number from 0 to 100 when none was given. A node's text shows its data and neighbours (a priority node's: its priority). Invalid data, neighbours of another kind and priorities that are no numbers are "
     "refused with a ValueError or TypeError and without effect.",
     "histories inputs", "all histories of calls on nodes of linked, doubly linked and skip lists and priority queues", NWHY,
     "extra/lists/linked_list.py extra/lists/doubly_linked_list.py extra/lists/skip_list.py extra/lists/priority_queue.py",
     [("linking nodes", "extra/lists/linked_list.py:Node.set_next, set_data; extra/lists/doubly_linked_list.py:DoublyNode.set_next, set_prev; extra/lists/skip_list.py:SkipNode.set_down; extra/lists/priority_queue.py:PriorityNode.set_priority")],
     [], ["public methods of the nodes"])
prop("N02", "A tree node knows its children and its kin",
     "However tree nodes are linked, relinked and cut loose by hand, every node has the value and the children it was given last, a leaf is a node without any, and giving a search-tree or trie node a child makes it that child's "
     "parent; no other node changes. In search trees whose values are in order, grandparent, sibling, uncle and which side a node hangs on are those of the links. An AVL node's stored height is one more than the higher of its "
     "children's whenever it is given a child (0 without any), a red-black node has the colour given last, swapping two nodes exchanges their values (with red-black ones: their colours too), a treap node has the priority it was given last, or a whole number "
     "from 0 to 100 when none was given, and a trie node has one child per key, the one given last. Nodes show their value. Invalid values, children, colours, heights and priorities are refused with a "
     "TypeError or ValueError and without effect.",
     "histories inputs", "all histories of calls on nodes of binary trees, heaps, search trees of all kinds and tries", NWHY,
     BI + " " + HPF + " " + "extra/trees/bst.py extra/trees/avl.py " + RBF + " " + TRF + " " + TRI,
     [("linking nodes", "extra/trees/bst.py:BSTNode.set_left, set_right, set_parent; extra/trees/avl.py:AVLNode.set_left, set_right; " + TRI + ":TrieNode.set_child"),
      ("kin", "extra/trees/bst.py:BSTNode.get_uncle, get_sibling, get_grand_parent, is_left_child")],
     [], ["public methods of the nodes"])
ALLF = " ".join(["extra/lists/linked_list.py extra/lists/doubly_linked_list.py extra/lists/circular_linked_list.py extra/lists/skip_list.py",
                 "extra/lists/stack.py extra/lists/queue.py extra/lists/deque.py extra/lists/priority_queue.py", TREE, BI, "extra/trees/bst.py extra/trees/avl.py",
                 "extra/trees/splay_tree.py", RBF, TRF, HPF, TRI, RAD, SUF])
prop("I01", "Reading a structure never changes it, nor what it answers",
     "Between two changes, a structure of any kind answers every question (sizes, membership, positions, extremes, shapes, traversals, levels, pictures, comparisons, copies, splits and rotations into new lists) the same way each time, "
     "however often and in whatever order it is asked. Any number of iterations over it can be open at once and advance in any order, also between questions: each yields all its items once, in the structure's order. Afterwards the structure "
     "still consists of the same items in the same place. (Searching a splay tree reorganises it and is left out.)",
     "schedules inputs", "all interleavings of open iterations and questions over structures of every kind",
     "The tests run one iteration at a time and ask each question once; iterations that share their place, remembered answers and questions that reorganise the structure show only when reading is repeated or interleaved.",
     ALLF, [("iterating", "extra/lists/linked_list.py:LinkedList.__iter__; " + TREE + ":Tree.__iter__; " + HPF + ":Heap.__iter__; extra/lists/skip_list.py:SkipList.__iter__")], [],
     ["iteration", "all public methods that do not change the structure", "repr() and len()"])
prop("I02", "Structures keep out of one another's way",
     "What a call on a structure answers and makes of it depends only on the calls made on that structure before (and on the pseudo-random draws made during the call), never on other structures of the same or another kind that are "
     "created, used or cleared before or in between. A treap built from the same items with the same seed, 0 included, has the same shape whatever happened to the random generator before.",
     "schedules histories", "all schedules of calls on several structures of any kinds, and all seeds",
     "The tests use one structure at a time in a process; state shared through the class, a default argument, a module or the random generator shows only when several are used in turn.",
     ALLF, [("construction", TRF + ":Treap.__init__; extra/lists/queue.py:Queue.__init__; extra/lists/linked_list.py:LinkedList.__init__; " + TREE + ":Tree.__init__"),
            ("default arguments", TREE + ":Tree.__print_subtree")], [], ["all public methods", "repr() and len()"])
prop("I03", "A call that fails leaves nothing behind",
     "A call that the library refuses, and a call during which the user's own code raises (the iterable a structure is built from or a node's "
     "children are taken from, the comparison of an item in a search or a comparison of structures, an item that cannot be turned into text while a picture is drawn), reports that very error to the caller; the structure it "
     "was made on, and every other one, looks as before, and all later calls answer as if the failing call had not been made. The same holds for iterations that "
     "are given up half-way or left open.",
     "histories inputs", "all failing calls, between any calls, on structures of all twenty kinds",
     "The tests check that some calls raise and do not look at what they leave; errors out of the caller's own iterables and items are not tested at all.",
     ALLF, [("validation before change", "extra/interface.py:Extra._validate_item; extra/lists/linked_list.py:LinkedList.__init__, _validate_index, _remove_value"),
            ("children taken from an iterable", TREE + ":TreeNode.set_children"), ("drawing", TREE + ":Tree.__repr__; extra/lists/queue.py:Queue._print_queue")], [],
     ["exceptions of the public methods", "repr() and len()", "answers of all later calls"])
prop("I04", "A structure made out of another one holds the same items and goes its own way",
     "Any structure that can be iterated over can be given to the constructor (heapify, for heaps) of any kind. A list then holds the items in the order the "
     "source yields them; a search tree or skip list holds each distinct number of the source once and is in order; a heap holds as many of each number as the source and is in heap "
     "order. Sources that cannot be iterated over, and those with items the kind does not take, are refused with a TypeError. Making one, and every later change "
     "of either (an insertion, a removal, a clearing, an extension, a further conversion), leaves the other exactly as it was.",
     "histories inputs", "all pairs of kinds, all contents, and all later changes of source and result",
     "The tests build structures from Python lists; conversions between the kinds are not tested, and sharing shows only when one of the two is changed later.",
     ALLF, [("construction from an iterable", "extra/lists/linked_list.py:LinkedList.__init__; extra/lists/doubly_linked_list.py:DoublyLinkedList.__init__; extra/lists/skip_list.py:SkipList.__init__; "
             "extra/trees/bst.py:BST.__init__; " + HPF + ":Heap.heapify")], [], ["iteration, len(), repr()", "inorder_traverse()"])
