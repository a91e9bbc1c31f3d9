#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over.split(), "text": text}, why_tests_cant=why,
                  anchors={"files": files.split(),
                           "mechanism": [dict(name=n, where=w) for n, w in mech],
                           "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None}, _note=note))


LL, DLL, CLL = ("extra/lists/%s.py" % f for f in ("linked_list", "doubly_linked_list", "circular_linked_list"))
HIST = ("The tests run a handful of fixed scripts per method on short lists of random values; which cell of a chain "
        "an operation rewires depends on the length, the position and everything done before.")

prop("L01", "A linked list behaves as the sequence its operations describe",
     "After any history of constructions, insertions, replacements, deletions, removals by value (first or all), "
     "extensions, rotations, splits, reversals, slices, copies and clears, a linked list holds exactly the items, in the "
     "order, that the same operations produce on an ordinary sequence, and every call returns what it returns there. "
     "Length, emptiness, iteration, list conversion, indexing (negative indices and slices included), membership and "
     "counting always agree with these contents; text is stored with each line break written as a backslash and an n. "
     "A removal by value that an error of the value's own comparison ends early passes that error on and has taken out nothing but occurrences of the value. Items come out as the very objects that were put in.",
     "histories inputs", "all histories of valid calls on linked lists of any length and any storable items", HIST,
     LL, [("chain rewiring on insert and remove", LL + ":LinkedList._insert_node, _remove_node, _remove_value"),
          ("derived lists", LL + ":LinkedList._split, _rotate, reverse, copy, __getitem__")],
     [("_head", "first node of the chain", LL), ("_length", "number of items", LL)],
     ["return values and exceptions of the public methods", "iteration", "len()"])

prop("L02", "A doubly linked list is one sequence, read in either direction",
     "After any history of operations a doubly linked list holds the items an ordinary sequence would hold after them, every "
     "call returns what it returns there, and length, iteration, indexing, slices, membership and counting agree with it. "
     "Walking backwards from the last node always visits exactly the nodes visited forwards from the first one, in reverse "
     "order, and an empty list has neither a first nor a last node.",
     "histories inputs", "all histories of valid calls on doubly linked lists of any length", HIST,
     DLL + " " + LL, [("two-way linking on insert and remove", DLL + ":DoublyLinkedList._insert_node, _remove_node, DoublyNode.set_next, set_prev"),
                      ("lookup from the nearer end", DLL + ":DoublyLinkedList._get_node")],
     [("_head", "first node", DLL), ("_tail", "last node", DLL), ("_prev/_next", "links of a node", DLL)],
     ["public methods", "get_next()/get_prev() of the nodes"])

prop("L03", "A circular linked list is a closed ring of its items",
     "After any history of operations a circular linked list holds the items an ordinary sequence would hold after them, where "
     "reading, replacing, deleting and splitting positions wrap around at the length, and insertion positions wrap around at the "
     "length plus one. Every call returns what it returns on that sequence, and length, iteration, membership and counting agree "
     "with it. The last node of a non-empty circular list always leads back to the first.",
     "histories inputs", "all histories of valid calls on circular linked lists of any length, positions of any size", HIST,
     CLL + " " + LL, [("ring rewiring on insert and remove", CLL + ":CircularLinkedList._insert_node, _remove_node, extend"),
                      ("wrap-around of positions", CLL + ":CircularLinkedList.__getitem__, __setitem__, __delitem__, insert, split")],
     [("_head", "first node of the ring", CLL), ("_length", "number of items", LL)],
     ["public methods", "get_next() of the nodes"])

prop("L04", "Comparing linked lists of one kind is a consistent order",
     "Two lists of the same kind are equal exactly when they have the same length and pairwise equal items, and unequal "
     "otherwise. One is less than the other (or less or equal) exactly when it is not longer than the other and each of its "
     "items is less than (or equal to) the opposing one, with at least one less item or, if none differs, fewer items (or the "
     "same number, for less or equal); a > b always means b < a and a >= b means b <= a. Items that cannot be ordered, met "
     "before the answer is known, or another type of object raise a TypeError.",
     "inputs", "all pairs of lists of one kind, of any lengths, over numbers and text",
     "The tests compare a few pairs of nearly equal lists; agreement of six operators over lists of different lengths with equal, "
     "smaller and larger items in every position is not sampled.",
     LL + " " + DLL + " " + CLL, [("element-wise comparison", LL + ":LinkedList._compare, __eq__, __ne__, __lt__, __le__, __gt__, __ge__")],
     [], ["result or exception of the six comparison operators"])

prop("L05", "Lists built from other lists share nothing with them",
     "A list returned by copying, slicing, splitting, reversing or rotating a linked list of any kind, built from another list or iterable, "
     "or extended by another list (itself included), is independent, and its source is left as it was: no later change to either one is ever visible in the other. "
     "An operation changes at most the list it is called on.",
     "histories", "all histories over populations of linked lists of all three kinds in which lists are derived from each other and then changed",
     "The tests look at a derived list right after it was made; sharing only shows after later changes of the right kind on either side.",
     LL + " " + DLL + " " + CLL, [("derived lists are made of new nodes", LL + ":LinkedList.__init__, extend, _split, copy, reverse, __getitem__"),
                                  ("same for the others", DLL + ":DoublyLinkedList.__init__, extend; " + CLL + ":CircularLinkedList.extend")],
     [], ["contents of every live list after every call"])

prop("L06", "Linked lists refuse invalid calls with the documented error and no effect",
     "Calls on linked lists with an index that is out of bounds (where indices do not wrap), negative (where unsupported), a slice "
     "(where unsupported) or not an integer, with a None or library object as item, with a non-boolean flag, a negative or "
     "non-integer rotation distance, a zero slice step, a non-iterable source or a source holding an invalid item, or with a "
     "peer of another type, raise the documented IndexError, TypeError or ValueError. A refused call leaves every list exactly "
     "as it was, and no valid call is refused.",
     "inputs histories", "all invalid (and boundary) arguments in all reachable states of lists of the three kinds",
     "The tests try some invalid arguments on fresh lists and rarely look at the list afterwards.",
     LL + " " + DLL + " " + CLL, [("validation", LL + ":LinkedList._validate_index, _validate_rotation_distance; extra/interface.py:Extra._validate_item"),
                                  ("validation with wrap-around", CLL + ":CircularLinkedList._validate_index")],
     [], ["exception type", "contents of every live list afterwards"])

SK = "extra/lists/skip_list.py"
prop("L07", "A skip list is a sorted set of numbers whatever the coin says",
     "After any history of insertions, removals by value and by index, clears and constructions, and any outcome of the coin, a "
     "skip list holds each inserted and not removed number once, in increasing order; membership, indexing, length, iteration "
     "and list conversion all agree with that set, invalid values and indices are refused without effect, and lists built from "
     "one another are independent. Every level is a sorted sub-list of the level below it and only the lowest may be empty, each "
     "node leads down to its own value, and inserting (removing) a value only adds it to (removes it from) a lowest stretch of levels.",
     "histories inputs schedules", "all histories of calls and all coin outcomes, over ints and floats",
     "The tests insert a few values under one fixed seed; which nodes are promoted decides which paths searches and removals take.",
     SK, [("search from the top level down", SK + ":SkipList._search, search_sorted"),
          ("promotion and removal per level", SK + ":SkipList.insert, remove, _promote, _remove_level")],
     [("_level_lists", "the levels, lowest first, each behind a -oo sentinel", SK)],
     ["public methods", "level lists and down pointers"])

ST, QU, DQ, PQ = ("extra/lists/%s.py" % f for f in ("stack", "queue", "deque", "priority_queue"))
CAPT = ("The tests push or enqueue random items up to a capacity and drain; interleavings of insertions, removals, clears and "
        "overflow, and falsy or duplicate items, are not covered.")
prop("Q01", "A stack is last in, first out within its capacity",
     "Popping and peeking always yield the most recently pushed item that has not been popped, length, emptiness and fullness "
     "agree with the items held, and text is stored with its line breaks escaped. A stack never holds more items than its "
     "capacity (a float capacity is rounded, none means unbounded, clearing keeps it): pushing onto a full one raises an "
     "OverflowError without effect. Popping an empty one warns and returns None, peeking raises an IndexError, invalid items and "
     "capacities are refused, and stacks never affect one another. Items come out as the very objects that were put in.",
     "histories inputs", "all histories of calls on stacks of any capacity", CAPT,
     ST, [("bounded push and pop", ST + ":Stack.push, pop, peek, clear, is_full")],
     [("_container", "the items from bottom to top", ST), ("_max_capacity", "the capacity", ST)], ["public methods"])
prop("Q02", "A queue is first in, first out, and a full one makes room at its oldest end",
     "Dequeuing and peeking yield the items in exactly the order they were enqueued, each once, and length, emptiness and "
     "fullness agree with the items held. A queue never holds more items than its capacity (a float capacity is rounded, clearing "
     "keeps it): enqueuing to a full one warns and drops the item that would have been dequeued next, and a capacity of zero "
     "stores nothing. Dequeuing an empty one warns and returns None, peeking raises an IndexError, invalid items and capacities "
     "are refused without effect, and queues never affect one another. Items come out as the very objects that were put in.",
     "histories inputs", "all histories of calls on queues of any capacity", CAPT,
     QU, [("bounded enqueue and dequeue", QU + ":Queue._enqueue, dequeue, top, clear, is_full")],
     [("_container", "the items, newest first", QU), ("_max_capacity", "the capacity", QU)], ["public methods"])
prop("Q03", "A deque keeps order at both ends, and makes room at the opposite one",
     "Appending to, reading and popping at the left and right ends of a deque act on exactly the ends of the sequence it holds, "
     "and its queue operations enqueue on the left and serve from the right; each item comes out once. A deque never holds more "
     "items than its capacity (a float capacity is rounded, clearing keeps it): appending to a full one at one end warns and "
     "drops the item at the other end, and a capacity of zero stores nothing. Popping an empty one warns and returns None, "
     "reading an end raises an IndexError, invalid items and capacities are refused without effect, deques never affect one another.",
     "histories inputs", "all histories of calls on deques of any capacity", CAPT,
     DQ + " " + QU, [("both ends", DQ + ":Deque.append_left, append_right, pop_left, pop_right, get_left, get_right")],
     [("_container", "the items from left to right", QU)], ["public methods"])
prop("Q04", "A priority queue serves the extreme priority and keeps each item's own priority",
     "Dequeuing removes and returns an item whose priority is the highest (or, on request, the lowest) of those present, among "
     "equals the one enqueued last; every other item stays, in order, with the priority it was given (a whole number from 0 to "
     "100 when none was), and reading the top yields the item enqueued first. Enqueuing to a full one warns and drops the item "
     "enqueued first, so it never exceeds its capacity (a float is rounded, zero stores nothing, clearing keeps it). Dequeuing an "
     "empty one warns and returns None, reading its top raises an IndexError, invalid items, priorities and capacities are "
     "refused without effect.",
     "histories inputs", "all histories of calls on priority queues of any capacity, with int, float, negative and equal priorities", CAPT,
     PQ + " " + QU + " " + DLL, [("bookkeeping of the extreme priorities", PQ + ":PriorityQueue._update_min_priority, _update_max_priority, enqueue"),
                     ("service", PQ + ":PriorityQueue.dequeue")],
     [("_min_priority/_max_priority", "bounds of the priorities present", PQ)], ["public methods", "items and priorities of the nodes"])

# ---------------------------------------------------------------------------
exec(open(os.path.join(HERE, "tools", "props_trees.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "props_trees.py")) else None

LEVEL_NOTE = ("TLC checks the specification exhaustively within the stated constants; every transition of that state space and "
              "seeded random histories with larger values are executed on the real code and every recorded event is checked by TLC "
              "against the specification's own operators. Histories longer or values larger than those generated are not covered; "
              "trusted: TLC, the recording driver and its projection of objects to spec values.")
TECH = "TLA+ specification model-checked with TLC; its behaviours replayed on the code and recorded traces validated by TLC"


def main():
    import checks
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    have = [i for i in ids if i in checks.WHERE]
    man = {"version": 1,
           "setup_cmd": "python3 tools/setup_check.py",
           "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "technique": TECH, "level": "model_checking",
                       "level_note": (p["_note"] + " " if p["_note"] else "") + LEVEL_NOTE}
                      for p in P if p["id"] in have],
           "not_applicable": [{"property": i, "reason": "machinery not built yet"} for i in ids if i not in have],
           "notes": "No hooks: every check observes the unmodified library through its public methods and node getters."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "claimed")


main()
