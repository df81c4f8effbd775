#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib
P = "pydatastructs/"
LDS = P + "linear_data_structures/"
MISC = P + "miscellaneous_data_structures/"
TR = P + "trees/"
GR = P + "graphs/"
ST = P + "strings/"
props = []


def prop(id, title, statement, over, qtext, why, files, mech):
    props.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


ALG = LDS + "algorithms.py"
prop("C01", "Comparison sorts order any slice and keep its elements",
     "Each comparison sort (merge, brick, heap, cocktail shaker, quick, bubble, selection, insertion, intro, shell) leaves the requested slice of an array in the order of the given comparator (ascending by default), with exactly the values it held before, empty (None) entries behind all values, and everything outside the slice untouched. This includes equal elements, empty entries anywhere in the slice, slices that start or end anywhere, user comparators, and dynamic arrays.",
     ["inputs", "configurations"], "every content of the array (duplicates, None entries), every slice, ascending and descending comparators, fixed-size and dynamic arrays",
     "Tests sort a few fixed or random arrays of distinct values; order type, duplicate pattern, None placement and slice bounds are unboundedly many.",
     [ALG], [("merge_sort_parallel, brick_sort, heapsort, cocktail_shaker_sort, quick_sort, bubble_sort, selection_sort, insertion_sort, intro_sort, shell_sort", ALG), ("_comp, _swap, _check_range_query_inputs", LDS + "arrays.py, " + P + "utils/misc_util.py")])
prop("C02", "Counting, bucket and radix sorts order any integer slice",
     "Counting sort returns the array's values in ascending order, and bucket sort and radix sort leave the requested slice in ascending order, keeping exactly the values that were there, with empty (None) entries last and nothing outside the slice changed. Bucket and radix sort are specified for non-negative integers, counting sort for any integers.",
     ["inputs"], "every array of (non-negative) integers, with repeated values, zeros, values of different digit counts and None entries, every slice",
     "Tests use one or two fixed arrays; digit boundaries, equal maxima, zeros and None patterns are not sampled.",
     [ALG], [("counting_sort, bucket_sort, radix_sort", ALG)])
prop("C03", "Compiled sorting backends sort exactly like the Python ones",
     "With the C++ backend, quick, bubble, selection and insertion sort on a compiled array produce the sorted slice with the same values, for default and user comparators and every slice; with the LLVM backend, the generated bubble and selection sort machine code sorts every native numeric array in place.",
     ["inputs", "configurations"], "every array content and slice up to the bound; for LLVM every bit pattern of the 32/64-bit integers and every non-NaN float",
     "Tests run each backend on a few fixed arrays; generated code in particular is only executed on one sample per type.",
     [LDS + "_backend/cpp/algorithms/quick_sort.hpp", LDS + "_backend/cpp/algorithms/quadratic_time_sort.hpp", LDS + "_backend/cpp/algorithms/llvm_algorithms.py"],
     [("quick_sort, bubble_sort, selection_sort, insertion_sort (C++)", LDS + "_backend/cpp/algorithms"), ("IR builders for bubble and selection sort", LDS + "_backend/cpp/algorithms/llvm_algorithms.py")])
prop("C04", "Searching sorted and unsorted arrays finds exactly what is there",
     "Linear search returns a position inside the slice holding the value, or None exactly when the slice does not hold it; binary and jump search do the same on slices in comparator order. The ordered-check answers true exactly for slices whose values are in comparator order, in both the Python and the C++ backend.",
     ["inputs", "configurations"], "every array, searched value, slice, comparator and backend",
     "Tests search a handful of fixed arrays for a handful of values.",
     [ALG, LDS + "_backend/cpp/algorithms/misc_algorithms.hpp"], [("linear_search, binary_search, jump_search, is_ordered", ALG + " and misc_algorithms.hpp")])
prop("C05", "Lower and upper bound return the partition point",
     "On an ordered slice, lower bound returns the first index whose element is not before the value, and upper bound the first index whose element is after the value, and the end of the slice when there is none; for any slice and any comparator.",
     ["inputs", "configurations"], "every ordered array with duplicates, every value, slice and comparator",
     "Tests check fixed arrays; boundary values and duplicates at slice ends are not covered exhaustively.",
     [ALG], [("upper_bound, lower_bound", ALG)])
prop("C06", "Subsequence and permutation algorithms are exact",
     "The longest common and longest increasing subsequence functions return a subsequence of their input(s), increasing for the latter, that no valid subsequence exceeds in length. Next and previous permutation return the lexicographic successor or predecessor of the arrangement, with a flag telling whether one exists and wrapping around to the first or last arrangement when it does not; next permutation and previous permutation undo each other.",
     ["inputs"], "every pair of sequences, every arrangement with repeated values, every slice",
     "Optimality and lexicographic adjacency are claims about all alternatives; tests compare a few literals.",
     [ALG], [("longest_common_subsequence, longest_increasing_subsequence, next_permutation, prev_permutation", ALG)])
prop("C07", "Parallel matrix multiplication computes the product",
     "Multiplying an r-by-m matrix by an m-by-c matrix yields the r-by-c matrix product whatever the shapes, thread count and completion order of the tasks, and incompatible shapes are rejected.",
     ["inputs", "schedules"], "every pair of compatible matrices (square or not), every entry value, every completion order of the tasks",
     "Tests multiply a few square matrices under whatever schedule happened.",
     [ALG], [("matrix_multiply_parallel", ALG)])
ARR = LDS + "arrays.py"
prop("C08", "Fixed-size arrays store and return exactly what was written",
     "Every in-range cell of a one- or multi-dimensional array returns the value last written to it (or its initial value), independently of writes to all other cells; the size and shape are those requested, every element of a one-dimensional array has its element type, creating an array never changes the caller's list, and an out-of-range index raises instead of reading or writing another cell.",
     ["inputs", "histories"], "every shape, every sequence of writes and reads at any (in- or out-of-range) index, both backends for one dimension",
     "Aliasing between cells appears only for particular shapes and index tuples; tests touch a few.",
     [ARR, LDS + "_backend/cpp/arrays/OneDimensionalArray.hpp"], [("OneDimensionalArray, MultiDimensionalArray", ARR)])
prop("C09", "Dynamic arrays behave as growing and shrinking sequences",
     "After any sequence of appends, deletions and overwrites, a dynamic array yields the appended values in order with the deleted ones removed or empty, its element count and last filled position agree with its contents, and growing or shrinking never loses, duplicates or reorders a value, in both backends.",
     ["histories", "configurations"], "every history of operations up to the bound, every load factor used",
     "Resizing depends on the history; tests follow one or two fixed scripts.",
     [ARR, LDS + "_backend/cpp/arrays/DynamicOneDimensionalArray.hpp"], [("DynamicOneDimensionalArray.append, delete, _modify", ARR)])
LL = LDS + "linked_lists.py"
prop("C10", "Linear linked lists behave as sequences",
     "After any sequence of insertions at either end, after a node, before a node or at an index, and of removals at either end or at an index, a singly or doubly linked list holds exactly the sequence those operations describe: length, indexing, search, head, tail and, for doubly linked lists, backward links all agree. Operations on positions that do not exist raise and change nothing.",
     ["histories"], "every history of operations and positions up to the bound",
     "Corruptions of tail, size or back links show only after particular operation orders.",
     [LL], [("SinglyLinkedList, DoublyLinkedList", LL)])
prop("C11", "Circular linked lists behave as closed sequences",
     "After any sequence of insertions and removals a singly or doubly circular linked list holds exactly the sequence those operations describe, and its last node always links back to the first (and the first to the last, for doubly linked ones).",
     ["histories"], "every history of operations and positions up to the bound",
     "Wrap-around links break only in particular histories (single element, ends), which tests rarely reach.",
     [LL], [("SinglyCircularLinkedList, DoublyCircularLinkedList", LL)])
prop("C12", "Skip lists are ordered multimaps for every coin toss",
     "After any sequence of insertions and removals, whatever the random tower heights, a skip list reports as present exactly the keys inserted and not removed, with their data, keeps its bottom level sorted and its size correct, and removing an absent key fails without changing it.",
     ["histories", "inputs"], "every history, key order and every outcome of the random level choices up to the bound",
     "Tests run under whatever random heights happen to come up.",
     [LL], [("SkipList.insert, extract, search", LL)])
prop("C13", "Stacks are last-in first-out in every implementation",
     "For every history of pushes and pops, each stack implementation and backend returns the values in last-in first-out order, with peek, length and emptiness agreeing with the history, and popping an empty stack raises and changes nothing.",
     ["histories", "configurations"], "every history up to the bound, array, linked-list and C++ implementations",
     "Resizing of the backing array depends on the history of pushes and pops.",
     [MISC + "stack.py", MISC + "_backend/cpp/stack/ArrayStack.hpp"], [("ArrayStack, LinkedListStack", MISC + "stack.py")])
prop("C14", "Queues and deques keep order through every history",
     "For every history of operations at the ends a queue serves (one end in and the other out, or both ends for double-ended queues), each implementation returns the values in the order a sequence with those ends would, with front, rear, length and emptiness agreeing, and removing from an empty queue raises and changes nothing.",
     ["histories", "configurations"], "every history up to the bound, array and linked-list implementations, single- and double-ended",
     "The array implementation moves its window and resizes; a wrong index shows only after particular histories.",
     [MISC + "queue.py"], [("ArrayQueue, LinkedListQueue", MISC + "queue.py")])
prop("C15", "Priority queues return the most urgent element",
     "For every history of pushes and pops with any priorities, each priority-queue implementation pops an element whose priority no remaining element beats, returns every pushed element exactly once, and raises when empty.",
     ["histories", "configurations"], "every history and priority order (with ties) up to the bound, linked-list, binary-heap and binomial-heap implementations",
     "Heap and tree repairs depend on the order of priorities and the history.",
     [MISC + "queue.py"], [("LinkedListPriorityQueue, BinaryHeapPriorityQueue, BinomialHeapPriorityQueue", MISC + "queue.py")])
HP = TR + "heaps.py"
prop("C16", "d-ary heaps keep the heap order and extract the extreme",
     "A binary, ternary or d-ary, min or max heap built from any elements and changed by any insertions and extractions keeps every parent at least as extreme as its children, extracts an extreme element each time, and loses or duplicates none.",
     ["histories", "inputs"], "every key order with ties, arity, min/max flavour and history up to the bound",
     "Sift paths depend on arity and key order; tests check fixed literal heaps.",
     [HP], [("DHeap, BinaryHeap, TernaryHeap", HP)])
prop("C17", "Binomial heaps keep their shape and extract the minimum",
     "After any sequence of insertions, merges, decrease-keys, deletions and minimum removals, a binomial heap is a list of heap-ordered binomial trees of distinct orders holding exactly the live keys, and finding or deleting the minimum yields the least key.",
     ["histories", "inputs"], "every history and key order with ties up to the bound",
     "Carry chains of merges occur only for particular sizes and histories.",
     [HP, MISC + "binomial_trees.py"], [("BinomialHeap", HP), ("BinomialTree", MISC + "binomial_trees.py")])
BT = TR + "binary_trees.py"
prop("C18", "Binary search trees are ordered maps",
     "After any history of insertions and deletions, a binary search tree (either backend, any key comparator) finds exactly the keys that are present, with their latest data, its inorder walk is in key order, and parent and child links are mutually consistent; deleting an absent key reports it and changes nothing.",
     ["histories", "inputs", "configurations"], "every history and key order up to the bound, Python and C++ backends, default and reversed comparators",
     "Deletion has several structural cases and index compaction of the node store, reached only by particular histories.",
     [BT, TR + "_backend/cpp/BinarySearchTree.hpp", LDS + "arrays.py"], [("BinarySearchTree.insert, search, delete", BT), ("ArrayForTrees compaction", ARR)])
prop("C19", "AVL trees stay balanced ordered maps",
     "After any history of insertions and deletions an AVL tree (either backend) is an ordered map of the live keys whose two subtrees at every node differ in height by at most one, with the recorded heights correct.",
     ["histories", "inputs", "configurations"], "every history and key order up to the bound, including deletions from trees of many shapes, both backends",
     "Rotation cases after deletion need particular shapes; tests check a few trees.",
     [BT, TR + "_backend/cpp/AVLTree.hpp"], [("AVLTree", BT), ("SelfBalancingBinaryTree rotations", BT)])
prop("C20", "Red-black trees keep their colour invariants",
     "After any history of insertions and deletions a red-black tree (either backend) is an ordered map of the live keys with a black root, no red node with a red child, and the same number of black nodes on every path from the root to a missing child.",
     ["histories", "inputs", "configurations"], "every history and key order up to the bound, including deletions from trees of many shapes, both backends",
     "The recolouring cases of deletion need particular shapes and colours.",
     [BT, TR + "_backend/cpp/RedBlackTree.hpp"], [("RedBlackTree", BT)])
prop("C21", "Splay trees are ordered maps that splay, join and split correctly",
     "After any history of insertions, deletions and splays a splay tree (either backend) is an ordered map of the live keys whose root is the key just inserted or splayed; joining two trees with separated keys yields all keys, and splitting at a key partitions them.",
     ["histories", "inputs", "configurations"], "every history and key order up to the bound, both backends",
     "Zig, zig-zig and zig-zag cases on each side and index compaction combine in many ways.",
     [BT, TR + "_backend/cpp/SplayTree.hpp"], [("SplayTree", BT)])
prop("C22", "Cartesian trees and treaps keep key order and heap order",
     "After any history of insertions and deletions with any priorities, a cartesian tree, and a treap for every random priority assignment (a root given to the constructor has priority zero), is an ordered map of the live keys by inorder walk, and no node's priority is below its parent's.",
     ["histories", "inputs", "configurations"], "every history, key order and priority order up to the bound, both backends",
     "Treap priorities are random, so tests see an arbitrary few of the shapes.",
     [BT, TR + "_backend/cpp/CartesianTree.hpp", TR + "_backend/cpp/Treap.hpp"], [("CartesianTree, Treap", BT)])
prop("C23", "Order queries on search trees are exact",
     "On any search tree, lower and upper bound return the nearest key not below, or above, the query (or None); rank and select agree with the sorted order of the keys (on trees made with order statistics); and the lowest common ancestor of two present keys is the deepest node whose subtree holds both.",
     ["inputs", "histories", "configurations"], "every tree and query key up to the bound, both backends where offered",
     "Answers depend on tree shape and key order; tests query fixed trees.",
     [BT, TR + "_backend/cpp/BinarySearchTree.hpp"], [("lower_bound, upper_bound, rank, select, lowest_common_ancestor", BT)])
prop("C24", "Tree traversals visit every node once in the defined order",
     "Preorder, inorder, postorder, reversed variants and breadth-first traversal of any non-empty binary tree visit every node of the tree exactly once in the order that defines them, in both backends.",
     ["inputs", "configurations"], "every tree shape up to the bound, each order, both backends",
     "Explicit-stack traversal errors depend on shape; tests use one or two trees.",
     [BT, TR + "_backend/cpp/BinaryTreeTraversal.hpp"], [("BinaryTreeTraversal", BT)])
prop("C25", "Fenwick trees answer prefix and range sums after updates",
     "After any sequence of point assignments, a binary indexed tree returns the sum of the current values over every prefix and range, in both backends.",
     ["histories", "inputs", "configurations"], "every initial array, history of assignments and range up to the bound, both backends",
     "Index-bit arithmetic is right or wrong per position; tests probe a few.",
     [BT, TR + "_backend/cpp/BinaryIndexedTree.hpp"], [("BinaryIndexedTree", BT)])
prop("C26", "Range queries return the aggregate of exactly the queried range",
     "Static range queries (sparse table or precomputed array) and dynamic range queries (segment tree or array) return, for every range, the aggregate (minimum, maximum, gcd, sum or any other associative function) of exactly the current elements in it, after any sequence of point updates for the dynamic ones.",
     ["inputs", "histories", "configurations"], "every array, range and history of updates up to the bound, every aggregate and implementation offered",
     "Off-by-one ranges and stale nodes appear for particular ranges; tests use random arrays with one function each.",
     [MISC + "algorithms.py", MISC + "sparse_table.py", MISC + "segment_tree.py"], [("RangeQueryStatic, RangeQueryDynamic", MISC + "algorithms.py"), ("SparseTable", MISC + "sparse_table.py"), ("ArraySegmentTree", MISC + "segment_tree.py")])
prop("C27", "Interval trees report exactly the stabbed intervals",
     "Querying a one-dimensional segment tree at a point returns exactly the closed intervals of the tree that contain the point.",
     ["inputs"], "every set of intervals (nested, touching, equal end points, degenerate) and every query point up to the bound",
     "Correctness depends on the order type of all end points and the query.",
     [TR + "space_partitioning_trees.py"], [("OneDimensionalSegmentTree.build, query", TR + "space_partitioning_trees.py")])
prop("C28", "Disjoint sets track the union relation exactly",
     "After any sequence of make-set, union, find and make-root operations, two members are in the same set exactly when the unions connect them, and root, set size and the reported partition agree with that relation.",
     ["histories"], "every history of operations on up to the bound of members",
     "Path compression and size bookkeeping errors show only after particular unions.",
     [MISC + "disjoint_set.py"], [("DisjointSetForest", MISC + "disjoint_set.py")])
prop("C29", "Multisets count occurrences exactly",
     "After any sequence of additions and removals, a multiset reports for every value the number of times it was added and not removed, membership exactly when that is positive, and the total size; removing an absent value changes nothing.",
     ["histories"], "every history up to the bound",
     "Interaction of counts, membership and size depends on the history.",
     [MISC + "multiset.py"], [("Multiset", MISC + "multiset.py")])
prop("C30", "String search finds all and only the occurrences",
     "Each string-matching algorithm returns the start positions of all occurrences of the query in the text, including overlapping ones, in increasing order and nothing else; for an empty query it returns no position.",
     ["inputs"], "every text and query over any alphabet up to the bound",
     "Shift and prefix-function errors need particular self-overlapping patterns.",
     [ST + "algorithms.py"], [("find: kmp, rabin_karp, boyer_moore, z_function", ST + "algorithms.py")])
prop("C31", "Tries hold exactly the inserted strings",
     "After any sequence of insertions and deletions a trie reports a string as inserted exactly when it was inserted and not deleted, reports a non-empty prefix exactly when some held string has it, and lists exactly the held strings with a given prefix, each once.",
     ["histories", "inputs"], "every history of strings (prefixes of each other, repeated) up to the bound",
     "Errors need strings that are prefixes of each other in particular orders of insertion and deletion.",
     [ST + "trie.py"], [("Trie", ST + "trie.py")])
GA = GR + "algorithms.py"
prop("C32", "Graph edits and queries agree with the edge set",
     "After any sequence of adding and removing vertices and edges, a graph (list or matrix representation, either backend) reports exactly the vertices, edges, neighbours, adjacency, edge data and counts that the sequence defines.",
     ["histories", "configurations"], "every history of edits up to the bound, list and matrix representations, Python and C++ backends",
     "Stale entries after removals surface only in particular histories.",
     [GR + "adjacency_list.py", GR + "adjacency_matrix.py", GR + "graph.py", GR + "_backend/cpp/AdjacencyList.hpp", GR + "_backend/cpp/AdjacencyMatrix.hpp"], [("AdjacencyList, AdjacencyMatrix", GR)])
prop("C33", "Graph traversals visit exactly the reachable vertices, in order",
     "Breadth-first search visits each vertex reachable from the source exactly once in non-decreasing distance and depth-first search visits each exactly once along existing edges, finishing what it reached last before going back; the parallel variant visits every vertex a level at a time, whatever the schedule, and a callback that stops the search stops it.",
     ["inputs", "schedules", "configurations"], "every graph up to the bound, every source, representation, backend and task order",
     "Graph shape and schedule are not enumerated by tests on one or two graphs.",
     [GA, GR + "_backend/cpp/Algorithms.hpp"], [("breadth_first_search, depth_first_search, breadth_first_search_parallel", GA)])
prop("C34", "Minimum spanning trees are spanning and minimal",
     "For every connected weighted undirected graph, each minimum-spanning-tree algorithm, sequential or parallel, returns a spanning tree of the graph with the original edge weights, whose total weight no spanning tree undercuts, and leaves the graph itself unchanged.",
     ["inputs", "schedules", "configurations"], "every connected graph up to the bound with arbitrary (tied, negative) weights, both algorithms, their parallel variants and the C++ one",
     "Minimality is a claim over all spanning trees and all weight orders.",
     [GA, GR + "_backend/cpp/Algorithms.hpp"], [("minimum_spanning_tree, minimum_spanning_tree_parallel", GA)])
prop("C35", "Single-source shortest paths are shortest",
     "Dijkstra (non-negative weights) and Bellman-Ford (any weights without negative cycles) return, for every vertex, the least total weight of any path from the source, infinity exactly when there is none, and predecessors that realise it; a reachable negative cycle is reported by Bellman-Ford. The graph itself is unchanged.",
     ["inputs", "configurations"], "every directed graph up to the bound with arbitrary weights, every source and target, both backends where offered",
     "Optimality is a claim over all paths and all weight assignments.",
     [GA, GR + "_backend/cpp/Algorithms.hpp"], [("shortest_paths: bellman_ford, dijkstra", GA)])
prop("C36", "All-pairs shortest paths are shortest for every pair",
     "Floyd-Warshall and Johnson return for every ordered pair of vertices the least total weight of any path between them, infinity exactly when there is none, on every directed graph without negative cycles, and leave the graph itself unchanged.",
     ["inputs"], "every directed graph up to the bound with arbitrary weights",
     "Optimality over all paths, pairs and weights is beyond sampled graphs.",
     [GA], [("all_pair_shortest_paths: floyd_warshall, johnson", GA)])
prop("C37", "Topological sorting respects every edge and rejects cycles",
     "For every directed acyclic graph the topological sort, sequential or parallel under any schedule, lists every vertex once with each edge going forward; a graph with a cycle is rejected; the graph itself is unchanged.",
     ["inputs", "schedules"], "every directed graph up to the bound, every task order",
     "Graph shapes and schedules are sampled once by tests.",
     [GA], [("topological_sort, topological_sort_parallel", GA)])
prop("C38", "Strongly connected components are the mutual-reachability classes",
     "Both strongly-connected-component algorithms partition the vertices of any directed graph into exactly the classes of mutually reachable vertices.",
     ["inputs"], "every directed graph up to the bound",
     "Tests use one graph.",
     [GA], [("strongly_connected_components: kosaraju, tarjan", GA)])
prop("C39", "Maximum flow equals the minimum cut",
     "Both maximum-flow algorithms return, for every directed graph with non-negative capacities and distinct source and sink, the capacity of a minimum cut separating sink from source.",
     ["inputs"], "every directed graph up to the bound, every capacity assignment",
     "Augmenting-path errors depend on capacities and graph; tests use a couple of networks.",
     [GA], [("max_flow: edmonds_karp, dinic", GA)])
prop("C40", "Bridges are exactly the edges whose removal disconnects",
     "For every undirected graph the bridge finder returns exactly the edges whose removal separates their end points, each once.",
     ["inputs"], "every undirected graph up to the bound, connected or not",
     "Tests use a few graphs.",
     [GA], [("find_bridges", GA)])
prop("C41", "Compiled containers never free objects still in use",
     "For every history of operations on compiled arrays, stacks, search trees, binary indexed trees and graphs, and of compiled sorting, searching, traversal and graph algorithms on them, an object given to or handed out by the compiled code stays alive as long as the user or a container still refers to it: its reference count never falls below the references that exist.",
     ["histories"], "every history of operations up to the bound on every compiled container; objects that never die (None, small integers) are exempt",
     "Reference-count errors corrupt memory silently and surface later.",
     [LDS + "_backend/cpp/arrays/OneDimensionalArray.hpp", TR + "_backend/cpp/BinarySearchTree.hpp"], [("reference counting in all C++ types", P + "*/_backend/cpp")])
prop("C42", "Printed forms show exactly what a structure holds",
     "Printing an array, linked list, skip list, stack, queue, search tree, heap, segment tree, sparse table or interval tree never fails, in whatever state operations have left the structure (also empty), and the text shows exactly the values held, in the structure's order and, for trees and heaps, with the links between them; printing changes nothing.",
     ["histories", "inputs", "configurations"], "every history of operations up to the bound, all values, both backends where offered",
     "The text depends on the internal layout a history leaves behind (holes, compaction, emptied storage); tests print a few fixed states.",
     [LDS + "arrays.py", LDS + "linked_lists.py", MISC + "queue.py", MISC + "stack.py", BT, TR + "heaps.py"], [("__str__ of every structure", P)])
prop("C43", "Requests that cannot be served are refused and change nothing",
     "A request for the compiled or LLVM backend of something that exists in Python only, for an unknown algorithm, implementation, data structure, traversal order, strategy or heap property, or for an array without an element type or size is refused (ValueError, or NotImplementedError for unknown names) instead of being served by something else, and leaves its arguments as they were.",
     ["inputs", "configurations"], "every function and class that exists in Python only, both other backends, all argument values",
     "Tests never ask for an unsupported backend of most functions; a silently ignored request gives a different structure than asked for.",
     [P + "utils/misc_util.py", GA, LDS + "algorithms.py", MISC + "algorithms.py"], [("backend and name checks", P)])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
out.write_text("".join(json.dumps(p) + "\n" for p in props))
print(len(props), "properties")
