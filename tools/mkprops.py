#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RW = ["rwmap/rwmap.go"]; SC = ["synccache/synccache.go", "synccache/item.go", "rwmap/rwmap.go"]
RC = ["refreshcache/refreshcache.go", "refreshcache0/refreshcache0.go", "refreshcache1/refreshcache1.go"]

p("C01", "RWMap keyed operations are linearizable",
  "Every concurrent history of Load, Store, Swap, LoadOrStore, LoadAndDelete, Delete, CompareAndSwap and CompareAndDelete on one RWMap is equivalent to some sequential execution on a plain map that respects real-time order. In particular no acknowledged write is lost or resurrected, at most one of several competing LoadOrStore/CompareAndSwap/CompareAndDelete/LoadAndDelete calls wins a given value, and every (value, flag) result pair is the one the plain map would have produced. It holds for any comparable key type and any value type (compare operations: comparable values), including zero-size, interface-nil and large values.",
  ["schedules", "histories", "inputs"], "for all programs of keyed operations, all prior histories of the map (which decide the internal read/dirty/expunged state) and all interleavings",
  "Interleavings: the suite has one concurrent test (Range over stores of existing keys) and never races an insert, delete, compare or promotion against another on the same key.",
  RW, [("lock-free entry CAS with nil/expunged sentinels", "rwmap.go entry.* methods"), ("dirty-map promotion under mu with re-check of read", "rwmap.go missLocked/dirtyLocked and every locked section")],
  [("read/dirty/amended", "two-level map", "RWMap struct"), ("entry.p", "value, deleted (nil) or expunged", "entry struct")], ["results of the public methods"],
  "none in /repo: scheduling points are added to a build overlay at check time")
p("C02", "RWMap Clear is one atomic step over all keys",
  "Clear on an RWMap takes effect at one instant between its call and return: histories mixing Clear with keyed operations on several keys are linearizable as a whole map. Nothing stored before a Clear is observable after it returned unless stored again, and nothing stored after it returned is lost.",
  ["schedules", "histories"], "for all interleavings of Clear with keyed operations on several keys, from every prior history",
  "The suite clears a single-key map from one goroutine.",
  RW, [("replace read map and empty dirty map under mu", "rwmap.go Clear")], None, ["results of the public methods"])
p("C03", "RWMap Len equals the number of keys at quiescence",
  "Whenever no operation is in progress on an RWMap, Len equals SlowLen and the number of keys a full iteration visits, whatever sequential or concurrent mix of operations (Clear included, failed compare operations included, calls that panicked included) ran before.",
  ["schedules", "histories"], "for all operation histories and interleavings ending in a quiescent moment",
  "Len is a separately maintained counter; the suite checks it on one key, one goroutine.",
  RW, [("counter adjusted exactly once per absent<->present transition", "rwmap.go Swap/LoadOrStore/LoadAndDelete/CompareAndDelete/Clear")],
  [("len", "number of present keys", "RWMap struct")], ["Len, SlowLen, Range at quiescent points"])
p("C04", "RWMap Range visits each present key once, consistently",
  "A Range call visits no key twice; every key present for the whole call is visited unless the callback stopped the iteration; every visited value, and every omission, is the key's mapping at some instant during that call. The callback may call any method of the same map, and returning false ends the iteration at once.",
  ["schedules", "histories"], "for all concurrent mutations during Range, from other goroutines and from the callback, and all prior histories",
  "One concurrent test stores to keys that always stay present; no deletes, inserts, Clear or promotion race the iteration.",
  RW, [("promote dirty to read before iterating; entries loaded atomically", "rwmap.go Range")], None, ["callback invocations"])
p("C05", "Concurrent containers are data-race free and publish safely",
  "Any mix of concurrent calls on one RWMap, one SyncCache (and the entries it hands out) or one RefreshCache/RefreshData of the three refreshcache packages executes without a data race inside the library. A value obtained from one of them carries a happens-before edge from whoever stored or refreshed it, so everything written to it before it was stored is visible to the reader.",
  ["schedules"], "for all mixes of the exported operations of these types from any number of goroutines",
  "The suite runs without the race detector and exercises almost no concurrency.",
  RW + SC[:2] + RC, [("atomics and mutexes on every shared field", "the listed files")], None, ["Go race detector reports"])
p("C06", "User callbacks can re-enter or panic without wedging a container",
  "A function passed to RWMap.Range, SyncCache.Range, the SyncCache deleted-callback, or a refresh/clear function may panic, and RWMap/SyncCache callbacks may call any method of the same container: no call deadlocks, and after a panic was recovered by the caller every later operation on the container, from any goroutine, still completes and still behaves as specified.",
  ["schedules", "fault_sequences", "histories"], "for all callback behaviours (nested calls, panics at any invocation) and all concurrent callers",
  "One nested-Range test on rwmap; no panicking callbacks anywhere.",
  RW + SC[:2] + RC, [("no lock held across user callbacks in rwmap/synccache; deferred unlock in refreshcache", "the listed files")], None, ["completion of calls; deadlock detection of the controlled scheduler"])
p("C07", "SyncCache serves live entries only and never loses one",
  "Load, LoadOrStore, LoadAndDelete, CompareValueAndDelete and Range never hand out or match an entry that had already expired when the call began, and never miss an entry that was stored before the call, not removed or replaced, and still live when the call ended; histories are linearizable on the underlying map with expiry judged at some clock reading inside each call. CompareValueAndDelete in particular fails only if at some instant of the call no live entry with an equal value was stored. Removing an expired entry never removes a newer entry stored under the same key. Entry extensions (AddExpiration, SetExpiration) move the expiry accordingly.",
  ["schedules", "histories", "inputs"], "for all lifetimes, clock advances, operation programs and interleavings (1 ms resolution)",
  "The only test stores one key and deletes it by value; expiry is never exercised.",
  SC, [("expiry check on every read path, compare-and-delete by entry identity", "synccache.go Load/LoadOrStore/LoadAndDelete/Range/trim"), ("per-entry atomic expiration", "item.go")], None, ["results of the public methods under a virtual clock"])
p("C08", "SyncCache runs the deleted-callback exactly once per removed entry",
  "With a deleted-callback configured, every entry that leaves the cache through Delete, LoadAndDelete, CompareAndDelete, CompareValueAndDelete, Clear, lazy expiry or background trimming triggers the callback exactly once with that entry's value, before the removing call returns, however many callers race to remove it. No callback runs for an entry that is still stored or that was merely overwritten.",
  ["schedules", "histories"], "for all races between removers of the same entry and between removers and Store",
  "No test configures a callback.",
  SC, [("callback only by the caller whose removal succeeded", "synccache.go CompareAndDelete/Delete/LoadAndDelete/Clear")], None, ["callback invocations, final cache content"])
p("C09", "SyncCache reclaims expired entries in the background, only those",
  "In every started, not closed SyncCache an entry that nobody accesses is removed (and its deleted-callback run) within 10 seconds after it expired, for every cache in the process, while entries that are live or were extended stay. After Close returns and any pass under way has ended, the background pass leaves that cache alone until Start is called again; lookups still treat expired entries as absent.",
  ["schedules", "histories", "configurations"], "for all numbers of caches, lifetimes, Start/Close sequences and races between the trimming pass and users",
  "Background trimming needs 5 s periods; no test waits for it.",
  SC, [("global registry of caches and one ticker goroutine", "synccache.go runTrim/Start/Close/trim")], None, ["callback invocations under a virtual clock"])
p("C10", "Refreshes are single-flight and never redundant",
  "For one RefreshCache or RefreshData (all three packages) at most one refresh function runs at any time, however many Get and Refresh calls race. A Get that runs entirely while a successfully refreshed value is fresh, or a cached error is within its error age, runs no refresh function; callers that piled up behind a refresh share its outcome instead of repeating it; and every Refresh call runs its function exactly once.",
  ["schedules", "histories", "configurations"], "for all interleavings of Get, Refresh, Clear and all ages",
  "The suite calls Get sequentially and asserts nothing about call counts; refreshcache0/1 have no tests.",
  RC, [("double-checked locking around the refresh function", "RefreshData.Get/Refresh")], None, ["refresh function invocations"])
p("C11", "A refresh cache serves only values that were refreshed and are fresh",
  "A Get returning a nil error returns a value some refresh function produced successfully, either by this call or no longer ago than the maximum age (negative: no limit, zero: refreshed during the call, any positive duration however large), and never a value older than one whose Get/Refresh had already returned, nor one invalidated by a Clear or failed refresh that completed before the call. Last/LastTime/Raw agree with this: the time of the latest success, or zero when there is no valid value.",
  ["schedules", "histories", "configurations"], "for all maximum ages, outcome sequences of the refresh function, clock advances and interleavings",
  "Tests print results instead of asserting them; no concurrency, no extreme ages.",
  RC, [("value stored before its timestamp; timestamp reset on error and Clear", "RefreshData.Get/Refresh/Clear/Raw")], None, ["results under a virtual clock"])
p("C12", "Failed refreshes are reported, cached for the error age, never served as data",
  "When a refresh function fails, the calling Get or Refresh returns that very error (with the value the function returned); while the error age lasts, further Gets return the zero value and that error without refreshing; after it, or when no error age is set, the next Get refreshes again and a success restores normal service. LastErr/LastErrTime give the time of the latest failure since the last success (zero if none). A refresh function that panics leaves no trace: it is never recorded as a success or cached as a value.",
  ["fault_sequences", "histories", "configurations", "schedules"], "for all sequences of successes, errors and panics of the refresh function, all ages and clock advances",
  "One test prints the results of a constantly failing function; no panics, no recovery.",
  RC, [("error and error time recorded on failure, cleared on success", "RefreshData.Get/Refresh")], None, ["results and invocations under a virtual clock"])
p("C13", "Refresh and clear functions get the right arguments and old value",
  "In all three refreshcache packages the refresh and clear functions are invoked with the caller's arguments unchanged and a context derived from the caller's that carries, under OldValKey, the most recent successfully refreshed value (the zero value if none). Clear invalidates the cached value before running the clear function that is configured at that time, exactly once, and returns its error (nil if none is configured); SetRefreshFunc/SetClearFunc take effect for the calls that follow.",
  ["histories", "inputs", "schedules"], "for all argument lists, outcome histories and Set*/Clear sequences",
  "Tests log the old value without asserting; clear functions and the two sibling packages are untested.",
  RC, [("context.WithValue(OldValKey)", "RefreshData.Get/Refresh/Clear"), ("atomic function pointers", "RefreshCache")], None, ["arguments observed by the user functions"])
p("C14", "Doubly linked list behaves as a sequence with stable handles",
  "Under any sequence of pushes, inserts, moves, swaps, removals and clears, forward traversal, backward traversal, Get, Front/Back, Slice, Range and Len all describe the same sequence, the one the operations define, and each element handle keeps denoting its value and position. An operation given a handle that is not (or no longer) in the list, because it belongs to another list, was removed, or the list was cleared or sorted, leaves every list unchanged.",
  ["histories", "inputs"], "for all operation sequences over several lists and all handles, live, foreign and stale; zero-value and constructed lists",
  "Ported container/list tests cover a few fixed sequences; stale handles after Clear/Sort and most wrong-list calls are not reached.",
  ["dllist/dllist.go", "dllist/element.go"], [("circular list around a sentinel, owner pointer per element", "dllist.go/element.go")], [("len, next/prev, list", "structure", "Dllist/Element")], ["public traversal in both directions"])
p("C15", "List sort is a stable permutation; bulk inserts copy exactly",
  "Sort leaves exactly the same values, ordered by the given strict weak order, with equal values in their original relative order. PushBackList/PushFrontList insert a copy of the other list's values in order at the end/start; PushFrontListTo inserts them in order, and PushBackListTo inserts them all, contiguously right after the mark; the other list is unchanged and may be the receiver itself.",
  ["inputs", "histories"], "for all contents, comparison functions, marks and self-insertions",
  "One 3-element sort; the *ListTo functions are untested.",
  ["dllist/dllist.go"], [("quicksort by value into the same list", "dllist.go Sort"), ("bulk insertion loops", "dllist.go Push*List*")], None, ["list contents"])
p("C16", "Linked hash map is a map iterated most-recently-used first",
  "A Lhashmap holds exactly the key/value pairs a plain map would; Range visits each pair exactly once, most recently stored or loaded key first, stopping when told to; Len is the number of pairs; Remove and Clear forget keys completely and a missed Load or Remove changes nothing.",
  ["histories", "inputs"], "for all operation sequences, key and value types",
  "One test stores and loads three keys and never looks at the order, Remove, Range or Clear.",
  ["lhashmap/lhashmap.go", "dllist/dllist.go"], [("map of list elements plus recency list", "lhashmap.go")], None, ["Load, Range, Len"])
p("C17", "Vec positional edits match a plain slice",
  "Push, Pop, Insert, Remove, Set, Swap, Cut, SplitOff, Delete, Replace, Reverse, Clear, Grow and Clip change a Vec exactly as the same edit changes a plain sequence, and Get, First, Last, Len, IsEmpty, Range, Slice and SliceCut report it. The removed element(s) are returned unmodified (Cut, SplitOff, Remove, Pop, ConpareAndRemove), operations documented to ignore bad indexes change nothing and report so, and a capacity request never loses elements: after Grow(n) there is room for n more, after Clip none is unused.",
  ["histories", "inputs"], "for all edit sequences, indexes (in and out of range), sizes and element types, including arguments aliasing the vector",
  "One fixed small example per method.",
  ["vec/vec.go"], [("slice edits with explicit bounds checks", "vec.go")], None, ["contents after every edit"])
p("C18", "Vec ordering and search operations are correct for any order",
  "Sort yields an ascending permutation of the elements and SortStable additionally keeps equal elements in order; IsSorted, Max, Min, Compare, Equal*, Contains, Search, SearchAll and Compact agree with their definitions, and BinarySearch on a sorted Vec returns the first position not less than the target and whether it is present. This holds for user comparison functions and for the built-in order of signed, unsigned and floating-point numbers (NaNs first), strings (natural order) and pointers to those.",
  ["inputs", "configurations"], "for all contents, sizes, element types and comparison functions",
  "A few fixed int examples with the detected comparison; no stability, floats, strings, pointers or user orders.",
  ["vec/vec.go"], [("comparison detection by reflection", "vec.go autoDetectSetCmp*"), ("delegation to slices with a three-way adapter", "vec.go")], None, ["results and contents"])
p("C19", "Vec copies and detached parts are independent",
  "The results of Clone, CloneToSlice, SplitOff and Cut never share storage with the Vec they came from: later edits, appends or comparison-function changes on either side are never visible on the other. A clone or split-off part compares elements exactly as its source did when it was made.",
  ["histories", "inputs"], "for all later edit sequences on either side, all split points and spare capacities",
  "The suite looks at SplitOff's contents once, without editing either side afterwards.",
  ["vec/vec.go"], [("copying on Clone/SplitOff/Cut", "vec.go")], None, ["contents of both sides after every edit"])
p("C20", "Set operations obey set algebra",
  "Insert, Push, Remove, ContainAndRemove, Contain, Clear, CopyFrom, Clone, Len, IsEmpty, Slice and Range implement a mathematical set (with the documented boolean results), and Union, Intersection, Difference, SymmetricDifference, Equal, IsSubSet and IsSupperSet return the mathematically defined result. Operations returning a new set leave their operands unchanged and share nothing with them.",
  ["histories", "inputs"], "for all operand sets (empty, nil, equal, nested, disjoint, the receiver itself) and element types",
  "Fixed 10-element examples; IsSupperSet, CopyFrom, Clone and Range are untested.",
  ["set/set.go"], [("map-backed set", "set.go")], None, ["results and contents"])
p("C21", "GenMap operations match a plain map",
  "Every GenMap method has the effect and result of the corresponding plain-map operation: LoadOrStore and LoadOrStoreFunc return the existing value, or store and return the new one (running the function only then), LoadAndDelete and LoadAndStore return the previous value, Clone and the copy operations produce independent maps, Range stops when told and reports whether it finished, and From/Map share storage with the raw map.",
  ["histories", "inputs"], "for all operation sequences, key and value types",
  "Only Load/Store/Clone/Map/From/CopyFrom are tested, on two keys.",
  ["genmap/genmap.go"], [("thin methods over a map", "genmap.go")], None, ["results and contents"])
p("C22", "Heap operations keep heap order and conserve elements",
  "For any container implementing the heap interface with a strict weak order, Init, Push, Pop, Remove and Fix leave no child ordered before its parent, neither lose nor duplicate elements, touch only valid indexes, and Pop returns a least element while Remove returns the one at the given index. MinHeap and MaxHeap thus pop in ascending respectively descending order for every ordered element type.",
  ["histories", "inputs"], "for all operation sequences, contents (duplicates included), sizes and indexes, and user-defined containers that track positions",
  "Ported container/heap tests on a few fixed sizes; MinHeap/MaxHeap only through one example.",
  ["heap/heap.go", "heap/minheap.go", "heap/maxheap.go"], [("sift up / sift down", "heap.go up/down")], None, ["Less/Swap/Push/Pop calls received by a monitored container"])
p("C23", "Priority queues pop by priority and conserve items",
  "A min (max) priority queue pops, at every moment and for any interleaving of pushes and pops, an item whose priority is smallest (largest) among those present, returned with exactly the value it was pushed with; every pushed item is popped exactly once and Len counts the items present.",
  ["histories", "inputs"], "for all interleavings of Push and Pop, all int priorities (negative, extreme, equal) and value types",
  "One push-all-then-pop-all example per queue.",
  ["pqueue/pqueue.go", "pqueue/minqueue.go", "pqueue/maxqueue.go", "heap/heap.go"], [("heap of items ordered by priority", "pqueue/*.go")], None, ["Pop results"])
p("C24", "Hash ring maps every key to a member, by membership alone",
  "GetNode always returns a current member (the zero value exactly when the ring holds no points), also when the key's hash coincides with a ring point, and a key equal to a member maps to that member. The answer depends only on the replica count, the key and the current set of members: any two rings whose add/remove/reset histories lead to the same set agree on every key, and repeated lookups agree.",
  ["histories", "inputs", "configurations"], "for all membership histories, replica counts, member and key types, including colliding hashes",
  "One lookup asserted non-empty.",
  ["hashring/hashring.go", "vec/vec.go", "set/set.go"], [("sorted vector of replica points, successor search", "hashring.go AddNodes/GetNode")], None, ["GetNode results"])
p("C25", "Hash ring membership changes move only the necessary keys",
  "Adding members changes a key's owner only to one of the added members, and removing members changes the owner only of keys that a removed member owned; re-adding a removed member restores every owner. Adding a present member or removing an absent one changes nothing.",
  ["histories", "inputs", "configurations"], "for all member sets, change sequences, replica counts and keys",
  "Not tested at all (only point counts are).",
  ["hashring/hashring.go"], [("replica points depend only on the member; ring rebuilt from the member set", "hashring.go")], None, ["GetNode results before and after"])
p("C26", "Ring is a circular list; link and unlink preserve all elements",
  "Next, Prev, Move (any offset, either sign), Len and Do describe one circular sequence, consistently in both directions. Link of two rings splices them into one, Link within one ring and Unlink split off exactly the skipped elements and return them as a ring, and no element is lost or duplicated; a zero Ring is a one-element ring and nil is an empty one.",
  ["histories", "inputs"], "for all ring sizes, offsets and link/unlink sequences over several rings",
  "Ported container/ring tests with fixed sizes.",
  ["ring/ring.go"], [("pointer surgery", "ring.go Link/Unlink/Move")], None, ["traversal in both directions"])
p("C27", "Tree links stay consistent; build and traversals are complete",
  "After any sequence of SetLeft/SetRight (a node is never attached below itself), a node is another's left or right child exactly when that other is its parent, and no node sits in two places: attaching a node detaches it from its previous place and the displaced child, which is returned, becomes a root. BuildTree fills the values level by level, TraversalDFS lists exactly the subtree in preorder, TraversalBFS and DrawTree (one line per layer) in level order, and Layer/MaxDepth are the distance from the root and to the deepest leaf.",
  ["histories", "inputs"], "for all attach/detach sequences that create no cycle and all tree shapes and sizes, the empty tree included",
  "Fixed complete trees with seven nodes; no re-attachment, no skewed or deep trees, DrawTree untested.",
  ["tree/tree.go", "utils/utils.go"], [("parent/child pointer updates", "tree.go SetLeft/SetRight"), ("traversals", "tree.go")], None, ["exported fields and traversals"])
p("C28", "Tree relation predicates agree with the tree structure",
  "For every pair of nodes, Sibling, Uncle, Grandparent and the IsX/HasX/IsXRelation predicates are true exactly when the parent/child structure says so: x.IsAncestorRelation(y) when y lies in x's subtree, x.IsDescendantRelation(y) when y lies strictly below x, and the child, left, right, sibling, uncle and grandparent relations when y is x's child, left child, right child, sibling, uncle or grandparent (the child, left, right, ancestor and descendant relations never hold for a nil y).",
  ["inputs", "histories"], "for all tree shapes and all ordered pairs of nodes, in the same tree or not",
  "A handful of positive pairs on one seven-node tree; no negative pairs.",
  ["tree/tree.go"], [("relation methods", "tree.go")], None, ["predicate results"])
p("C29", "The library works identically on 32-bit platforms",
  "Every exported operation behaves on 32-bit platforms as on 64-bit ones: no operation of the concurrent containers (RWMap, SyncCache and its entries, the refresh caches), alone or embedded in user structs and with any key and value types, crashes or misbehaves because of word size or alignment.",
  ["configurations", "inputs"], "for all container and element types, struct embeddings and operation sequences on a 32-bit target",
  "The suite is only run on amd64.",
  RW + SC[:2] + RC, [("alignment of 64-bit atomics", "fields accessed with 64-bit atomic operations")], None, ["behaviour of 386 builds of the model workloads"])
p("C30", "A slow user function holds up only calls that need its outcome",
  "However long a user function takes, calls that do not depend on its outcome complete meanwhile. While an RWMap or SyncCache Range callback or a SyncCache deleted-callback (in a call or in the background pass) is running, every other call on that container, and on any other, completes. While a refresh function is running in one Get or Refresh, another Get of a still fresh value or of an error within its error age, Clear, Last, LastTime, LastErr, LastErrTime, MaxAge, MaxErrAge, Raw and the function setters complete; while a clear function is running, every other call completes.",
  ["schedules", "histories"], "for all durations of user functions and all other calls, from every prior state, in every interleaving",
  "No test makes a call while a user function is running in another goroutine.",
  RW + SC[:2] + RC, [("no lock held across Range and deleted-callbacks", "rwmap.go Range, synccache.go"), ("lock-free fast path before the lock", "RefreshData.Get"), ("lock-free Clear and readers", "RefreshData.Clear/Last/LastErr/Raw")], None, ["completion of calls; deadlock detection of the controlled scheduler"])
p("C31", "Removed values are released and memory follows the live content",
  "A value that was removed from, replaced in or cleared out of an RWMap, SyncCache, Dllist, Lhashmap, Ring or Tree, or superseded by a later successful refresh of a refresh cache, is no longer kept alive by that container (a removed list element that the user keeps holds its own value only). For every container, memory (and goroutines) held depends on the largest number of elements it had at once, not on how many operations ran: churn with ever new keys, values, members, failing or panicking refreshes and repeated Start/Close never accumulates.",
  ["histories"], "for all operation histories, sequential and concurrent, of any length",
  "Tests never look at memory.",
  RW + SC[:2] + RC + ["dllist/dllist.go", "lhashmap/lhashmap.go", "ring/ring.go", "tree/tree.go", "vec/vec.go", "pqueue/pqueue.go", "hashring/hashring.go"],
  [("deleted entries hold nil, expunged entries are dropped when the dirty map is rebuilt", "rwmap.go dirtyLocked/tryExpungeLocked"), ("links of removed elements are reset", "dllist.go remove/Clear")], None, ["weak pointers and live heap after a collection"])
ALLSEQ = ["dllist/dllist.go", "dllist/element.go", "vec/vec.go", "set/set.go", "genmap/genmap.go", "lhashmap/lhashmap.go", "heap/heap.go", "pqueue/pqueue.go", "hashring/hashring.go", "ring/ring.go", "tree/tree.go"]
p("C32", "Concurrent reads and separate containers need no locking",
  "In the unsynchronised containers, operations that only read (HashRing.GetNode; Dllist Get, Front, Back, Next, Prev, Len, Slice, Range and being copied from; every Vec operation that does not modify it, comparing ones once its comparison functions are set or have been used; Set and GenMap lookups, iteration, algebra and copies; Lhashmap Len and Range; heap and queue Len; Ring Next, Prev, Move, Len and Do on an initialised ring; every Tree traversal and predicate) may run concurrently from any number of goroutines while nobody modifies the container: without a data race, with the answers they give alone. Two containers with no common elements, of any kind, never interfere: used from different goroutines they involve no data race, and each behaves as if it were alone.",
  ["schedules", "histories"], "for all modification histories before the reads, all mixes of concurrent reads, and all schedules",
  "No test reads an unsynchronised container from two goroutines.",
  ALLSEQ + RW + SC[:2] + RC, [("read operations write nothing, not even a cache", "all containers"), ("no package-level mutable state", "all packages; the synccache trimmer list is synchronised")], None, ["the Go race detector's shadow memory; the answers of concurrent reads"])
p("C33", "User functions may read the container or panic; its content stays intact",
  "In the unsynchronised containers a callback (Range of Dllist, Element, Vec, Set, GenMap and Lhashmap; Ring.Do; search and equality predicates; the function of GenMap.LoadOrStoreFunc) may itself read or iterate the same container and gets the right answers. If a callback or comparison function panics, the panic reaches the caller and the container keeps exactly the elements it had, in place (after a sort or heap operation: in some order; a LoadOrStoreFunc stored nothing; a DeleteFunc deleted nothing it had not been told to), and every later operation works normally.",
  ["inputs", "histories"], "for all contents, all user functions and every call at which one may panic",
  "No test lets a user function panic or use the container.",
  ALLSEQ, [("sorting moves elements by swaps only, or works on copies", "dllist.go Sort, vec.go Sort*"), ("iterations keep their state on the stack", "Range of every container, Ring.Do")], None, ["the content after a recovered panic; answers of calls made inside callbacks"])
p("C34", "Slices and maps passed in or handed out stay the caller's own",
  "Vec Push, Insert, Replace and the comparisons with slices, Set.Push, Set.Union, HashRing AddNodes, RemoveNodes and ResetNodes, tree.BuildTree, GenMap.CopyFromRaw neither modify the slice or map they are given (spare capacity behind a slice included) nor keep using it: the caller may overwrite it afterwards without any effect on the container. What Set.Slice, Dllist.Slice, GenMap Keys and Values, Vec Cut, CloneToSlice and SearchAll, TraversalDFS and TraversalBFS return is the caller's: overwriting or appending to it affects no container and no other result.",
  ["inputs", "histories"], "for all argument slices (order, duplicates, spare capacity), contents and later edits on either side",
  "Tests pass literals and never look at an argument or result again.",
  ["vec/vec.go", "set/set.go", "hashring/hashring.go", "tree/tree.go", "dllist/dllist.go", "genmap/genmap.go"], [("arguments are copied element by element", "Push, AddNodes, BuildTree"), ("results are freshly allocated", "Slice, Keys, Values, Traversal*")], None, ["argument and result slices, spare capacity included, after every operation and edit"])
p("C35", "Hash ring spreads keys over all members",
  "With 100 or more replicas and 2 to 16 members every member owns a reasonable part of the keys, whatever membership changes led there: of a large number of distinct keys no member owns less than a tenth of, or more than four times, its fair share.",
  ["inputs", "histories"], "for all node and key types, name families and histories of membership changes",
  "Tests look at single keys, which a ring that sends everything to one member passes.",
  ["hashring/hashring.go"], [("one point per member and replica number", "AddNodes, hashKey"), ("the first point not before the key's hash owns it", "GetNode")], None, ["owner of every key"])
p("C36", "What an operation costs does not grow with the size of the container",
  "However many elements there are and however they are arranged (sorted, reversed, all equal), operations on a single key or element - RWMap and SyncCache calls on one key and RWMap.Len, Lhashmap, Set and GenMap calls on one key, Dllist pushes, insertions, removals, moves and swaps, Vec Push, Pop, Get, Set and Swap, Ring Next, Prev and Link, Tree SetLeft and SetRight - take amortised constant time and memory; heap Push, Pop, Remove and Fix, PQueue Push and Pop, Vec.BinarySearch and HashRing.GetNode take a logarithmic number of steps; operations on everything (Range, copies, Clear, set algebra, searches, traversals and drawings of balanced trees, heap.Init, BuildTree) take time and memory linear in the elements; sorts take n log n steps.",
  ["inputs", "histories"], "for all sizes, arrangements of the content and operation histories",
  "Tests use a handful of elements, for which a quadratic or linear implementation looks the same.",
  ["rwmap/rwmap.go", "lhashmap/lhashmap.go", "dllist/dllist.go", "vec/vec.go", "heap/heap.go", "pqueue/pqueue.go", "hashring/hashring.go", "set/set.go", "tree/tree.go", "ring/ring.go"],
  [("promotion of the dirty map after as many misses as it has keys", "rwmap.go missLocked, dirtyLocked"), ("map of list elements", "lhashmap.go"), ("binary search over the sorted points", "hashring.go GetNode"), ("copy, stable sort and relink", "dllist.go Sort")], None, ["statements executed, user functions called, bytes allocated"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
