"""What runs for each property: the workload package, how it is built, and how."""

NOTES = {}


def ctl(pkg, **kw):
    """Instrumented build; threads are switched by the seeded controlled scheduler."""
    return dict(dict(name="ctl", pkg=pkg, overlay=True, shards=8, gomaxprocs=1), **kw)


def par(pkg, **kw):
    """Plain build, real goroutines."""
    return dict(dict(name="par", pkg=pkg, shards=3, gomaxprocs=4), **kw)


def seq(pkg, **kw):
    """Plain build, sequential model-based workload."""
    return dict(dict(name="seq", pkg=pkg, shards=8, gomaxprocs=2), **kw)


def race(pkg, **kw):
    """Race-detector build."""
    return dict(dict(name="race", pkg=pkg, race=True, shards=4, gomaxprocs=4), **kw)


LEGS = {
    "C01": [ctl("rwmap"), par("rwmap")],
    "C02": [ctl("rwmap"), par("rwmap")],
    "C03": [ctl("rwmap"), par("rwmap")],
    "C04": [ctl("rwmap"), par("rwmap")],
    "C05": [race("race"), race("race", name="racenoise", overlay=True)],
    "C06": [ctl("rwmap", name="rwmap"), ctl("synccache", name="synccache"), ctl("refresh", name="refresh")],
    "C30": [ctl("rwmap", name="rwmap"), ctl("synccache", name="synccache"), ctl("refresh", name="refresh")],
    "C31": [seq("mem", name="release"), seq("mem", name="growth")],
    "C32": [race("share", shards=8, gomaxprocs=3)],
    "C33": [seq("share")],
    "C34": [seq("share")],
    "C07": [ctl("synccache")],
    "C08": [ctl("synccache")],
    "C09": [ctl("synccache")],
    "C10": [ctl("refresh"), par("refresh")],
    "C11": [ctl("refresh"), par("refresh")],
    "C12": [ctl("refresh"), par("refresh")],
    "C13": [ctl("refresh"), par("refresh")],
    "C14": [seq("dllist")],
    "C15": [seq("dllist")],
    "C16": [seq("lhashmap")],
    "C17": [seq("vec")],
    "C18": [seq("vec")],
    "C19": [seq("vec")],
    "C20": [seq("maps")],
    "C21": [seq("maps")],
    "C22": [seq("heaps")],
    "C23": [seq("heaps")],
    "C24": [seq("hashring")],
    "C25": [seq("hashring")],
    "C35": [seq("hashring")],
    "C26": [seq("ring")],
    "C36": [seq("cost", name="cost", overlay=True, gomaxprocs=1)],
    "C27": [seq("tree")],
    "C28": [seq("tree")],
}

for _p in ("C01", "C02", "C03", "C04", "C07", "C08", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"):
    LEGS[_p].append(seq("bulk", name="bulk"))


def bits32(leg, prop, scale, **kw):
    """The workload of another property, built for a 32-bit target."""
    return dict(leg, name="386-" + leg["pkg"] + "-" + leg["name"], leg=leg["name"], prop=prop, arch="386", differs=True, args=["-scale", str(scale)], **kw)


LEGS["C29"] = [
    dict(seq("arch"), name="386-arch", arch="386", differs=True),
    dict(seq("arch"), name="386-answers", arch="386", differs=True, twin=True),
    bits32(par("race"), "C05", 100),
    bits32(par("rwmap"), "C03", 50),
    bits32(par("refresh"), "C11", 50),
    bits32(ctl("rwmap"), "C02", 15),
    bits32(ctl("synccache"), "C07", 15),
    bits32(ctl("synccache"), "C09", 10) | {"name": "386-trim"},
    bits32(ctl("refresh"), "C12", 15),
    bits32(seq("vec"), "C17", 12),
    bits32(seq("vec"), "C18", 15) | {"name": "386-vec-order"},
    bits32(seq("dllist"), "C14", 20),
    bits32(seq("lhashmap"), "C16", 14),
    bits32(seq("maps"), "C20", 14),
    bits32(seq("maps"), "C21", 20) | {"name": "386-genmap"},
    bits32(seq("heaps"), "C22", 12),
    bits32(seq("heaps"), "C23", 10) | {"name": "386-pqueue"},
    bits32(seq("hashring"), "C24", 10),
    bits32(seq("ring"), "C26", 8),
    bits32(seq("tree"), "C27", 12),
]

CONC = ("Random small concurrent programs (2-4 threads) after a random sequential history, run (ctl) under a seeded scheduler that decides every "
        "switch at synchronisation operations, clock reads and, in part of the runs, before every statement (uniform, sticky and PCT strategies), and "
        "(par) on free-running goroutines. Non-trivial: at least two operations of different threads overlapped in time; distinct: by the sequence of switches and the recorded history. ")

RULES = {
    "C01": CONC + "Oracle: linearizability search of the recorded history against a plain map, plus long sequential runs checked call by call.",
    "C02": CONC + "Programs contain Clear; oracle: whole-map linearizability search including Clear.",
    "C03": CONC + "Oracle: Len, SlowLen, the number of loadable keys and of Range visits agree at every quiescent point; also sequential runs, panicking calls and long parallel stress.",
    "C04": CONC + "Programs contain Range (with nested operations and early stops); oracle: no key visited twice, each visit and omission is a per-key linearizable read within the Range call.",
    "C07": CONC + "All on a virtual clock that the programs advance (background trimming included, interleaved like any other thread). Oracle: per-key linearizability search on a map of entries whose expiry follows from the recorded clock readings (2 ms tolerance).",
    "C08": CONC + "Virtual clock as for C07; every deleted-callback invocation is recorded with the call that ran it. Oracle: search for an order in which every callback is the removal of a stored entry, every other entry was overwritten, and nothing is left after the final Clear.",
    "C09": "Virtual time. Sequential: up to 8 caches with random stores, extensions, Start/Close and clock advances, every background removal checked (expired, cache started) and every expired entry required to be gone 10 s later; release of values observed through weak pointers for caches without callback; (ctl) the background pass interleaved with Store/Load/extension/Close by the controlled scheduler. Non-trivial: a case with entries and clock advances (sequential) or overlapping operations (ctl). ",
}

REFRESH = ("Sequential: random call sequences on a virtual clock against an exact model, over 24 variants (3 packages x RefreshCache/RefreshData x 4 value types) and extreme ages. " + CONC +
           "Refresh functions succeed, fail or panic, yield and consume clock time. Every invocation is recorded. Oracle: trace rules over the recorded runs. ")
RULES["C10"] = REFRESH + "Here: at most one run at a time, no run of a Get while the previous outcome is still valid, exactly one run per Refresh."
RULES["C11"] = REFRESH + "Here: provenance, age and supersession of every value served, Last/LastTime/Raw."
RULES["C12"] = REFRESH + "Here: own errors returned, cached errors and their age, panics leave no trace."
RULES["C13"] = REFRESH + "Here: arguments, context, OldValKey value, clear function, SetRefreshFunc/SetClearFunc."
RULES["C05"] = ("Rounds of 2-5 goroutines performing random mixes of every exported operation on a fresh container, payloads written plainly before storing and read plainly afterwards, "
                "under the Go race detector: (race) the unmodified library, (racenoise) the instrumented one with random preemptions and delays at every statement and the background trimming pass fired by a virtual clock. "
                "Every round is non-trivial (at least two goroutines on one container); distinct by round.")

RULES["C06"] = ("Random programs of 1-4 threads under the seeded scheduler, which reports a deadlock as soon as no thread can run. (rwmap) Range callbacks that perform up to three levels of operations on the same map "
                "(Range, Clear, Len included), stop or panic; (synccache) deleted-callbacks - in foreground calls and in the background pass - and Range callbacks that call every method of the same cache, and panic (foreground only, recovered by the caller); "
                "(refresh) refresh and clear functions that panic. Oracle: no deadlock, and the linearizability, callback and trace oracles of C01-C04, C07, C08 and C10-C13 on the whole history, nested calls included. Non-trivial: a user function called back or panicked; distinct: by switches and history.")

RULES["C30"] = ("Random programs of 2-8 threads under the seeded scheduler: 1-4 threads make a call whose user function (RWMap/SyncCache Range callback, deleted-callback in a call or in the background pass, refresh function, clear function) returns only when the other 1-3 threads "
                "have finished all their calls, which are calls that do not need its outcome (all of them for RWMap and SyncCache; for the refresh caches Get of a fresh value or cached error, Clear, the readers and setters, and during a clear function everything). "
                "Oracle: no deadlock reported by the scheduler. Non-trivial: a call completed while a user function was under way; distinct: by switches and program.")

RULES["C31"] = ("(release) Random operation sequences on RWMap, SyncCache, the refresh caches, Dllist (with handles of removed elements kept), Lhashmap, Ring and Tree whose values are only watched through weak pointers, and parallel ones on RWMap and SyncCache; after every few operations a collection, then oracle: "
                "everything the container no longer holds must be gone. (growth) Long churn with a bounded number of elements on these, Vec, PQueue, MinHeap, HashRing and Set: live heap measured after a collection at 1x, 10x and (on a rise) 100x the operations; oracle: no growth proportional to the number of operations; repeated Start/Close leaves no goroutines. "
                "Non-trivial: values were seen released, or a churn was measured; distinct: by case.")

RULES["C32"] = ("Under the Go race detector: (readers) a container is modified at random, then 2-5 goroutines perform random read operations on it, and so on for up to four rounds, for eleven kinds of containers; "
                "every answer compared with the same read repeated alone; (apart) 2-5 goroutines each use a container of their own, every result compared with the same life repeated alone, for fourteen kinds. "
                "The harness shares nothing between the goroutines. Non-trivial: every case (at least two goroutines); distinct: by kind, operations and answers.")
RULES["C33"] = ("Random contents and random operations whose user function (callback, predicate, comparison, constructor) panics at a random call or reads and iterates the container itself, in seven containers. "
                "Oracle: the panic arrives, the content equals the model's (sorts and heaps: same elements), later operations follow the model. Non-trivial: an operation ran; distinct: by operations and panic points.")
RULES["C34"] = ("Random operation sequences on Vec, Set, HashRing, Tree, Dllist and GenMap; argument slices carry spare capacity, duplicates and orderings, are compared with a copy after every operation and overwritten at random; "
                "results are compared with copies after every later operation and overwritten up to their capacity at random; some slices hold thousands of elements. Oracle: arguments and results unchanged, container equal to the model throughout. Non-trivial: more than three operations (HashRing, Tree: any); distinct: by operations and sizes.")

RULES["C35"] = ("Rings of text, integer and float nodes (numbered, addresses, random), 100-300 replicas, led by random membership changes to 2-16 members; 3000 sequential or random keys looked up after every change. "
                "Oracle: every member owns between 0.1 and 4 times its fair share (observed extremes are in the counters, in percent). Non-trivial: every case; distinct: by case, replicas and names.")

RULES["C36"] = ("Every operation of every container (%d groups) on a container of 700-1300 elements and on ones 4, 16 and 64 times as large, with the same random choices, in random, sorted, reversed, constant, periodic and nearly sorted arrangements, in the instrumented build. "
                "Measured per operation (per element for operations on everything): library statements, calls of user functions, bytes allocated, processor time. Oracle: at most 3 times the statements (+10) and calls (+10), 5 times the bytes (+300); processor time at most 15 times max(small, 200 ns) in at least one of seven measurements. "
                "Non-trivial: every case; distinct: by group, arrangement, size and choices." % 41)
RULES["C29"] = ("386 builds, executed: (386-answers) ring lookups, sorted orders, searches, pop orders, traversals and set algebra over ten element types, written down and compared with what the native build answers to the same calls; (386-arch) RWMap, SyncCache and its entries, and the three refresh caches over 84 key/value type pairs, held alone and at eight kinds of places in user structs and slices, every operation against a plain model "
                "on the real clock with ages far beyond 32 bits; (others) the workloads of C02, C03, C05, C07, C09, C11, C12, C14, C16-C18, C20-C24, C26 and C27 with their own oracles. A failure counts if the same workload does not fail on the native target. "
                "Non-trivial and distinct as in those workloads.")

SEQ = "Random operation sequences against a reference model, compared after every operation; non-trivial: more than three operations ran; distinct: by the sequence of operations and arguments. "
RULES["C14"] = SEQ + ("1-3 lists side by side (zero value or New, five element types), handles of every kind (live, of another list, removed, cleared, sorted away, user-made); "
                      "every list is read through every accessor after every operation.")
RULES["C15"] = SEQ + "Sort with four orders over values with many equal keys, lists of up to 1200 values of adversarial shapes, bulk inserts incl. a list into itself, at every kind of mark."
RULES["C16"] = SEQ + "1-2 maps of four key/value type pairs, 1-40 keys; Range (also stopped early) and Len compared with a recency-ordered list after every operation."
RULES["C20"] = SEQ + "2-4 sets over universes of 1-60 values of five types, results of the algebra edited and kept in play; every set read through every accessor after every operation."
RULES["C21"] = SEQ + "2-3 maps of four key/value type pairs, some made from a raw map that is watched as well; every map read through every accessor after every operation."
RULES["C22"] = SEQ + ("Instrumented user containers (five strict weak orders with ties, up to 1700 elements) that check every index they are given, heap order and the multiset of elements; "
                      "MinHeap/MaxHeap over six ordered types with extreme values, popped elements compared with everything left.")
RULES["C23"] = SEQ + "Min and max queues of five value types, extreme and repeated priorities, push/pop mixes, large backlogs; each pop compared with the multiset of items present."
RULES["C26"] = SEQ + "Rings of 1-350 elements incl. zero rings; Link/Unlink within and across rings; Next, Prev, Move, Len and Do compared with the circular model from every kind of starting element."
RULES["C27"] = SEQ + ("Forests of 1-400 nodes (four value types, also all values identical), random attachments incl. moving a node, its relatives, nil and the child already there (never below itself); "
                      "the three link fields of every node compared after every operation, traversals, DrawTree, Layer and MaxDepth from random nodes; BuildTree for every size up to 300 and random ones up to 3000; chains up to depth 600.")
RULES["C28"] = "Random forests of 1-260 nodes (also with identical values), every ordered pair of nodes through every relation predicate; oracle: the definition over the model's parent/child arrays. Non-trivial: at least three nodes; distinct: by forest shape."
RULES["C17"] = SEQ + "1-3 Vecs (zero value or New) of five element types and up to 3000 elements, valid and invalid indexes, arguments taken from the Vec's own storage; every accessor compared with a plain slice after every operation."
RULES["C18"] = ("Random sequences (0-430 elements; sorted, reversed, nearly sorted, few distinct values) over 21 orders: user orders with ties and identities, signed/unsigned/float built-ins with extreme values and NaN, "
                "natural strings, pointers to those. Every sorting, searching and comparing operation judged by its definition. Non-trivial: more than three elements; distinct: by order, elements and operations.")
RULES["C19"] = SEQ + "Families of up to 8 Vecs and slices derived by Clone, CloneToSlice, SplitOff and Cut; after every edit, append or comparison change of one member all members must have their recorded content, and every Vec its recorded comparison."
HR = SEQ + ("Rings of five node types, 0-50 replicas, members and keys drawn from pools that include names whose ring points or key hashes collide (forged or found by the birthday method), or lie next to each other or at the ends of the hash range, and every kind of membership change with repeated, present and absent names. ")
RULES["C24"] = HR + "Oracle: membership of every answer, a member key owns itself, agreement between repeated lookups and between rings led to the same members by different histories."
RULES["C25"] = HR + "Oracle: owners of all keys before and after each change; only keys going to an added or coming from a removed member may move, and re-adding restores every owner."

BULK = (" (bulk) The same once more with 2000-130000 elements (often next to powers of two; hash rings up to 40000 points, trees up to 20000 nodes, also as chains), filled in random, sorted, reversed, nearly sorted or constant "
        "arrangements, against plain maps, slices and link arrays; every case is non-trivial, distinct by sizes and operations.")
for _p in [p for p, legs in LEGS.items() if any(l["pkg"] == "bulk" for l in legs)]:
    RULES[_p] += BULK

ASSUME = {
    "C05": ["The race detector reports only races between accesses that were executed; it has no false positives on Go code without cgo."],
    "*": [
        "The verdict covers the executions this run produced (seeded; VERIF_SEED changes them), not all executions.",
        "The Go toolchain, its runtime and the shims in /verif/harness/shim behave as documented.",
    ],
}
