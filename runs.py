"""What every property's check explores: harness, build configuration, bounds."""


import os

HERE = os.path.dirname(os.path.abspath(__file__))


class Run:
    def __init__(self, name, harness, defs, args="", targs=None, tiers=("quick", "thorough"), workers=2, maxtime=(150, 1500),
                 hdefs=(), wraps=(), cxx=False, nolib=False, cover=(), fdefs=None):
        self.name, self.harness, self.defs, self.args, self.targs = name, harness, list(defs), args, targs
        self.tiers, self.workers, self.maxtime = tiers, workers, maxtime
        self.hdefs, self.wraps, self.cxx, self.nolib, self.cover = list(hdefs), list(wraps), cxx, nolib, list(cover)
        self.fdefs = fdefs or {}  # further flags for single source files


COMMON_ASSUMPTIONS = [
    "The library is compiled from /repo's working tree by clang 18 -O1 for x86-64 with small pools (GGGGC_POOL_SIZE/GGGGC_CARD_SIZE are the library's own settings); other compilers, word sizes and pool sizes are not executed here.",
    "Two different program states are taken for one if their 64-bit hashes agree.",
]


def pool(p, c, *more):
    return ["-DGGGGC_POOL_SIZE=%d" % p, "-DGGGGC_CARD_SIZE=%d" % c] + ["-D" + m for m in more]


G2 = pool(12, 8)
G1 = pool(12, 8, "GGGGC_GENERATIONS=1")
G3 = pool(12, 8, "GGGGC_GENERATIONS=3")
G5 = pool(12, 8, "GGGGC_GENERATIONS=5")
PMS = pool(12, 8, "GGGGC_COLLECTOR=portablems")

EXT2 = G2 + ["-DGGGGC_FEATURE_EXTTAG"]
EXT1 = G1 + ["-DGGGGC_FEATURE_EXTTAG"]
EXTPMS = PMS + ["-DGGGGC_FEATURE_EXTTAG"]
NOTHR = ["-DGGGGC_NO_THREADS"]
GCAT = ("ggggc_malloc", "ggggc_mallocRaw")

PROPS = {}


SEQ = "explicit-state model checking of the compiled implementation: all operation sequences within bounds, against a reference model"
THR = "explicit-state model checking of the compiled implementation: all thread interleavings within a preemption bound"
FLT = "explicit-state model checking of the compiled implementation: all sequences of system answers and faults within bounds"


def prop(pid, technique, note, runs, assumptions=(), level="model_checking"):
    names = [r.name for r in runs]
    assert len(set(names)) == len(names), names
    PROPS[pid] = {"technique": technique, "note": note, "assumptions": list(assumptions), "runs": runs, "level": level}


prop("C01", SEQ, "Exhaustive over the operation alphabet up to the stated depth on the real library with small pools; every state is also probed with each possible next collection and memory reuse. Longer histories and larger heaps are not covered.", [
    Run("g2", "graph.c", G2, "depth=4", "depth=5"),
    Run("g1", "graph.c", G1, "depth=4", "depth=5"),
    Run("g3", "graph.c", G3, "depth=4", "depth=5"),
    Run("pms", "graph.c", PMS, "depth=4", "depth=5"),
] + [
    Run("%s-%s" % (n, c), "graph.c", d + ["-DGGGGC_" + x for x in f], "depth=3", "depth=5")
    for n, f, cs in [("nothr", ["NO_THREADS"], "g2 pms"), ("plain", [], "g5"), ("tfj", ["FEATURE_TAGGING", "FEATURE_FINALIZERS", "FEATURE_JITPSTACK"], "g2 g3 pms"), ("efj", ["FEATURE_EXTTAG", "FEATURE_FINALIZERS", "FEATURE_JITPSTACK"], "g1 g2 pms"),
                     ("nognuc", ["NO_GNUC_FEATURES"], "g2 pms"), ("malloc", ["USE_MALLOC"], "g2"), ("sbrk", ["USE_SBRK"], "g2")]
    for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("g5", G5), ("pms", PMS)] if c in cs.split()
])

prop("C02", SEQ, "Every placement of one old object relative to the cards and the end of its pool, for 2, 3 and 5 generations, with two rounds of store and collection; and all sequences of stores, promotions and collections over a few old objects up to the stated depth.", [
    Run("place-g2", "rem.c", G2, "mode=0 sizes=3 rounds=2", "mode=0 sizes=7 rounds=3"),
    Run("place-g3", "rem.c", G3, "mode=0 sizes=3 rounds=2 stride=5", "mode=0 sizes=7 rounds=3"),
    Run("place-g5", "rem.c", G5, "mode=0 sizes=2 rounds=2 stride=17", "mode=0 sizes=4 rounds=2"),
    Run("seq-g2", "rem.c", G2, "mode=1 depth=4", "mode=1 depth=5"),
    Run("seq-g3", "rem.c", G3, "mode=1 depth=4", "mode=1 depth=5 bals=4"),
    Run("seq-g5", "rem.c", G5, "mode=1 depth=3", "mode=1 depth=4"),
])

BIG1 = pool(17, 12, "GGGGC_GENERATIONS=1")
BIG2 = pool(17, 12)
prop("C03", SEQ, "Every layout of up to n objects of three sizes, live or dead, in one pool or across two, exactly full or not; promotion failing at every fill level of the next generation, with and without further memory; regular patterns over whole pools; and pointer arrays around multiples of the search buffer's size.", [
    Run("layout-g1", "compact.c", G1, "mode=0 n=4", "mode=0 n=6", cover=("compacted", "exactly full")),
    Run("layout-g2", "compact.c", G2, "mode=0 n=4", "mode=0 n=5", cover=("compacted",)),
    Run("layout-g3", "compact.c", G3, "mode=0 n=3", "mode=0 n=4 sizes=4", cover=("compacted",)),
    Run("layout-fresh", "compact.c", G1, "mode=0 n=4 fresh=1 pools=1", "mode=0 n=6 fresh=1", cover=("compacted", "exactly full")),
    Run("promotion-g2", "compact.c", G2, "mode=1 n=3", "mode=1 n=4 span=110"),
    Run("promotion-g3", "compact.c", G3, "mode=1 n=2", "mode=1 n=4 span=110"),
    Run("pattern-g1", "compact.c", G1, "mode=2", "mode=2", hdefs=("-DMAXM=200",)),
    Run("pattern-g2", "compact.c", G2, "mode=2", "mode=2", hdefs=("-DMAXM=200",)),
    Run("wide-g1", "compact.c", BIG1, "mode=3"),
    Run("wide-g2", "compact.c", BIG2, "mode=3"),
])

prop("C04", SEQ, "Every state of all operation sequences up to the stated depth is followed by a full collection that must leave exactly the reachable objects; and every combination of live set, replacement pattern and collection pattern is run for many rounds against a bound on memory, also with no further memory available.", [
    Run("exact-g1", "graph.c", G1, "depth=4 reclaim=1", "depth=5 reclaim=1", cover=("reclaimed",)),
    Run("exact-g2", "graph.c", G2, "depth=4 reclaim=1", "depth=5 reclaim=1", cover=("reclaimed",)),
    Run("exact-g3", "graph.c", G3, "depth=3 reclaim=1", "depth=5 reclaim=1", cover=("reclaimed",)),
    Run("exact-pms", "graph.c", PMS, "depth=4 reclaim=1", "depth=5 reclaim=1", cover=("reclaimed",)),
    Run("bounded-g1", "reclaim.c", G1, "rounds=100 percent=70", "rounds=1000 percent=70"),
    Run("bounded-g2", "reclaim.c", G2, "rounds=100", "rounds=1000"),
    Run("bounded-g3", "reclaim.c", G3, "rounds=100", "rounds=1000"),
    Run("bounded-g5", "reclaim.c", G5, "rounds=100", "rounds=1000"),
    Run("capacity-g1", "reclaim.c", G1, "mode=1", "mode=1 percent=88"),
    Run("capacity-g2", "reclaim.c", G2, "mode=1", "mode=1 percent=88"),
    Run("capacity-g3", "reclaim.c", G3, "mode=1", "mode=1 percent=88"),
    Run("capacity-g5", "reclaim.c", G5, "mode=1", "mode=1 percent=88"),
    Run("capacity-pms", "reclaim.c", PMS, "mode=1", "mode=1 percent=88"),
    Run("bounded-pms", "reclaim.c", PMS, "rounds=100 percent=45", "rounds=1000 percent=45"),
])

prop("C05", SEQ, "Every size from the smallest to a whole pool (a subset of the middle sizes in the quick check), as object, pointer array and data array, at fill levels around the exact fit, over memory full of junk; and every array length up to 69 for five element sizes at 30 fill levels.", [
    Run("sizes-g1", "alloc.c", G1, "mode=0", "mode=0 stride=1", cover=("allocated",)),
    Run("sizes-g2", "alloc.c", G2, "mode=0", "mode=0 stride=1", cover=("allocated",)),
    Run("sizes-g3", "alloc.c", G3, "mode=0 stride=17", "mode=0 stride=1", cover=("allocated",)),
    Run("sizes-pms", "alloc.c", PMS, "mode=0 levels=12", "mode=0 stride=1", cover=("allocated",)),
    Run("arrays-g1", "alloc.c", G1, "mode=1"),
    Run("arrays-g2", "alloc.c", G2, "mode=1"),
    Run("arrays-pms", "alloc.c", PMS, "mode=1"),
])

BIGM = ("-DMAXWORDS=200", "-DMAXM=32")
HUGEM = ("-DMAXWORDS=420", "-DMAXM=20")
SLOTS = ("-DGGGGC_NO_GNUC_CONSTRUCTOR",)
prop("C06", SEQ, "Every size up to 7 words with every pattern of pointers; larger sizes with single pointers, single holes and pairs around every description-word boundary (every position in the thorough check); arrays; declared types; and all sequences of operations on descriptors and user pointers up to the stated depth.", [
    Run(n + "-" + c, "desc.c", d, a, t, wraps=GCAT, hdefs=h)
    for n, a, t, h, cs in [
        ("small", "mode=0 smax=8", "mode=0 smax=10", (), "g1 g2 g3 pms ext2 ext1 extpms"),
        ("large", "mode=1 sizes=10 all=1", "mode=1 sizes=10 all=1", BIGM, "g1 g2 pms ext2 ext1"),
        ("huge", "mode=1 first=10 sizes=2", "mode=1 first=10 sizes=2", HUGEM, "g1 g2 pms ext2 ext1 extpms"),
        ("arrays", "mode=2 all=1", "mode=2 all=1", BIGM, "g1 g2 pms ext2"),
        ("types", "mode=3", "mode=3", BIGM, "g1 g2 pms ext2"),
        ("slots", "mode=3", "mode=3", BIGM + SLOTS, "g2 pms ext2"),
        ("user", "mode=4 depth=5", "mode=4 depth=6", (), "g1 g2 g3 pms ext2"),
    ]
    for c in cs.split()
    for d in [{"g1": G1, "g2": G2, "g3": G3, "pms": PMS, "ext2": EXT2, "ext1": EXT1, "extpms": EXTPMS}[c]]
])

NOCLEAN = ["-DGGGGC_NO_GNUC_CLEANUP"]
NOGNUC = ["-DGGGGC_NO_GNUC_FEATURES"]
prop("C07", SEQ, "Every pair of frame kind and arity inside one another (in the quick check pairs that contain the smallest or largest arity, or are equal), with every way out; and all sequences of push, leave, fill, globalize and collect up to the stated depth; with GCC cleanups, in C++ with and without them (including exceptions), and with macro-only popping.", [
    Run(m + "-" + c, "roots.c", d, a, t, cxx=x)
    for m, a, t in [("pairs", "mode=0", "mode=0 pairs=1"), ("seq", "mode=1 depth=5", "mode=1 depth=7")]
    for c, d, x in [("g2", G2, False), ("g1", G1, False), ("pms", PMS, False), ("g2-noclean", G2 + NOCLEAN, False), ("pms-noclean", PMS + NOCLEAN, False),
                    ("g2-cxx", G2, True), ("g2-cxx-noclean", G2 + NOCLEAN, True), ("g1-nognuc", G1 + NOGNUC, False)]
] + [
    Run("first-g2-slots", "roots.c", G2 + list(SLOTS), "mode=2"),
    Run("first-g1-nognuc", "roots.c", G1 + NOGNUC, "mode=2"),
    Run("first-pms-slots", "roots.c", PMS + list(SLOTS), "mode=2"),
])

FIN = ["-DGGGGC_FEATURE_FINALIZERS"]
prop("C08", SEQ, "Two objects with every combination of links, placement in the generations, finalizers (nothing, rescue, allocate, collect, ask again, allocate a pool full, store into an old object) and kept roots, then two collections; every sequence of operations up to the stated depth; promotions failing at each of 60 fill levels; and finalizers run by the allocation of a descriptor.", [
    Run(n + "-" + c, "fin.c", d + FIN, a, t, wraps=GCAT, workers=w)
    for n, c, d, a, t, w in [
        ("graph", "g1", G1, "mode=0 n=2 settle=2", "mode=0 n=3 kinds=2 settle=2", 2), ("graph", "pms", PMS, "mode=0 n=2 settle=2", "mode=0 n=3 kinds=2 settle=2", 2),
        ("graph", "g2", G2, "mode=0 n=2 kinds=1 kinds2=4", "mode=0 n=2", 3), ("graph", "g3", G3, "mode=0 n=2 kinds=1 kinds2=3 collections=1", "mode=0 n=2", 3),
        ("seq", "g1", G1, "mode=1 depth=5", "mode=1 depth=6 settle=2", 2), ("seq", "pms", PMS, "mode=1 depth=5", "mode=1 depth=6 settle=2", 2),
        ("seq", "g2", G2, "mode=1 depth=4", "mode=1 depth=6", 2), ("seq", "g3", G3, "mode=1 depth=4", "mode=1 depth=6", 2),
        ("seqold", "g2", G2, "mode=1 depth=4 old=1", "mode=1 depth=6 old=1", 2), ("seqold", "g3", G3, "mode=1 depth=4 old=1", "mode=1 depth=6 old=1", 2),
        ("promotion", "g2", G2, "mode=2 kinds=3", "mode=2 kinds=8", 2), ("promotion", "g3", G3, "mode=2 n=2", "mode=2 kinds=4", 2), ("promotion", "g5", pool(12, 8, "GGGGC_GENERATIONS=5"), "mode=2 n=2 kinds=2", "mode=2 kinds=3", 2),
        ("first", "g1", G1, "mode=3", "mode=3 levels=60", 1), ("first", "g2", G2, "mode=3", "mode=3 levels=60", 1), ("first", "g3", G3, "mode=3", "mode=3 levels=60", 1), ("first", "pms", PMS, "mode=3", "mode=3 levels=60", 1),
    ]
] + [
    Run("seq-%s-%s" % (c, n), "fin.c", d + FIN + f, "mode=1 depth=%d" % q, "mode=1 depth=5", wraps=GCAT)
    for n, f in [("tag", ["-DGGGGC_FEATURE_TAGGING"]), ("ext", ["-DGGGGC_FEATURE_EXTTAG"]), ("jit", ["-DGGGGC_FEATURE_JITPSTACK"]), ("nothr", NOTHR), ("nognuc", NOGNUC)]
    for c, d, q in [("g2", G2, 3), ("pms", PMS, 4)]
])

TAG = ["-DGGGGC_FEATURE_TAGGING"]
EXT = ["-DGGGGC_FEATURE_EXTTAG"]
prop("C09", SEQ, "Two nodes and an array in every combination of generations, then every sequence of storing, copying and overwriting tagged and untagged values up to the stated depth; every tag value in every word of an object; and every assignment of external tags from an alphabet to objects of up to 5 words, plus single exceptions in larger ones.", [
    Run("seq-" + c, "tag.c", d + TAG, a, t, wraps=GCAT)
    for c, d, a, t in [("g1", G1, "mode=0 depth=3 values=3", "mode=0 depth=3 values=11"), ("pms", PMS, "mode=0 depth=3 values=3", "mode=0 depth=3 values=11"),
                       ("g2", G2, "mode=0 depth=2", "mode=0 depth=3 values=7"), ("g3", G3, "mode=0 depth=2", "mode=0 depth=3 values=3")]
] + [
    Run("word-" + c, "tag.c", d + TAG, "mode=1", "mode=1 words=6", wraps=GCAT)
    for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS)]
] + [
    Run(n + "-" + c, "tag.c", d + EXT, a, t, wraps=GCAT, hdefs=h)
    for n, a, t, h in [("small", "mode=2 sizes=5", "mode=2 sizes=6 alpha=6", ()), ("large", "mode=2 all=0 first=7 sizes=13", "mode=2 all=0 first=6 sizes=70 alpha=10", BIGM)]
    for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS)]
])

JIT = ["-DGGGGC_FEATURE_JITPSTACK"]
CFG = [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS)]
prop("C10", SEQ + "; and all interleavings of two threads within a preemption bound", "Without tags and with internal tags every sequence of pushes, pops, overwrites, stores and collections up to the stated depth, after each of which the stack, its neighbourhood and the graph are checked, also after a collection of each generation; with external tags every sequence of groups from a set that covers every length, every position of an exception and what follows an end tag; and another thread whose stack is used by collections while it is blocked, polls or itself collects, in all schedules within the preemption bound.", [
    Run("seq-" + c, "jit.c", d + JIT, "mode=0 depth=6", "mode=0 depth=9") for c, d in CFG
] + [
    Run("tagged-" + c, "jit.c", d + JIT + TAG, "mode=0 depth=4", "mode=0 depth=6") for c, d in CFG
] + [
    Run("groups-" + c, "jit.c", d + JIT + EXT, "mode=1 depth=2", "mode=1 depth=3", hdefs=("-DMAXROOT=48",)) for c, d in CFG
] + [
    Run("thread-" + c, "jit.c", d + JIT + f, "mode=2 preempt=2", "mode=2 preempt=3") for c, d, f in [("g1", G1, []), ("g2", G2, []), ("pms", PMS, []), ("g2-tag", G2, TAG), ("g2-ext", G2, EXT), ("pms-ext", PMS, EXT)]
])


def thr(*l):
    return [Run(n + "-" + c, "thread.c", d + list(x), a, t) for n, x, a, t, cs in l for c, d in CFG if c in cs.split()]


A4 = "g1 g2 g3 pms"
prop("C11", THR, "Every combination of scripts (allocate, collect, collect one generation, poll, block, push to or overwrite in a shared structure under a lock, hold an unrooted pointer between safe points) for two threads, two operations each, or three threads, one each, with allocation pools nearly full or empty; all schedules with at most one preemption (two for single operations). Switches where a thread blocks or polls a lock are free. Every thread verifies its own and the shared data after each operation, and main everything at the end.", thr(
    ("two", [], "mode=0 n=1 len=2 lenc=2 alpha=3 fills=2 preempt=1", "mode=0 n=1 len=2 lenc=2 alpha=0 fills=3 preempt=1", A4),
    ("three", [], "mode=0 n=2 len=1 lenc=1 alpha=3 fills=1 preempt=1", "mode=0 n=2 len=1 lenc=1 alpha=0 fills=2 preempt=1", A4),
    ("all", [], "mode=0 n=1 len=1 lenc=1 alpha=0 fills=2 preempt=2", "mode=0 n=1 len=1 lenc=1 alpha=0 fills=3 preempt=3", A4),
))

prop("C12", THR, "Every combination of scripts of the kinds of C11 plus thread creation and joining, first uses of shared descriptions and creations that fail, in all schedules with at most one preemption; every reachable state is checked for a deadlock, and (backwards over the state graph) for having some schedule in which all threads finish.", thr(
    ("desc", SLOTS, "mode=0 n=1 len=1 lenc=2 alpha=2 fills=2 preempt=1 live=1", "mode=0 n=1 len=2 lenc=2 alpha=2 fills=2 preempt=2 live=1", A4),
    ("ops", [], "mode=0 n=1 len=1 lenc=1 alpha=0 fills=2 preempt=1 live=1", "mode=0 n=1 len=2 lenc=1 alpha=0 fills=2 preempt=2 live=1", A4),
    ("create", [], "mode=0 n=2 len=1 lenc=1 alpha=6 fills=1 preempt=1 live=1", "mode=0 n=2 len=2 lenc=1 alpha=6 fills=1 preempt=1 live=1", "g1 pms"),
    ("create", [], "mode=0 n=2 len=1 lenc=1 alpha=6 fills=1 preempt=0 live=1", "mode=0 n=2 len=1 lenc=1 alpha=6 fills=1 preempt=1 live=1", "g2 g3"),
    ("fail", [], "mode=2 n=2 preempt=1 live=1", "mode=2 n=3 preempt=1 live=1", A4),
    ("blocked", [], "mode=1 n=2 preempt=0 kinds=4 between=3 live=1", "mode=1 n=2 preempt=1 kinds=4 between=2 live=1", A4),
))

prop("C13", THR, "Two or three threads in every combination of blocking calls, released in every order with and without collections in between; failing creations; threads created and exiting one after the other (pools must not accumulate); global roots made at several depths in threads that exit; finalizers set by and run in several threads; and the results and error numbers of every blocking call; in all schedules within the preemption bound.", thr(
    ("blocked", [], "mode=1 n=2 preempt=0 kinds=4 between=4", "mode=1 n=2 preempt=1 kinds=4 between=4", A4),
    ("blocked3", [], "mode=1 n=3 preempt=0 kinds=3 between=2", "mode=1 n=3 preempt=0 kinds=4 between=4", "g1 pms"),
    ("blocked3", [], "mode=1 n=3 preempt=0 kinds=1 between=2", "mode=1 n=3 preempt=0 kinds=3 between=2", "g2 g3"),
    ("fail", [], "mode=2 n=2 preempt=1", "mode=2 n=3 preempt=2", A4),
    ("rounds", [], "mode=3 preempt=2", "mode=3 preempt=4 rounds=8", A4),
    ("globals", [], "mode=0 len=1 lenc=2 alpha=8 preempt=1 fills=1", "mode=0 len=2 lenc=2 alpha=8 preempt=2", A4),
    ("results", [], "mode=5 preempt=1", "mode=5 preempt=3", A4),
    ("fin", FIN, "mode=0 alpha=7 len=1 lenc=2 preempt=1 fills=1", "mode=0 alpha=7 len=2 lenc=2 preempt=2", A4),
))

NOBAR = ["-include", HERE + "/harness/nobarriers.h"]
prop("C14", THR, "The barrier by itself with up to 4 threads and up to 4 rounds in all schedules with the stated number of preemptions (two threads: 3 or more), with and without destroying and making it again between rounds for as many or fewer threads; and the library's own use of it: scripts of C11 to C13 with a library built without POSIX barriers, at least one preemption. Bounds on threads and rounds are small; memory is sequentially consistent; the semaphores and mutexes are models of the POSIX ones.", [
    Run("meet-2", "barrier.c", G2 + NOBAR, "mode=0 n=2 rounds=3 live=1", "mode=0 n=2 rounds=4 live=1", cover=("all rounds",)),
    Run("meet-3", "barrier.c", G2 + NOBAR, "mode=0 n=3 rounds=2 preempt=3 live=1", "mode=0 n=3 rounds=3 preempt=4 live=1", cover=("all rounds",)),
    Run("meet-4", "barrier.c", G2 + NOBAR, "mode=0 n=4 rounds=2 preempt=2 live=1", "mode=0 n=4 rounds=2 preempt=3 live=1", cover=("all rounds",)),
    Run("again-2", "barrier.c", G2 + NOBAR, "mode=1 n=2 rounds=3 preempt=4 live=1", "mode=1 n=2 rounds=4 live=1", cover=("made again", "all rounds")),
    Run("again-3", "barrier.c", G2 + NOBAR, "mode=1 n=3 rounds=3 preempt=2 live=1", "mode=1 n=3 rounds=3 preempt=3 live=1", cover=("made again", "all rounds")),
    Run("again-4", "barrier.c", G2 + NOBAR, "mode=1 n=4 rounds=2 preempt=2 live=1", "mode=1 n=4 rounds=3 preempt=2 live=1", cover=("made again", "all rounds")),
] + [
    Run(n + "-" + c, "thread.c", d + NOBAR + x, a, t)
    for n, a, t, x, cs in [
        ("lib", "mode=0 n=1 len=1 lenc=1 alpha=0 fills=2 preempt=1 live=1", "mode=0 n=1 len=1 lenc=2 alpha=0 fills=2 preempt=2 live=1", [], "g1 g2 g3 pms"),
        ("lib-three", "mode=0 n=2 len=1 lenc=1 alpha=3 fills=1 preempt=1 live=1", "mode=0 n=2 len=1 lenc=1 alpha=3 fills=1 preempt=2 live=1", [], "g1 pms"),
        ("lib-create", "mode=0 n=1 len=1 lenc=1 alpha=6 fills=1 preempt=1 live=1", "mode=0 n=2 len=1 lenc=1 alpha=6 fills=1 preempt=1 live=1", [], "g1 g2 pms"),
        ("lib-blocked", "mode=1 n=2 preempt=0 kinds=4 between=3 live=1", "mode=1 n=2 preempt=1 kinds=4 between=2 live=1", [], "g1 g2 pms"),
        ("lib-fail", "mode=2 n=2 preempt=1 live=1", "mode=2 n=3 preempt=1 live=1", [], "g1 pms"),
        ("lib-rounds", "mode=3 preempt=1", "mode=3 preempt=3", [], "g2 pms"),
    ] for c, d in CFG if c in cs.split()
])

G = ["-DGENERIC"]
prop("C15", SEQ, "All sequences of the eight list operations and collections on two or three lists, up to the stated depth, with new, shared and NULL elements, each operation with and without a collection of each generation at its allocations; then, from each state, every collection with reuse of memory, and a push to each list. Joining a list with itself is not explored.", [
    Run("typed-" + c, "list.c", d, a, "depth=5", wraps=GCAT, workers=w, cover=("collected in an operation", "shifted an empty list")) for c, d, w, a in [("g1", G1, 2, "depth=3 els=3"), ("g2", G2, 2, "depth=3 els=2"), ("g3", G3, 2, "depth=3 els=2 gens=2"), ("pms", PMS, 2, "depth=3 els=3")]
] + [
    Run("deep-" + c, "list.c", d, "depth=5 els=1 gens=0 old=0", "depth=7 els=1 gens=0", wraps=GCAT) for c, d in [("g1", G1), ("g2", G2), ("pms", PMS)]
] + [
    Run("generic-g2", "list.c", G2, "depth=3 gens=1", "depth=4 els=3", wraps=GCAT, hdefs=G),
    Run("slots-g2", "list.c", G2 + list(SLOTS), "depth=3", "depth=4 els=3", wraps=GCAT),
    Run("three-g2", "list.c", G2, "depth=3 lists=3 gens=1 els=1", "depth=5 lists=3 gens=1 els=1", wraps=GCAT),
    Run("cxx-g2", "list.c", G2, "depth=3 gens=1", "depth=4 els=3", wraps=GCAT, cxx=True),
    Run("tagged-g2", "list.c", G2 + TAG, "depth=3 gens=1", "depth=4 els=3", wraps=GCAT),
    Run("ext-g2", "list.c", G2 + EXT, "depth=3 gens=1", "depth=4 els=3", wraps=GCAT),
    Run("nognuc-g1", "list.c", G1 + NOGNUC, "depth=3 gens=1", "depth=4 els=3", wraps=GCAT),
])

prop("C16", SEQ, "Maps of every size up to 6, and one of 8, entries under six hash functions (constant, perfect, huge, pairwise colliding, top bits only, all in the last slot), then all sequences of put (absent and present keys, new, NULL and own-key values), clone and collection up to the stated depth; each put and clone with and without a collection of each generation at each of its allocations, or in every call of the hash and comparison functions; from each state every key is looked up in every map by an equal but different key object, before and after every collection.", [
    Run("typed-" + c, "map.c", d, a, "depth=3", wraps=GCAT, workers=w, cover=("cloned", "small", "grown once", "grown twice")) for c, d, w, a in [("g1", G1, 2, "depth=2 hashes=4 vals=2"), ("g2", G2, 2, "depth=2 hashes=3 vals=1 cat=2"), ("g3", G3, 2, "depth=2 hashes=2 vals=1 cat=1"), ("pms", PMS, 2, "depth=2 hashes=4 vals=2")]
] + [
    Run("clone-" + c, "map.c", d, "depth=1 cat=9 first=12", "depth=2 cat=14 first=18 skip=0", wraps=GCAT, cover=("cloned", "grown three times")) for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS)]
] + [
    Run("null-" + c, "map.c", d, "depth=2 cat=0 inhash=0 null=1 first=4", "depth=3 null=1 first=5", wraps=GCAT) for c, d in [("g1", G1), ("g2", G2)]
] + [
    Run("generic-g2", "map.c", G2, "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT, hdefs=G),
    Run("slots-g2", "map.c", G2 + list(SLOTS), "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT),
    Run("cxx-g2", "map.c", G2, "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT, cxx=True),
    Run("tagged-g2", "map.c", G2 + TAG, "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT),
    Run("ext-g2", "map.c", G2 + EXT, "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT),
    Run("nognuc-g1", "map.c", G1 + NOGNUC, "depth=2 cat=1 inhash=0 hashes=2 first=5 vals=2", "depth=3 cat=1", wraps=GCAT),
])

SYS = {"allocator.c": ["-D%s=sys_%s" % (f, f) for f in "malloc mmap munmap sbrk perror fprintf".split()] + ["-Dposix_memalign=sys_memalign"]}
SYSF = {"allocator.c": SYS["allocator.c"] + ["-Dfree=sys_free"]}
MMAP = ["-include", os.path.join(HERE, "harness", "mmapdefs.h")]
C17 = [
    ("malign", pool(10, 8), [], SYS),
    ("malloc", pool(10, 8, "GGGGC_USE_MALLOC"), ["-DARENA_POOLS=120"], SYS),
    ("mmap", pool(14, 8) + MMAP, ["-DGGGGC_ALLOC_MMAP", "-DARENA_POOLS=30"], SYS),
    ("mmap12", pool(12, 8) + MMAP, ["-DGGGGC_ALLOC_MMAP", "-DARENA_POOLS=30"], SYS),
    ("sbrk", pool(10, 8, "GGGGC_USE_SBRK"), ["-DARENA_POOLS=40"], SYSF),
    ("portable", pool(10, 8, "GGGGC_COLLECTOR=portablems"), [], SYS),
]
prop("C17", FLT, "All sequences of requests (that may or must not fail), returns of pools and movements of the break up to the stated depth, over every answer of a model of the system: refusals, and placements at several residues modulo the pool size, above or below what was handed out before; malloc inside the sbrk allocator taking memory from the break, from elsewhere, or refusing, and free lowering the break; then requests without refusals. Two threads requesting two pools each, in all schedules within the preemption bound. Every byte of the modelled memory has an owner and is compared after each request. VirtualAlloc (Windows) is not covered.", [
    Run("seq-" + n, "pools.c", d, "depth=%d refusals=%d %s" % (dq, r, x), "depth=%d refusals=%d %s" % (dt, r + 1, x), hdefs=h, fdefs=f, workers=w, cover=("refused", "reported", "must not fail", "aligned" if n != "malign" else "refused") if n != "sbrk" else ("refused", "break lowered"))
    for (n, d, h, f), dq, dt, r, x, w in zip(C17, (5, 3, 3, 5, 3, 3), (8, 4, 4, 7, 4, 4), (2, 5, 1, 2, 2, 2), ("", "many=1 max=60", "", "", "", ""), (1, 2, 2, 1, 2, 2))
] + [
    Run("two-" + n, "pools.c", d, "mode=1 refusals=%d preempt=%d %s" % (r, p, x + (" per=1" if n == "mmap" else "")), "mode=1 refusals=3 preempt=3 " + x, hdefs=h, fdefs=f)
    for (n, d, h, f), r, p, x in zip(C17, (2, 2, 1, 2, 1, 1), (2, 2, 1, 2, 1, 2), ("", "pre=14", "", "", "", ""))
] + [
    Run("moved-sbrk", "pools.c", pool(10, 8, "GGGGC_USE_SBRK"), "depth=2 refusals=1 moves=1", "depth=3 refusals=1 moves=2", hdefs=["-DARENA_POOLS=40"], fdefs=SYSF, cover=("moved by somebody else",)),
])

HEAP9 = pool(9, 7, "GGGGC_COLLECTOR=portablems")
HEAP10 = pool(10, 7, "GGGGC_COLLECTOR=portablems")
prop("C18", SEQ, "All sequences of allocations (several sizes, sizes equal to and up to five words below those of the free chunks, and sizes around half a pool; with a shared descriptor or one that dies with the object), drops and collections up to the stated depth, with none, one or two further pools to be had. After every operation the heap is parsed, and in two continuations (with and without a collection) every free chunk is obtained, largest first, without further memory. Heaps of other threads that are blocked or have exited: scripts of C11 to C13, all schedules with at most one preemption, parsing each thread's heap after each of its operations and those of exited threads at the end.", [
    Run("heap-9", "heap.c", HEAP9, "depth=4 sizes=4", "depth=6 sizes=6", cover=("out of memory", "exact", "too small to split", "split", "expanded")),
    Run("heap-10", "heap.c", HEAP10, "depth=4 sizes=4", "depth=6 sizes=6", cover=("out of memory", "exact", "too small to split", "split", "expanded")),
    Run("cold-9", "heap.c", HEAP9, "depth=4 sizes=3 pre=0 limits=2", "depth=5 sizes=5 pre=0"),
    Run("deep-9", "heap.c", HEAP9, "depth=6 sizes=2 own=0 limits=2 chunks=0", "depth=9 sizes=2 own=0 limits=2 chunks=0"),
] + [
    Run("heap-" + n, "heap.c", HEAP9 + d, "depth=3 sizes=4", "depth=5 sizes=5") for n, d in [("fin", FIN), ("tag", TAG), ("ext", EXT), ("jit", JIT)]
] + thr(
    ("two", [], "mode=0 n=1 len=2 lenc=1 alpha=3 fills=2 preempt=1", "mode=0 n=1 len=2 lenc=2 alpha=0 fills=2 preempt=2", "pms"),
    ("blocked", [], "mode=1 n=2 preempt=1 kinds=2 between=2", "mode=1 n=2 preempt=1 kinds=4 between=4", "pms"),
    ("create", [], "mode=0 n=2 len=2 lenc=1 alpha=6 fills=1 preempt=0", "mode=0 n=2 len=2 lenc=1 alpha=6 fills=1 preempt=1", "pms"),
    ("rounds", [], "mode=3 preempt=2", "mode=3 preempt=4 rounds=8", "pms"),
))

prop("C19", SEQ, "C++ programs written with GGC<T>, the array wrappers and GGC_MPTR/GGC_MDATA members only, against the same model of the heap as the C harnesses.", [
    Run("smart-" + c, "cxx.c", d, "mode=0 depth=3", "mode=0 depth=5", cxx=True, workers=w) for c, d, w in [("g1", G1, 1), ("g2", G2, 2), ("g3", G3, 2), ("pms", PMS, 1)]
] + [
    Run("arrays-" + c, "cxx.c", d, "mode=1 depth=4", "mode=1 depth=5", cxx=True) for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS)]
] + [
    Run("scopes-" + c, "cxx.c", d, "mode=2 levels=2 times=1", "mode=2 levels=2 times=2", cxx=True) for c, d in [("g1", G1), ("g2", G2), ("g3", G3), ("pms", PMS), ("g2-nognuc", G2 + NOGNUC)]
] + [
    Run("members-" + c, "cxx.c", d, "mode=3 depth=3", "mode=3 depth=4", cxx=True) for c, d in [("g1", G1), ("g2", G2), ("pms", PMS)]
])

DBG = ["-DGGGGC_DEBUG_MEMORY_CORRUPTION", "-DGGGGC_DEBUG_REPORT_COLLECTIONS"]
TINY = ["-DGGGGC_DEBUG_TINY_HEAP"]
GEN = [("g1", G1), ("g2", G2), ("g3", G3)]
prop("C20", SEQ + "; and all interleavings of threads within a preemption bound", "The harnesses of C01 to C13 in the debugging configurations (memory corruption checks and collection reports; and with the tiny heap), at lower depths; and every one of nine objects of a small graph in every combination of ages, in a thread or its neighbour, with every one of six corrupt values in its header, then a collection of each generation or one caused by allocation.", [
    Run("graph-" + c, "graph.c", d + DBG, "depth=3", "depth=5") for c, d in GEN + [("g5", G5)]
] + [
    Run("tiny-" + c, "graph.c", d + DBG + TINY, "depth=3", "depth=5") for c, d in GEN
] + [
    Run("layout-" + c, "compact.c", d + DBG, "mode=0 n=3", "mode=0 n=5") for c, d in GEN
] + [
    Run("promotion-" + c, "compact.c", d + DBG, "mode=1 n=1", "mode=1 n=4 span=110") for c, d in [("g2", G2), ("g3", G3)]
] + [
    Run("place-" + c, "rem.c", d + DBG, "mode=0 sizes=2 rounds=2 stride=17", "mode=0 sizes=7 rounds=3") for c, d in [("g2", G2), ("g3", G3)]
] + [
    Run("sizes-" + c, "alloc.c", d + DBG, "mode=0 stride=17", "mode=0 stride=1") for c, d in GEN
] + [
    Run("fin-" + c, "fin.c", d + FIN + DBG, "mode=1 depth=%d" % q, "mode=1 depth=6", wraps=GCAT) for (c, d), q in zip(GEN, (4, 3, 3))
] + [
    Run("fintiny-" + c, "fin.c", d + FIN + DBG + TINY, "mode=1 depth=%d" % q, "mode=1 depth=6", wraps=GCAT) for (c, d), q in zip(GEN, (4, 3, 3))
] + [
    Run("tag-" + c, "tag.c", d + TAG + DBG, "mode=0 depth=2 values=%d" % q, "mode=0 depth=3 values=7", wraps=GCAT) for (c, d), q in zip(GEN, (3, 2, 1))
] + [
    Run("ext-" + c, "tag.c", d + EXT + DBG, "mode=2 sizes=5", "mode=2 sizes=6 alpha=6", wraps=GCAT) for c, d in GEN
] + [
    Run("jit-" + c, "jit.c", d + JIT + DBG, "mode=0 depth=5", "mode=0 depth=8") for c, d in GEN
] + [
    Run("roots-" + c, "roots.c", d + DBG, "mode=1 depth=4", "mode=1 depth=6") for c, d in GEN
] + [
    Run("desc-" + c, "desc.c", d + DBG, "mode=0 smax=8", "mode=0 smax=10", wraps=GCAT) for c, d in GEN
] + [
    Run("two-" + c, "thread.c", d + DBG, "mode=0 n=1 len=1 lenc=2 alpha=3 fills=2 preempt=1", "mode=0 n=1 len=2 lenc=2 alpha=3 fills=2 preempt=1") for c, d in GEN
] + [
    Run("corrupt-" + c, "debug.c", d + DBG, "", cover=("reported", "intact")) for c, d in GEN
] + [
    Run("corrupt2-" + c, "debug.c", d + DBG, "threads=1 preempt=0", cover=("reported", "intact")) for c, d in GEN
])

prop("C21", SEQ, "18 primitive types; every value of one-byte types and 24 bit patterns of the others, boxed between others at several fill levels, in an array that is unboxed with and without collections at its allocations, and collected; and all sequences of boxing, changing, copying, and moving boxes through an array, a list and a map (as keys and values) up to the stated depth, with a collection at each allocation of each operation.", [
    Run("values-" + c, "unit.c", d + list(x), "mode=0 lefts=%d ns=3" % q, "mode=0 lefts=6 acat=1", wraps=GCAT, cxx=cx)
    for c, d, x, cx, q in [("g1", G1, [], False, 3), ("g2", G2, [], False, 2), ("pms", PMS, [], False, 3), ("g2-cxx", G2, [], True, 1)]
] + [
    Run("seq-" + c, "unit.c", d + list(x), "mode=1 depth=%d types=%d" % q, "mode=1 depth=5 types=%d" % t, wraps=GCAT, cxx=cx)
    for c, d, x, cx, q, t in [("g1", G1, [], False, (3, 5), 8), ("g2", G2, [], False, (3, 2), 8), ("g3", G3, [], False, (2, 4), 4), ("pms", PMS, [], False, (3, 5), 8),
                        ("g1-nognuc", G1, NOGNUC, False, (3, 1), 3), ("g1-slots", G1, SLOTS, False, (3, 1), 3), ("g1-tag", G1, TAG, False, (3, 1), 3), ("g1-ext", G1, EXT, False, (3, 1), 3),
                        ("g1-cxx", G1, [], True, (3, 2), 4)]
])
