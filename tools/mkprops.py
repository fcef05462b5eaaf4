#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so that it stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    assert len(title) <= 80, title
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


p("C01", "Everything reachable survives every history of heap operations",
  "After any sequence of allocations, reads and writes of members and array elements through the documented macros, root assignments and collections of any generation, whatever can be reached from the program's roots is exactly what the program stored: every data word, every NULL and every pointer, with object identity and descriptor intact. "
  "Collections, whether explicit or triggered by an allocation at any point, and the reuse of freed memory are invisible to the program apart from objects' addresses.",
  ["histories", "programs", "configurations"], "all sequences of mutator operations and collections, for 1 and more generations and for both collectors",
  "The tests run a few fixed stress programs with 16 MiB pools and mostly look only at whether they crash; a lost or stale pointer needs a particular order of promotion, mutation and collection.",
  ["collector/gembc.c", "collector/portablems.c", "allocator.c", "ggggc/gc.h", "ggggc/push.h"],
  [("tracing from the pointer stacks", "ggggc_collect0, ggggc_collectFull in collector/gembc.c"), ("copying and forwarding", "ggggc_collect0"), ("mark and sweep", "mark, sweep in collector/portablems.c")])

p("C02", "Writes of young pointers into old objects are always remembered",
  "A pointer to a younger object written into an object of an older generation keeps that younger object alive, and is updated when it moves, in every later collection of a younger generation. "
  "This holds for plain members, array elements and descriptor user pointers, for any number of generations from two up, any placement of objects relative to card and pool boundaries, and any order of promotions, writes and partial or full collections.",
  ["histories", "configurations", "inputs"], "all write/promote/collect histories, object placements relative to cards, and generation counts",
  "Tests contain one small remembered-set program; whether a given card, first-object entry or promoted cross-generation pointer is handled depends on object placement that tests do not control.",
  ["collector/gembc.c", "ggggc/gc-gembc.h"],
  [("write barrier", "GGGGC_WP in ggggc/gc-gembc.h"), ("card scan", "ggggc_collect0: 'add our remembered sets'"), ("first object of each card", "ggggc_mallocGen1, ggggc_postCompact"), ("re-remembering after compaction", "ggggc_postCompact")],
  [("remembered cards", "one byte per card of an old pool", "struct GGGGC_Pool in ggggc/gc-gembc.h")])

p("C03", "Full collection compacts any heap layout without changing the graph",
  "A full collection preserves every reachable object's contents and identity and leaves every root and pointer referring to its new place, for every pattern of live and dead objects of any sizes in any number of pools, including pools that are exactly full, entirely live or entirely dead, and including when it is entered in the middle of a partial collection because a promotion found no room. "
  "Afterwards the heap is usable as before: further allocations and partial and full collections behave correctly.",
  ["inputs", "histories", "fault_sequences"], "all live/dead patterns over layouts of object sizes, and all points at which promotion or pool growth can fail",
  "Compaction runs rarely in the tests and always over similar layouts; off-by-one errors in it need particular sizes at the edges of chunks and pools.",
  ["collector/gembc.c"],
  [("chunk counting", "ggggc_countUsed"), ("compaction and break table", "ggggc_compact"), ("pointer update", "ggggc_postCompact, FOLLOW_COMPACTED_OBJECT"), ("promotion failure", "ggggc_collect0 'failed to allocate'")])

p("C04", "Unreachable memory is reclaimed, so bounded live data needs bounded memory",
  "Memory of objects that are no longer reachable becomes available again: a program whose reachable data stays bounded keeps running with bounded memory however long it allocates, and an explicit full collection reclaims all objects that were unreachable when it started, cycles included and in every generation. "
  "If the operating system refuses further memory, allocation continues to succeed for as long as reclaimed space suffices, and memory left by exited threads is reused.",
  ["histories", "fault_sequences", "configurations"], "all allocation/drop/collect histories and points at which pool allocation fails",
  "Tests have no oracle for memory use; a leak of pools, a wrong survivor count or a chunk that is never reused goes unnoticed in 16 MiB pools.",
  ["collector/gembc.c", "collector/portablems.c", "allocator.c"],
  [("resetting emptied generations", "ggggc_collect0 postCollect"), ("growth heuristic", "ggggc_expandPoolList in allocator.c"), ("pool reuse", "ggggc_newPool, ggggc_freeGeneration"), ("free list", "sweep in collector/portablems.c")])

p("C05", "Every allocation is fresh, zeroed, sized as asked and disjoint from live data",
  "Every object or array an allocation returns is word-aligned, lies wholly inside the heap, overlaps no reachable object, has the descriptor and (for arrays) the length asked for, and has all of its other contents zero, whatever the memory held before. "
  "This holds for every size from the smallest up to what fits into an empty heap unit, at every fill level of the heap.",
  ["inputs", "histories"], "all sizes, element sizes and counts, and all fill levels of the heap at the time of the allocation",
  "Tests allocate a handful of shapes; the boundary cases are the exact end of a pool, reused memory full of old data, zero-length arrays and minimum sizes.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "ggggc/gc.h"],
  [("allocation and clearing", "ggggc_mallocRaw"), ("array sizes", "ggggc_mallocPointerArray, ggggc_mallocDataArray in allocator.c"), ("minimum size", "GGGGC_MINIMUM_OBJECT_SIZE")])

p("C06", "Descriptors are followed precisely: each pointer word, and no data word",
  "The collector treats as pointers exactly the words that an object's description declares, for any size and any pattern of pointers, including objects described by more than one description word, pointer arrays, data arrays and the descriptor's user pointer, and for descriptions given by type declarations, explicit bitmaps or tag bytes. "
  "Data words are never followed, moved or changed even if their bits look like an object's address, and descriptors stay alive and correct for as long as they or objects using them are reachable.",
  ["inputs", "configurations"], "all object sizes and pointer layouts, with adversarial data in the non-pointer words",
  "Tests use a few small types; errors are at particular word positions (word 0, the last word, multiples of the word size) and need data that mimics addresses.",
  ["allocator.c", "ggggc/gc.h", "collector/gembc.c", "collector/portablems.c"],
  [("descriptor allocation", "ggggc_allocateDescriptor*, in allocator.c"), ("bitmap walk", "ADD_OBJECT_POINTERS, ggggc_postCompact, mark"), ("type declarations", "GGC_TYPE/GGC_PTR in ggggc/gc.h")])

p("C07", "Registered variables are roots exactly while they are registered",
  "Every variable registered with any of the push macros (of any arity, of run-time size, or manual) keeps its object alive and is updated when the object moves, in every frame of any nesting depth, until its frame is left by any path out of it, and then never touched again; the caller's frames are intact afterwards. "
  "Variables made global stay roots for the rest of the program, wherever and in whatever order frames are pushed, popped and globalized.",
  ["programs", "histories", "configurations"], "all arities, nestings, exit paths and globalization orders, with collections at every point, in the automatic and manual popping modes",
  "Tests use a few fixed arities in straight-line code; a wrong count or link in one generated macro, or a frame popped twice on one exit path, does not show.",
  ["ggggc/push.h", "pushgen.c", "roots.c", "ggggc/gc.h"],
  [("push macros", "ggggc/push.h"), ("popping", "GGGGC_LOCAL_PUSH, GGC_POP in ggggc/gc.h"), ("globalization", "ggggc_globalize in roots.c")])

p("C08", "A finalizer runs exactly once, after its object became unreachable",
  "A finalizer set on an object runs exactly once per request, with that object and its contents (and everything reachable from it) still intact: only after a collection has found the object unreachable from the program's roots, and at the latest by the first full collection that does; the finalizer may allocate, collect, set further finalizers and make the object reachable again. "
  "This holds for any number of finalizers on any objects, whatever generations they are in, and for collections of any generation, including ones whose promotion fails.",
  ["histories", "configurations", "fault_sequences"], "all histories of setting finalizers, dropping, promoting and collecting",
  "Tests only count that all finalizers have run at the end; running early, or with a corrupt object, or losing an entry in one order of collections passes them.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "doc/FINALIZERS.md"],
  [("registration", "ggggc_finalize in allocator.c"), ("survival decision", "FINALIZER_POOL in collector/gembc.c"), ("keeping entries", "keepFinalizers"), ("running", "ggggc_runFinalizers")])

p("C09", "Tagged values are never followed and never changed; untagged ones always are",
  "With internal tagging, a value whose alignment bits are not all zero is preserved bit for bit in any root, member or array element, is never followed, and does not disturb the pointers around it. "
  "With external tagging, exactly the words with an even tag are followed as pointers and words with an odd tag are preserved whatever their bits, for any object size and assignment of tags.",
  ["inputs", "histories", "configurations"], "all tag values and positions, and all collections over them",
  "Tests with tagging enabled store almost no tagged values; every path of each collector has its own check for tags.",
  ["collector/gembc.c", "collector/portablems.c", "allocator.c", "doc/TAGGING.md"],
  [("internal tags", "IS_TAGGED"), ("external tags", "ggggc_allocateDescriptorT, ADD_OBJECT_POINTERS")])

p("C10", "The JIT pointer stack's current contents are roots, entry by entry",
  "Every entry between the thread's JIT stack pointer and its end is a root: its object stays alive and the entry is updated when the object moves, in every collection of any generation, including for threads that are blocked or stopped. "
  "With internal tags unaligned entries are left alone, and with external tags exactly the entries with even tags in each tagging word's group are followed, including groups cut short by the end tag; memory outside of that range is neither read as roots nor written.",
  ["inputs", "histories", "configurations"], "all stack depths and contents, group lengths and tag patterns, combined with the tagging and finalizer features",
  "Tests have one fixed frame layout; group boundaries, short groups, empty stacks and blocked threads are not sampled.",
  ["collector/gembc.c", "collector/portablems.c", "threads.c", "doc/JITPSTACK.md"],
  [("root scan and update", "GGGGC_FEATURE_JITPSTACK parts of ggggc_collect0, ggggc_collectFull, mark"), ("blocked threads", "ggc_pre_blocking in threads.c")])

p("C11", "No thread runs during a collection, and every thread's roots are seen",
  "For every interleaving of threads that allocate, mutate, yield and collect, a collection runs only while every other registered thread is stopped at a safe point or blocked, all of their roots and heaps are included, and every thread finds its reachable data intact afterwards. "
  "Two threads never collect at the same time, and a thread never continues in memory that a collection has moved or freed.",
  ["schedules", "configurations"], "all interleavings of the threads' synchronization operations and shared accesses, within the bounds",
  "Tests run one threaded program under whatever schedule the machine happens to produce.",
  ["collector/gembc.c", "collector/portablems.c", "threads.c", "globals.c"],
  [("stopping the world", "ggggc_collect0, ggggc_yield, the world barrier"), ("publishing roots", "ggggc_yield")])

p("C12", "Threads never deadlock or livelock in the collector",
  "For every interleaving of allocation, explicit collection, yielding, blocking calls, thread creation, exit and lazy creation of shared descriptions, provided every running thread keeps reaching safe points, every collection completes and every thread eventually continues; no thread waits forever for a lock, a barrier or the end of a collection. "
  "This includes threads that fail to start and threads that exit or block while a collection is being requested.",
  ["schedules", "fault_sequences"], "all interleavings within the bounds, and failure of thread creation at any point",
  "A deadlock needs one particular interleaving of a stop request with a lock or a change in the number of threads; the tests' schedules do not produce it.",
  ["collector/gembc.c", "collector/portablems.c", "threads.c", "threads/posix.c", "allocator.c"],
  [("world barrier resized under its lock", "ggc_pre_blocking, ggc_post_blocking, ggc_thread_create, ggggcThreadWrapper"), ("yielding while waiting", "trylock loops with GGC_YIELD")])

p("C13", "Blocking calls and thread lifecycles hand data over intact",
  "While a thread is inside a blocking call (join, lock, semaphore wait, barrier wait, or between the explicit pre- and post-blocking calls) other threads can collect, and it returns with its roots and heap intact and updated, in whatever order blocked threads return. "
  "Objects passed to a new thread or left behind by one that has exited stay valid for as long as they are reachable, its global roots included, the blocking calls report the outcome of the call they wrap, and a failed thread creation changes nothing.",
  ["schedules", "histories", "fault_sequences"], "all interleavings and orders of block, unblock, create, exit and collect, within the bounds",
  "Tests never collect while another thread sits in each of these calls and never look at what an exited thread left behind.",
  ["threads.c", "threads/posix.c", "ggggc/threads-posix.h"],
  [("blocked lists", "ggc_pre_blocking, ggc_post_blocking"), ("exit hand-over", "ggggcThreadWrapper, ggggc_orphanPools"), ("creation", "ggc_thread_create")])

p("C14", "The generic barrier releases all of its threads, exactly when all have arrived",
  "With the generic barrier, for every interleaving, no thread passes a barrier of N before N threads have reached it in that round, all N then pass, and the barrier can be used again immediately for any number of rounds without threads of different rounds mixing. "
  "Destroying and reinitializing a barrier after a round in the way the library itself does is safe for the threads still leaving it.",
  ["schedules"], "all interleavings of 2 and 3 threads over several rounds",
  "The generic barrier is not even compiled on platforms with native barriers, so no test runs it.",
  ["gen-barriers.c", "ggggc/gen-barriers.h"],
  [("two-semaphore rendezvous", "ggc_barrier_wait_raw in gen-barriers.c")])

p("C15", "Lists behave as sequences under every history of list operations",
  "Every list operation (push, pop, unshift, shift, insert after, join, insert a list, length, conversion to an array) has exactly the effect and result of the same operation on a mathematical sequence, for every history of operations on any number of lists, including empty and one-element lists, and with collections of any generation at any allocation.",
  ["histories", "inputs"], "all operation sequences over several lists up to a depth",
  "The list test performs one fixed sequence of operations; the errors are in states such as a list emptied and refilled, or an insertion after the last element.",
  ["collections/list.c", "ggggc/collections/list.h"],
  [("list operations", "collections/list.c"), ("typed wrappers", "ggggc/collections/list.h")])

p("C16", "Maps behave as finite functions under every history of map operations",
  "Every map operation (put, get, clone) has exactly the effect and result of the same operation on a finite function, for every history of operations, any hash function (with any collisions) and comparison, through every growth of the table, with collections at any allocation. "
  "A clone has the same entries as the original at that time, and later changes of either do not show in the other.",
  ["histories", "inputs"], "all operation sequences over several keys and maps, for hash functions from constant to perfect",
  "The map test inserts one fixed sequence of integers with one hash function.",
  ["collections/map.c", "ggggc/collections/map.h"],
  [("map operations", "collections/map.c"), ("typed wrappers", "ggggc/collections/map.h")])

p("C17", "Pool allocators hand out aligned, disjoint, writable memory, and report failure",
  "Each of the pool allocators (aligned allocation, malloc, mmap, sbrk, portable) returns blocks of the pool size that are wholly inside memory obtained from the system, aligned to the pool size where that is promised, disjoint from each other and from anybody else's memory, for any placement of what the system returns; the mmap allocator gives back whatever it mapped beyond the pool. "
  "If the system refuses memory at any call, the allocator reports it by returning nothing (or aborts, if it was asked to), holds no lock, and works again when memory is available.",
  ["fault_sequences", "inputs", "configurations"], "all sequences of system answers (addresses of any alignment, failures) up to a depth, for each allocator",
  "Tests use whatever addresses the system returns and never see a failing one; most of the allocators are only selected on other platforms.",
  ["allocator/malign.c", "allocator/malloc.c", "allocator/mmap.c", "allocator/sbrk.c", "allocator/portable.c", "allocator.c"],
  [("pool allocation", "allocPool in allocator/*.c")])

p("C18", "The portable collector's heap is always exactly objects plus free chunks",
  "With the portable mark-and-sweep collector, after every operation each heap unit is tiled exactly by objects and free chunks; no free chunk is available twice and after a thread's own collection every one of its free chunks is available, adjacent dead objects are merged when swept, no live object is ever taken for free, and objects never move. "
  "An allocation takes only free memory, and fails only if no free chunk of a usable size is left after a collection and no further memory can be obtained.",
  ["histories", "inputs", "fault_sequences"], "all sequences of allocations of various sizes, drops and collections up to a depth, including refused memory",
  "The tests only run the same stress programs with this collector; a chunk lost or listed twice shows only much later, if at all.",
  ["collector/portablems.c"],
  [("first fit with splitting", "ggggc_mallocRaw"), ("sweep and merging", "sweep"), ("other threads' heaps", "sweepBlocked, clearBlocked")],
  [("free list", "per-thread list of free chunks", "freeList in collector/portablems.c")])

p("C19", "The C++ front end gives the same guarantees as the macros",
  "C++ smart pointers and array wrappers are roots from construction to destruction, in any nesting of scopes and with any copies and assignments (they are to be destroyed in the reverse order of construction, as the class demands), and member access through them and through declared members reads and writes the same memory as the macros, with old-to-young pointers always remembered. "
  "Programs using them see the same reachability and collection behaviour as ones using the C macros, in every history of operations.",
  ["programs", "histories"], "all operation sequences over smart pointers, array wrappers and members up to a depth",
  "One C++ graph program is tested; a missed barrier or root in one operator or copy path does not show in it.",
  ["ggggc/gc.h"],
  [("smart pointers", "class GGC, GGCPA, GGCDA in ggggc/gc.h"), ("members", "GGC_MPTR/GGC_MDATA for C++")])

p("C20", "The debugging self-checks stay silent on correct programs",
  "With the debugging options for memory corruption, collection reports and a small heap enabled (default collector, with or without tagging, finalizers or the JIT pointer stack), every correct program whose data fit behaves as without them: no self-check fires and nothing is written outside of free memory, in any history of operations. "
  "A corrupted object header that is reachable at a collection is reported by aborting.",
  ["histories", "configurations"], "all operation sequences up to a depth in the debugging configurations",
  "The debugging configuration is run over the stress programs only; a self-check that is itself wrong in a rare layout aborts a correct program.",
  ["collector/gembc.c", "allocator.c", "ggggc/gc.h"],
  [("checks", "memoryCorruptionCheck and GGGGC_DEBUG_MEMORY_CORRUPTION parts of collector/gembc.c"), ("small heap", "GGGGC_DEBUG_TINY_HEAP in allocator.c")])

p("C21", "Boxed primitive values keep their value and are usable as objects",
  "Each boxed primitive type holds exactly the value stored in it, for every primitive type, bit pattern and history of boxing, storing, collecting and reading, and it can be stored and found wherever an object can, including as list elements and as map keys and values.",
  ["inputs", "histories"], "all unit types and boundary values, with collections at every point",
  "No test uses unit types other than as keys of the one map test.",
  ["ggggc/collections/unit.h"],
  [("unit types", "GGC_UNIT in ggggc/collections/unit.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
