#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

GEM = "collector/gembc.c"; PMS = "collector/portablems.c"; AL = "allocator.c"; GC = "ggggc/gc.h"

prop("C01", "Everything reachable survives every collection, unchanged",
 "Whatever a single-threaded program does through the public API, every object reachable from its pushed or globalized roots keeps its type, length, data words and outgoing references (including shared references, cycles and null) across every collection, however the objects were moved. This holds for any object graph, any mix of object sizes and ages, any number of generations, pool and card size, pool allocator and collector the build can select, and for C and C++ builds of the library.",
 ["programs", "histories", "configurations"],
 "all mutator programs that follow the API rules x all collection points x all supported build configurations",
 "The tests run eight fixed programs on 16 MB pools, so few collections happen, almost no minor collection escalates, objects practically never span cards or fill pools exactly, and only a handful of checksums are compared.",
 [GEM, PMS, AL, "roots.c", GC, "ggggc/gc-gembc.h"],
 [("generation pools", "where objects of each age live", AL+":ggggc_newPool"), ("forwarding word", "an object's new location during a minor collection", GEM+":ggggc_collect0"), ("break table", "where a compacted chunk went", GEM+":ggggc_compact")],
 [("copying promotion", GEM+":ggggc_collect0"), ("mark and break-table compaction", GEM+":ggggc_collectFull"), ("mark and sweep", PMS+":mark/sweep")],
 ["pushed local variables after every allocation or explicit collection", "fields read through the read macros"])

prop("C02", "A young object referenced only from an old object is never lost",
 "After any store through the pointer-write macros (a member, an array element, or the user pointer of a type descriptor), the stored object stays alive and the field keeps designating it, whatever the ages of the two objects and wherever in the heap the holder lies. This holds through any later sequence of minor, escalated and full collections, also when the store happened before, between or after promotions of either object.",
 ["programs", "histories", "configurations"],
 "all interleavings of allocation, promotion, pointer stores into objects of any age, and collections of any generation",
 "One unregistered test program stores one young pointer into one old object; no test places old holders at card or pool boundaries, in arrays spanning cards, or mixes stores with multi-generation promotion.",
 [GEM, "ggggc/gc-gembc.h", GC],
 [("remembered set", "which regions of old pools may hold references to younger objects", "ggggc/gc-gembc.h:GGGGC_COLLECTOR_POOL_MEMBERS"), ("first-object table", "where the first object of each card starts", "ggggc/gc-gembc.h:firstObject")],
 [("write barrier", "ggggc/gc-gembc.h:GGGGC_WP"), ("remembered-set scan", GEM+":ggggc_collect0"), ("remembered-set rebuild after compaction", GEM+":ggggc_postCompact")],
 ["GGC_RP/GGC_RAP/GGC_RUP on old holders after collections"])

prop("C03", "Unreachable memory is reclaimed, so footprint follows the live data",
 "A program whose live data stays bounded runs in bounded memory however much it allocates: the number of pools obtained from the operating system stays within a fixed multiple of its peak live data plus a fixed per-generation and per-thread reserve. Garbage of every kind is reclaimed: acyclic and cyclic, young and promoted, small and nearly pool-sized, arrays, descriptors, whole data structures dropped after having been promoted, and memory used by threads that have ended. (The mark-and-sweep collector does not move objects, so the multiple includes what fragmentation costs it; with several generations, old garbage may keep younger garbage until its generation is collected.)",
 ["programs", "histories", "configurations"],
 "all allocation histories with bounded live data, for every collector, generation count and pool size",
 "The tests only check that programs finish; a collector that leaked promoted garbage or never reused a pool would still pass on a machine with enough memory.",
 [GEM, PMS, AL],
 [("pool lists", "pools of each generation", AL), ("survivor counts", "what the expansion heuristic looks at", AL+":ggggc_expandPoolList"), ("free pool list", "pools given back for reuse", AL+":ggggc_freeGeneration")],
 [("en-masse promotion empties young pools", GEM+":ggggc_collect0"), ("compaction", GEM+":ggggc_compact"), ("sweep and coalescing", PMS+":sweep"), ("expansion heuristic", AL+":ggggc_expandPoolList")],
 ["pool requests to the operating system (interposed posix_memalign/malloc)"])

prop("C04", "A new object is zeroed, correctly typed and shares memory with nothing",
 "Every allocation returns an object whose payload is all zero (null pointers, zero data), whose descriptor is the requested one, whose array length is the requested element count, and whose storage is suitably aligned, large enough, and disjoint from every other reachable object. This holds for all allocation entry points and all sizes from zero-length arrays up to objects that just fit a pool, and whatever was in that memory before.",
 ["inputs", "histories", "configurations"],
 "all sizes, allocation entry points and heap states (fresh, recycled, swept, compacted, just-filled pools)",
 "The tests allocate a few fixed sizes, never inspect fresh memory, and fresh pools from the system are already zero.",
 [GEM, PMS, AL],
 [("allocation pointer", "start of free space in a pool", AL+":struct GGGGC_Pool"), ("free list", "free chunks in the mark-and-sweep heap", PMS+":freeList")],
 [("bump allocation and clearing", GEM+":ggggc_mallocRaw"), ("first-fit free list with splitting", PMS+":ggggc_mallocRaw"), ("array sizing", AL+":ggggc_mallocPointerArray/ggggc_mallocDataArray")],
 ["the returned object before the first store"])

prop("C05", "Type descriptions are followed exactly: pointers traced, data left alone",
 "For a type of any size and any layout of pointer and data words, however it was declared (type macros, descriptor with one or several bitmap words, array descriptors), the collector keeps alive and updates exactly the fields declared as pointers (with the type macros, whose description is one bitmap word, these lie in the first 64 words). Words declared as data are never followed, never changed and never keep anything alive, whatever bit pattern they hold, and a descriptor stays valid for as long as it or any object of its type is reachable.",
 ["inputs", "programs", "configurations"],
 "all object sizes and pointer layouts, in particular around multiples of the bitmap word, and all data bit patterns",
 "The tests use objects of three to eight words with a few pointers at the front; no bitmap in them exceeds one word, and no data word ever looks like a pointer.",
 [AL, GEM, PMS, GC],
 [("descriptor bitmap", "which words are pointers", GC+":struct GGGGC_Descriptor"), ("descriptor-descriptors", "types of descriptors by size", AL+":ggggc_allocateDescriptorDescriptor")],
 [("descriptor construction", AL+":ggggc_allocateDescriptorL"), ("bitmap walk", GEM+":ADD_OBJECT_POINTERS"), ("bitmap walk after compaction", GEM+":ggggc_postCompact"), ("bitmap walk when marking", PMS+":mark")],
 ["all words of objects of generated types after collections", "finalizer- or footprint-observed death of objects named only by data words"])

prop("C06", "Roots are live exactly while pushed or globalized, and always updated",
 "From the moment a variable is pushed (any of the push macros, any count, automatic or manual) until its frame is popped, and for a globalized variable from globalization for the rest of the process, the object it designates is kept alive and the variable is updated when the object moves. This holds for any nesting of frames including early returns and loops, for null variables, and for the same object named by several roots; a popped or overwritten root no longer keeps its object alive.",
 ["programs", "histories", "configurations"],
 "all nestings of frames of all sizes and kinds, with collections at any depth",
 "The tests use a few small frame sizes at shallow depth; most frame sizes, the counted form, manual frames and globals mixed with frames are never exercised across a collection.",
 ["ggggc/push.h", "pushgen.c", GC, "roots.c", GEM, PMS],
 [("pointer stack", "registered root variables", GC+":struct GGGGC_PointerStack"), ("globals chain", "permanent roots", "roots.c:ggggc_globalize")],
 [("push macros", "ggggc/push.h"), ("automatic pop", GC+":GGGGC_LOCAL_PUSH"), ("globalize", "roots.c:ggggc_globalize"), ("root scan", GEM+":ggggc_collect0")],
 ["the pushed variables themselves after each collection", "footprint or finalizer evidence that unrooted objects die"])

prop("C07", "The C++ wrappers are faithful roots and accessors",
 "In C++ programs, a wrapper object (plain, pointer-array or data-array) roots what it designates for exactly its lifetime, in any nesting, copy, assignment, parameter passing, return and exception unwinding, and is updated when the object moves. Member access, array access and assignment through the wrappers read and write the same value as the C macros, including the bookkeeping needed for old objects to keep young ones alive.",
 ["programs", "histories", "configurations"],
 "all uses of the wrapper classes and member proxies, with collections at any point",
 "One C++ program exercises a few member reads and writes; copies, parameter passing, array wrappers with old arrays and unwinding are not covered.",
 [GC, "ggggc/gc-gembc.h"],
 [("wrapper frame", "one-entry pointer-stack frame inside the wrapper", GC+":class GGC")],
 [("GGC<T>", GC+":template class GGC"), ("GGCPA/GGCDA", GC+":template class GGCPA"), ("member proxies", GC+":GGC_MPTR/GGC_MDATA (C++)")],
 ["values read back through wrappers and through the C macros after collections"])

prop("C08", "Multi-threaded programs keep every thread's reachable objects intact",
 "With any number of threads allocating, linking, sharing and dropping objects at the same time, every object reachable from any thread's roots or from globals survives all collections unchanged, whichever thread triggers a collection and wherever the others are when it does. Objects handed from one thread to another through properly synchronized shared structures arrive intact.",
 ["schedules", "programs", "histories", "configurations"],
 "all schedules of any number of mutator threads, with collections triggered by any of them",
 "One threaded test builds independent trees on four threads; no test shares mutable structures across threads, and a test samples very few schedules.",
 [GEM, PMS, "threads.c", "threads/posix.c", AL],
 [("root lists", "per-thread pools and frames registered during a stop", "ggggc-internals.h"), ("world barrier", "rendezvous of all threads", "globals.c")],
 [("stop-the-world handshake", GEM+":ggggc_collect0/ggggc_yield"), ("thread-local young pools", "globals.c:ggggc_gen0")],
 ["per-thread shadow models checked after collections", "hand-over queues between threads"])

prop("C09", "No deadlock or livelock: allocation, collection and yields always progress",
 "As long as every thread keeps allocating, yielding, using the library's blocking calls or ending, every allocation and every requested collection completes within a bounded number of collections. In particular threads first using the same or related types at the same moment, several threads asking for collection at once, threads starting and ending during a collection, a thread that could not be created, and a request that no pool can hold must not leave any thread waiting forever.",
 ["schedules", "fault_sequences", "configurations"],
 "all schedules of allocation, yield, blocking calls, thread start and exit; all thread-creation failures; all object sizes",
 "The threaded test has one fixed phase structure, creates its types before starting threads, and never sees a creation failure or an oversized request.",
 [GEM, PMS, "threads.c", "threads/posix.c", AL],
 [("thread count", "threads a stop must wait for", "globals.c:ggggc_threadCount"), ("stop flag", "request to come to a safe point", "globals.c:ggggc_stopTheWorld")],
 [("world barrier lock with yielding acquisition", GEM+":ggggc_collect0"), ("lazy type construction locks", AL+":ggggc_allocateDescriptorSlot"), ("allocation retry", GEM+":ggggc_mallocRaw")],
 ["completion of every operation under a generous watchdog, counted in collections"])

prop("C10", "Collections exclude all mutator activity: no data races inside the library",
 "While a collection moves or frees objects, no other thread of the program is between two safe points touching the heap, the root lists or the library's shared bookkeeping, and outside collections all shared bookkeeping is accessed under synchronization. A race detector watching a correctly synchronized program therefore sees no conflicting unsynchronized accesses, other than the polling of the stop request and idempotent old-object marks.",
 ["schedules", "programs", "configurations"],
 "all schedules of correctly synchronized multi-threaded mutators, including thread start, exit and blocking calls",
 "Tests run without a race detector; a missing barrier or lock almost always goes unnoticed by a checksum.",
 [GEM, PMS, "threads.c", "threads/posix.c", AL],
 [("world barrier lock", "protects thread count, barrier and blocked roots", "ggggc-internals.h"), ("roots lock", "protects the root lists", "ggggc-internals.h"), ("free pools lock", "protects the free pool list", AL)],
 [("three-phase barrier", GEM+":ggggc_collect0"), ("locks", "threads.c")],
 ["ThreadSanitizer happens-before analysis of the running library"])

prop("C11", "Blocked threads neither delay collections nor lose their objects",
 "A thread inside any of the library's blocking calls (mutex lock, barrier wait, semaphore wait, thread join, or an explicit pre/post-blocking pair) never has to be waited for by a collection, and everything reachable from its roots survives, with its variables updated, any number of collections that happen meanwhile. When the call returns the thread again takes part in every collection, and the call's own result is what the underlying primitive reported.",
 ["schedules", "histories", "configurations"],
 "all numbers of blocked threads, orders of blocking and unblocking, and collections in between, including a program whose only thread blocks",
 "The threaded test only blocks in join and a barrier, with no live young data being checked, and no collection is forced while a thread is blocked.",
 ["threads.c", "threads/posix.c", "ggggc/threads-posix.h", GEM, PMS],
 [("blocked roots and pools", "published by threads that cannot stop", "threads.c:ggc_pre_blocking")],
 [("pre/post blocking", "threads.c:ggc_pre_blocking/ggc_post_blocking"), ("blocking wrappers", "threads/posix.c:BLOCKING")],
 ["shadow check of the blocked thread's roots after it resumes", "collections completed while a thread is known to be blocked"])

prop("C12", "What a thread published outlives the thread, and its memory is recycled safely",
 "After a thread ends, every object it allocated that is still reachable from elsewhere, every type it was the first to use and every variable it globalized stays valid for as long as needed. The memory it used is only handed to others once nothing reachable lies in it, and does get reused.",
 ["schedules", "histories", "configurations"],
 "all histories of thread creation, publication of objects, global roots and first-used types, and thread exit",
 "In the tests threads publish nothing and use no type first; the process ends right after they do.",
 ["threads.c", AL, "roots.c", GEM, PMS],
 [("exited thread's pools", "young objects it leaves behind", "threads.c:ggggcThreadWrapper"), ("globals of the thread", "roots it registered", "roots.c")],
 [("thread wrapper exit path", "threads.c:ggggcThreadWrapper"), ("free pool list", AL+":ggggc_freeGeneration")],
 ["objects published by ended threads, checked while new threads allocate"])

prop("C13", "Each finalizer runs exactly once, after its object became unreachable",
 "A finalizer attached to an object runs at most once per attachment, never while the object is reachable from a root, and no later than the next explicit full collection after the object became unreachable. When it runs, the object and everything it refers to are intact, running it may allocate and collect, and an object made reachable again by its finalizer stays valid; several finalizers on one object all run.",
 ["programs", "histories", "configurations"],
 "all graphs of finalizable objects of all ages, all collection sequences, all allocating or resurrecting finalizers",
 "The graph test only counts that all finalizers ran after one full collection on tiny graphs, and in it every finalizable object dies.",
 [AL, GEM, PMS, "doc/FINALIZERS.md"],
 [("finalizer entries", "pending finalizers of a pool", GC+":struct GGGGC_Pool"), ("ready list", "finalizers to run after a collection", GEM+":ggggc_collect0")],
 [("registration", AL+":ggggc_finalize"), ("classification after marking", GEM+":FINALIZER_POOL"), ("running", AL+":ggggc_runFinalizers")],
 ["finalizer invocations against a shadow reachability model"])

prop("C14", "Collections keep working when the system refuses memory",
 "If the operating system refuses any request for memory, at any point, the program either continues with all reachable objects intact (collecting more often) or is terminated with a diagnostic message. It never crashes otherwise, hangs, loses or corrupts reachable objects, and it recovers when memory becomes available again. Refusals do not end a program whose live data fits comfortably in the pools it already has.",
 ["fault_sequences", "programs", "configurations"],
 "every single refused request in a run, every suffix of refused requests, and random refusal patterns, for all pool allocators",
 "No test injects an allocation failure; the tiny-heap build covers one fixed limit with programs that fit in it.",
 [AL, GEM, PMS, "allocator/malign.c", "allocator/malloc.c", "allocator/mmap.c", "allocator/sbrk.c", "allocator/portable.c", "ggggc-internals.h"],
 [("optional and mandatory pool requests", "expansion may fail, first pools may not", AL+":ggggc_newPool")],
 [("escalation to an older generation when promotion finds no room", GEM+":ggggc_collect0"), ("abort with message", "allocator/*.c")],
 ["exit status and message of the program, and its object graph, under injected refusals"])

prop("C15", "Internal tagging: unaligned values are opaque, aligned ones are pointers",
 "With internal tagging enabled, a pointer field, array element, root variable or JIT-stack slot holding an unaligned value keeps exactly that value through every collection and the value is never dereferenced, while aligned non-null values are followed and updated as usual. This holds for all tag bit combinations, for values that would point into the heap if the tag were stripped, and when fields change between the two kinds over time.",
 ["programs", "inputs", "configurations"],
 "all programs mixing tagged values and pointers in all positions the collector looks at",
 "The tests are compiled with the feature but none stores a tagged value.",
 [GEM, PMS, "doc/TAGGING.md"],
 [], [("tag test", GEM+":IS_TAGGED"), ("tag test when marking", PMS+":IS_TAGGED")],
 ["every field and root holding a tagged value after every collection"])

prop("C16", "External tagging: exactly the even-tagged words are traced",
 "With external tagging enabled, exactly the words whose descriptor tag byte is even are followed and updated, and words with odd tags keep their bits and keep nothing alive, for every object size and tag assignment including tags on the first and last word of an object and tags that change by changing an object's descriptor. Descriptors built from bitmaps or for arrays behave the same under this build.",
 ["programs", "inputs", "configurations"],
 "all tag strings over all sizes and all 252 user tags",
 "The tests are compiled with the feature but none creates a tagged descriptor.",
 [AL, GEM, PMS, "doc/TAGGING.md"],
 [("tag bytes", "one per word, in the descriptor", GC+":struct GGGGC_Descriptor")],
 [("tag descriptors", AL+":ggggc_allocateDescriptorT"), ("tag walk", GEM+":ADD_OBJECT_POINTERS")],
 ["all words of tagged objects after collections"])

prop("C17", "The JIT pointer stack is a root area of whatever extent it has at the time",
 "With JIT pointer stacks enabled, every slot between the current top and the end of each thread's JIT stack is a root: its object is kept alive and the slot is updated when the object moves, for the running thread, for stopped threads and for blocked threads, and under either tagging mode with its documented layout. Slots below the current top are ignored, and slots holding null, tagged values or odd-tagged words keep their bits.",
 ["programs", "histories", "configurations"],
 "all sequences of growing, shrinking and rewriting the JIT stack with collections in between, in every tagging mode and collector",
 "The tests are compiled with the feature but no program uses a JIT stack.",
 [GEM, PMS, "threads.c", "doc/JITPSTACK.md"],
 [("JIT stack bounds", "current top and end per thread", "globals.c")],
 [("JIT stack scan", GEM+":ggggc_collect0/ggggc_collectFull"), ("publication while stopped or blocked", GEM+":ggggc_yield")],
 ["slots of the JIT stack compared with a shadow after every collection"])

prop("C18", "Lists behave as sequences through any operations and collections",
 "Any sequence of list operations (push, unshift, shift, whole-list push/unshift/insertion, insertion after a node, conversion to an array) on any lists, empty ones included, gives the results the same operations on mathematical sequences give, with length, order and element identity preserved across collections. A list whose content was moved into another is left empty and usable.",
 ["programs", "histories", "configurations"],
 "all finite sequences of list operations on any number of lists, with collections at any point",
 "One test pushes and prints a few elements; shift, insertions and operations on empty lists are never exercised.",
 ["collections/list.c", "ggggc/collections/list.h", "ggggc/collections/unit.h"],
 [("head, tail, length", "list representation", "ggggc/collections/list.h")],
 [("list functions", "collections/list.c")],
 ["results of list operations and full traversals compared with a reference sequence"])

prop("C19", "Maps behave as maps through growth, collisions, clones and collections",
 "A lookup returns the value most recently put under an equal key and misses for keys never put, for any hash and comparison functions that agree with each other, any number of entries and collisions, and any collections in between. A clone has the same bindings as the original at the time of cloning, and afterwards changes to either are invisible to the other.",
 ["programs", "histories", "configurations"],
 "all finite sequences of put, get and clone with arbitrary hash functions, with collections at any point",
 "One test puts and gets a few string keys; colliding hashes, growth with chains, overwriting and clones are never checked.",
 ["collections/map.c", "ggggc/collections/map.h"],
 [("buckets", "entry chains", "ggggc/collections/map.h")],
 [("growth and rehash", "collections/map.c:GGC_MapPut"), ("clone", "collections/map.c:GGC_MapClone")],
 ["results of map operations compared with a reference map"])

prop("C20", "The corruption checker never accuses a correct program and catches real damage",
 "In the memory-corruption debugging build, a program that follows the API rules and stays inside its objects is never stopped by the checker, whatever its heap shape, collector, threads or features. A program that overwrites the guard word of a live object is stopped with the corruption message no later than the next collection.",
 ["programs", "histories", "configurations"],
 "all correct programs on the debugging build; all overwritten live objects, of any age, type and position",
 "The tests run eight programs on that build, which shows no false accusation for them, and never corrupt anything.",
 [GEM, PMS, GC],
 [("guard word", "constant in every object's header", GC+":struct GGGGC_Header")],
 [("pre/post collection heap walk", GEM+":memoryCorruptionCheck"), ("check while tracing", GEM+":ggggc_collect0"), ("post-compaction check", GEM+":ggggc_postCompact")],
 ["exit status and diagnostic of the program"])

prop("C21", "The library never touches memory it does not own, nor has undefined behaviour",
 "While serving any API-conforming program the library never reads or writes outside its pools, its own tables and the caller's arguments, never reads pool memory that was never initialized to decide anything, and executes no undefined behaviour that changes results. This holds for every feature and configuration, for the largest and smallest objects and descriptors, and at the exact ends of pools and cards.",
 ["programs", "inputs", "configurations"],
 "all API-conforming programs and build configurations",
 "Tests run without sanitizers on pools large enough that ends of pools and tables are practically never reached.",
 [GEM, PMS, AL, "threads.c", "roots.c", "ggggc-internals.h", "collections/list.c", "collections/map.c"],
 [("pool bounds", "start, free and end of a pool", GC+":struct GGGGC_Pool"), ("descriptor-descriptor table", "indexed by descriptor size", "globals.c")],
 [("bounds tests", GEM), ("search stack", "ggggc-internals.h:TOSEARCH_ADD")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and valgrind reports, with pools surrounded by inaccessible memory and filled with junk"])

prop("C22", "Locks, semaphores, barriers and joins keep their contracts through collections",
 "The threading API is a threading API: a mutex locked by ggc_mutex_lock or ggc_mutex_trylock is held by one thread until it is unlocked; a semaphore never lets more ggc_sem_wait calls through than its initial value plus the posts, and never loses a post; nobody leaves ggc_barrier_wait before all the threads the barrier was initialized for have arrived, a barrier can be used again at once, and it may be destroyed by whoever has left its last use; ggc_thread_create runs the function exactly once with the argument it was given, or says that it did not, and ggc_thread_join returns after the thread is over, with its effects visible. Each call returns 0 on success and otherwise a failure. Collections before, during and after any wait change none of this, and the waiting thread's objects are intact afterwards. All of it holds for the native and the generic barriers and for each collector, and without threads the calls are harmless.",
 ["schedules", "histories", "configurations"],
 "all programs, numbers of threads, schedules, and moments of collection relative to waits",
 "The tests use one fork-join program; nothing there waits for a semaphore or a barrier of its own while another thread collects, and the generic barriers are never compiled.",
 ["threads/posix.c", "threads.c", "ggggc/threads-posix.h", "gen-barriers.c", "ggggc/gen-barriers.h", "ggggc/threads-none.h"],
 [("generic barrier", "count, lock and two semaphores", "ggggc/gen-barriers.h"), ("thread count", "threads the world barrier waits for", "threads.c")],
 [("blocking wrappers", "threads/posix.c:BLOCKING"), ("thread start", "threads/posix.c:ggc_thread_create"), ("barrier wait", "gen-barriers.c:ggc_barrier_wait_raw")],
 ["order of calls and returns recorded by each thread, return values, values protected by the primitives, contents of the waiting threads' objects"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
