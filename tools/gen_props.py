#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One entry per property; edit here, then re-run.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("C01", "Vec, Stack, Array and Slice behave as ideal sequences",
  "After any sequence of operations (construct, make, push, emplace, pop, reserve, resize, extend, clear, clone, move, index, iterate, slice, sub, to_bytes), Vec, Stack, Array and Slice hold exactly the elements, in order, that a mathematical sequence would, and length/empty/full/capacity/bytes/front/back/top agree with it. A clone is equal to and independent of its source; a moved-from container is empty and reusable. A Vec may be handed its own elements (v.push(v[i]), emplace) or be replaced by one its elements own. Every element is constructed once and destroyed once, and no access leaves the container's own storage.",
  ["histories", "inputs"], "every finite operation history over element types that are trivial, clonable, copyable or move-only, from any starting capacity",
  "test/arrays.cpp runs one straight-line script of three pushes per container; growth across several reallocations, shrink/grow mixes, aliasing pushes and clone/move of non-trivial elements are never reached",
  ["rpp/vec.h", "rpp/stack.h", "rpp/array.h", "rpp/slice.h"],
  [("Vec growth/move/clone", "rpp/vec.h reserve/clone/operator="), ("Stack over Vec", "rpp/stack.h"), ("Slice views", "rpp/slice.h sub/to_bytes")],
  ["public accessors after every operation", "element registry of constructions/destructions", "AddressSanitizer/UBSan/LeakSanitizer"])

p("C02", "Queue is a FIFO under every history",
  "After any sequence of push, emplace, pop, erase_first, reserve, clear, clone and move, a Queue yields exactly the elements a FIFO list would, in order, through front, back, penultimate, indexing and iteration. erase_first removes exactly the first equal element (or nothing) and keeps the order of the rest; a clone is element-wise equal to and independent of its source. A Queue may be handed its own elements or be replaced by one its elements own. Every element is constructed once and destroyed once.",
  ["histories"], "every operation history, including wrap-around of the ring at every offset and growth while wrapped",
  "test/arrays.cpp pushes three integers and pops once; the ring never wraps, erase_first is never called and clone is only used with trivially copyable elements",
  ["rpp/queue.h"], [("ring buffer index arithmetic", "rpp/queue.h push/pop/idx_at/reserve"), ("erase_first compaction", "rpp/queue.h erase_first")],
  ["public accessors and iteration after every operation", "element registry", "AddressSanitizer"])

p("C03", "Heap always yields its least element",
  "A Heap holds exactly the multiset of elements pushed/emplaced and not yet popped, top is always a least element under operator<, and popping everything yields the elements in non-decreasing order. This holds across growth, reserve, clear, clone and move, for duplicates, for any strict weak order, and when a Heap is handed its own elements or replaced by one they own; every element is constructed and destroyed exactly once.",
  ["histories", "inputs"], "every push/pop history and key distribution",
  "test/arrays.cpp checks two pops of a four element heap",
  ["rpp/heap.h"], [("sift up / sift down", "rpp/heap.h reheap_up/reheap_down"), ("growth and clone", "rpp/heap.h reserve/clone")],
  ["top/length/iteration after every operation", "element registry", "AddressSanitizer"])

p("C04", "Map is a faithful associative container",
  "After any history of insert, emplace, get_or_insert, erase, try_erase, reserve, clear, clone and move, a Map contains exactly the last value inserted for every key not since erased: lookups, contains, length and iteration (each entry exactly once) all agree with an ideal dictionary, whatever the hash values and starting capacity. Inserting an existing key replaces its value without changing the length, references returned by insert/get denote that key's value, and every operation terminates. A value may be inserted from the Map itself, and a Map may be replaced by one its values own. Every key and value is destroyed exactly once.",
  ["histories", "inputs", "configurations"], "every operation history, key set (including colliding and adversarial hashes) and initial capacity",
  "test/map.cpp inserts up to 40 distinct small integers and erases one; collisions, probe-chain wrap-around, overwrites, back-shift deletion and explicit capacities are not reached",
  ["rpp/map.h"], [("Robin Hood insertion", "rpp/map.h insert_slot"), ("backward-shift deletion", "rpp/map.h try_erase/fix_up"), ("rehash", "rpp/map.h reserve"), ("clone", "rpp/map.h clone")],
  ["lookups of present and absent keys, length and full iteration compared with a reference dictionary", "element registry", "watchdog"])

p("C05", "Equal keys hash equally, deterministically and well spread",
  "For every hashable type provided by the library (integers, characters, floats, pointers, strings and string views, log locations, math vectors), values that compare equal hash equally, including across String and String_View, and repeated hashing gives the same value. Nearby or structured keys do not systematically collide, so different contents almost surely hash differently. Consequently a value used as a Map key is found again by any equal value.",
  ["inputs"], "all pairs of values of each hashable type",
  "no test compares hashes of equal values with different representations",
  ["rpp/hash.h", "rpp/string0.h", "rpp/string1.h", "rpp/pair.h", "rpp/vmath.h"], [("squirrel5 mixing", "rpp/hash.h"), ("per-type Hash specialisations", "rpp/hash.h, string1.h, pair.h, vmath.h")],
  ["hash values of generated equal / unequal pairs", "collision counts over structured key families"])

p("C06", "Box, Opt, Storage, Pair and Tuple own exactly once",
  "Box, Opt, Storage, Pair and Tuple hold exactly the value last put in them across construct, emplace, clear, clone, move and move-assignment, report presence correctly, and a moved-from Box is empty. The owned object is destroyed exactly once and its memory returned to its allocator exactly once, including when a Box or Opt is replaced by one it transitively owns. Clones are equal to and independent of their source.",
  ["histories"], "every history of ownership transfers among several owners",
  "test/pointers.cpp, opt.cpp and tuple.cpp execute each member once with scalars; double destruction or leaks of non-trivial values on reassignment are invisible to them",
  ["rpp/box.h", "rpp/opt.h", "rpp/storage.h", "rpp/pair.h", "rpp/tuple.h"], [("move/assign", "rpp/box.h, rpp/opt.h operator="), ("placement storage", "rpp/storage.h")],
  ["owned-object registry after every step", "AddressSanitizer/LeakSanitizer"])

p("C07", "Variant and Function dispatch to the stored alternative",
  "A Variant always reports and dispatches (match, is-index, comparison) on exactly the alternative last stored, and a Function invokes exactly the callable last stored with exactly the arguments given and returns its result, across move, move-assignment (also from a Variant the current alternative owns), emplace and clone. Calling a moved-from Function stops the program. Stored values and captured state are destroyed exactly once.",
  ["histories", "inputs"], "every history of stores, moves and calls over alternatives of different size, alignment and triviality",
  "test/variant.cpp and function.cpp hold one or two alternatives and never observe destruction of replaced values",
  ["rpp/variant.h", "rpp/function.h"], [("tagged storage", "rpp/variant.h"), ("vtable erased small buffer", "rpp/function.h")],
  ["results of match/call against a model", "registry of captured objects", "AddressSanitizer"])

p("C08", "Rc and Arc free the shared object exactly once, at the last release",
  "While any Rc/Arc handle to an object exists the object is alive and unchanged by reference counting; when the last handle is dropped or reassigned it is destroyed exactly once and its memory returned. references() equals the number of live handles. For Arc this holds when handles are duplicated and dropped concurrently from any number of threads, and every write made before a handle was dropped is visible to the destructor.",
  ["histories", "schedules"], "every history of dup/move/assign/clear for Rc and Arc, and every interleaving of those for Arc",
  "test/pointers.cpp is single threaded with two handles to an int; no schedule and no destructor is ever observed",
  ["rpp/rc.h"], [("reference count decrement-to-zero", "rpp/rc.h"), ("atomic count", "rpp/rc.h Arc, rpp/thread0.h Atomic")],
  ["per-object destructor counter", "references()", "ThreadSanitizer with injected delays", "AddressSanitizer"])

p("C09", "Allocation accounting is exact and leaks are reported",
  "Every allocation made through a named allocator and every library container using it is counted: the net allocation count returns to its starting value when everything is freed, and finalisation reports a leak for an allocator name exactly when allocations of that name are still live, with the exact number and size. Allocations are disjoint, large enough, usable until freed, and allocation from any thread is accounted once.",
  ["histories", "schedules"], "every history of allocations and frees by any number of threads",
  "test/allocator.cpp allocates and frees one block and never checks a count or a leak report",
  ["rpp/alloc0.h", "rpp/alloc1.h", "rpp/impl/alloc.cpp", "rpp/profile.h", "rpp/impl/profile.cpp"], [("net allocation counter", "rpp/impl/alloc.cpp sys_alloc/sys_free"), ("per-allocator statistics", "rpp/impl/profile.cpp alloc/finalize")],
  ["net count", "log messages emitted by finalize", "sanitizer malloc hooks"])

p("C10", "Region allocations are disjoint, stable and released together",
  "Memory obtained from a region is disjoint from every other live allocation of the thread, keeps its contents until its region ends (nested regions never disturb outer ones), is suitably aligned for any fundamental or SIMD type, and ending a region releases all of it and restores the depth and size reported before it began. Backing memory is returned when regions end; regions of different threads are independent. Using a region that is not the innermost one stops the program.",
  ["histories", "schedules"], "every nesting of regions and every sequence of allocation sizes, on any thread",
  "test/allocator.cpp opens four nested regions with fixed sizes and never verifies contents, disjointness or release",
  ["rpp/alloc0.h", "rpp/impl/alloc.cpp"], [("chunk list and offsets", "rpp/impl/alloc.cpp Region_Allocator"), ("brand check", "rpp/impl/alloc.cpp assert_brand")],
  ["fill patterns re-verified at every step", "depth()/size()", "net allocation count", "UBSan alignment"])

p("C11", "Pool allocators never hand out a live block twice",
  "Blocks obtained from Mpool or a Free_List are disjoint from all other live blocks, large and aligned enough for their type, and constructed/destroyed exactly once; recycled blocks are reused only after being destroyed. This holds for Mpool when any number of threads allocate and free concurrently, including freeing on another thread. All pooled memory is returned by finalisation/clear.",
  ["histories", "schedules"], "every history and interleaving of make/destroy",
  "test/allocator.cpp makes and destroys one object at a time on one thread",
  ["rpp/alloc0.h", "rpp/alloc1.h"], [("free list", "rpp/alloc0.h Free_List"), ("mutex guarded pool", "rpp/alloc1.h Pool")],
  ["ownership table of live addresses", "canary contents", "ThreadSanitizer/AddressSanitizer"])

p("C12", "Range_Allocator hands out disjoint, aligned, complete ranges",
  "Ranges returned by Range_Allocator lie inside the managed space, are at least as large as requested, start at a multiple of the requested alignment and never overlap another live range; a request fails only when no free block found by its documented good-fit search can hold it, and always succeeds for the whole space when nothing is live. Freed neighbours coalesce, so freeing everything restores one block covering the whole space, and statistics always account for every byte. This holds under concurrent use and after the allocator object is moved.",
  ["histories", "inputs", "schedules"], "every history of (size, alignment) requests and frees in any order, by any threads",
  "test/range_allocator.cpp checks only that offsets are aligned and that statistics clear at the end for one space size; overlap, bounds, failure and coalescing are unchecked",
  ["rpp/range_allocator.h"], [("two level segregated fit bins", "rpp/range_allocator.h"), ("neighbour coalescing", "rpp/range_allocator.h free"), ("mutex", "rpp/range_allocator.h")],
  ["interval map of live ranges", "statistics()", "ThreadSanitizer/UBSan"])

p("C13", "Strings store and compare exact byte sequences",
  "String and String_View operations (construct, append, sub, view, clone, move, terminate, write, compare, order, split into file name/suffix/extension) give exactly the result defined on byte sequences of explicit length, including empty strings and strings containing NUL bytes. No operation reads or writes outside the string's bytes, and C-string output is NUL terminated. Equality and ordering are those of the byte sequences (unsigned lexicographic order). file_suffix is what follows the last separator, file_extension what follows the last dot or separator, remove_file_suffix everything up to and including the last separator.",
  ["inputs"], "all byte strings and all index arguments",
  "test/string.cpp checks eleven characters of one literal",
  ["rpp/string0.h", "rpp/string1.h", "rpp/impl/base.cpp"], [("length-based storage", "rpp/string0.h"), ("comparison", "rpp/string0.h operator==/<"), ("path helpers", "rpp/string0.h file_suffix/file_extension")],
  ["results against std::string", "AddressSanitizer with exact-size heap buffers"])

p("C14", "Formatting writes exactly the specified text",
  "format() replaces each % with the text of the next argument (%% gives one %) and returns exactly the text obtained by formatting each value by its documented shape, for scalars, strings, pointers-like owners, containers, records, enums and math types, nested arbitrarily. The measured size always equals the number of bytes written, so no byte is lost, duplicated, left over or written out of bounds. Integers print their exact decimal value, including extreme values. format_typename() names a type by composing the names of its parts (references, pointers, arrays, const and volatile, templates, functions).",
  ["inputs"], "all values of all formattable types and all format strings with matching argument counts",
  "test/format.cpp compares one fixed value per type",
  ["rpp/format.h", "rpp/format1.h"], [("Measure/Write pairs", "rpp/format.h and each container header"), ("argument substitution", "rpp/format.h")],
  ["returned string against an independent renderer", "AddressSanitizer on the exact-size output buffer"])

p("C15", "Parsing accepts exactly its grammar and round-trips",
  "parse_i64 and parse_f32 accept exactly what the C library's base-10 strtoll and strtof accept (leading white space, sign, saturation), return that value and the unconsumed remainder, and yield no result when nothing can be parsed. parse_string skips leading white space and yields the first maximal run of non-space bytes (of any length, never containing white space) and what follows its delimiter, or nothing if there is none; parse_enum yields the enumerator whose name is exactly that token and nothing otherwise; skip_whitespace drops exactly the leading white space. Formatting an integer or naming an enumerator and parsing it back gives the same value. Nothing outside the view is read, whatever bytes follow it.",
  ["inputs"], "all byte strings and all values of the parsable types",
  "no existing test calls the parse functions",
  ["rpp/format.h", "rpp/format1.h"], [("parse_i64/f32/string/enum", "rpp/format.h, rpp/format1.h")],
  ["result and remainder against a reference parser", "AddressSanitizer with unterminated exact-size buffers"])

p("C16", "Every log message is delivered once, whole, to every subscriber",
  "Each logging call delivers its message, level, thread and source location exactly once to every callback subscribed at that time and to the log output, as one uninterleaved record, whichever threads log concurrently; messages of one thread keep their order. After unsubscribe returns a callback is not called again, and subscribing or unsubscribing concurrently with logging loses or duplicates nothing for other subscribers. Scopes indent only messages of their own thread.",
  ["schedules", "histories"], "every interleaving of log calls, scopes, subscriptions and unsubscriptions by any threads",
  "tests subscribe once and log from at most a few threads whose output order is fixed by joins",
  ["rpp/log.h", "rpp/log_callback.h", "rpp/impl/log.cpp"], [("log lock", "rpp/impl/log.cpp"), ("callback table", "rpp/impl/log.cpp subscribe/unsubscribe")],
  ["callback arguments", "lines in stdout and debug.log", "ThreadSanitizer"])

p("C17", "Profile timings reflect exactly the executed trace scopes",
  "For every frame, the timing tree reported for a thread contains exactly the nesting of Trace scopes executed in that frame, each node's call count equals the number of times the scope was entered under that parent, self time plus children's time equals total time, and times are consistent with the clock readings around them. Recording is independent per thread, survives threads that start or end at any time, and finalisation works at any point.",
  ["histories", "schedules"], "every nesting/recursion/repetition pattern of scopes, frames and threads",
  "tests enter a few scopes but never read the recorded timings back",
  ["rpp/profile.h", "rpp/impl/profile.cpp"], [("frame profile enter/exit", "rpp/impl/profile.cpp"), ("per-thread registration", "rpp/impl/profile.cpp")],
  ["iterate_timings output against a mirrored call tree", "ThreadSanitizer/AddressSanitizer"])

p("C18", "Mutex, Cond, Flag and Atomic give exclusion, wake-ups and atomicity",
  "At most one thread is ever inside a Mutex (lock, try_lock, Lock guard), writes made before unlock are visible after the next lock, and try_lock fails exactly when the mutex is held. A thread waiting on a Cond or Flag always proceeds once signalled/broadcast, a Flag never unblocks before being signalled and then stays ready for all waiters. Atomic operations are linearizable: incr, decr, exchange, compare_and_swap and load return values consistent with one total order.",
  ["schedules"], "every interleaving of any number of threads",
  "test/thread.cpp locks an uncontended mutex",
  ["rpp/thread0.h", "rpp/pos/thread_pos.cpp"], [("pthread mutex/cond wrappers", "rpp/pos/thread_pos.cpp"), ("futex flag", "rpp/pos/thread_pos.cpp Flag"), ("atomics", "rpp/pos/thread_pos.cpp Atomic")],
  ["overlap counters inside critical sections", "linearizability checker over recorded atomic histories", "ThreadSanitizer", "hang watchdog"])

p("C19", "Spawned threads run once and futures deliver exactly their result",
  "A function passed to spawn or Thread runs exactly once on its own thread; block() on its Future returns only after it finished and yields exactly the value it returned, with all its writes visible, to the holder that takes it (a plain copyable value: to every holder); ready() never reports true early. Values filled into a Promise reach the waiting side exactly once. Joining or dropping threads and futures in any order leaks nothing, and captured state is destroyed exactly once. set_affinity confines exactly the calling thread to exactly the given core; setting a priority leaves it running.",
  ["schedules", "histories"], "every interleaving of spawn, block, ready, drop and thread exit",
  "test/thread.cpp spawns a handful of threads and blocks on them in order",
  ["rpp/thread.h", "rpp/pos/thread_pos.cpp"], [("promise flag", "rpp/thread.h Promise"), ("thread start/join", "rpp/thread.h Thread, spawn")],
  ["run counters per task", "value identity at block()", "registry of captured objects", "ThreadSanitizer"])

p("C20", "Coroutine tasks deliver their result once and free their frame once",
  "A Task runs its body exactly once, resumes its awaiter exactly once after it completed and delivers exactly the returned value, whether the awaiter suspends before or after completion and on whichever threads they run. done() and block() are true/return only after completion. Each coroutine frame and its locals are destroyed exactly once, when both the task handle is gone and the coroutine has finished or been dropped.",
  ["schedules", "histories", "programs"], "every shape of awaiting tasks and every interleaving of completion, awaiting, blocking and dropping",
  "test/coro.cpp covers six single-threaded shapes; races between completion and awaiting/dropping are left to chance in test/pool.cpp",
  ["rpp/async.h"], [("promise state word", "rpp/async.h Promise"), ("final awaiter continuation", "rpp/async.h")],
  ["per-task body/continuation counters", "registry of frame locals", "net allocations", "ThreadSanitizer/AddressSanitizer with injected delays"])

p("C21", "The async pool runs every scheduled job exactly once",
  "Every coroutine that suspends onto a Pool is resumed exactly once on one of the pool's worker threads, never inline on the caller, however many threads enqueue at once; dependent jobs complete and no job is lost: each runs once the jobs queued before it on its worker have finished or suspended. Work a job did before suspending is visible after it resumes. Destroying an idle pool joins all its workers without leaking.",
  ["schedules"], "every interleaving of enqueues, dequeues, sleeps and wake-ups for 1..n workers",
  "test/pool.cpp runs fork/join trees and checks only the sum; a lost wake-up or double resume appears only in rare interleavings",
  ["rpp/pool.h", "rpp/async.h"], [("per-worker queues and sleeping", "rpp/pool.h enqueue/do_work"), ("event thread", "rpp/pool.h do_events")],
  ["resume counter and thread id per suspension", "ThreadSanitizer", "hang watchdog", "net allocations"])

p("C22", "Events and timers wake their waiters exactly when they should",
  "An Event waits until it is signalled and stays consistent through signal/reset/try_wait; wait_any returns the index of an event that really is signalled and returns whenever at least one is. A coroutine awaiting an Event or Async::wait(ms) on a pool resumes exactly once, never before the event fired or the interval elapsed, and always eventually does, for any number of concurrent waiters and any interval including zero.",
  ["schedules", "inputs"], "every set of events/timers and every interleaving of signalling and waiting",
  "test/pool.cpp waits for one 100 ms timer and does not measure it",
  ["rpp/async.h", "rpp/pool.h", "rpp/asyncio.h", "rpp/pos/async_pos.cpp", "rpp/pos/asyncio_pos.cpp"], [("eventfd/poll", "rpp/pos/async_pos.cpp"), ("event thread hand-off", "rpp/pool.h"), ("timerfd", "rpp/pos/asyncio_pos.cpp")],
  ["monotonic clock around every await", "resume counters", "hang watchdog", "open descriptor count"])

p("C23", "File reads and writes are exact or reported as failed",
  "Files::write/Async::write followed by Files::read/Async::read of the same path returns exactly the bytes written, for any contents and size, replacing previous contents. An operation that could not be carried out completely (missing file, directory, no permission, full or limited device, short transfer) reports failure instead of success with wrong data. No operation leaks a descriptor or memory, and write-time queries and watchers reflect modifications (at the whole-second resolution they use).",
  ["inputs", "fault_sequences"], "all contents, sizes and paths, and every failure of an underlying system call",
  "tests only read one expectation file each; write is never exercised",
  ["rpp/files.h", "rpp/pos/files_pos.cpp", "rpp/asyncio.h", "rpp/pos/asyncio_pos.cpp"], [("whole-file read/write", "rpp/pos/files_pos.cpp"), ("pool file IO", "rpp/pos/asyncio_pos.cpp")],
  ["file contents compared with the bytes passed", "injected system-call faults", "open descriptor count", "AddressSanitizer"])

p("C24", "UDP sends and receives whole datagrams intact",
  "A datagram that fits a Packet, sent to an address a Udp is bound to, is received whole, with exactly its length and bytes and the sender's address, or not at all; a larger one is never reported as a whole Packet; recv reports nothing when nothing is pending and never writes outside the packet. Addresses built from text denote exactly that address and port whatever bytes follow the text; NUL-free text that is no IPv4 address stops the program. Each socket descriptor is closed exactly once across moves.",
  ["inputs", "histories"], "all datagram sizes and contents, all address texts, every history of socket moves",
  "test/net.cpp sends one five byte packet",
  ["rpp/net.h", "rpp/pos/net_pos.cpp"], [("sendto/recvfrom wrappers", "rpp/pos/net_pos.cpp"), ("address parsing", "rpp/pos/net_pos.cpp Address")],
  ["datagram payloads over loopback", "open descriptor count", "AddressSanitizer"])

p("C25", "Scalar math obeys its defining laws",
  "Integer helpers (min, max, clamp, pow, align, align_pow2, align_down, log2, popcount, ctlz, next/prev_pow2, abs, KB/MB/GB) equal their mathematical definitions for every in-range argument, and float helpers (floor, ceil, round, sqrt, sign, lerp, clamp, frac, smoothstep, trigonometry, radians/degrees) agree with the C library or their formula. None of them has undefined behaviour on arguments whose result is representable.",
  ["inputs"], "all arguments in the domain of each function",
  "no test calls these functions with boundary arguments",
  ["rpp/math.h", "rpp/impl/math.cpp", "rpp/limits.h"], [("bit tricks", "rpp/impl/math.cpp"), ("constexpr helpers", "rpp/math.h")],
  ["results against independent definitions", "UBSan"])

p("C26", "Vector and SIMD operations equal component-wise arithmetic",
  "Every F32x4 and Vect operation (arithmetic with vectors and scalars on either side, compound assignment, comparison, min, max, abs, floor, ceil, clamp, lerp, dot, cross, norm, unit, proj, conversion, hash, indexing, component views) gives, for every component, exactly the result of the scalar operation (within rounding for reductions), for every element type and dimension, SIMD or not, also when an operand is the vector itself or one of its components. Operations that are not assignments leave their operands unchanged.",
  ["inputs"], "all component values, all operations, dimensions 2, 3, 4 and larger, f32/i32/u32",
  "test/simd.cpp checks a few fixed F32x4 vectors; Vect operators are untested",
  ["rpp/simd.h", "rpp/impl/simd.cpp", "rpp/vmath.h"], [("SIMD implementations", "rpp/impl/simd.cpp"), ("Vect operators", "rpp/vmath.h")],
  ["component-wise comparison with scalar code", "operands re-read after the call", "UBSan"])

p("C27", "Matrices, quaternions and boxes satisfy their algebra",
  "Mat4 product, transpose, inverse, element-wise operations and application to points and directions satisfy the linear-algebra identities within rounding. rotate, translate, scale, look_at, ortho and proj map the defining points and directions where they must (look_at: eye to the origin, target to -z; proj: the near plane to depth 1, infinity to 0; ortho: its box to the canonical one); rotate_y_to turns +y and rotate_z_to turns the forward axis -z onto the given direction, by rotations. Unit quaternions compose like rotations, agree with their matrix, and invert; axis-angle and Euler conversions (x, then y, then z) round-trip as rotations. BBox encloses exactly the points added, transform gives the tight box of the images of its corners, and project bounds the perspective images of the corners in front of the viewer (everything when partly behind, nothing when fully behind).",
  ["inputs"], "all well-conditioned matrices, rotations, vectors and boxes",
  "test/vmath.cpp inverts one matrix and the identity",
  ["rpp/vmath.h", "rpp/impl/vmath.cpp"], [("SIMD inverse and product", "rpp/impl/vmath.cpp"), ("Quat algebra", "rpp/vmath.h Quat"), ("BBox", "rpp/vmath.h BBox")],
  ["residuals against double precision references"])

p("C28", "Random streams are deterministic and stay in range",
  "Two streams with the same seed produce the same sequence; range(a, b) always lies in [a, b) and reaches all of it, unit() lies in [0, 1) and spreads over it, coin_flip(p) is true with frequency p, and shuffle yields a permutation of its input with every arrangement possible. This holds for every integer and float type, including signed ranges and empty or one-element vectors.",
  ["inputs"], "all seeds, ranges, probabilities and vector lengths",
  "test/range_allocator.cpp only uses unsigned ranges and shuffle as a workload",
  ["rpp/rng.h"], [("hash-chained stream", "rpp/rng.h")],
  ["range membership of every draw", "frequency counts with wide bounds", "UBSan"])

p("C29", "Reflection visits every field and enumerator exactly once",
  "Iterating a reflected record visits each declared field exactly once, in declaration order, with its name and a reference to the actual field; enum reflection maps every enumerator to its name and back, and lists each exactly once; type names and type-list operations denote the declared types. Formatting, enum parsing and reflection agree on these names.",
  ["inputs", "programs"], "all reflected records, enums and type lists in the library and generated ones",
  "tests print a few records",
  ["rpp/reflect.h", "rpp/format.h", "rpp/format1.h"], [("RPP_RECORD/RPP_ENUM", "rpp/reflect.h"), ("iterate_record/iterate_enum", "rpp/reflect.h")],
  ["visited (name, address, value) lists against the declarations"])

p("C30", "Violated preconditions stop the program instead of corrupting it",
  "An out-of-range index into a Vec, Queue, Array, Slice, String, String_View or matrix, access to an empty container or owner (Opt, Box, Rc, Arc, Ref), a missing map key, a call of an empty Function, a bad slice or string range, a write past a string's end, an operation on an empty Task or Thread, a format string whose placeholders do not match its arguments or a mismatched region brand always reports a fatal message with its source location (to standard output, and to log subscribers unless it happens in one) and terminates the process before any invalid memory is touched, also from other threads and inside log callbacks. Operations whose preconditions hold never terminate the process.",
  ["inputs", "histories"], "every checked operation of every container and every violating argument",
  "no test provokes a failing precondition",
  ["rpp/log.h", "rpp/impl/log.cpp", "rpp/vec.h", "rpp/queue.h", "rpp/slice.h", "rpp/map.h", "rpp/opt.h", "rpp/variant.h", "rpp/box.h", "rpp/rc.h", "rpp/function.h", "rpp/string0.h", "rpp/impl/alloc.cpp"], [("assert/die", "rpp/log.h"), ("per-operation asserts", "container headers")],
  ["exit status and output of forked children", "AddressSanitizer silence before termination"])

p("C31", "Blocking operations survive signals and stop/continue",
  "A handled signal or a stop/continue delivered to a thread blocked in a Flag, Future, Event wait, pool worker, sleep or file/timer wait neither terminates the process nor makes the operation return early; it still completes when its condition is met. sleep(ms) never returns before ms milliseconds have passed.",
  ["fault_sequences", "schedules"], "every placement of signals during blocking calls",
  "no test delivers a signal",
  ["rpp/pos/thread_pos.cpp", "rpp/pos/async_pos.cpp", "rpp/pos/asyncio_pos.cpp", "rpp/pos/files_pos.cpp"], [("futex wait loop", "rpp/pos/thread_pos.cpp Flag::block"), ("poll", "rpp/pos/async_pos.cpp wait_any"), ("sleep", "rpp/pos/thread_pos.cpp sleep")],
  ["signal storms directed at blocked threads", "monotonic clock", "process survival"])

p("C32", "Compile-time traits and concepts classify types correctly",
  "The type traits and concepts (Same, Int, Float, Const, Reference, Constructable, Clone, Trivially_Copyable, Decay, Index_Of, If, type-list operations and the like) are true exactly for the types that have the named property.",
  ["programs"], "all C++ types", "only a few static_asserts exist",
  ["rpp/utility.h", "rpp/reflect.h"], [("template metaprogramming", "rpp/utility.h")], ["none at run time"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
import re
for e in P:
    assert len(e["title"]) <= 80, e["id"]
print(len(P))
