# Per-property check configuration used by run.py and tools/gen_manifest.py.
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=function,nonnull-attribute,null,pointer-overflow",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=trace-pc-guard"]
VARIANTS = {
    "asan": dict(flags=ASAN, scale=1.0),
    "asan_chaos": dict(flags=ASAN + COV, scale=1.0, chaos=True),
    "tsan": dict(flags=TSAN, scale=1.0),
    "tsan_chaos": dict(flags=TSAN + COV, scale=1.0, chaos=True),
    "plain": dict(flags=["-O2"], scale=1.0),
    "plain_chaos": dict(flags=["-O2"] + COV, scale=1.0, chaos=True),
}
WRAP_SETS = {
    "cpus": ["sysconf"],
    "io": ["read", "write", "close"],
    "net": ["close", "recvfrom"],
    "cond": ["pthread_cond_wait"],
    "epoll": ["epoll_create1"],
}
CHECKS = {
    "C01": dict(src="c01_seq.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with an element lifetime registry",
                note="Randomised operation histories compared after every step with a std::vector reference; assumes the sanitizers and the reference model."),
    "C02": dict(src="c02_queue.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with an element lifetime registry",
                note="Random histories plus every (capacity, offset, length, operation) corner up to capacity 9 compared with std::deque after every step; trusts the sanitizers and the reference."),
    "C03": dict(src="c03_heap.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with an element lifetime registry",
                note="Random histories, all permutations of small key sets and large drains compared with a multiset after every step; trusts the sanitizers and the reference."),
    "C04": dict(src="c04_map.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with adversarial hashes and a lifetime registry",
                note="Random histories under eight hash shapes, all small capacities and cluster erase orders, compared with std::map after every step; non-termination is caught by a confirmed time-out."),
    "C05": dict(src="c05_hash.cpp", variants=["asan"],
                technique="runtime monitoring of equality/hash coherence and collision statistics under ASan/UBSan",
                note="Observed keys only; the spread monitor uses generous statistical limits and requires no 64-bit collision among tens of thousands of structured keys."),
    "C06": dict(src="c06_owners.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with an element lifetime registry and a block-recording allocator",
                note="Random histories over several owners compared with a presence/value model; the counting allocator sees every block released exactly once."),
    "C07": dict(src="c07_variant.cpp", variants=["asan"],
                technique="model-based runtime monitoring under ASan/UBSan/LSan with an element lifetime registry",
                note="Random histories compared after every step with an (alternative, value) model; captures and alternatives of many sizes, alignments and triviality classes."),
    "C08": dict(src="c08_rc.cpp", variants=["asan_chaos", "tsan_chaos"],
                technique="model-based runtime monitoring under ASan/UBSan, and ThreadSanitizer with injected delays for concurrent release",
                note="Sequential histories compared with a handle model; concurrent dup/drop rounds observe destruction count and visibility on the interleavings that occurred, widened by injected delays."),
    "C09": dict(src="c09_alloc.cpp", variants=["asan", "tsan_chaos", "plain_chaos"],
                technique="runtime monitoring of allocation histories and finalisation reports against an exact ledger, under ASan/UBSan/LSan and ThreadSanitizer",
                note="Child processes leak known sets and their finalisation reports are compared with the ledger; concurrent phases are judged at quiescence."),
    "C10": dict(src="c10_region.cpp", variants=["asan", "tsan"],
                technique="runtime monitoring of nested region programs with pattern-filled blocks and an interval map, under ASan/UBSan and ThreadSanitizer",
                note="Random nesting, sizes and threads; brand violations run in child processes and must stop with a fatal message."),
    "C11": dict(src="c11_pool.cpp", variants=["asan", "tsan_chaos"],
                technique="runtime monitoring of block hand-outs (interval map, stamps, lifetime registry), under ASan/UBSan and ThreadSanitizer with injected delays",
                note="Random histories for fourteen block sizes and concurrent rounds with cross-thread frees; recycling and full return of memory are observed through a recording backing allocator and finalisation."),
    "C12": dict(src="c12_range.cpp", variants=["asan", "tsan_chaos"],
                technique="model-based runtime monitoring against an interval map under ASan/UBSan, and ThreadSanitizer with injected delays for concurrent use",
                note="Random (size, alignment, free order, move) histories over five bucket configurations and spaces of 1 byte to 2^64; grant/refusal is compared with an exact free-run model, and concurrent rounds stamp every granted cell."),
    "C13": dict(src="c13_string.cpp", variants=["asan"],
                technique="runtime monitoring against std::string under ASan/UBSan with exactly-sized buffers",
                note="Random, near-equal and all short byte strings (NUL, separators, high bytes) through every String/String_View operation; trusts the sanitizers and std::string."),
    "C14": dict(src=["c14_format.cpp", "c14_types1.cpp", "c14_types2.cpp", "c14_names.cpp"], variants=["asan"],
                technique="runtime monitoring of format() against an independent renderer under ASan/UBSan with exactly-sized output buffers",
                note="Random values (extremes, NaN/inf, NUL bytes, empty and nested containers) of about eighty type shapes and random format strings; trusts the sanitizers and the reference renderer."),
    "C15": dict(src="c15_parse.cpp", variants=["asan"],
                technique="runtime monitoring against reference parsers under ASan/UBSan with exactly-sized unterminated buffers",
                note="Random numeric and word-like texts, all short texts over a small alphabet, and round trips; trusts the C library's strtof for float values."),
    "C16": dict(src="c16_log.cpp", variants=["asan", "tsan_chaos"],
                technique="runtime monitoring of recorded delivery histories and of both log outputs, under ASan/UBSan and ThreadSanitizer with injected delays",
                note="Logical-time intervals decide which messages each subscriber must, may and must not receive; both outputs are compared byte for byte."),
    "C17": dict(src="c17_profile.cpp", variants=["asan", "tsan_chaos"],
                technique="runtime monitoring of reported timing trees against recorded scope programs bracketed by clock readings, under ASan/UBSan and ThreadSanitizer with injected delays",
                note="Random nesting, repetition, names and thread lifetimes; concurrent samplers check self-consistency; exit paths run in child processes."),
    "C18": dict(src="c18_sync.cpp", variants=["plain_chaos", "tsan_chaos"],
                technique="contention monitors (owner word, wake-up accounting, Wing-Gong linearizability check of recorded histories) with ThreadSanitizer and injected delays",
                note="Observed interleavings only; spurious futex wake-ups are injected at the flag's address; sequential consistency is probed by a store-buffering litmus test on the host CPU."),
    "C19": dict(src="c19_spawn.cpp", variants=["asan_chaos", "tsan_chaos"],
                technique="runtime monitoring of spawned work (run counters, readiness gates, lifetime registry, plain payloads) under ASan/UBSan/LSan and ThreadSanitizer with injected delays",
                note="Random result types, captures, hand-offs and drop orders; futures of non-trivial type are taken by one holder, as the library moves the value out."),
    "C20": dict(src="c20_task.cpp", variants=["asan_chaos", "tsan_chaos"],
                technique="runtime monitoring of coroutine bodies, resumptions, frames and locals under ASan/UBSan/LSan and ThreadSanitizer with injected delays",
                note="Random task trees on one or several executor threads and directed two-thread races of completion with await, block, done and drop; frames come from a counting allocator."),
    "C21": dict(src="c21_apool.cpp", variants=["asan_chaos", "tsan_chaos"], wrap=["cpus", "cond"],
                technique="runtime monitoring of suspensions as exactly-once tickets with worker-identity and visibility checks, under ASan/UBSan/LSan and ThreadSanitizer with injected delays",
                note="Random fork/join trees, bursts from up to ten threads, deep backlogs behind held workers (run in each worker's order), spurious condition-variable wake-ups, hops between pools, idle wake-ups and teardown with queued jobs; one to eight hardware threads via a wrapped sysconf. Jobs do not block on one another."),
    "C22": dict(src="c22_event.cpp", variants=["asan_chaos", "tsan_chaos"], wrap=["epoll"],
                technique="runtime monitoring of event histories against a model and of crowds of pool waiters (early, lost, repeated resumption; descriptors) under ASan/UBSan/LSan and ThreadSanitizer with injected delays",
                note="Intervals from 0 to 3 s and up to 220 concurrent waiters; lateness is not judged, only loss (30 s deadline) and earliness."),
    "C23": dict(src="c23_files.cpp", variants=["asan", "tsan"], wrap=["io"],
                technique="runtime monitoring of file contents, results and descriptors under injected short, failing and interrupted transfers and resource limits, with ASan/UBSan/LSan and ThreadSanitizer",
                note="Scratch files only; refused paths, /dev/full, RLIMIT_FSIZE, RLIMIT_NOFILE and dropped privileges in child processes; times at whole-second resolution."),
    "C24": dict(src="c24_udp.cpp", variants=["asan", "tsan"], wrap=["net"],
                technique="runtime monitoring of datagrams, senders, addresses and descriptors over loopback against plain sockets, with failing receives, under ASan/UBSan/LSan and ThreadSanitizer",
                note="Loopback only, at most 24 pending datagrams where loss is judged; datagrams larger than a packet must not be reported as whole ones."),
    "C25": dict(src="c25_math.cpp", variants=["asan", "plain"],
                technique="runtime monitoring of results against independent definitions (128-bit integers, extended floats) under UBSan, and at full optimisation",
                note="All pairs of 8-bit integers, all values to 70000 and powers of two +-2 for bit tricks, random values of every magnitude elsewhere; float results within 3-4 ulp of the extended-precision value. Arguments whose result is not representable are outside the property."),
    "C26": dict(src="c26_vect.cpp", variants=["asan", "plain"],
                technique="runtime monitoring of every vector operation against scalar arithmetic, component by component, with operands re-read, under ASan/UBSan and at full optimisation",
                note="Random and corner components for f32, f64, i32, i64, u32, u64, u8 in dimensions 2 to 9; integers stay where sums and products are representable; reductions within 8 epsilon of the sum of magnitudes."),
    "C27": dict(src="c27_algebra.cpp", variants=["asan", "plain"],
                technique="runtime monitoring of results against double precision linear algebra, under ASan/UBSan and at full optimisation",
                note="Random and axis-aligned matrices, rotations, boxes; inverses of matrices with element condition below 60; Euler angles judged as rotations and not within 0.2 degrees of gimbal lock except exactly at it. The depth row of Mat4::ortho is a recorded finding."),
    "C28": dict(src="c28_rng.cpp", variants=["asan", "plain"],
                technique="runtime monitoring of every draw (membership, reach, frequency beyond 7 sigma, determinism) and of shuffles with an element lifetime registry, under ASan/UBSan",
                note="Frequencies are judged with limits that a fair stream exceeds with probability below 1e-9 per run; ranges are non-empty."),
    "C29": dict(src=[f"c29_part{k}.cpp" for k in range(7)], variants=["asan"], gen="gen_refl.py",
                technique="runtime monitoring of visited (name, address, type, value) sequences of generated records, enums and type lists against what the generator declared, under ASan/UBSan",
                note="Each seed compiles a different program of records (inheritance, templates, alignment, unreflected fields), enums over every underlying type and type lists; plus the library's own reflected types."),
    "C30": dict(src="c30_failstop.cpp", variants=["asan"], asan_options="quarantine_size_mb=4:",
                technique="runtime monitoring of forked children making violating calls over random states (message, location, subscribers, termination, sanitizer silence) and of the same calls inside their preconditions, under ASan/UBSan",
                note="Random containers and hostile indices (past the end, inside the capacity, wrap-around values), empty and moved-from owners, missing keys, with SIGTRAP default, ignored, handled and blocked. Vect and Quat indexing is unchecked by design and outside the property."),
    "C31": dict(src="c31_signals.cpp", variants=["asan_chaos", "plain"],
                technique="runtime monitoring of blocked waiters (early or lost returns, monotonic clock, results) under signal storms and stop/continue, with ASan/UBSan and injected delays",
                note="Storms of SIGUSR1/SIGUSR2 (with and without SA_RESTART) at every thread plus SIGSTOP/SIGCONT from a helper process; lateness is not judged, only loss (40 s deadline) and earliness."),
}
NOT_APPLICABLE = {
    "C32": "Compile-time only: traits and concepts are evaluated by the compiler and leave nothing to observe in an execution, so run-time monitoring and sanitizers cannot decide them.",
}
