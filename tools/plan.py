"""What each check runs, and how it is described (source of MANIFEST.json: python3 tools/manifest.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLE = {}
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    for line in f:
        d = json.loads(line)
        TITLE[d["id"]] = d["title"]


def native(quick=10.0, thorough=1.0, cap=1500, wcap=240, extra=None, x32=1.0, x32_args=[]):
    """The checked and the release build, and a 32-bit one, with different random cases."""
    def legs(tier):
        if tier == "quick":
            a = ["--scale", str(quick), "--wcap", "25"]
            c = 150
        else:
            a = ["--scale", str(thorough), "--wcap", str(wcap)]
            c = cap
        b = ["--scale", str((quick if tier == "quick" else thorough) * x32), "--wcap", "12" if tier == "quick" else str(wcap)] + x32_args
        r = [dict(leg="chk", args=a, cap=c), dict(leg="rel", args=a, cap=c), dict(leg="x32", name="x32 (native 32-bit, checked)", args=b, cap=c)]
        return r + (extra(tier) if extra else [])
    return legs


NOTE = ("Held on the executions the run produced, in the build modes listed; nothing is claimed of inputs it did not generate. "
        "Boundary-biased random generation from VERIF_SEED plus the enumerations named in the evidence. ")
PROPS = {}


def prop(id, technique, rule, legs=None, level="exploration", note="", **kw):
    PROPS[id] = dict(technique=technique, rule=rule, legs=legs or native(), level=level, note=NOTE + note, **kw)


prop("C01", "online reference-model monitor (list of booleans in lock step), checked and release builds",
     "Histories of constructor, push, pop, block push, padding, set, resize, truncate, clear, reserve, shrink, clone over five block types, "
     "compared bit by bit with a list of booleans after every step; all short histories from boundary lengths are enumerated, and lengths beyond 2^32 are driven. "
     "Non-trivial: the history made at least one change to a non-empty vector.")
prop("C02", "online reference-model monitor (list of integers in lock step), checked and release builds",
     "Histories over every width and five block types compared with a list of integers after every step, every element and bit field re-read. "
     "Non-trivial: some element was stored.")
prop("C03", "online monitor relating pairs of histories with equal or different contents",
     "Pairs and triples of vectors with the same or nearly the same contents made by different histories; equality, order, hash, trailing bits, clone independence. "
     "Non-trivial: the contents are non-empty.")
prop("C04", "online cross-granularity monitor against a list of booleans, for every implementor",
     "For each kind of bit vector (words, vectors, slices, boxed slices, packed vectors, windows, buffers, user types) fields and blocks at all boundary offsets "
     "read and written and compared with a list of booleans. Non-trivial: non-empty vector.")
prop("C05", "online shadow-window monitor over nested slices",
     "Windows of every base kind by every range kind nested to several depths, read at every granularity and written through, base compared bit by bit. "
     "Non-trivial: the window is non-empty.")


prop("C06", "fault-injection monitor: refused requests checked against snapshots, in checked, release and 32-bit builds",
     "Requests outside the structure (one past the end, inside the trailing block, wrapping sums and products, largest integers) to every read, write, slice, "
     "rank and block operation of every kind of structure; each must panic and leave a full snapshot unchanged; impossible sizes are tried in child processes; "
     "on a 32-bit target, positions whose truncation to 32 bits would be inside. Non-trivial: the structure has elements.",
     legs=native(x32=0.2))
prop("C07", "online reference monitor: rank against counted prefixes",
     "Vectors of boundary lengths and densities over every store and block type; rank at every position (or boundary-biased positions of long ones) against a running count, "
     "up to beyond 2^32 bits. Non-trivial: the vector has both zeros and ones.")
prop("C08", "online reference monitor: select against enumerated occurrences, inverse law with rank",
     "Every k up to the count plus boundary and largest values, on every rank structure including user-made and lazily computed ones of 2^63 bits. "
     "Non-trivial: the symbol occurs.")
prop("C09", "instrumented environment: counting stores, counting allocator, executed-edge counts (SanitizerCoverage)",
     "Reads of the underlying store, rank calls, allocations and executed edges per query, on short, long and 2^60-bit vectors; growth against the short vector is bounded. "
     "Non-trivial: the vector has more than one block.",
     legs=native(extra=lambda tier: [dict(leg=l, name=n, args=["--scale", ("1" if l == "steps" else "0.5") if tier == "quick" else "10", "--wcap", "120"], cap=400)
                                     for l, n in (("steps", "steps (edges counted)"), ("stepschk", "steps in a checked build"))]))
prop("C10", "online reference monitor: per-byte and per-bit definitions",
     "Words built from boundary bytes, sparse, dense and random patterns; every byte pair for the comparisons; every r for select plus large r. Non-trivial: every case.")
prop("C11", "round-trip monitor on an event-recording bit stream",
     "Sequences of values biased to code boundaries and powers of two under mixes of every code; each decode must give back the value and consume exactly what its encode wrote; "
     "values a code cannot represent must be refused. Non-trivial: at least one value was written.")
prop("C12", "online monitor of decoders on arbitrary bits against independent definitions of the codes",
     "All short bit strings, random strings, mutated code words, overlong and truncated numbers, endless sources; result class, value and bits consumed judged against an independent decoder. "
     "Non-trivial: the string is non-empty.")
prop("C13", "online monitor of encoders against independently written code definitions",
     "Every small value, all powers of two and their neighbours, Fibonacci numbers, largest values; the bits written compared with an independent definition and published tables. "
     "Non-trivial: the value is not zero.")
prop("C14", "fault injection at every I/O step with a recording stream monitor", level="fault_enumeration",
     rule="For each operation a fault-free run is recorded, then a fault of each kind is injected at every (short runs) or a chosen I/O step; the error must surface unchanged, no I/O may follow, "
     "the written prefix must match; byte streams give short and interrupted transfers. Non-trivial: the fault was reached.")
prop("C15", "online reference-model monitor (file-like cursor)",
     "Sequences of seeks, bit and integer reads and writes, direct accesses; position and contents compared with a cursor over a list of booleans after each step. Non-trivial: the buffer was non-empty at some point.")
prop("C16", "online reference monitor on an event-recording bit stream, both bit orders",
     "All integer types, all counts, boundary values; bits written, bits consumed, partial reads. Non-trivial: the count is not zero.")
prop("C17", "differential monitor against the standard slice iterator under arbitrary call orders",
     "Interleavings of all iterator calls on both kinds of iterator and on slice::Iter; short ones enumerated. Non-trivial: the sequence is non-empty.")
prop("C18", "instrumented allocator: reported bytes against bytes really allocated",
     "Histories of each structure and nested containers; heap bytes reported compared with live bytes in the counting allocator, which sees every allocation. Non-trivial: some heap memory is owned.")
prop("C19", "instrumented allocator and reference model: capacity promises",
     "Histories mixing capacity requests with edits; capacities, reallocation counts and contents monitored. Non-trivial: some storage was allocated.")
prop("C20", "recording byte stream monitor against arithmetic byte order",
     "All block types, both orders, boundary and random values and mixed sequences; a byte-swapped user implementation checks the order is really taken from the argument. Non-trivial: the value is not zero.")
prop("C21", "online reference monitor: 128-bit arithmetic definitions",
     "All masks, shifts and logarithms exhaustively by width; boundary and random arguments for the rest, up to the largest. Non-trivial: every case.")
prop("C25", "instrumented allocator and block counts against documented space",
     "Vectors made, filled, resized, shrunk at every width; rank indexes up to 2^32 bits; blocks owned and bytes allocated against the documented bound. Non-trivial: non-empty.")
prop("C26", "online reference monitor: printed forms rendered independently",
     "All lengths around block boundaries, all widths and block types, every formatting flag. Non-trivial: non-empty.")
prop("C27", "differential monitor: wrapped and unwrapped structure observed side by side",
     "Stacks of rank, select, buffer and adapter layers over every store; every answer compared with the wrapped structure, with reads, writes and conversions through the layers. Non-trivial: non-empty.", legs=native(x32=0.2, x32_args=["--skip", "short"]))

prop("C28", "instrumented environment: executed-edge counts (SanitizerCoverage), counting stores and allocator, short structure against long",
     "Every access, cursor, iterator and end operation on a short and a long structure of the same kind: executed edges, store reads and allocations; whole-structure operations and codes per element or bit. "
     "Non-trivial: every case.",
     legs=lambda tier: [dict(leg=l, name=n, args=["--scale", "4" if tier == "quick" else "1", "--wcap", "15" if tier == "quick" else "200"], cap=400 if tier == "quick" else 1500)
                        for l, n in (("steps", "steps (edges counted)"), ("stepschk", "steps in a checked build"))] + native(quick=4.0)(tier))
prop("C29", "fault injection: user code panics at a chosen use; panic payload, contents, position and later behaviour monitored", level="exploration",
     rule="Operations on user stores, streams, codes, readers, writers, formatters and hashers with a panic injected at a chosen use, before or after its effect; the same payload must come out, "
     "contents outside the addressed bits unchanged, nothing leaked, and the structures used normally afterwards. Non-trivial: a panic was injected.",
     legs=native(quick=25.0, x32=0.3))


def c22_legs(tier):
    q = tier == "quick"
    mem = ["--mem"]
    r = [dict(leg="chk", name="std UB checks, overflow checks, leak check", cap=300 if q else 1200,
              args=mem + ["--scale", "0.1" if q else "1", "--sample", "--wcap", "10" if q else "60"]),
         dict(leg="asan", name="AddressSanitizer, LeakSanitizer", cap=300 if q else 2400,
              args=mem + ["--scale", "0.05" if q else "1", "--sample", "--no-serial", "--no-signals", "--wcap", "4" if q else "60"])]
    r.append(dict(leg="msan", name="MemorySanitizer (standard library instrumented)", cap=300 if q else 2400,
                  args=mem + ["--junk", "256", "--scale", "0.05" if q else "0.5", "--sample", "--no-serial", "--no-signals", "--wcap", "4" if q else "40"]))
    r.append(dict(leg="x32", name="32-bit: std UB checks, leak check", cap=300 if q else 1200,
                  args=mem + ["--scale", "0.05" if q else "0.5", "--sample", "--no-serial", "--skip", "c06.kinds", "--wcap", "4" if q else "60"]))
    # the same run over fresh memory filled with different bytes
    for b, t in (("c22", "c22.bulk,c22.spare"), ("c24", "")):
        for junk in ("0", "90", "255"):
            r.append(dict(leg="chk" if b == "c22" else "rel", bin=b, cmp="junk " + b, same_seed=True, cap=300, name="%s, fresh memory holds %s" % (b, junk),
                          args=["--digests", "--junk", junk, "--scale", "1" if q else "10", "--wcap", "1e9"] + (["--take", t] if t else [])))
    take = ["c22.storm", "c22.storm", "c22.storm,c14.block_", "c22.noise,c20.random,c22.storm", "c22.liars,c22.spare", "c22.ranked,c22.bulk", "c17.random,c15.kinds,c21.random",
            "c22.storm,c20.random"]
    if not q:
        take[3] = "c22.noise,c20.random,c16,c11.mixed,c12.around,c13.edges"
        take[6] = "c17.random,c15.kinds,c21.random,c18,c19,c26,c03.ints"
        take[5] = "c22.ranked,c27,c05.bases,c08.small,c07.small"
    for i, t in enumerate(take):
        w = (40 if q else 900) / (t.count(",") + 1)
        if not q:
            w = max(w, 120)
        r.append(dict(leg="miri", par=True, k=200 + i, name="Miri %d (%s)" % (i, t), cap=170 if q else 2400,
                      args=mem + ["--threads", "1", "--no-serial", "--no-signals", "--take", t, "--wcap", "%.0f" % w]))
    return r


prop("C22", "AddressSanitizer, LeakSanitizer, Miri, std UB checks, leak accounting (MemorySanitizer in thorough)",
     "Storms of valid and refused calls on every structure, user types that lie about their contents, arbitrary streams, and every other workload of this framework; "
     "only memory errors, undefined behaviour and leaks are judged. Non-trivial: as the workload says.",
     legs=c22_legs,
     assumptions=["the sanitizers see accesses outside red zones and live allocations, not every undefined behaviour; Miri sees more on far fewer executions"])


def c23_legs(tier):
    q = tier == "quick"
    one = ["--threads", "1"]
    r = [dict(leg="chk", cap=300, args=one + ["--scale", "0.5" if q else "1", "--wcap", "10" if q else "120"]),
         dict(leg="rel", cap=300, args=one + ["--scale", "0.5" if q else "1", "--wcap", "10" if q else "120"]),
         dict(leg="tsan", name="ThreadSanitizer (standard library instrumented)", cap=300 if q else 1500,
              args=one + ["--no-signals", "--scale", "0.5" if q else "1", "--wcap", "12" if q else "300"])]
    if not q:
        r.append(dict(leg="tsan", bin="c22", name="ThreadSanitizer, every other workload on 8 threads", cap=2400,
                      args=["--mem", "--scale", "0.1", "--sample", "--no-serial", "--no-signals", "--wcap", "20"]))
    for i in range(8):
        rate = [0.01, 0.05, 0.2, 0.5][i % 4]
        r.append(dict(leg="miri", par=True, k=300 + i, name="Miri %d (preemption rate %s)" % (i, rate), cap=150 if q else 1500,
                      miriflags="-Zmiri-preemption-rate=%s -Zmiri-seed=%d" % (rate, i),
                      args=one + ["--no-signals", "--take", "markers,readers" if i < 5 else "separate,handover,pipeline,hot,aftermath,nested",
                                  "--wcap", ("25" if i < 5 else "8") if q else ("900" if i < 5 else "300")]))
    return r


prop("C23", "ThreadSanitizer and Miri race detection with a concurrent-answers monitor and injected delays",
     "Structures of every kind queried by 2 to 5 threads at once (boundary and shared hot positions, refused requests, stores that yield inside the library's calls), each answer compared with the "
     "sequential oracle; structures handed between threads; threads on separate structures compared with the same work alone; marker traits probed. "
     "Non-trivial: some query began while another thread's was under way. Distinct: by input and by the interleaving observed.",
     legs=c23_legs)


def c24_legs(tier):
    q = tier == "quick"
    common = ["--digests"]
    s = ["--scale", "1" if q else "0.4"]
    big = ["--scale", "5" if q else "1"]
    r = [dict(leg=x, cmp="builds", same_seed=True, cap=400, args=common + big, name=n) for x, n in
         [("chk", "overflow checks and debug assertions"), ("rel", "neither"), ("relchk", "overflow checks only"), ("dbgwrap", "debug assertions only, unoptimized")]]
    r += [dict(leg=x, cmp="builds", same_seed=True, cap=400, args=common + s, name=n) for x, n in
          [("x32", "32-bit, overflow checks and debug assertions"), ("x32rel", "32-bit, neither")]]
    legs = [("miribe", "64-bit big-endian")] * 8
    if not q:
        legs = [("miribe", "64-bit big-endian")] * 4 + [("miri32be", "32-bit big-endian")] * 4
    count = {x: sum(1 for l in legs if l[0] == x) for x, _ in legs}
    nth = {}
    for x, n in legs:
        i = nth.get(x, 0)
        nth[x] = i + 1
        r.append(dict(leg=x, cmp="builds", same_seed=True, par=True, cap=200 if q else 2400, name="%s (Miri %s) %d" % (n, x, i),
                      args=common + s + ["--threads", "1", "--no-signals", "--stride", "%d/%d" % (i, count[x]), "--wcap", "4" if q else "170"]))
    return r


prop("C24", "cross-build and cross-target comparison of recorded results (four build modes; native 32-bit; Miri for big-endian)",
     "Histories, windows, rank and select, codes, buffers, iterators, block I/O and word operations, valid and refused, on fixed-size blocks; every result, error kind and refusal is recorded "
     "and the records of the same case are compared between builds and targets. Non-trivial: every case.",
     legs=c24_legs)
