#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["public API"], hook_needed=hook)))

VB="src/internal/vector_base.rs"; BV="src/bit_vec/bit_vector.rs"; IV="src/int_vec/int_vector.rs"
TR="src/bit_vec/traits.rs"; SL="src/bit_vec/bit_slice.rs"; PR="src/bit_vec/prim.rs"; ST="src/storage.rs"
JA="src/rank/jacobson.rs"; R9="src/rank/rank9.rs"; RP="src/rank/prim.rs"; BS="src/select/bin_search.rs"
BW="src/broadword.rs"; SE="src/internal/search.rs"; STR="src/stream/traits.rs"; BB="src/stream/bit_buffer.rs"
SU="src/space_usage.rs"; MA="src/macros.rs"
COD=["src/coding/unary.rs","src/coding/elias.rs","src/coding/fib.rs","src/coding/comma.rs","src/coding/trans.rs"]

p("C01","A bit vector behaves as a plain sequence of bits under every history",
  "After any sequence of construction, push, pop, block push, padding, set, resize, truncate, clear, reserve, shrink and clone operations, for every block type, a bit vector's length, block count and every one of its bits are exactly those of a plain list of booleans put through the same sequence. Growing fills only the new positions with the requested value, shrinking forgets the dropped bits for good, and a pop returns the last bit.",
  ["histories","inputs"],"all operation histories and all block types (u8, u16, u32, u64, usize, and types of a user's own up to 128 bits), all lengths including block boundaries and lengths beyond 2^32 bits",
  "The tests run about a dozen fixed scripts on u8/u32/usize blocks; interactions such as shrink-then-grow inside a partial block, or pop across a block boundary followed by a block resize, need quantification over histories and block types.",
  [BV,VB,TR],[("push/pop/resize/truncate on the packed store",VB),("resize and block_resize wrappers",BV),("default push_block/align_block",TR)],
  [dict(name="len",meaning="number of live bits",where=VB),dict(name="vec",meaning="packed blocks, all in use",where=VB)])
p("C02","An integer vector behaves as a plain sequence of k-bit integers",
  "For every element width from 1 to the block width and every block type, after any sequence of construction, push, pop, set, resize, block resize, truncate, clear, reserve, shrink and clone operations, the length and every element are those of a plain list of integers put through the same sequence; writing one element never changes another. Reading or writing at an arbitrary in-range bit offset and width sees and changes exactly the bits of the elements laid end to end.",
  ["histories","inputs"],"all histories, all block types (built in or a user's own, up to 128 bits), all widths 1..=block width, all in-range values and indices including bit addresses beyond 2^32",
  "The tests use four widths (4, 5, 7, 13) with a handful of values; an error confined to a width, an alignment of an element across blocks, or an order of operations escapes them.",
  [IV,VB,ST],[("address computation and element straddling",IV),("get_bits/set_bits on packed store",VB),("with_bits/get_bits masks",ST)],
  [dict(name="element_bits",meaning="width k",where=IV)])
p("C03","Equality, ordering and hash depend only on contents, never on history",
  "Two bit vectors, or two integer vectors of equal width, with the same elements compare equal, hash equally and order as equal whatever different histories produced them; vectors with different elements are unequal and their order is a consistent total order. The unused bits of the last block always read as zero, and a clone equals its original and is independent of it.",
  ["histories"],"all pairs of histories that end in the same (or in different) contents, all block types and widths",
  "Only one two-step example (push/pop then compare) is tested; residue left by any other operation in the unused tail breaks equality only for particular histories.",
  [VB,BV,IV],[("extra bits are cleared after each length change",VB),("derived Eq/Ord/Hash",VB)],
  [dict(name="extra bits",meaning="bits of the last block beyond the length, invariant: zero",where=VB)])
p("C04","Bit, bit-field and block access agree for every bit-vector type",
  "For every type usable as a bit vector (primitive words, vectors and slices of words, vectors of booleans, bit and integer vectors, bit slices, bit buffers, user types supplying only the required methods) reading single bits, fields of up to one block of bits at any offset, and whole blocks give one consistent sequence of bits, least significant bit first. Writing a bit, a field or a block changes exactly the addressed in-range bits and no others, and pushing bits or blocks appends exactly those bits after any padding.",
  ["inputs","configurations"],"all implementors, all offsets and field widths including block-straddling fields, empty fields and partial last blocks, all contents",
  "Tests touch a few offsets on BitVector and IntVector; provided trait methods and most implementors (slices, prims, Vec<bool>, user types) have no test at all.",
  [TR,PR,SL,BV,IV,BB,ST],[("default get_bits/set_bits/get_block/set_block",TR),("per-type overrides",PR),("block masks",ST)])
p("C05","A bit slice is a faithful window onto its base",
  "A slice of any bit vector, made from any kind of range and nested any number of times, has the length of its range and shows exactly the base's bits in that range at every access granularity, including a partial last block. Writing through a mutable slice changes exactly the corresponding base bits and nothing outside the window.",
  ["inputs","histories"],"all bases, ranges, nesting depths, offsets and write sequences",
  "The slice module has no unit test beyond a doc example for ranges; off-by-one window arithmetic appears only for particular starts, lengths and nestings.",
  [SL],[("offset translation and bounds checks",SL)],
  [dict(name="start,len",meaning="window into the base",where=SL)])
p("C06","Out-of-range requests are refused and change nothing",
  "Every read, write, slice, rank or block access at a position, field or block outside the structure panics rather than returning or storing anything, in builds with and without overflow checks, even when the arithmetic on the request would wrap around; sizes too large to represent panic or abort and never yield a smaller structure. A refused request, or one with a value too wide for its element, leaves every other stored bit, the length and later behaviour unchanged.",
  ["inputs","configurations"],"all out-of-range positions, spans, counts and sizes (one past the end, inside the trailing block, wrapping products and sums, the maximum integers) for every type, in both build modes",
  "About ten should_panic tests use one small index each in debug builds only; release-mode wrap-around and the unused tail of the last block are never probed.",
  [TR,PR,SL,VB,BV,IV,ST,JA,R9,RP,BW,BB],[("assertions on positions and spans",TR),("checked address computation",IV),("checked size computation",ST)])
p("C07","Rank counts exactly, at every position of every bit vector",
  "For any bit vector of any length, including empty ones and beyond 2^32 bits, rank of one (zero) at position p is the number of ones (zeros) at positions 0 through p, for the Jacobson structure over every block type, the rank9 structure, primitive words and broadword words. The general form agrees with the specialised forms and the reported limit is the number of bits.",
  ["inputs","configurations"],"all contents, lengths and positions; every rank structure, block type and backing store, including stores whose last block carries bits that are not part of the vector",
  "Two repeating 1024-word patterns are tested at a dozen positions; superblock sizes depend on lg² n, so boundary errors show only at particular lengths, densities and positions.",
  [JA,R9,RP,BW,"src/rank/traits.rs"],[("two-level counts",JA),("level1/level2 packed counts",R9),("masked popcount",RP)],
  [dict(name="large/small block ranks",meaning="cumulative counts",where=JA),dict(name="Rank9Cell",meaning="cumulative and 9-bit relative counts",where=R9)])
p("C08","Select finds exactly the k-th occurrence, or reports that there is none",
  "For every rank structure, select of k for ones, zeros or any symbol returns the position of the k-th (counting from zero) occurrence, and nothing exactly when there are k or fewer occurrences, for every k up to the largest integer. Select and rank are inverse: the symbol at the returned position is the requested one and its rank there is k+1.",
  ["inputs","configurations"],"all contents, symbols and k (including k past the end and the largest integer), over Jacobson, rank9, primitive, broadword and user-defined rank supports with limits up to 2^64-1",
  "Three repeating patterns at about twenty ks, ones only: select of zeros and of general symbols is not tested at all.",
  [BS,SE,BW],[("binary search over rank",BS),("binary_search_function",SE),("broadword select1",BW)])
p("C09","Queries stay constant-time (rank) and logarithmic (select)",
  "A rank query reads the underlying bit vector a small constant number of times and executes a bounded number of instructions however long the vector is; a select query makes at most a constant multiple of log2(length) rank queries. Building a rank structure reads each block a constant number of times, and queries allocate no memory.",
  ["inputs"],"all lengths, contents and query positions",
  "Tests compare results only; a query that scans gives the same results, so no test can notice.",
  [JA,R9,BS,SE],[("precomputed counts",JA),("precomputed counts",R9),("bisection",SE)],observe=["calls to a counting bit vector and rank support","allocator","instruction counts under valgrind"])
p("C10","Broadword operations equal their per-byte and per-bit definitions",
  "For all words and arguments, broadword population count equals the number of one bits, broadword select returns the position of the r-th one bit or reports absence for every r, and the parallel byte comparisons set the high bit of exactly those bytes where the signed or unsigned comparison, or the non-zero test, holds.",
  ["inputs"],"all 64-bit words and all r (including r of 64 and above)",
  "QuickCheck samples 100 words and only r up to 64; the signed comparison's randomized test is commented out.",
  [BW],[("Vigna's broadword algorithms",BW)])
p("C11","Encoding then decoding returns the same values and consumes exactly their bits",
  "For every universal code and every value it accepts, writing any sequence of values with any mix of codes to any bit sink and reading it back with the same codes returns the same values, each decode consuming exactly the bits its encode produced, and then reports a benign end. A value a code cannot represent is refused with an error or panic and never written as something else.",
  ["inputs","histories"],"all codes (unary, gamma, delta, omega, Fibonacci, comma with 2 to 63 bits, zero-lifted and custom-header combinations), all 64-bit values, all sequences, all sinks",
  "QuickCheck runs 100 short vectors of small values per code on one in-memory queue; large values, mixed streams, lifted codes and out-of-domain values are not covered.",
  COD+[STR],[("encode/decode pairs",COD[1]),("Zeckendorf greedy encoding",COD[2]),("digit stack",COD[3])])
p("C12","Decoding arbitrary bits never panics, hangs or invents a value",
  "Decoding any bit string with any code ends after reading no more than is available, without a panic, in a value, a clean end or an error. A value is returned only if it is what the consumed bits denote; a clean end only if no bit was consumed; a code word cut short gives an unexpected-end error; and a number too large for 64 bits gives an error.",
  ["inputs"],"all finite bit strings: random, exhaustive short, mutated and truncated code words",
  "Tests decode only what they encoded; malformed, truncated or oversized input is never presented.",
  COD+["src/internal/errors.rs",STR],[("out_of_bits and too_many_bits errors","src/internal/errors.rs"),("end-of-file tracking",COD[2])])
p("C13","Every code writes its published code words",
  "The bits written for a value are fixed by the code's definition: unary is n zeros and a one; gamma and delta write the bit count with their header code followed by the low bits, least significant first; omega, Fibonacci and comma write the standard words. The same value always yields the same bits, so data written by one release can be read by another.",
  ["inputs"],"all codes and all values in their domain",
  "Round-trip tests pass for any self-consistent change of format; no test compares the bits written.",
  COD+[STR],[("encode",COD[1]),("write_int/write_int_be",STR)])
p("C14","I/O faults surface as that error, with no panic and no false success",
  "If the underlying bit source, bit sink, byte reader or byte writer fails at any point, the operation in progress returns that same error, having made no further reads or writes, and what was written before is a prefix of what a fault-free run writes. Short or interrupted byte reads and writes are completed, and a byte source ending early is reported as an unexpected end.",
  ["fault_sequences"],"a fault at every possible read or write of every code and integer operation; every pattern of short, interrupted and failing byte transfers for block I/O",
  "No test injects a failing or short source or sink.",
  COD+[STR,ST],[("try! propagation",STR),("byteorder read/write",ST)])
p("C15","A bit buffer is a cursor over its bits",
  "Under any sequence of seeks, bit and integer reads, bit and integer writes and direct accesses, a bit buffer's position and contents are those of a file-like cursor: reads return the bits at the position and advance past them, writes overwrite or extend there and advance, reads at the end report the end without moving, and a seek past the end fails without moving. Opening for reading starts at zero, opening for append starts at the end, and the inner vector is returned with exactly those contents.",
  ["histories"],"all histories of operations over every inner type and block width",
  "Two tests write then pop, or push then read; overwriting, seeking, appending and interleaving are not tested.",
  [BB,STR],[("pos and write_bit extension",BB)],[dict(name="pos",meaning="cursor",where=BB)])
p("C16","Bit-level integer reads and writes are exact in both bit orders",
  "For every primitive integer type and every bit count from zero to its width, writing an integer emits exactly its low bits in the stated order (least or most significant first) and reading the same count back in that order returns them, consuming exactly that many bits. Reading past the end gives a clean end if no bit was available and an unexpected-end error if only some were; a count of zero writes nothing and reads zero.",
  ["inputs"],"all integer types, signed and unsigned, all bit counts 0..=width, all values, all stream positions",
  "Tests use counts 1 to 5 with small non-negative values; full width, zero width and signed types are untested.",
  [STR],[("read_int/read_int_be/write_int/write_int_be",STR)])
p("C17","Iterators agree with indexing under every order of calls",
  "Iterators over bit and integer vectors yield exactly the elements in order from either end, and under any interleaving of next, next_back, nth, len, size_hint, count, last and clone, including skips past the end, they behave as a standard slice iterator over the same elements. The reported remaining length is always exact and a finished iterator stays finished.",
  ["histories","inputs"],"all interleavings of iterator calls, all contents, block types and widths",
  "One test collects five elements forward; reverse iteration, nth and length after skips are untested.",
  [VB,BV,IV],[("start/limit cursors",VB)],[dict(name="start,limit",meaning="remaining window",where=VB)])
p("C18","Reported space equals the memory actually owned",
  "For every structure and every history, the reported heap bytes equal the bytes its heap allocations really occupy, the stack bytes equal the size of its type, and the total is their sum; nested containers, boxes and tuples add up their parts. A type reported as stack-only owns no heap memory.",
  ["histories","inputs"],"all structures, block types, nestings and histories of growth and shrinking",
  "Tests check fixed examples of plain containers and a ratio bound; nothing compares the report with the allocator.",
  [SU,VB,IV,JA,R9,BS],[("heap_bytes sums",SU)],observe=["global allocator"])
p("C19","Capacity promises hold",
  "After creating with, or reserving, capacity for n elements or blocks, the capacity is at least what was asked for and pushing up to the reported capacity does not reallocate; a reservation already satisfied does not reallocate. Clearing, truncating and popping keep the storage, shrinking never loses contents, no capacity operation changes contents, and repeated pushing reallocates only logarithmically often.",
  ["histories","inputs"],"all histories and sizes, all block types and widths",
  "Tests check capacity only on freshly created vectors; reserve on a vector that already has spare capacity is not tested.",
  [VB,BV,IV],[("reserve arithmetic",VB)],observe=["global allocator","capacity()"])
p("C20","Blocks are stored in the requested byte order and read back exactly",
  "Writing a block emits exactly as many bytes as the block holds, most significant first for big endian and least significant first for little endian, on every platform; reading that many bytes with the same order returns the same block and consumes nothing more. Any sequence of blocks of mixed sizes and orders round-trips.",
  ["inputs","configurations"],"all values, block types, both byte orders, sequences, and hosts of either endianness",
  "Block I/O has no test.",
  [ST],[("read_block/write_block",ST)])
p("C21","Word-level building blocks equal their arithmetic definitions",
  "For every block type and every in-range argument, masks, single-bit and field extraction and update, floor and ceiling base-2 logarithms, ceiling division, and conversions between bit indices and block addresses equal their mathematical definitions, without overflow for any representable argument; the checked conversions report failure only when the result does not fit. Splitting a bit index into an address and rejoining it is the identity.",
  ["inputs"],"all block types, built in or a user's own that take the provided methods, all words, offsets, field widths and 64-bit indices including the largest",
  "Examples plus QuickCheck on u64 for two functions; other types, full-width fields and arguments near the maximum are not covered.",
  [ST],[("masks and shifts",ST),("checked_ceil_div_nbits, ceil_div",ST),("Address",ST)])
p("C22","No use of the safe API causes undefined behaviour",
  "No sequence of calls to the public API, valid or out of range, in optimized or unoptimized builds, reads or writes memory outside live allocations, reads uninitialized memory, leaks what a dropped structure owned, or otherwise causes undefined behaviour.",
  ["histories","inputs","configurations"],"all call sequences including out-of-range and panicking ones",
  "Tests run without sanitizers and on in-range arguments; a wrong unchecked access usually returns plausible data.",
  [VB,TR,BW,R9,JA,ST,BV,IV],[("bounds-checked indexing; no unsafe code",VB)],observe=["AddressSanitizer","LeakSanitizer","Miri","standard library UB checks"])
p("C23","Structures can be shared and used across threads",
  "All structures may be moved to and shared with other threads when their block or store type may; any number of threads reading one structure at once get exactly the sequential answers without a data race, whatever the order of queries, and threads working on separate structures never affect one another.",
  ["schedules","histories"],"all interleavings of concurrent readers and of independent writers, all query orders",
  "All tests are single-threaded per structure.",
  [JA,R9,BS,BV,IV,VB,SL,BB],[("no interior mutability or global state",VB)],observe=["ThreadSanitizer","Miri data-race detector","result comparison"])
p("C24","Results do not depend on the build mode or platform",
  "The same operations on fixed-size block types give the same results, errors and refusals in builds with and without overflow checks and debug assertions, on 32-bit and 64-bit and on little- and big-endian targets.",
  ["configurations","inputs"],"build modes x pointer widths x endianness, over the union of all operations",
  "The suite runs in one build mode on one 64-bit little-endian target; 32-bit-only code paths are never executed.",
  [R9,VB,ST,BV,IV,JA],[("cfg(target_pointer_width) variants",R9),("cfg(target_pointer_width) variants",VB),("byte-order-explicit I/O",ST)],observe=["event-log digests per configuration"])
p("C25","Structures are as compact as documented",
  "A packed vector of n k-bit elements always occupies exactly the blocks needed for n·k bits, and allocates no more than that when created with that capacity, filled, or shrunk. The rank9 index adds at most a quarter of the bits plus a constant, and the Jacobson index adds only lower-order counts: about one short relative count per block plus one full count per lg² n bits.",
  ["inputs","histories"],"all lengths, widths, block types and histories",
  "Two ratio checks at about fifty lengths near 1000 words on one block type each.",
  [VB,IV,BV,JA,R9],[("one block push per needed block",VB),("count widths from ceil_lg",JA),("two words per 512 bits",R9)],observe=["global allocator","block counts"])
p("C26","Printed forms render exactly the contents",
  "Binary formatting of a bit vector prints one digit per bit in index order and nothing else; debug formatting of an integer vector states its width and lists every element in order in decimal, for every length, width and block type; formatting flags (width, precision, sign, prefix, alternate) neither drop, add nor alter a digit.",
  ["inputs"],"all contents, lengths, block types and widths",
  "Examples of up to 24 bits and five elements.",
  [BV,IV],[("fmt::Binary",BV),("fmt::Debug",IV)])
p("C27","Rank, select, buffer and adapter layers are transparent",
  "Wrapping a bit vector in a rank structure, a select structure, a bit buffer or a type built with the adapter macros leaves every bit, length, rank and select answer reachable through the wrapper and equal to those of the wrapped structure; borrowing or taking back the inner structure yields it unchanged.",
  ["inputs","configurations"],"all wrapper stacks, contents and queries",
  "Only rank through one select wrapper is tested; bit access through wrappers, adapter macros and recovering the inner value are not.",
  [MA,JA,R9,BS,BB],[("adapter macros",MA),("inner/into_inner",JA)])
p("C28","Element access is constant-time; bulk operations and codes are linear",
  "Reading, writing, appending (amortized) and dropping elements, taking a slice, moving or using a cursor, and an iterator's next, next_back and nth take time that does not grow with the structure's length or with the distance moved, and reads and writes in place allocate no memory. Building, resizing, copying, comparing, hashing, printing and traversing a whole structure take time linear in its length. Encoding and decoding take time linear in the bits of the code word, however much was coded before.",
  ["inputs","histories"],"all lengths, positions, block types, widths, iterator jumps and stream positions",
  "The suite checks no cost, and at its sizes a linear or quadratic operation passes unnoticed.",
  [VB,BV,IV,SL,BB,TR,STR],[("nth by arithmetic",VB),("field access through at most two blocks","src/bit_vec/traits.rs"),("seek",BB)],observe=["executed edges (SanitizerCoverage)","store reads","global allocator"])
p("C29","A panic in user code passes through and leaves everything usable",
  "If a user-supplied store, stream, code, reader, writer, formatter or hasher panics during a call into the library, that same panic comes out of the call, bits that the call did not address are unchanged, what reached a sink is a prefix of the uninterrupted output, and nothing is leaked. A bit buffer's position then has advanced over no more bits than were completed. Every structure involved, and every later call, works normally afterwards.",
  ["fault_sequences","inputs","histories"],"every point at which user code is called, panicking before or after its effect, for all operations on user types",
  "No test has user code that panics.",
  [BB,"src/bit_vec/traits.rs",SL,STR,JA,R9,BS],[("position advanced after the access",BB),("set_bits over two blocks","src/bit_vec/traits.rs")],observe=["panic payloads","user stores and streams that panic at a chosen use"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].replace("i.e.","").count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P),"properties")
