package main

// simulated executions of a quick check: about half a minute each on 8 cores
var quickRuns = map[string]uint64{
	"C01": 240000, "C02": 480000, "C03": 480000, "C04": 480000, "C05": 480000,
	"C06": 300000, "C07": 220000, "C08": 140000, "C09": 18000, "C10": 480000,
	"C11": 280000, "C12": 480000, "C13": 440000, "C14": 480000, "C15": 240000,
	"C16": 200000, "C17": 8000, "C18": 300000, "C19": 480000, "C20": 80000, "C21": 40000,
	"C22": 3000, "C23": 160000, "C24": 200000, "C25": 400000,
	"C26": 200000,
}

// executions in which the race detector watches the library
var raceRuns = map[string]uint64{"C07": 16000}

// how an execution is made, and what makes it count as non-trivial
const nontrivial = " Non-trivial: at least one fault fired, one unusual delivery happened (short or empty read, data together with the error), one task switch, one forced collection or one endianness flip took place."

var rules = map[string]string{
	"C23": "One to three parties exchange values of catalog types and of types whose sizes have bounds next to or beyond 2^64, a third of them with full and a third with empty lists, over fragmenting and failing streams, and go by the bounds the definitions advertise; other announcements lie outside of what values can have; fuzz mode runs on the least input it is said to need, and on inputs that ask for as much as possible." + nontrivial,
	"C26": "One to three tasks run programs of up to some dozen operations on the reader or the writer that components are given: reads of all widths, skips, scopes within scopes (filling what is there or beyond it, up to 2^64 bytes), typed decoding, checking and encoding in between, offsets in and out of range, operations that ask for more than the scope has by 1 up to 2^64-1; over fragmenting streams, seekable ones among them, that end or fail at a drawn byte, and sinks that fail in one of four ways." + nontrivial,
	"C25": "One to three parties hold replicas of a value with bitvectors and bitlists in it; they set and read bits, ask for lengths, transfer the value over fragmenting streams that fail once, and judge bytes of others: arbitrary ones, without delimiter, with limits next to what they hold and next to 2^64." + nontrivial,
	"C24": "One to three tasks print values, half of them with nil pointers at drawn places, with drawn indents, to sinks that fail at a drawn byte, panic or never return; what is printed is compared with another print of the value, of an equal value and of a value that differs in one leaf." + nontrivial,
	"C01": "Values of catalog types and compositions are encoded back to back into a stream and received by decode or dry check: either one reader with a drawn fragmentation (1-byte, bounded or whole chunks, empty reads, data with EOF, scratch use of the buffer, io.Seeker, io.ByteReader, io.WriterTo, bufio), or up to three connections with a window, latency and segment size, a sender and a receiver task each." + nontrivial,
	"C02": "Up to three tasks encode values into sinks of their own, modifying the value between encodes; two thirds of the sinks fail at a drawn byte (inside, at and next to structural boundaries) by refusing, by a partial write, by accepting and reporting an error, or by a short count." + nontrivial,
	"C03": "A valid frame is delivered over a stream that ends or fails at a drawn byte (structure boundaries favoured) with EOF, unexpected EOF, reset, no-progress or closed-pipe errors, alone or together with the last data, over up to three attempts into one destination, then over a healthy one; a quarter of the executions do this to fuzz mode." + nontrivial,
	"C04": "A stored encoding is damaged up to three times (bit flips, overwritten bytes, lost, duplicated, dropped and misplaced ranges, torn splices with another value, truncation, extension, damaged offsets, garbage, wrong announced length) and decoded; the reference model decides whether it is canonical." + nontrivial,
	"C05": "The same damaged, cut or healthy bytes with the same announced length go through decode and dry check, delivered alike or fragmented differently." + nontrivial,
	"C06": "One destination goes through a history of valid, damaged, interrupted and fuzz-mode decodes, in-place modifications and decodes into parts of it, with other values alive next to it; every decode is compared with the same decode into a fresh destination." + nontrivial,
	"C07": "Two to four tasks with up to three operations each (encode, decode, dry check, roots, size, pretty print, fuzz mode, type construction, merkleize, proofs) share type definitions and values; the scheduler switches between them at statements of the library and at callbacks; some types are constructed for the first time inside the tasks. Further executions (see the evidence) run a second build of the library under the race detector." + nontrivial,
	"C08": "Up to three parties hold values over up to three phases, each with another hash function and a re-initialised zero-hash table; they compute roots and signing roots, modify in place, transfer over fragmenting streams, abort computations, build and verify merkle branches." + nontrivial,
	"C09": "Values placed in watched memory (sentinels around, inaccessible guard pages before or behind, excluded fields) go through operations with forced collections at drawn statements and inside callbacks, stack growth in callbacks, damaged and interrupted input; freed memory is clobbered." + nontrivial,
	"C10": "Arbitrary bytes, at least the advertised minimum, with small and huge length words mixed in, go through fuzz mode over two different deliveries into used and fresh destinations; the reference model judges validity of the result." + nontrivial,
	"C11": "Tasks share type definitions and values; about half of the operations are abandoned at a drawn call of their reader, sink or hash function, which panics or never returns; others and retries are compared with the same operation run alone." + nontrivial,
	"C12": "Decode, dry check and fuzz mode read short, truncated or interrupted byte strings with offsets and announced lengths that claim a lot; bytes allocated by each single operation are measured by the run time." + nontrivial,
	"C13": "The same sequence of operations runs on the raw-memory path and with the host's endianness flag flipped (values for roots are laid out as the other host's memory), with fragmented, failing and corrupted streams on both." + nontrivial,
	"C14": "Custom variable-size components inside containers, vectors and lists read exactly, less or more than their part, swallow refusals or report errors of their own, over fragmenting streams, or write in pieces and report an error in the middle of their part, possibly in concurrent tasks." + nontrivial,
	"C15": "A writer appends records to a simulated file, syncing now and then; it crashes inside a write or at a drawn byte, the disk fills up or fails once, a suffix of the unsynced bytes is lost; a recovering reader (fragmented, with transient errors) scans, truncates and goes on, for several generations." + nontrivial,
	"C16": "Two to six frames, each intact, damaged up to three times, hostile or arbitrary, follow each other on one stream or on up to two connections with windows and latency; every frame goes through decode, dry check or fuzz mode into fresh or used destinations and the receiver skips what a rejected frame left." + nontrivial,
	"C17": "Up to four operations, a third of them abandoned at a drawn call of their reader, sink or hash function, are repeated for 256 rounds (and 768 more if memory seems to grow), sometimes with type definitions made anew for each round; the heap is measured after rounds 16, 64 and 256. One execution in six does up to ten operations with a definition, drops everything but the definition and asks, after collections, whether anything of it is still there." + nontrivial,
	"C18": "Up to two operations on valid, damaged, hostile or arbitrary bytes with announced lengths beyond what is present, delivered in fragments, cut or failing; the statements executed inside the library are counted for each. A quarter of the executions also merkleize up to 3000 leaves with limits up to 2^62." + nontrivial,
	"C19": "Up to three operations on a reader or sink that fails with a drawn error value (plain or of a type of its own) at a drawn byte, structure boundaries favoured, in one of four ways." + nontrivial,
	"C21": "One to three tasks build definitions of types that share parts, with the library's factory and with factories that plug in components of their own, yield, build other definitions inside, report an error, panic or never return at a drawn call; of unsupported types in between; definitions are used when built, later and at the end, with collections in between." + nontrivial,
	"C22": "A value whose encoding reaches or passes 2 GiB, 4 GiB or 8 GiB in one of its parts (zero but for some bytes) is measured and encoded into a sink that may fail, then its encoding is dry-checked or decoded: intact, over-long, cut, failing, with damaged bytes or offsets, or announced with a length that differs by 1, 2^31 or 2^32; delivered in one piece or in fragments." + nontrivial,
	"C20": "One to three tasks run operations over shared definitions and values whose readers, sinks, hash functions and leaf sources start further operations at drawn calls, up to three levels deep, partly on the value the outer operation is reading; the scheduler also switches between tasks. A third of the executions has several tasks." + nontrivial,
}

var (
	stReader = "io.Reader: simulated stream over memory (fragmentation, empty reads, errors, cuts, stalls, panics)"
	stWriter = "io.Writer: simulated sink (failures, partial writes, stalls, panics)"
	stHash   = "hash functions: SHA-256 (real) and simulated ones that differ from it, may yield, stall or panic"
	stSched  = "goroutine scheduler: cooperative tasks, switched by seeded choices before any statement of the library and at callbacks; package sync is replaced by a version that blocks in the simulator"
	stConn   = "network connection: simulated in-order byte stream with window, latency and segmentation; simulated clock"
	stDisk   = "disk: simulated file with sync, crash, loss of unsynced bytes and a size limit; simulated clock"
	stGC     = "collector: real, but started at statements and callbacks the seed decides (clobberfree on)"
	stEndian = "host endianness: the library's flag flipped at run time; memory of a big-endian host is modelled by reversed elements"
	stComp   = "custom component type: simulated, misbehaves on demand"
)

var stubs = map[string][]string{
	"C01": {stReader, stConn, stSched}, "C02": {stWriter, stSched}, "C03": {stReader}, "C04": {stReader}, "C05": {stReader},
	"C06": {stReader}, "C07": {stReader, stWriter, stHash, stSched}, "C08": {stReader, stWriter, stHash, stSched},
	"C09": {stReader, stWriter, stHash, stGC}, "C10": {stReader}, "C11": {stReader, stWriter, stHash, stSched},
	"C12": {stReader}, "C13": {stReader, stWriter, stHash, stEndian, stSched}, "C14": {stReader, stComp, stSched},
	"C15": {stReader, stDisk, stSched},
	"C16": {stReader, stConn, stSched}, "C17": {stReader, stWriter, stHash}, "C18": {stReader, stWriter, stHash}, "C19": {stReader, stWriter},
	"C22": {stReader, stWriter, "memory: values lie in reserved address space that is never touched"},
	"C23": {stReader, stWriter, stSched}, "C24": {stWriter, stSched}, "C25": {stReader, stWriter, stSched},
	"C26": {stReader, stWriter, stComp, stSched},
	"C20": {stReader, stWriter, stHash, stSched}, "C21": {stReader, stWriter, stComp, stSched, "type factory: simulated, fails, panics, stalls, nests"},
}

var assumptions = map[string][]string{
	"C01": {"readers keep to the io.Reader contract; a reader may return up to three empty reads in a row"},
	"C02": {"a sink that does not take all bytes of a write reports an error, as io.Writer requires"},
	"C04": {"the reference model (sim/ref) states canonical SSZ of the specification this library implements"},
	"C07": {"switches happen before statements and at callbacks: interleavings inside one statement and weak-memory effects are not simulated; unsynchronised accesses behind them are noticed by the race detector in part of the executions"},
	"C08": {"the reference model states the merkleization rules; hash functions are deterministic"},
	"C09": {"stray accesses are noticed through guard pages, sentinels, clobbered freed memory and the collector's own checks, so an access that hits none of them is not"},
	"C11": {"a panicking callback may leave its own caller's reader unusable; only the library's state is judged"},
	"C12": {"the bound is a generous per-type multiple derived from the type alone, never from measurements"},
	"C13": {"on a big-endian host memory of basic series holds each element reversed; roots are compared only if flipping the flag changes the course of root computation at all"},
	"C14": {"uses the exported component seam of package types; skipped if that API changes"},
	"C15": {"bytes survive a crash as a prefix of what was written, at least up to the last sync"},
	"C17": {"a leak of less than a word per round, or one released by time only, is not noticed"},
	"C18": {"work is counted in statements of the library; work inside a single statement (copies, library calls) is not; the bound is six times a per-type estimate made from the type alone"},
	"C22": {"bytes list and bitlist leaves of that size are decoded rarely (they need the memory), other lists in place in reserved memory", "roots are computed rarely, on bitlists and byte lists, with a stand-in for the hash function"},
	"C21": {"only types of kinds the library documents as supported or never could support are built"},
	"C23": {"values near the bounds of the vast types cannot be held: for them the bounds are compared with the model's only"},
	"C24": {"a printed form names the fields in order and shows the content behind the name; nothing else is assumed about the format"},
	"C26": {"uses the exported component seam of packages dec, enc and types; skipped if that API changes", "the position after a failed read is not judged"},
	"C25": {"bits beyond the length of a bitfield are not asked for"},
	"C20": {"a callback uses the library on streams of its own, not on the one the outer operation is working on"},
	"C19": {"only failures the operation really met are judged: it must have returned an error"},
}

// probes and faults that a healthy batch reaches: those at zero are listed in the evidence
var expectedProbes = map[string][]string{
	"C01": {"connection drained", "short read", "empty read", "data with EOF or error", "delivery delay", "scratch use of buffer"},
	"C02": {"partial write then error", "write refused", "write accepted but reported failed", "short write"},
	"C03": {"failure after the last byte", "stream cut: EOF", "stream cut: unexpected EOF", "stream cut: error", "data with EOF or error"},
	"C04": {"accepted", "rejected", "bit flip", "byte overwritten", "offset damaged", "truncated", "extended", "lost (zeroed) range", "duplicated range", "dropped range", "misplaced range", "replaced by garbage", "torn: spliced with another value", "wrong announced length"},
	"C05": {"both accept", "both reject", "stream cut: EOF", "stream cut: error"},
	"C06": {"failed decode in history", "with collections"},
	"C07": {},
	"C08": {"hash function switched", "proof verified", "hash panics"},
	"C09": {"next to an inaccessible page", "failed decode", "collection in a callback", "stack moved in a callback"},
	"C10": {"short read"},
	"C11": {"hash panics", "hash stalls for ever", "reader panics", "reader stalls for ever", "writer panics", "writer stalls for ever", "continued after a stalled operation"},
	"C12": {"hostile offset", "huge announced length", "more announced than present", "more than 16 KB allocated"},
	"C13": {"host endianness flipped", "stream cut: EOF"},
	"C14": {"all components behaved", "component misbehaved", "all components behaved in fuzz mode", "component misbehaved in fuzz mode", "refusal ignored", "component failed while encoding"},
	"C15": {"disk full", "one write fails", "process crash while writing", "unsynced suffix lost", "recovered", "retry after a read error", "incomplete record rejected", "truncated an incomplete record", "append failed, rolled back"},
	"C16": {"frame rejected", "rest of a rejected frame skipped", "intact frame received", "short read", "empty read", "connection drained"},
	"C17": {"history measured", "dropped while the definition stays", "hash panics", "reader panics", "writer panics"},
	"C18": {"above 1/24 of the bound", "more than 3000 bytes", "more announced than present", "hostile offset", "huge announced length"},
	"C22": {"beyond 2 GiB", "beyond 4 GiB", "offset beyond 32 bits refused", "stream accepted", "stream rejected", "decoded", "sink fails", "stream ends early", "other length announced", "bytes damaged", "root of 2^31 or more bits or bytes"},
	"C21": {"attempt failed by its factory", "unsupported type", "unsupported part left out", "built with a factory of the application", "built inside a factory", "factory reports an error", "factory panics", "factory stalls for ever"},
	"C23": {"value with full lists", "value with empty lists", "announced length no value has"},
	"C24": {"printed to a failing sink", "values printed that differ in one leaf", "nil pointer in the value"},
	"C26": {"scope", "stream ended", "more than the scope refused", "offset refused", "everything written"},
	"C25": {"bit set", "length and zero test", "transferred", "sent again", "received again", "foreign bitlist accepted", "foreign bitlist rejected", "foreign bitvector accepted", "judged by check and decode", "more than 65536 bits"},
	"C20": {"operation inside an operation", "operation at the second level", "operation at the third level", "short read"},
	"C19": {"sink failure reported", "stream failure reported", "partial write then error", "write refused", "data with EOF or error"},
}
