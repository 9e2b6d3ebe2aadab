#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
             observe_at=observe or [], hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

ENC = ["zssz.go", "enc/encoder.go", "types/basic_series.go", "types/elem_fixed_size_series.go", "types/elem_var_size_series.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_vector.go", "types/ssz_list_basic.go", "types/ssz_vector_basic.go"]
DEC = ["zssz.go", "dec/decoder.go", "types/basic_series.go", "types/elem_fixed_size_series.go", "types/elem_var_size_series.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_vector.go", "types/ssz_list_basic.go", "types/ssz_vector_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/ssz_bool.go", "types/ssz_ptr.go"]

p("C01", "Framed values survive any legal stream delivery",
  "A value encoded into a stream and decoded at the other end from its announced length comes out equal to the value sent, however a well-behaved stream fragments, delays or interleaves delivery (including empty reads, and a final read that delivers data together with end-of-stream). A successful decode or dry check consumes exactly the announced bytes of its frame, so frames sent back to back on one stream never bleed into each other.",
  ["schedules", "inputs", "fault_sequences"],
  "every supported type and valid value, every sequence of frames on a connection, every way a contract-abiding io.Reader/io.Writer may split, stall and schedule the transfer",
  "Tests use bufio over bytes.Buffer and bytes.Reader, which deliver everything in one call, one frame at a time; no test reads a fragmented, stalling or shared stream, or two frames in a row.",
  DEC + ["enc/encoder.go"],
  [("exact read loop with scoped index accounting", "dec/decoder.go Read/Skip/Scope"), ("final read-count check", "zssz.go Decode/DryCheck")],
  [("read index / scope limit", "how much of the frame was consumed", "dec/decoder.go DecodingReader")],
  ["Decode/DryCheck error and destination", "bytes taken from the reader"])

p("C02", "Encoding emits exactly the canonical bytes and accounts for every one",
  "Encoding a valid value into a healthy sink writes exactly its canonical SSZ serialization, whose length equals both the announced size and the reported count, also after the value was modified in place or encoded before. If the sink fails at any point, encoding returns an error, reports exactly the number of bytes the sink accepted, has written only a prefix of the canonical serialization, and makes no further writes after the failed one.",
  ["fault_sequences", "histories", "inputs"],
  "every supported type and valid value, every offset and kind of sink failure (error before, during or after a write, full disk, short write), every history of earlier encodes and in-place modifications",
  "Tests encode a few dozen literals once into a sink that never fails; no write error is ever injected and the count on failure is never looked at.",
  ENC + ["types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_ptr.go"],
  [("every write result accumulated and propagated", "enc/encoder.go EncodingWriter.Write"), ("offsets derived from element sizes", "types/elem_var_size_series.go EncodeVarSeries; types/ssz_container.go Encode")],
  [("written counter", "bytes accepted by the sink", "enc/encoder.go EncodingWriter.n")],
  ["Encode return values", "bytes received by the io.Writer", "SizeOf"])

p("C03", "An interrupted stream is never mistaken for a complete value",
  "If the stream ends or fails before the announced (or, in fuzz mode, the needed) bytes were delivered, decode, dry check and fuzz-mode decode return an error; they do not report success, panic, or keep reading without end. If every needed byte was delivered before the failure, the failure does not turn a valid frame into an error, and the same frame decodes correctly when retried on a healthy stream.",
  ["fault_sequences", "crash_points", "inputs"],
  "every supported type and valid encoding, every cut or failure offset, every way the stream reports it (EOF or other error, alone or together with data, after empty reads)",
  "Tests never truncate an input nor use a reader that fails; the quantifier over failure offsets and error styles is untouched.",
  DEC, [("error propagation on each read", "dec/decoder.go Read, Skip, Read* helpers"), ("scope and total checks", "zssz.go Decode, DryCheck")],
  None, ["error results", "number of calls made to the reader"])

p("C04", "Corrupted bytes are rejected or are another value's canonical form",
  "Decoding an arbitrary damaged or adversarial byte string never panics and succeeds exactly when the bytes are the canonical SSZ serialization of some value that respects all the type's limits. When it succeeds, the decoded value is the one those bytes denote and encoding it again reproduces the same bytes.",
  ["fault_sequences", "inputs"],
  "every supported type, every sequence of storage/transport corruptions (bit flips, torn or misplaced blocks, lost or duplicated ranges, damaged offsets, wrong announced length) applied to stored encodings",
  "All decode tests feed well-formed input; not one malformed input, bad offset, over-limit list or invalid bitfield/boolean goes through Decode.",
  DEC + ["bitfields/bitlist.go", "bitfields/bitvector.go", "types/limit.go"],
  [("offset and scope checks", "types/elem_var_size_series.go, types/ssz_container.go"), ("limit checks", "types/elem_fixed_size_series.go, types/basic_series.go, types/ssz_bytes.go"), ("bitfield and boolean checks", "bitfields/*.go, types/ssz_bool.go")],
  None, ["Decode verdict", "decoded value", "re-encoding"])

p("C05", "Dry check and decode always agree",
  "For any type, any bytes and any announced length, delivered over any healthy, fragmented or failing stream, the dry check succeeds exactly when decoding the same stream succeeds. Neither one panics.",
  ["fault_sequences", "inputs"],
  "every supported type, every valid, corrupted or adversarial byte string, every announced length, every stream fragmentation and failure offset",
  "TestDryCheck only passes valid inputs over a healthy reader, so the rejecting half of the equivalence is never exercised; the two code paths are maintained separately.",
  DEC, [("separate validation path that skips instead of storing", "DryCheck methods in types/*.go; dec/decoder.go Skip")],
  None, ["Decode and DryCheck verdicts"])

p("C06", "A decode depends only on its input, not on the destination's past",
  "Decoding (normal or fuzz-mode) into a destination that was used before, by earlier successful, rejected or interrupted decodes or by modification in between, yields the same value as decoding the same bytes into a fresh zero destination. Fields excluded from the format keep their content, and decoded values never share memory with the input buffer or with values decoded from elsewhere.",
  ["histories", "fault_sequences", "inputs"],
  "every supported type and every history of decodes of different sizes, failed decodes at any offset, modifications and input-buffer reuse preceding a decode",
  "Tests always decode once into a freshly allocated destination; no destination is ever reused, let alone after a failed decode.",
  ["util/ptrutil/allocation.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_ptr.go", "types/ssz_container.go", "types/basic_series.go"],
  [("slice capacity reuse", "util/ptrutil/allocation.go MutateLenOrAllocNew"), ("pointer target reuse", "types/ssz_ptr.go Decode")],
  [("destination slices/pointers", "reused across decodes", "caller's value")],
  ["decoded value", "omitted fields", "aliasing with the input buffer"])

p("C07", "Concurrent operations behave as if each ran alone",
  "When any number of goroutines share type definitions and read-only values, every encode, decode, dry check, root, signing root, size, pretty print and type construction returns what it would return running alone, under every interleaving. No such operation modifies the shared values.",
  ["schedules"],
  "every interleaving, at the granularity of single statements and stream/hash callbacks, of any mix of operations on shared type definitions and shared read-only values",
  "Tests run on a single goroutine; no schedule but the sequential one is ever executed, and shared scratch or cached state in a type definition would be invisible to them.",
  ["zssz.go", "types/ssz_container.go", "types/ssz_list.go", "types/elem_var_size_series.go", "merkle/merkleize.go", "htr/hash_tree_root.go", "enc/encoder.go", "dec/decoder.go", "types/factory.go"],
  [("type definitions immutable after construction", "types/*.go New*"), ("scratch space owned by each reader/writer", "enc/encoder.go, dec/decoder.go"), ("per-call merkleization buffers", "merkle/merkleize.go")],
  [("ZeroHashes", "shared table read by every root computation", "htr/hash_tree_root.go")],
  ["results of each operation", "shared values before/after"], "statement-level scheduling points, inserted by a build overlay (no change in /repo)")

p("C08", "Roots and proofs are the value's SSZ merkle identity in every history",
  "In every history of in-place modifications, transfers between parties, concurrent or aborted computations and switches of the hash function (with its zero-hash table re-initialised), the root of a value is its SSZ hash-tree-root under the current hash function, so two parties holding equal values agree on it. The signing root is the root without the last field, and merkle branches built over the same leaves always lead from the chosen leaf to that root; more leaves than the limit, or a branch for a leaf beyond it, are refused.",
  ["histories", "schedules", "inputs"],
  "every supported type and valid value, every leaf count, limit and leaf index, every interleaving of root computations, every history of modifications, aborted hashes and hash-function switches",
  "Tests compute each root once for a few literals with SHA-256; list/bitfield sizes around chunk and limit boundaries, histories, a second hash function and branch construction are not covered (merkle has no tests).",
  ["merkle/merkleize.go", "htr/hash_tree_root.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_vector.go", "types/ssz_vector_basic.go", "types/ssz_bytes.go", "types/ssz_bytes_n.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/basic_series.go"],
  [("log-space merkleization with zero-hash padding to the limit depth", "merkle/merkleize.go"), ("length mix-in", "htr/hash_tree_root.go MixIn")],
  [("ZeroHashes", "padding subtree roots for the active hash function", "htr/hash_tree_root.go")],
  ["HashTreeRoot, SigningRoot, Merkleize, ConstructProof results"])

p("C09", "Unsafe memory access stays inside the value, whatever the GC does",
  "No operation reads or writes memory outside the value it was given, and everything decode allocates stays valid through garbage collections occurring at any moment during or after the operation. Even after a rejected or interrupted decode the destination is a well-formed Go value (booleans are 0 or 1, slices have backing memory of their own) that can be used and decoded into again.",
  ["schedules", "fault_sequences", "inputs"],
  "every supported type, every moment of garbage collection during decode and later use, every corruption or interruption of the input, every placement of the value between other data",
  "Tests never force a collection inside an operation, never look at memory next to the destination, and drop decoded values at once, so a lifetime or bounds error would go unnoticed.",
  ["util/ptrutil/allocation.go", "util/ptrutil/iface_ptr.go", "util/ptrutil/slice_header.go", "types/basic_series.go", "types/elem_fixed_size_series.go", "types/elem_var_size_series.go", "types/ssz_ptr.go", "types/ssz_container.go"],
  [("typed allocation through reflect", "util/ptrutil/allocation.go"), ("KeepAlive around every public call", "zssz.go"), ("pointer walking by element memory size", "types/elem_*_series.go")],
  None, ["guard bytes around destinations", "decoded values after forced GC", "faults/panics"], "GC scheduling points, inserted by a build overlay")

p("C10", "Fuzz-mode decoding turns any bytes into a valid value",
  "Given at least the type's minimum fuzzing length of arbitrary bytes from a healthy stream, fuzz-mode decoding succeeds and produces a value that respects every limit and format rule of its type: it can be hashed, and encoded and strictly decoded back to an equal value. The result and the reported number of consumed bytes depend only on the bytes, not on how the stream fragments them, and the reported number is exactly what was taken from the stream, never more than was offered.",
  ["inputs", "schedules", "fault_sequences"],
  "every supported type, every byte string of sufficient length, every stream fragmentation and stall",
  "Fuzz mode has no tests at all.",
  ["zssz.go", "dec/decoder.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go", "types/elem_var_size_series.go", "types/basic_series.go", "types/ssz_bool.go"],
  [("lengths read from the input and reduced to the available span and limit", "decodeFuzzmode methods in types/*.go"), ("minimum-length reservation for later fields", "types/ssz_container.go decodeVarSizeFuzzmode")],
  None, ["DecodeFuzzBytes results", "decoded value"])

p("C11", "An aborted or stalled operation affects nobody else",
  "If a stream or hash callback panics or never returns in the middle of an operation, every other operation running or started later, on the same type definitions and on other values, completes and gives its normal result. Retrying the aborted operation from the start gives the normal result too, and aborted encodes, checks, sizes and roots leave the value they were reading unchanged.",
  ["crash_points", "schedules", "histories"],
  "every callback at which an operation can be abandoned, every set of operations in flight or following, every number of earlier aborted operations",
  "No test lets a callback panic or stall; state left behind in a shared definition, pool or table by an abandoned operation would never be seen.",
  ["zssz.go", "enc/encoder.go", "dec/decoder.go", "merkle/merkleize.go", "types/ssz_container.go", "types/ssz_list.go", "htr/hash_tree_root.go"],
  [("no state outlives an operation except its destination", "whole library")],
  None, ["results of the operations after the abort", "progress of concurrent operations"], "scheduling points, inserted by a build overlay")

p("C12", "Untrusted lengths cannot make the decoder over-allocate",
  "The memory that decoding, dry checking or fuzz-mode decoding of a stream allocates is bounded by a fixed multiple (depending only on the type) of the smaller of the announced length and what the type's limits permit. This holds whatever the stream contains and wherever it ends.",
  ["inputs", "fault_sequences"],
  "every supported type, every damaged or adversarial byte string, every announced length and every point where the stream ends",
  "No test measures allocation or feeds hostile offsets, hostile lengths or inputs beyond a limit.",
  ["types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/ssz_list_basic.go", "types/ssz_list.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "util/ptrutil/allocation.go"],
  [("limit and span checks before allocation", "types/elem_var_size_series.go ReadVarSliceOffsets; types/elem_fixed_size_series.go calcFixedSliceLength")],
  None, ["bytes allocated during the call"])

p("C13", "The portable element-wise path equals the little-endian fast path",
  "Where basic-element series are processed element by element instead of as raw memory (hosts that are not little-endian), encoding, decoding, fuzz-mode decoding and roots give the same bytes, values, verdicts and roots as the raw-memory path does for the same values. This also holds when the stream fragments, fails or carries corrupted bytes.",
  ["configurations", "inputs", "fault_sequences"],
  "every basic-series-carrying type and value, both processing paths, every stream fragmentation, failure offset and corruption",
  "Tests run on a little-endian host, so the portable branches are never executed at all.",
  ["types/ssz_vector_basic.go", "types/ssz_list_basic.go", "types/basic_series.go", "types/elem_fixed_size_series.go", "util/endianness/endianness.go"],
  [("endianness switch choosing raw or element-wise processing", "types/ssz_vector_basic.go, types/ssz_list_basic.go"), ("chunk byte swap for hashing", "types/basic_series.go BigToLittleEndianChunk")],
  [("native endianness flag", "decides the path", "util/endianness/endianness.go")],
  ["bytes, values, roots under both settings"])

p("C14", "A misbehaving component cannot silently shift its neighbours' bytes",
  "A variable-size custom component plugged into a larger type through the factory can only read the bytes between its own offset and the next one. A component that consumes more or fewer bytes than its part, or that reports an error, makes the enclosing decode or dry check fail, an error of its own being found in what is reported; when all components behave, each sees exactly its own bytes. A component that reports an error while encoding makes the encode fail with that error, and nothing is written behind it. In fuzz mode each component is offered at least the bytes it announced to need, cannot read beyond what it is offered, and an error of its own is found in what is reported.",
  ["programs", "fault_sequences"],
  "every composition of library types with a custom component, every place in the value where the component misbehaves and every way it does (reads short, reads long, skips, errors), over any stream fragmentation",
  "No test composes a custom type or drives the extension API; the consistency checks that contain a faulty component never fire.",
  ["dec/decoder.go", "types/ssz_container.go", "types/elem_var_size_series.go", "types/elem_fixed_size_series.go", "types/factory.go", "types/ssz_ptr.go", "zssz.go"],
  [("scoped readers", "dec/decoder.go Scope, UpdateIndexFromScoped"), ("position-versus-offset checks", "types/ssz_container.go, types/elem_var_size_series.go")],
  None, ["bytes offered to the component", "verdict of the enclosing operation", "bytes and components after a failing one"])

p("C15", "A log of encoded records cut anywhere recovers its complete records",
  "If a process appends length-prefixed encoded records to storage and crashes at any moment, with any suffix of what was not yet synced lost, every append that reported success has put its complete record into the file, and recovery reading the file decodes every completely stored record to the value written, in order, and reports an error for the incomplete one. A failed or full disk makes the append report an error, so that the application can take the partial record back. After recovery, truncating to the last complete record and continuing to append works the same again.",
  ["crash_points", "histories"],
  "every sequence of records of every supported type, every crash point during the appends, every cut of the unsynced tail, every number of crash/recover cycles",
  "Tests never persist anything, never restart and never decode a partially written file.",
  ["zssz.go", "enc/encoder.go", "dec/decoder.go"],
  [("write accounting", "enc/encoder.go"), ("exact consumption and truncated-read errors", "dec/decoder.go, zssz.go")],
  None, ["recovered records against the acknowledged ones"])

p("C16", "A rejected frame never swallows its neighbours' bytes",
  "Decode, dry check and fuzz-mode decode never take more than the announced bytes from the stream, whatever the frame contains and also when they reject it. A receiver that skips what a rejected frame has left over therefore receives all frames behind it intact, over one reader or over connections whose delivery fragments and stalls.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of intact, damaged and arbitrary frames on a stream, every supported type, every kind of operation per frame, every fragmentation, delay and schedule of delivery",
  "Tests hand each operation a buffer of its own that ends with the value and never continue on a stream after an error, so a read past the announced end or a lost position cannot show.",
  DEC, [("scoped index accounting before each read", "dec/decoder.go checkedIndexUpdate, Scope"), ("root scope of the announced length", "zssz.go Decode, DryCheck, DecodeFuzzBytes")],
  [("read index / scope limit", "how much of the frame was consumed", "dec/decoder.go DecodingReader")],
  ["bytes taken from the reader", "frames received after a rejected one"])

p("C17", "Nothing accumulates over long histories of operations",
  "Repeating any mix of operations (construction of type definitions, encodes, decodes, dry checks, fuzz-mode decodes, sizes, roots, proofs; successful, rejected, interrupted by failing streams or aborted by panicking callbacks) keeps the memory the library retains bounded: once the caller drops values and definitions, nothing is kept per operation, value, stream, definition or hash function call. A definition that stays in use keeps no value, stream, sink or hash function it was used with. A destination decoded into again and again does not grow beyond what its largest value needs.",
  ["histories", "fault_sequences"],
  "every mix of operations on every supported type, every outcome of them, any number of repetitions",
  "Tests perform each operation once and end the process; memory retained per operation is never measured.",
  ["zssz.go", "types/factory.go", "types/ssz_container.go", "enc/encoder.go", "dec/decoder.go", "merkle/merkleize.go", "htr/hash_tree_root.go", "util/ptrutil/allocation.go"],
  [("no state outlives an operation except its results", "whole library")],
  None, ["heap retained after forced collections, over hundreds of rounds"])

p("C18", "Every operation's work is bounded by its input",
  "Decoding, dry-checking, fuzz-mode decoding, encoding, sizing and hashing take a number of steps at most proportional to the bytes present or announced, by a factor depending only on the type: not to a list's limit, not to a number claimed by the input, and not superlinearly in the number of elements. This holds for valid, damaged and hostile inputs, and however the stream fragments. Hash function calls, leaf reads and the memory allocated by encoding, sizing and hashing are bounded in the same way.",
  ["inputs", "fault_sequences"],
  "every supported type, every value, every damaged or hostile byte string and announced length, every fragmentation and failure of the stream",
  "Tests use tiny inputs and measure no work; work proportional to a limit of 2^40 or quadratic in the number of offsets cannot show on a list of three elements.",
  DEC + ["merkle/merkleize.go", "bitfields/bitlist.go", "htr/hash_tree_root.go"],
  [("offsets checked in one pass", "types/elem_var_size_series.go, types/ssz_container.go"), ("limit depth by zero hashes rather than leaves", "merkle/merkleize.go")],
  None, ["statements executed in the library", "hash calls", "leaf reads", "bytes allocated"], "statement counter, inserted by a build overlay")

p("C19", "A stream's own failure reaches the caller as itself",
  "If the reader or sink fails with an error of its own in the middle of a decode, dry check, fuzz-mode decode or encode, the error returned is that error or wraps it (errors.Is finds it), at any depth of the value and however delivery fragments. A caller can therefore tell a failing transport, to be retried, from bad data, to be discarded.",
  ["fault_sequences", "inputs"],
  "every supported type and valid encoding, every failure offset, every error value, every way the failure is reported (refusing, after a part, with the last data, after empty reads)",
  "No test injects an I/O error at all.",
  DEC + ["enc/encoder.go"],
  [("errors returned unchanged up the call chain", "dec/decoder.go, enc/encoder.go, types/*.go")],
  None, ["error values"])

p("C20", "Operations may be started from inside callbacks",
  "A reader, a sink, a hash function or a leaf source may itself use the library before it returns: with the same type definitions, on the values the outer operation is reading, with operations of any kind. The inner and the outer operations each give the result they would give alone, at any depth of nesting, whether the inner ones succeed or fail, and also while other goroutines use the library at the same time.",
  ["schedules", "histories", "fault_sequences"],
  "every kind of operation inside every callback of every kind of operation, every callback at which it happens, every depth, every outcome of the inner operations, every interleaving with other goroutines",
  "Callbacks in tests are bytes.Reader, bytes.Buffer and SHA-256; none calls back into the library. Scratch space, locks or cursors kept in shared state across a callback cannot show.",
  DEC + ["enc/encoder.go", "htr/hash_tree_root.go", "merkle/merkleize.go", "zssz.go"],
  [("no shared state held across a callback", "enc/encoder.go, dec/decoder.go, htr/hash_tree_root.go, merkle/merkleize.go")],
  None, ["results of the inner and outer operations", "termination"])

p("C21", "What was built before does not change a definition",
  "A type definition behaves according to its Go type and the factory it was built with, whatever was built before or is being built at the same time: other types, also of the same name, the same type with other factories, and attempts that failed because a type is unsupported or because the factory returned an error, panicked or never returned. An unsupported type (a kind without a format, a list without limit, a bitvector whose size and bits disagree, a squashed field that is no struct, a type that contains itself), at any depth unless it is left out, or a factory's error always makes the construction fail, and nothing else does. A failed attempt can be repeated and succeeds once its cause is gone; definitions made earlier keep working.",
  ["histories", "schedules", "fault_sequences"],
  "every history of constructions, every factory, every failure inside a construction and the place where it happens, every interleaving of constructions",
  "Tests build every type once, in one process, with the standard factory only, and no construction ever fails.",
  ["types/factory.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_vector.go", "types/ssz_ptr.go", "types/limit.go", "util/tags/read_tag.go", "zssz.go"],
  [("recursive construction through the factory argument", "types/factory.go SSZFactory; types/New*"), ("limits and bit lengths read from the type", "types/limit.go")],
  None, ["bytes, values, roots and verdicts of definitions built in different histories", "errors of constructions"])

p("C22", "Sizes beyond 32 bits do not wrap",
  "Sizes, counts, positions and lengths are handled in 64 bits. Values and streams of more than 2 GiB or 4 GiB are measured, encoded, dry-checked and decoded by the same rules as small ones, also when the stream ends or the sink fails behind these marks, when a length that differs by a multiple of 2^31 or 2^32 is announced, and when offsets are damaged. A value one of whose variable-size parts would start at or beyond 2^32 within its container, vector or list is refused: no offset is written modulo 2^32. The hash-tree-roots of bitlists of more than 2^32 bits and byte lists of more than 2^31 bytes follow the rules for small ones, with the whole length mixed in.",
  ["inputs", "fault_sequences"],
  "every type and value whose encoding reaches 2 GiB, 4 GiB or more, every place in it, every fragmentation and every position of a fault",
  "A test cannot hold such a value; everything in the tests is below a few kilobytes.",
  DEC + ["enc/encoder.go", "util/ptrutil/allocation.go", "util/ptrutil/slice_header.go", "zssz.go"],
  [("offset range checks", "enc/encoder.go WriteOffset"), ("64-bit index, scope and span", "dec/decoder.go"), ("lengths and element pointers", "types/elem_*_size_series.go, types/basic_series.go, util/ptrutil")],
  None, ["bytes, counts, sizes and roots of giant values", "verdicts and consumption on giant streams", "refusal when an offset does not fit"])

p("C23", "Advertised length bounds enclose every value's real size",
  "For every type the minimum and maximum lengths of its definition enclose the size of every valid value, received, decoded in fuzz mode or made by the application; fixed-size types advertise the one exact length all their values have. Parties that go by the bounds never refuse a value, and an announced length that no value of the type can have is never accepted. Fuzz mode succeeds on every input of at least the advertised minimum and consumes a number of bytes between the advertised fuzz-mode bounds. Types whose bounds are beyond 64 bits advertise no smaller maximum.",
  ["inputs", "programs", "fault_sequences"],
  "every type (also with limits up to 2^64-1), every valid value (empty, partly filled, filled to all limits), every announced length, every fuzz-mode input, every delivery",
  "No test looks at the advertised bounds or builds values filled to their limits.",
  ["types/ssz_list.go", "types/ssz_container.go", "types/ssz_vector.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "types/ssz_vector_basic.go", "types/ssz_ptr.go", "types/limit.go", "types/ssz_typ.go"],
  [("bounds computed at construction", "types/New*"), ("lengths checked against bounds by the enclosing type and at the root", "zssz.go, types/ssz_container.go, types/elem_*_size_series.go")],
  None, ["advertised bounds", "sizes of values", "bytes consumed by fuzz mode", "verdicts on announced lengths"])

p("C24", "Pretty printing renders every field of every value",
  "Pretty printing terminates without panic for every valid value, also with nil pointers at any depth, and whatever the sink does: its errors do not disturb it, and what a failing sink got is a beginning of what a healthy one gets. It names every field, in the order of the format, each followed by its content: equal values print alike, each time and from each task; values that differ in one leaf print differently, and only in that place; the indent given is used for this print and for nothing else. The value is not changed.",
  ["inputs", "fault_sequences", "schedules"],
  "every type and value, nil pointers at every place, every failure of the sink, every interleaving with other tasks",
  "Pretty printing has no tests.",
  ["pretty/pretty.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_vector.go", "types/ssz_ptr.go", "types/ssz_bytes.go", "types/ssz_bitlist.go", "zssz.go"],
  [("Pretty methods", "types/*.go"), ("indentation and writing", "pretty/pretty.go")],
  None, ["bytes printed", "termination"])

p("C25", "Bit operations and the format agree",
  "Bitvectors and bitlists worked on with the helpers of the bitfields package keep to the format: after any history of setting bits and transferring the value over fragmenting and failing streams each party reads back exactly the bits that were set; setting a bit changes no other bit, no neighbour, not the length and not the delimiter; length and zero test agree with the content. The checks of bitlists and bitvectors accept exactly the bytes that are canonical for the number of bits, which are those that decoding accepts, do not panic on any bytes, and change nothing.",
  ["histories", "inputs", "fault_sequences"],
  "every bitfield type at every place in a value, every history of bit operations and transfers, every byte string and number of bits",
  "Tests sample a few dozen byte strings of up to six bytes, and never combine the helpers with encoding.",
  ["bitfields/bitfield.go", "bitfields/bitlist.go", "bitfields/bitvector.go", "types/ssz_bitlist.go", "types/ssz_bitvector.go"],
  [("bit arithmetic", "bitfields/*.go"), ("checks when decoding", "types/ssz_bitlist.go, types/ssz_bitvector.go")],
  None, ["bits, lengths and zero tests", "verdicts of checks and of decoding"])

p("C26", "The reader and writer given to components account for every byte",
  "The reader and the writer that components (the library's own and an application's) work with account for every byte: after any sequence of reads, skips, scopes within scopes and typed decoding that succeeded, index, maximum and remaining span are exactly what the operations were about, and the stream is at that byte; each operation delivers the bytes at its place. An operation that asks for more than the scope has left is refused, whatever the number (up to 2^64-1), takes nothing and says so; one that meets the end or a failure of the stream reports it, with the stream's own error, also when it only skips, also in seekable streams. The writer's count is what the sink accepted, its offsets are exact or refused, and no failure of the sink is lost.",
  ["histories", "inputs", "fault_sequences", "schedules"],
  "every sequence of operations on readers and writers, every nesting of scopes, every count of 64 bits, every fragmentation and failure",
  "Packages dec and enc have no tests of their own; the tests reach them with well-formed sequences on in-memory readers only.",
  ["dec/decoder.go", "enc/encoder.go", "types/*.go"],
  [("scopes and their accounting", "dec/decoder.go"), ("counting and offsets", "enc/encoder.go")],
  None, ["index, maximum and span", "bytes read and written", "errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
