#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Encode writes exactly the SSZ serialization of every value",
 "For every supported type and every valid value of it, encoding writes exactly the bytes that SSZ prescribes: little-endian basic values, fixed parts in declaration order, one 4-byte offset per variable-size part counted from the start of the enclosing object, then the variable parts in order. The size reported for the value and the byte count returned by encode both equal the number of bytes written.",
 ["inputs", "programs"], "all types of the type grammar x all valid values",
 "The tests pin about 45 (type, value) pairs; nesting combinations, boundary lengths, offsets above 255 and above 65535 and most shapes are never encoded.",
 ["zssz.go", "enc/encoder.go", "types/*.go"],
 [("EncodeFixedSeries / EncodeVarSeries", "types/elem_fixed_size_series.go, types/elem_var_size_series.go"), ("WriteOffset", "enc/encoder.go"), ("SSZContainer.Encode / SizeOf", "types/ssz_container.go")],
 ["zssz.Encode", "zssz.SizeOf"])
prop("C02", "Decoding an encoded value gives the value back",
 "For every supported type and every valid value of it, decoding the value's encoding into a fresh destination succeeds, consumes exactly those bytes and yields a value equal to the original in every field and element.",
 ["inputs", "programs"], "all types x all valid values",
 "Round trips are tested on about 45 values only, and compared through JSON.",
 ["zssz.go", "dec/decoder.go", "types/*.go", "util/ptrutil/allocation.go"],
 [("scoped decoding by offsets", "types/ssz_container.go, types/elem_var_size_series.go"), ("slice allocation", "util/ptrutil/allocation.go")],
 ["zssz.Decode"])
prop("C03", "Decode accepts exactly the canonical encodings and rejects everything else",
 "For every type and every byte string, decoding the string succeeds if and only if it is the SSZ serialization of some value of that type within its declared limits, and then encoding the result reproduces the same bytes. Everything else is answered with an error: wrong, decreasing or out-of-range offsets, gaps, missing or trailing bytes, lists over their limit, bools other than 0 and 1, bits set beyond a bitvector's length, bitlists without delimiter or over their limit.",
 ["inputs", "programs"], "all types x all byte strings",
 "No existing test feeds an invalid serialization to the decoder; the quantifier is over all byte strings.",
 ["zssz.go", "dec/decoder.go", "types/*.go", "bitfields/*.go"],
 [("offset checks", "types/ssz_container.go, types/elem_var_size_series.go"), ("length and limit checks", "types/basic_series.go, types/elem_fixed_size_series.go, types/ssz_bytes.go"), ("bitfield checks", "bitfields/bitlist.go, bitfields/bitvector.go"), ("read-count check", "zssz.go Decode")],
 ["zssz.Decode", "zssz.Encode"])
prop("C04", "Dry check and decode agree on every input",
 "For every type and every byte string with its length, the dry check (which validates without decoding into memory) reports an error exactly when decoding the same bytes reports one.",
 ["inputs", "programs"], "all types x all byte strings",
 "The tests dry-check valid inputs only, so a check present in one path and missing in the other is invisible.",
 ["zssz.go", "types/*.go", "dec/decoder.go"],
 [("DryCheck methods mirroring Decode", "types/*.go"), ("Skip", "dec/decoder.go")],
 ["zssz.DryCheck", "zssz.Decode"])
prop("C05", "Hash-tree-root equals the SSZ merkleization of the value",
 "For every supported type and every valid value, the hash-tree-root equals the SSZ definition: values packed into 32-byte chunks or element roots, merkleized with zero padding up to the depth given by the type's length or limit, with the element or bit count mixed in for lists and bitlists (without the bitlist's delimiter bit).",
 ["inputs", "programs"], "all types x all valid values, all list limits and lengths",
 "The roots of about 45 values are pinned; wrong padding at one chunk-boundary length, count or limit changes a consensus root without failing them.",
 ["merkle/merkleize.go", "htr/hash_tree_root.go", "types/*.go"],
 [("Merkleize", "merkle/merkleize.go"), ("chunking leaf functions", "types/basic_series.go, types/ssz_bytes.go, types/ssz_bytes_n.go, types/ssz_bitlist.go, types/ssz_bitvector.go"), ("length mix-in", "htr/hash_tree_root.go")],
 ["zssz.HashTreeRoot"])
prop("C06", "Signing root is the root of the container without its last field",
 "For every container value, the signing root equals the hash-tree-root of the container made of all its (flattened) fields but the last; it never depends on the last field and changes with every other field. An empty or one-field container has the zero root.",
 ["inputs", "programs"], "all container types x all valid values",
 "The tests only assert that the signing root differs from the hash-tree-root.",
 ["types/ssz_container.go", "zssz.go"], [("SSZContainer.SigningRoot", "types/ssz_container.go")], ["zssz.SigningRoot"])
prop("C07", "Hostile input and lengths never crash, hang or over-allocate",
 "Decoding or dry-checking any byte string under any claimed byte length (shorter, longer or absurdly larger than the data) always returns, without panicking: either success or an error. The memory it allocates stays bounded by what a value within the type's declared limits plus the supplied input needs, whatever lengths and offsets the input claims.",
 ["inputs", "programs"], "all types x all byte strings x all 64-bit claimed lengths",
 "The tests never pass malformed data, nor a length that differs from the data.",
 ["zssz.go", "dec/decoder.go", "types/*.go", "util/ptrutil/allocation.go"],
 [("scope and span checks", "dec/decoder.go"), ("limit checks before allocation", "types/elem_fixed_size_series.go, types/elem_var_size_series.go, types/ssz_bytes.go, types/ssz_list_basic.go, types/ssz_bitlist.go")],
 ["zssz.Decode", "zssz.DryCheck"])
prop("C08", "All operations stay inside the memory of the value",
 "Decoding valid or invalid input writes only within the destination object and the slices and pointees it owns, never past a slice's capacity or into neighbouring memory; encoding, sizing and hashing read only within the value. Even after a failed decode the destination is a well-formed Go value: every bool is true or false, every slice and pointer is usable.",
 ["inputs", "programs"], "all types x all inputs and values, with guarded surroundings",
 "Out-of-bounds unsafe accesses usually go unnoticed by value assertions; no test surrounds the value with guards or runs a failing decode.",
 ["types/*.go", "util/ptrutil/*.go"],
 [("elemMemSize / memOffset arithmetic", "types/elem_fixed_size_series.go, types/elem_var_size_series.go, types/ssz_container.go"), ("slice header construction", "util/ptrutil/slice_header.go, util/ptrutil/allocation.go")],
 ["memory around and inside the destination after zssz.Decode", "zssz.Encode", "zssz.HashTreeRoot"])
prop("C09", "Garbage collection at any moment never damages a value",
 "A value built by decoding, and a value being encoded or hashed, stays intact when a garbage collection happens at any point during or after the operation: no reachable element, slice or pointee is freed, moved or zeroed.",
 ["schedules", "programs"], "all types x all collection points (before, during and after an operation)",
 "Tests are so small that the collector practically never runs during an operation.",
 ["util/ptrutil/allocation.go", "types/ssz_ptr.go", "types/ssz_list.go", "zssz.go"],
 [("typed allocation with reflect.MakeSlice / reflect.New", "util/ptrutil/allocation.go"), ("runtime.KeepAlive", "zssz.go")],
 ["contents of the value after forced collections"])
prop("C10", "Decoding depends only on the stream's bytes and reads exactly its own part",
 "Decoding, dry-checking and fuzz-decoding give the same result however the io.Reader splits the data, including short reads, empty reads and an EOF delivered together with the last bytes. A successful decode or dry check consumes exactly the given number of bytes, so the next message on the stream is intact, and no operation ever reads more than that. A stream that ends or fails before the data is complete gives an error, never a success.",
 ["fault_sequences", "inputs", "programs"], "all types x all inputs x all legal reader behaviours",
 "All tests read from one bytes.Reader holding exactly one message.",
 ["dec/decoder.go", "zssz.go"], [("DecodingReader.Read / Skip / Scope", "dec/decoder.go")], ["zssz.Decode", "zssz.DryCheck", "zssz.DecodeFuzzBytes", "bytes consumed from the io.Reader"])
prop("C11", "Writer failures are reported exactly and stop the encoding",
 "If the io.Writer fails at any point, encode returns a non-nil error, the returned count equals the number of bytes the writer accepted, those bytes are a prefix of the value's encoding, and nothing more is written after the failure. With a writer that does not fail, encode returns no error and the full count.",
 ["fault_sequences", "inputs", "programs"], "all types x values x writer failure points",
 "The tests write to a buffer that cannot fail.",
 ["enc/encoder.go", "zssz.go", "types/*.go"], [("EncodingWriter.Write", "enc/encoder.go"), ("error returns in all Encode methods", "types/*.go")], ["zssz.Encode"])
prop("C12", "Fuzz-mode decoding turns any sufficiently long input into a valid value",
 "For every type without zero-size list elements, fuzz-mode decoding succeeds on every input that has at least the declared minimum fuzzing length and fails on shorter ones; it never panics. The resulting value is valid: within all limits, accepted by the strict decoder after encoding, and hashable. The reported consumption is the number of bytes read, at most the input length and within the type's declared fuzzing length bounds.",
 ["inputs", "programs"], "all types x all byte strings",
 "No existing test uses fuzz mode at all.",
 ["zssz.go", "types/*.go", "dec/decoder.go"], [("decodeFuzzmode / decodeVarSizeFuzzmode / DecodeVarSeriesFuzzMode", "types/ssz_list.go, types/ssz_list_basic.go, types/ssz_container.go, types/elem_var_size_series.go"), ("fuzz branches of bytes, bitlist, bool", "types/ssz_bytes.go, types/ssz_bitlist.go, types/ssz_bool.go")], ["zssz.DecodeFuzzBytes"])
prop("C13", "Declared length bounds of a type are exact",
 "For every type, the declared minimum and maximum lengths are the sizes of its smallest and largest valid encodings, so every valid value's encoding lies between them and both ends are reached. A type is declared fixed-size exactly when all its values have the same size by SSZ rules, and then minimum, maximum and fixed length all equal that size; for container and vector types the fixed length is the size of the fixed part.",
 ["programs", "inputs"], "all types (whose largest size fits 64 bits) x all values",
 "No test reads the length metadata.",
 ["types/*.go"], [("MinLen / MaxLen / FixedLen / IsFixed", "types/*.go constructors")], ["SSZ.MinLen", "SSZ.MaxLen", "SSZ.FixedLen", "SSZ.IsFixed", "zssz.SizeOf"])
prop("C14", "Decoding into a used destination gives the same value as into a fresh one",
 "Whatever the destination held before (results of earlier successful, failed or fuzz-mode decodes, longer or shorter lists, spare slice capacity, filled pointers), a successful decode makes it equal to the value a fresh destination would get: no stale elements, bits, lengths or bytes survive. Whether the decode succeeds does not depend on the destination's history either.",
 ["histories", "inputs", "programs"], "all types x all sequences of decodes into one destination",
 "Every test decodes once into a zero destination.",
 ["util/ptrutil/allocation.go", "types/ssz_list.go", "types/ssz_list_basic.go", "types/ssz_bytes.go", "types/ssz_ptr.go"],
 [("MutateLenOrAllocNew", "util/ptrutil/allocation.go")], ["zssz.Decode", "zssz.DecodeFuzzBytes"])
prop("C15", "One type definition can be used by many goroutines at once",
 "Goroutines that concurrently encode, decode, fuzz-decode, dry-check, size, hash, pretty-print or sign with the same shared type definition (and, for the reading operations, the same value), or that build definitions concurrently, each get exactly the result of running alone, under every interleaving.",
 ["schedules", "programs"], "all interleavings of 2-3 concurrent operations",
 "The tests are sequential.",
 ["zssz.go", "enc/encoder.go", "dec/decoder.go", "merkle/merkleize.go", "types/*.go", "htr/hash_tree_root.go"],
 [("per-call encoder/decoder state and scratch space", "enc/encoder.go, dec/decoder.go"), ("immutable type definitions", "types/*.go")], ["results of concurrent zssz calls"])
prop("C16", "Merkleization equals the naive zero-padded tree for all counts and limits",
 "For every leaf count and every limit not below it, merkleizing gives the root of the full binary tree of the smallest depth that holds the limit, with the given leaves followed by zero leaves; limit 0 and an empty limit-1 tree give the zero root. The tree depth computed for any 64-bit number v of at least 2 is the smallest d with 2^d >= v.",
 ["inputs"], "all counts x limits (up to 2^64-1) x leaves",
 "A few counts and limits occur in the tests through small types; limits above 2^10 and most counts do not.",
 ["merkle/merkleize.go"], [("Merkleize", "merkle/merkleize.go"), ("GetDepth", "merkle/merkleize.go")], ["merkle.Merkleize", "merkle.GetDepth"])
prop("C17", "Merkle branches verify against the root",
 "For every leaf count, limit and index below the limit, the constructed merkle branch has one node per tree level and each node is the true sibling subtree root, so that folding the leaf at the index (the zero leaf beyond the count) with the branch gives exactly the merkleization root of the same leaves and limit.",
 ["inputs"], "all counts x limits x indices",
 "Proof construction has no test.",
 ["merkle/merkleize.go"], [("ConstructProof", "merkle/merkleize.go")], ["merkle.ConstructProof", "merkle.Merkleize"])
prop("C18", "The hash function is replaceable without residue",
 "After initializing the zero-hashes with any hash function, every hash-tree-root, signing root and merkle root computed with that function equals the SSZ definition instantiated with it, for any order of switching between functions; all zero-hash levels up to depth 64 are the iterated hashes of zero. Hash functions are only ever given 64-byte inputs.",
 ["configurations", "histories", "inputs"], "all hash functions x sequences of re-initialization x values",
 "Only SHA-256 is ever used in tests.",
 ["htr/hash_tree_root.go", "merkle/merkleize.go"], [("InitZeroHashes, ZeroHashes", "htr/hash_tree_root.go"), ("HashFn.Combi / MixIn", "htr/hash_tree_root.go")], ["htr.InitZeroHashes", "zssz.HashTreeRoot"])
prop("C19", "Omitted, squashed, embedded and pointer fields compose as declared",
 "A struct with squashed (tagged or embedded) struct fields, at any nesting, behaves in every operation exactly like the struct with those fields flattened in place, and a pointer field exactly like a field of the pointed-to type, with missing pointees allocated when decoding. Omitted fields, of any Go type, never influence any result and are never modified by decoding.",
 ["programs", "inputs"], "all struct shapes built from plain, omitted, squashed, embedded and pointer fields x values",
 "Three handwritten structs cover squash and omit; none checks that omitted fields survive decoding.",
 ["types/ssz_container.go", "types/ssz_ptr.go", "util/tags/read_tag.go"], [("getFields / Wrap / SquashFields", "types/ssz_container.go"), ("HasFlag", "util/tags/read_tag.go"), ("SSZPtr", "types/ssz_ptr.go")], ["all zssz operations"])
prop("C20", "Bitfield helpers agree with the bit-array model",
 "For every byte slice and index, getting and setting bits, the bitlist length, the bitlist and bitvector validity checks (for every limit or length) and the all-zero test agree with the plain model: bit i is bit i%8 of byte i/8, a bitlist's length is the position of its highest set bit, validity means exactly the prescribed byte length, delimiter and zero padding. Setting one bit changes no other bit.",
 ["inputs"], "all byte slices x indices x limits",
 "The tests sample a few dozen byte slices.",
 ["bitfields/bitfield.go", "bitfields/bitlist.go", "bitfields/bitvector.go"], [("BitIndex, GetBit, SetBit, IsZeroBitlist", "bitfields/bitfield.go"), ("BitlistLen, BitlistCheck", "bitfields/bitlist.go"), ("BitvectorCheck", "bitfields/bitvector.go")], ["bitfields functions"])
prop("C21", "Results do not depend on the host's byte order or word size",
 "The big-endian code path and a 32-bit build produce the same encodings, decoded values, accept/reject decisions and roots as the little-endian 64-bit path, for every type and value.",
 ["configurations", "programs", "inputs"], "host byte order {little, big} x word size {32, 64} x types x values",
 "The tests run on one little-endian 64-bit machine.",
 ["util/endianness/endianness.go", "types/basic_series.go", "types/ssz_list_basic.go", "types/ssz_vector_basic.go"], [("endianness.IsLittleEndian branches", "types/ssz_list_basic.go, types/ssz_vector_basic.go"), ("BigEndianBasicSeriesHTR", "types/basic_series.go")], ["zssz operations with the big-endian path selected", "GOARCH=386 build"])
prop("C22", "Operations are pure: no side effects and no memory of earlier calls",
 "Encoding, sizing, hashing, signing and pretty-printing never modify the value, and a decoded value shares no memory with the input or with other decoded values. The result of any operation depends only on its own arguments: it is the same whatever sequence of earlier successful or failed operations used the same type definition.",
 ["histories", "inputs", "programs"], "all sequences of operations on a shared type definition",
 "Tests perform one operation per definition and never look at the value afterwards.",
 ["zssz.go", "types/*.go", "enc/encoder.go", "dec/decoder.go", "merkle/merkleize.go"], [("per-call reader/writer objects", "zssz.go"), ("stateless SSZ definitions", "types/*.go")], ["results of call sequences"])
prop("C23", "Type definitions are accepted exactly for supported types, with their limits",
 "Building a definition succeeds exactly for types composed of the supported kinds, with a declared limit on every list and a byte length matching every bitvector's bit length, at any nesting depth; every other type, recursive types included, is refused with an error (never a panic, never a partial definition; GetSSZ, which has no error result, panics), unless the unsupported part is an omitted field. The specific constructors likewise refuse types that are not theirs, and the declared limit is enforced exactly: a list of exactly the limit is accepted, one more element is not.",
 ["programs"], "all Go types up to a nesting depth x positions, all limits",
 "The tests only build valid types.",
 ["types/factory.go", "types/limit.go", "types/*.go", "zssz.go"], [("DefaultSSZFactory", "types/factory.go"), ("ReadListLimit", "types/limit.go"), ("kind checks in constructors", "types/*.go")], ["types.SSZFactory", "types.New* constructors", "zssz.GetSSZ"])
prop("C24", "A custom factory and custom definitions compose at every position",
 "When a definition is built with a user-supplied factory, that factory is consulted for every struct field, pointer target and non-basic element type at every nesting depth, and a custom definition it returns (fixed- or variable-size) is used for that part in every operation: encoding, decoding, dry check, sizes, length bounds, hashing and fuzz mode.",
 ["programs", "inputs"], "all positions of a custom definition in composite types x values",
 "No test uses a factory other than the default.",
 ["types/factory.go", "types/ssz_container.go", "types/ssz_list.go", "types/ssz_vector.go", "types/ssz_ptr.go"], [("factory argument of the constructors", "types/*.go")], ["types.DefaultSSZFactory with a custom SSZFactoryFn"])
prop("C25", "Pretty-printing is total and faithful",
 "Pretty-printing returns without panicking for every value, including values with nil pointers and empty or nil lists, always gives the same text for equal values, and gives different texts for different values of the same type. Every field of a container appears with its own name and value, in order.",
 ["inputs", "programs"], "all types x all values",
 "Pretty-printing has no test.",
 ["pretty/pretty.go", "types/*.go"], [("Pretty methods", "types/*.go")], ["zssz.Pretty"])
prop("C26", "Reader, writer and hash helpers for custom definitions keep their contract",
 "For every sequence of operations on a decoding reader and its nested scopes, each read delivers the next bytes of the stream (typed reads in little-endian order), each read, skip or scope succeeds exactly when the scope's remaining span (and, for reads and skips, the stream) has enough bytes, nothing beyond a scope's end is ever taken from the stream, and index, maximum and remaining span always account for the bytes taken, also after a finished scope is counted into its parent. For every sequence of writes, the encoding writer passes on exactly the given bytes, counts exactly the bytes the writer accepted, and writes an offset as four little-endian bytes of the exact sum, refusing sums that do not fit. Combining two nodes hashes their concatenation; mixing in a number hashes the node and its 32-byte little-endian form.",
 ["histories", "inputs"], "all operation sequences up to a depth x streams, deliveries and failure points",
 "The readers, writers and hash helpers have no tests of their own, and custom definitions rely on them.",
 ["dec/decoder.go", "enc/encoder.go", "htr/hash_tree_root.go"], [("DecodingReader", "dec/decoder.go"), ("EncodingWriter", "enc/encoder.go"), ("Combi, MixIn", "htr/hash_tree_root.go")], ["dec.NewDecodingReader and its methods", "enc.NewEncodingWriter and its methods", "htr.HashFn.Combi, MixIn"])

prop("C27", "Work and memory follow the value, never the limits",
 "A hash-tree-root, signing root, merkle root or merkle branch takes at most about twice as many hashes (and, for the merkle functions, reads at most about twice as many leaves) as a padded tree over the value's own content needs when subtrees of padding are taken from the precomputed zero hashes: in proportion to the content plus the depth of the trees, however large the limit, up to 2^64-1. Sizing, encoding, hashing and dry-checking a value allocate heap in proportion to the value's encoding, number of parts and number of hashes, never to a limit. However parts are nested, every operation visits each part at most about once per level of nesting above it, and building a definition consults the factory about once per part of the type; nothing grows exponentially with depth.",
 ["inputs", "programs", "configurations"], "all leaf counts x limits up to 2^64-1 x indices; all types x limits x values; all wrappings to a depth",
 "Tests compare results on small values; work that follows a limit or doubles with every level only shows at sizes and depths they do not have.",
 ["merkle/merkleize.go", "types/basic_series.go", "types/elem_var_size_series.go", "types/ssz_list.go", "types/ssz_bitlist.go", "types/ssz_container.go", "types/factory.go"], [("Merkleize with zero hashes for padding", "merkle/merkleize.go"), ("ConstructProof", "merkle/merkleize.go"), ("EncodeVarSeries", "types/elem_var_size_series.go")], ["merkle.Merkleize, ConstructProof", "zssz.HashTreeRoot, SigningRoot, Encode, SizeOf, DryCheck", "types.SSZFactoryFn"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
