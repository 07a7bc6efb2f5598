#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the list is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": list(observe), "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Index PIR returns exactly the requested element",
  "For every flat database and every row index in it, an honest run of the protocol (derive the common matrix from the public parameters, make fresh query parameters, generate a query, let the server respond, parse) succeeds and yields exactly the element stored in that row. This holds for the parsed row of plaintext chunks, for the parsed bytes and for the parsed base64 string alike, for every element size, chunk width, number of rows and LWE dimension whose noise fits the modulus.",
  ["inputs", "configurations"],
  "All databases (any number of rows >= 1, any element bit length >= 1 with elements of exactly ceil(bits/8) bytes whose unused high bits are zero), all plaintext widths for which the LWE noise stays below half a rounding step except with negligible probability, all LWE dimensions >= 1, all row indices, all client and server randomness.",
  "Two tests: 4096 x 256 bit at width 11, rows 0..9 only, random contents. Widths that divide the element size, sizes that are no multiple of 8, the last rows, all-ones/zero contents and rare random values (a wrap of the masked coordinate) are never sampled.",
  ["src/api.rs", "src/db/index.rs", "src/db/mod.rs", "src/utils.rs"],
  [("generate_query adds the rounding factor at the row", "src/api.rs: QueryParams<IndexDatabase>::generate_query"),
   ("rounding and reduction of the unmasked response", "src/api.rs: parse_resp_as_row"),
   ("row chunking and column storage", "src/db/index.rs: construct_row/construct_rows")],
  observe=["api::generate_index_query_params", "Shard::respond", "parse_resp_as_row/bytes/base64"])

p("P02", "Keyword PIR returns exactly the value stored under the queried key",
  "For every key-value database with distinct keys and every key stored in it, an honest run of the keyword protocol yields exactly the value stored under that key, as a row of chunks, as bytes and as base64. The answer does not depend on the order in which pairs were supplied, on what the other pairs hold, or on which of the construction entry points built the server.",
  ["inputs", "configurations"],
  "All sets of distinct keys (arbitrary strings, or arbitrary distinct 256-bit keys given directly, including structured ones), all values of the configured bit length, all plaintext widths >= 8 whose noise fits, all LWE dimensions >= 1, all client, server and filter randomness.",
  "One test with 4096 random keys, 256 bit values and width 11 queries ten keys; small databases, structured keys, other widths and sizes, and the base64/bytes parsers are never exercised, and the filter seed is drawn once.",
  ["src/api.rs", "src/db/kv.rs", "src/db/mod.rs", "bff-modp/src/bfusep32.rs", "bff-modp/src/prelude/bfusep.rs", "bff-modp/src/prelude/mod.rs"],
  [("three-position query indicator", "src/api.rs: QueryParams<KVDatabase>::generate_query"),
   ("per-column storage filters sharing one seed", "src/db/kv.rs: StorageFilters::from_kvs"),
   ("unmasking with the key fingerprint", "src/db/kv.rs: FilterParams::unmask_value")],
  observe=["api::generate_kv_query_params", "KVShard::respond", "parse_resp_as_row/bytes/base64"])

p("P03", "Query parameters produce at most one query",
  "Over every history of operations on a set of query-parameter objects, index or keyword, each object produces at most one query: once a query was generated from it, every later attempt (same or different target, also after the object was cloned, serialised and restored, or used to parse responses) is refused with the parameters-reused error and yields no query. A refused attempt has no effect on decoding: the first query's response still parses correctly.",
  ["histories", "inputs"],
  "All interleavings of create, generate query, clone, serialise/deserialise, parse response over any number of parameter objects of both kinds and any targets.",
  "One test tries the same row twice on one index object; keyword parameters, other targets, clones, restored copies and later parsing are not covered.",
  ["src/api.rs", "src/errors.rs"],
  [("the used flag, checked and set before the query is built", "src/api.rs: generate_query (both impls)")],
  state=[("used", "a query was generated from these parameters", "src/api.rs: QueryParams")],
  observe=["QueryParams::generate_query", "QueryParams.used"])

p("P04", "Queries are fresh LWE encryptions that hide the target",
  "Every query vector equals secret times public matrix plus error, plus the rounding factor at exactly the target positions (the row, or the key's three filter positions) and nothing elsewhere, where every coordinate of secret and error is drawn from {-1,0,1} uniformly, independently and freshly for each query-parameter object. The part that masks the target therefore never depends on the target, never repeats, and covers every coordinate; if the system's entropy source fails, no query is produced.",
  ["inputs", "configurations", "fault_sequences"],
  "All LWE dimensions, numbers of rows, targets and plaintext widths, all outputs of the random source including values at the rejection boundaries, and failure of the random source.",
  "Tests only look at decoded answers, which are correct (even more so) when the secret or the error is constant, zero, partly missing or reused; no test looks at a query's distribution.",
  ["src/utils.rs", "src/db/mod.rs", "src/api.rs"],
  [("rejection-sampled ternary values from the OS source", "src/utils.rs: random_ternary, random_ternary_vector"),
   ("s*A + e", "src/db/mod.rs: CommonParams::mult_left"),
   ("indicator placement", "src/api.rs: generate_query")],
  observe=["CommonParams::mult_left", "Query::as_slice"])

p("P05", "Decoding tolerates every noise below half a rounding step",
  "For every plaintext value, every mask and every noise of magnitude below half the rounding factor, positive or negative, parsing a response coordinate that carries that plaintext, mask and noise yields exactly the plaintext, in every coordinate of the response and for index and keyword parameters alike (for the latter after removing the key's mask, modulo the plaintext modulus).",
  ["inputs", "configurations"],
  "All plaintext widths from 1 to 31 bits (8 to 31 for keyword), all plaintext values, all masks and all noise values strictly inside half a step, in particular at its edges and where the sum wraps around the modulus.",
  "The tests see only the small noise that one parameter set happens to produce; the edges of the interval and wrap-around have vanishing probability there.",
  ["src/api.rs", "src/utils.rs", "src/db/kv.rs"],
  [("division, remainder and rounding", "src/api.rs: parse_resp_as_row (both impls)"),
   ("rounding factor and floor", "src/utils.rs: lwe")],
  observe=["parse_resp_as_row on crafted responses"])

p("P06", "Server responses are exact linear functions of the query",
  "For every query vector of the right length the server's response is exactly the product of that vector with the stored chunk matrix modulo 2^32, one coordinate per chunk column. Responding is deterministic, changes no state, and gives the same answer whatever was asked before and however many threads ask the same server at once.",
  ["inputs", "histories", "schedules"],
  "All query vectors of the database's length (honest or arbitrary, including extreme coordinates), all databases of both kinds, all sequences of requests and concurrent requests.",
  "Tests only decode a few honest queries; rounding hides small arithmetic errors, and nothing queries repeatedly, concurrently or with arbitrary vectors.",
  ["src/api.rs", "src/db/index.rs", "src/db/kv.rs", "src/utils.rs"],
  [("column-wise wrapping dot products", "src/utils.rs: vec_mult_u32_u32"),
   ("respond", "src/api.rs: Shard::respond, KVShard::respond")],
  observe=["Shard::respond", "KVShard::respond", "DatabaseMatrix::vec_mult"])

p("P07", "Public parameters commit to seed and database",
  "The common matrix is a deterministic function of the whole public seed and the advertised sizes (one row per database row, one column per LWE dimension), so that client and server derive the same pseudorandom matrix, and the public right-hand side is exactly that matrix times the stored chunks modulo 2^32. Every server instance draws a fresh seed, and the advertised sizes are those of the database.",
  ["inputs", "configurations"],
  "All databases of both kinds, all LWE dimensions, all seeds; pairs of instances and of seeds that differ in a single bit.",
  "Tests check only that decoding works for two parameter sets; a matrix that ignores part of the seed, repeats rows, or is shared between instances decodes just as well.",
  ["src/db/mod.rs", "src/db/index.rs", "src/db/kv.rs", "src/utils.rs"],
  [("seeded matrix expansion", "src/utils.rs: generate_lwe_matrix_from_seed"),
   ("A*DB", "src/db/mod.rs: BaseParams::generate_params_rhs"),
   ("mult_right / mult_left", "src/db/mod.rs")],
  observe=["CommonParams::from", "BaseParams::get_rhs", "get_public_seed", "get_total_records", "mult_right", "mult_left"])

p("P08", "Database ingestion is lossless and format-independent",
  "Loading a list of elements stores each of them completely: reading entry i back as base64, iterating over all rows, and the matrix exported to a file all describe exactly the supplied elements, in order. Loading the same elements from a JSON file, or with the matrix switched to the transposed format and back, gives the same database; the transposed matrix is the exact transpose.",
  ["inputs", "configurations"],
  "All lists of elements of the configured bit length, all element sizes and plaintext widths from 1 to 32 bits, and all element counts.",
  "No test reads entries back, iterates rows, exports, loads from file or switches format.",
  ["src/db/index.rs", "src/db/kv.rs", "src/api.rs", "src/utils.rs"],
  [("chunking", "src/db/index.rs: construct_row"), ("reassembly", "src/utils.rs: bytes_from_u32_slice"),
   ("transposition", "src/utils.rs: swap_matrix_fmt"), ("JSON loading", "src/api.rs: from_json_file; src/db/index.rs: from_file")],
  observe=["get_db_entry", "into_row_iter", "write_to_file", "get_row", "switch_fmt"])

p("P09", "A storage filter returns exactly the data stored under every key",
  "Whenever a mod-p binary fuse filter is built from distinct keys and data, retrieving any of the keys with the same label returns that key's data modulo p; so does summing the published fingerprints at the key's three positions and adding the key's fingerprint mask, which is what a remote client does. The three positions are distinct, lie inside the filter and do not depend on the label, and building never fails for all of many seeds.",
  ["inputs", "configurations"],
  "All sets of distinct 256-bit keys (random, sequential, structured, permuted words), all data, labels and seeds, all plaintext moduli from 256 to 2^32 for direct retrieval.",
  "The module's own tests are excluded as unstable and use one modulus, one label and random keys with four equal words; the protocol tests reach it through one configuration.",
  ["bff-modp/src/bfusep32.rs", "bff-modp/src/prelude/bfusep.rs", "bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/mod.rs"],
  [("peeling and fingerprint assignment", "bff-modp/src/prelude/bfusep.rs: bfusep_from_impl!"),
   ("key hashing", "bff-modp/src/prelude/mod.rs: mix256"),
   ("position derivation", "bff-modp/src/prelude/bfuse.rs: hash_of_hash")],
  observe=["BinaryFuseP32::{from_slice,from_vec,retrieve,hash_eval,get_key_fingerprint,get_fingerprints_mod}"])

p("P10", "Building a server or filter from valid input succeeds",
  "Building a keyword server from any non-empty set of distinct keys succeeds, whatever random seed is drawn first: an unlucky seed is replaced, not retried forever and not turned into a crash. Likewise an index server builds from any well-formed list, and the Xor and Binary Fuse set filters build from any set of distinct keys, the empty set included.",
  ["inputs", "configurations"],
  "All database sizes (one pair upwards), contents and widths, and all values of the random source; all key sets for the set filters.",
  "A test draws one seed per run, and whether construction fails depends on the seed: a few per cent of them fail.",
  ["src/db/kv.rs", "src/db/index.rs", "bff-modp/src/prelude/bfusep.rs", "bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/xor.rs"],
  [("seed choice and construction", "src/db/kv.rs: StorageFilters::from_kvs"),
   ("retry with new seeds", "bff-modp/src/prelude/bfuse.rs, xor.rs")],
  observe=["KVShard::new / from_base64_strings", "Shard::from_base64_strings", "TryFrom/From of the filters"])

p("P11", "Membership filters have no false negatives",
  "Every set filter of the library (Xor, Fuse and Binary Fuse with 8, 16 and 32 bit fingerprints, and the hashing proxy over any of them for any hashable key type), once built from a set of distinct keys, reports every one of those keys as contained. Building from a slice, a vector or a reference gives equally correct filters, and a Fuse filter that cannot be built for a key set reports an error instead of crashing.",
  ["inputs", "configurations"],
  "All sets of distinct 64-bit keys of any size (empty, tiny, large) and shape (sequential, clustered, sparse, extreme values, made up to collide inside the filter), all key types and hashers for the proxy, with and without randomised padding.",
  "The kept tests use one set of a million random keys for the 32-bit filters and the Xor proxies only; the 8- and 16-bit modules are excluded, and small or structured sets are never tried.",
  ["bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/fuse.rs", "bff-modp/src/prelude/xor.rs", "bff-modp/src/prelude/mod.rs", "bff-modp/src/hash_proxy.rs",
   "bff-modp/src/xor8.rs", "bff-modp/src/xor16.rs", "bff-modp/src/xor32.rs", "bff-modp/src/fuse8.rs", "bff-modp/src/fuse16.rs", "bff-modp/src/fuse32.rs", "bff-modp/src/bfuse8.rs", "bff-modp/src/bfuse16.rs", "bff-modp/src/bfuse32.rs"],
  [("peeling constructions", "bff-modp/src/prelude/*.rs"), ("hash proxy", "bff-modp/src/hash_proxy.rs")],
  observe=["Filter::contains"])

p("P12", "Filters keep their documented false-positive rate and size",
  "For keys outside the set, a filter with N-bit fingerprints answers 'contained' at a rate of about 2^-N and no more, whatever the shape of the stored and of the probed keys (short of probing keys made up by inverting the hash function). The number of fingerprints stays within the documented bits per entry at the documented set size, and the keyword server's matrix stays within a small constant factor of the number of pairs.",
  ["inputs", "configurations"],
  "All filter kinds, key sets and probe sets; sizes from small to the documented million keys.",
  "The kept tests measure the 32-bit variants on random keys only (and excluded tests compare against a threshold too close to the mean).",
  ["bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/fuse.rs", "bff-modp/src/prelude/xor.rs", "bff-modp/src/murmur3.rs", "bff-modp/src/prelude/mod.rs"],
  [("fingerprint and mixing", "bff-modp/src/prelude/mod.rs: mix, fingerprint!"), ("capacity formulas", "bff-modp/src/prelude/*.rs")],
  observe=["Filter::contains", "Filter::len", "DatabaseMatrix::get_matrix_height"])

p("P13", "Serialised artefacts behave identically after transfer",
  "Everything the parties exchange or store (server state, public parameters, common matrix, query parameters before and after use, queries, responses, key-value pairs, filter parameters and every filter) can be serialised and deserialised, in a binary and in a text format, and the restored object behaves exactly like the original: same answers, same decoding, same membership, same matrix. A server's response is itself a serialised response that every client can decode.",
  ["inputs", "histories", "configurations"],
  "All objects reachable in a protocol run of either kind, all points of the run at which they may be transferred, all filters and key sets.",
  "Tests deserialise only the response, in one format.",
  ["src/api.rs", "src/db/index.rs", "src/db/kv.rs", "src/db/mod.rs", "bff-modp/src/*.rs"],
  [("serde derives", "all listed types"), ("respond serialises with bincode", "src/api.rs: respond")],
  observe=["serde round trips through bincode and JSON"])

p("P14", "Bit, byte and base64 conversions are lossless inverses",
  "The public conversion helpers are exact: bytes to bits and back, integers to little-endian bits and back, and chunk rows back to bytes or base64 reproduce the original for every length and chunk width, including widths that divide the total length; only inputs wider than 32 bits are rejected, with an error. The key hash is the SHA-256 digest of the key as four little-endian words.",
  ["inputs"],
  "All byte strings, bit strings, integers, chunk widths from 1 to 32 and total lengths.",
  "The helpers have no tests of their own; the protocol tests pass through one width, 11, that does not divide the length.",
  ["src/utils.rs"],
  [("format helpers", "src/utils.rs: format")],
  observe=["api::{u32_to_bits_le,bits_to_bytes_le,bytes_to_bits_le,bits_to_u32_le,u32_sized_bytes_from_vec,bytes_from_u32_slice,base64_from_u32_slice,sha256_into_u64_sized}"])

p("P15", "Published parameters and databases survive being written to files",
  "Parameters written to a file by the server can be loaded from that file, and the loaded parameters are equivalent: same seed, sizes and right-hand side, and a client that uses them retrieves correct elements from the server that wrote them. Writing replaces whatever the target files held before, writes parameters and database to their own paths and changes no other file, and an unwritable path is reported as an error.",
  ["inputs", "histories", "configurations"],
  "All databases of both kinds, all sizes, all previous contents of the target files.",
  "No test writes or loads a file.",
  ["src/db/mod.rs", "src/db/index.rs", "src/db/kv.rs", "src/api.rs"],
  [("write_to_file", "src/db/mod.rs: BaseParams::write_to_file; src/api.rs"), ("load", "src/db/index.rs: IndexParams::load")],
  observe=["Shard::write_to_file", "KVShard::write_to_file", "IndexParams::load"])

p("P16", "Malformed input is answered with an error, not a crash or an answer",
  "Elements or values that are not base64, elements or values too short for the configured size, fewer elements than announced for an index database, differing numbers of keys and values, an empty list of pairs, a missing or malformed database or parameter file, a query whose length differs from the database, a row index outside the database, a common matrix of another size than the parameters announce, and a keyword response with too few chunks are all reported as errors by the fallible operation that receives them: it neither panics nor returns a result. The object that refused stays usable.",
  ["inputs", "fault_sequences"],
  "All malformed inputs of the listed kinds, at any position among otherwise well-formed inputs.",
  "The only negative tests are for parameter reuse and for filter construction.",
  ["src/api.rs", "src/db/index.rs", "src/db/kv.rs", "src/utils.rs", "src/errors.rs"],
  [("error propagation", "src/db/index.rs, src/db/kv.rs: construct_row(s); src/api.rs: from_json_file, respond, generate_query")],
  observe=["Result values of the public API"])

p("P17", "Run configuration is read faithfully from flags and environment",
  "Every parameter of a run (database height exponent, element size, plaintext bits, LWE dimension, and the offline and keyword switches) that is given through command-line flags or environment variables reaches the program with exactly the given value, each in its own field, and flags left out take their documented defaults. Unparsable, missing or unrepresentable values stop the run instead of being replaced.",
  ["inputs", "configurations"],
  "All combinations of present and absent flags (long and short) and of environment variables, all values.",
  "The helper crate has no tests.",
  ["pi-rs-cli-utils/src/lib.rs"],
  [("parse_cli_flags / parse_from_env", "pi-rs-cli-utils/src/lib.rs")],
  observe=["CLIFlags"])

p("P18", "Any key may be asked for without harm",
  "For every key whatsoever, stored or not, a keyword query can be generated, answered and parsed without failure, and the result has the configured number of chunks, each below the plaintext modulus. A query for an absent key looks like any other: it has the same length and touches exactly three distinct in-range positions, and the key positions computed by a client from the public parameters are those the server used.",
  ["inputs", "configurations"],
  "All keys (absent, extreme, structured, or near-copies of stored keys), all databases and widths.",
  "Tests only ask for stored random keys.",
  ["src/api.rs", "src/db/kv.rs", "bff-modp/src/prelude/bfuse.rs"],
  [("position derivation", "bff-modp/src/prelude/bfuse.rs: hash_of_hash"), ("KV parsing", "src/api.rs")],
  observe=["FilterParams::get_hash_evals", "QueryParams<KVDatabase>::generate_query", "parse_resp_as_row"])

p("P19", "The database generator writes what it is configured to write",
  "The data generation script writes a JSON list of exactly 2^e base64 strings, e being the configured number-of-entries exponent, each decoding to exactly the configured element size, all-ones when asked for all-ones and otherwise random and distinct, to the configured path; settings left out take the script's defaults (2^16 elements of 2^13 bytes, rand_db.json), and 'make gen-db' passes the configured values on. The file it writes loads as a database of that element size, and every element can be read back.",
  ["inputs", "configurations"],
  "All settings of its environment variables within memory limits.",
  "The script is not run by any test.",
  ["data/generate_db.py", "Makefile", "src/api.rs"],
  [("environment handling and output", "data/generate_db.py")],
  observe=["the written file", "Shard::from_json_file"])

p("P20", "Filters do not show which of their entries are in use",
  "With the default features, the entries of a Fuse, Binary Fuse or storage filter that no key decides are filled with fresh uniformly random values instead of zeroes. So the values of all entries are uniformly distributed, zero being no more frequent than any other, foreign keys whose own fingerprint is zero are reported at the nominal rate like all others, and the columns of a keyword server's matrix look uniform, differ from column to column and from build to build, whatever values the pairs hold.",
  ["inputs", "configurations"],
  "All distinct keys, sizes, filter kinds, stored data, moduli (for uniformity: powers of two) and builds.",
  "No test looks at the entries; the analysis tool prints them for a human to look at a plot.",
  ["bff-modp/src/prelude/mod.rs", "bff-modp/src/prelude/bfuse.rs", "bff-modp/src/prelude/bfusep.rs", "bff-modp/src/prelude/fuse.rs", "src/db/kv.rs"],
  [("filling of the entries", "bff-modp/src/prelude/mod.rs: make_fp_block"), ("documentation", "bff-modp/README.md: Uniform Random")],
  observe=["fingerprints", "BinaryFuseP32::get_fingerprints_mod", "KVDatabase::get_row"])

p("P21", "The form of messages depends on public parameters only",
  "A query is one 32-bit word per database row and a response one word per chunk of an element, besides a constant frame of the encoding: in the binary format the sizes of queries, responses, public parameters and common matrices depend on public parameters alone (rows, dimension, chunks), never on the row or key asked for, on the contents of the database or on earlier requests, and a query or response carries nothing but its words. This is the communication the scheme promises, and it leaves no side channel in the form of a message.",
  ["inputs", "histories", "configurations"],
  "All targets, contents, key strings, shapes and histories of both kinds of database.",
  "Only the benchmarks print sizes; no test looks at them.",
  ["src/api.rs", "src/db/index.rs", "src/db/kv.rs"],
  [("messages", "src/api.rs: Query, Response, generate_query, respond")],
  observe=["bincode sizes of Query, Response, BaseParams, CommonParams"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
