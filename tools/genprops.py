import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Iteration stops for good when the consumer stops",
 "When a consumer stops a range-over-function iteration of any sketch (theta, tuple, array-of-numbers, VarOpt and every other iterator the library returns), the iterator hands over no further element and returns. This holds at every stopping position, whatever the sketch's mode and size.",
 ["inputs","histories"],"every iterator the library returns, every sketch content, every position at which the consumer stops",
 "Tests break out of a few small sketches at one position; the stop position and the loop (of several per iterator) in which it falls are unbounded.",
 ["theta/compact_sketch.go","theta/wrapped_compact_sketch.go","theta/update_sketch.go","tuple/compact_sketch.go","tuple/arrayofnumbers_compact_sketch.go","sampling/varopt_items_sketch.go"],
 [("yield result tested before the next element","theta/*.All, tuple/*.All, sampling/VarOptItemsSketch.All")])
p("C02","Distinct sketches share no mutable library state",
 "No update, merge, query, encoding or decoding operation writes to data shared by the whole package, so sketches that were built separately can be used from different goroutines without synchronisation and never influence each other's results.",
 ["schedules","histories"],"every operation on every pair of separately built sketches, in every interleaving",
 "Tests run sketches one after another on one goroutine; a package-level buffer or table that is written during an operation only shows under particular interleavings or operation orders.",
 ["hll/","cpc/","theta/","tuple/","kll/","internal/","count/","filters/"],
 [("package-level tables are only written during initialisation","cpc/compression_data.go, hll/*tables.go, internal/*"),("no package-level scratch buffers","all packages")])
p("C03","Combining sketches never modifies the sketches being combined",
 "Merging, union, intersection, difference, similarity and ratio operations leave every sketch passed to them as an argument unchanged: the argument keeps its items, counters, threshold and configuration, and later updates of the combined object do not write into the argument.",
 ["inputs","histories"],"every combining operation, every pair of sketch states and modes, every later use of the combined object",
 "Tests compare results of merges, and re-check the argument only for a few modes; aliasing of an argument's storage shows only when the combined object is updated further.",
 ["theta/union.go","theta/intersection.go","theta/a_not_b.go","tuple/union.go","hll/union.go","cpc/cpc_union.go","kll/items_sketch.go","req/compactor.go","tdigest/double.go","frequencies/items_sketch.go","count/count_min_sketch.go","filters/bloom_filter.go","sampling/reservoir_items_union.go"],
 [("arguments are only read, or copied before they are stored","Update/Merge/Union/Intersect/AnotB of every package")])
p("C04","Queries and serialization leave the sketch's content unchanged",
 "Estimates, bounds, quantile and rank queries, membership queries, iteration, string rendering and serialization leave what a sketch represents unchanged; only caches and the internal arrangement of the same data may be touched. A query followed by any other operation gives what that operation would have given without the query.",
 ["histories","inputs"],"every read-only operation on every sketch type, interleaved anywhere in any history of updates and merges",
 "Tests query at the end of a history; interleaving queries anywhere in an arbitrary history cannot be enumerated.",
 ["hll/","cpc/","theta/","tuple/","kll/","req/","tdigest/","frequencies/","count/","filters/","sampling/"],
 [("query methods write no sketch field except the sorted-view, sort-order, compaction and bit-count caches","all packages")])
p("C05","Copies, results and decoded sketches own their storage",
 "A copy, compacted form, set-operation result, decoded sketch, returned item list or encoded byte slice shares no writable storage with the sketch or byte slice it came from, except for the explicitly documented zero-copy wrapper and raw-input entry points. Updating or resetting one never changes the other.",
 ["histories","inputs"],"every copying, compacting, result-producing, encoding and decoding operation, followed by any updates to either side",
 "Tests compare the two sides right after the operation; sharing shows only after particular later updates of one side.",
 ["theta/update_sketch.go","theta/compact_sketch.go","tuple/compact_sketch.go","hll/hll_array.go","hll/coupon_list.go","cpc/cpc_sketch.go","cpc/pair_table.go","sampling/reservoir_items_sketch.go","kll/items_sketch.go","common/quantiles/numeric_sorted_view.go","filters/bloom_filter_builder.go"],
 [("slices are copied into fresh storage","Copy/Compact/Result/ToSlice/FromSlice functions")])
p("C06","Sketches with different hash seeds are never combined",
 "Every operation that combines hashed sketches, and every decoder that is given an expected seed, compares seed fingerprints and reports an error on a mismatch for non-empty input (an intersection that is already empty, and a difference with an empty operand, combine nothing). On a mismatch nothing is merged: the receiving object is exactly as it was.",
 ["inputs","configurations"],"every pair of seeds and every theta, tuple, array-of-numbers, CPC, count-min and Bloom combining or decoding entry point",
 "Tests try one mismatching pair per operation and check only the error, not that every path (empty, exact, estimation, each serial version) is guarded before it mutates.",
 ["theta/union.go","theta/intersection.go","theta/a_not_b.go","theta/decoder.go","tuple/union.go","tuple/intersection.go","tuple/a_not_b.go","tuple/arrayofnumbers_union.go","tuple/decoder.go","cpc/cpc_union.go","cpc/cpc_sketch.go","count/count_min_sketch.go"],
 [("seed hash comparison before the first write","Update/Compute/Decode functions")])
p("C07","Decoding arbitrary bytes never panics",
 "Given any byte slice, every decoding function either returns a sketch or returns an error: it never indexes or slices outside its input or its own buffers because of what the bytes say. An image cut short by bytes that carry information is refused with an error.",
 ["inputs","fault_sequences"],"every byte slice, of every length and content, given to every decoding entry point",
 "Tests decode valid images and a handful of corrupted headers; the input space is all byte strings.",
 ["theta/decoder.go","tuple/decoder.go","tuple/arrayofnumbers_sketch_decoder.go","hll/hll_sketch.go","cpc/cpc_compressed_state.go","kll/items_sketch.go","frequencies/items_sketch.go","frequencies/longs_sketch.go","filters/bloom_filter_builder.go","sampling/varopt_items_sketch_decoder.go","sampling/reservoir_items_sketch.go","tdigest/double_decoder.go","count/count_min_sketch.go","common/item_sketch_string.go"],
 [("length of the input compared with the required size before each read","decoders of every package")])
p("C08","Compact theta bit packing is exact at every width",
 "For every entry width the compressed theta format supports, packing a block of values and unpacking it with the same width returns exactly the same values, for every value that fits the width, and packing fills exactly the advertised number of bytes. The block routines and the single-value routine produce the same bit layout.",
 ["inputs"],"every width from 1 to 63 and every combination of eight values of that width",
 "Tests use sampled values; a wrong shift or mask in one of thousands of unrolled expressions can matter only for particular bit patterns.",
 ["theta/bit_packing.go"],[("packBits1..63 / unpackBits1..63 and the width dispatch","theta/bit_packing.go")])
p("C09","Reset returns a sketch to its freshly constructed state",
 "After a reset, every part of the sketch that any update, merge or query can have changed is back to what the constructor of the same configuration sets: counters, extremes, thresholds, stored items, flags and caches.",
 ["histories"],"every history of updates, merges and queries followed by a reset, for every sketch and set operation that offers one",
 "Tests reset after one or two updates and look at one or two accessors; a field left over matters only in some modes or later operations.",
 ["theta/hashtable.go","theta/union.go","tuple/hashtable.go","tuple/union.go","hll/hll_sketch.go","hll/union.go","kll/items_sketch.go","req/sketch.go","frequencies/items_sketch.go","frequencies/longs_sketch.go","filters/bloom_filter.go","sampling/reservoir_items_sketch.go","sampling/varopt_items_sketch.go","sampling/varopt_items_union.go","cpc/cpc_sketch.go"],
 [("Reset assigns every mutable field","Reset methods")])
p("C10","Failures of writers, readers and helpers are always reported",
 "When a writer, a reader or an internal step reports an error during encoding, decoding, updating or merging, the operation that used it reports an error to its caller; no failure is dropped or turned into success.",
 ["fault_sequences","inputs"],"every call site that can fail, and every fault position in the writer or reader",
 "Tests use in-memory buffers that never fail; a dropped error needs a fault at one particular write, read or helper call.",
 ["theta/encoder.go","tuple/encoder.go","tdigest/double_encoder.go","count/count_min_sketch.go","sampling/varopt_items_sketch_encoder.go","cpc/","kll/","req/","hll/","frequencies/"],
 [("every error result is tested and returned","all packages")])
p("C11","Cached query structures never outlive the data they describe",
 "After any update, merge, reset or other change to a sketch, the next quantile, rank, distribution or bit-count query reflects the current content: a cached sorted view or count computed earlier is discarded or brought up to date on every path that changes the content.",
 ["histories"],"every interleaving of queries with updates, merges and resets for KLL, REQ, t-digest and Bloom filters",
 "A stale cache shows only if a query happened before a particular mutating path and another after it; tests sample few such interleavings.",
 ["kll/items_sketch.go","req/sketch.go","tdigest/double.go","filters/bloom_filter.go"],
 [("sorted view dropped after each mutation","kll, req"),("dirty flag or recount","filters"),("unmerged values compacted before queries","tdigest")])
p("C12","Every accepted update is counted exactly once",
 "Each item that an update or merge accepts increases the sketch's reported stream length or total weight by exactly its weight, on every path (growth, compaction, sampling, purge), and a rejected or ignored item changes neither the count nor the content. Minimum and maximum, where kept, take every accepted item into account.",
 ["histories","inputs"],"every update path and mode transition of KLL, REQ, t-digest, frequency, count-min, reservoir and VarOpt sketches",
 "Tests check N after simple streams; the paths taken depend on capacity, random choices and level structure.",
 ["kll/items_sketch.go","req/sketch.go","tdigest/double.go","frequencies/items_sketch.go","frequencies/longs_sketch.go","count/count_min_sketch.go","sampling/reservoir_items_sketch.go","sampling/varopt_items_sketch.go"],
 [("counter increment on every storing path","Update/Merge")])
p("C13","Constructors reject out-of-range configuration",
 "Every constructor and builder returns an error for a configuration parameter outside its documented range, including not-a-number for floating-point parameters, and never returns a usable sketch for it.",
 ["inputs","configurations"],"every value of every size, probability, accuracy, resize and shape parameter of every constructor",
 "Tests try one value beyond each end at most; off-by-one ranges and NaN need the exact value.",
 ["theta/update_sketch.go","theta/union.go","tuple/update_sketch.go","tuple/union.go","hll/hll_sketch.go","hll/union.go","cpc/cpc_sketch.go","cpc/cpc_union.go","kll/items_sketch.go","req/sketch.go","tdigest/double.go","frequencies/items_sketch.go","count/count_min_sketch.go","filters/bloom_filter_builder.go","sampling/reservoir_items_sketch.go","sampling/varopt_items_sketch.go"],
 [("range check before construction","New* functions")])
p("C14","Query arguments and empty sketches are rejected, not misread",
 "Quantile, rank, distribution and bound queries return an error for a rank outside [0,1] or not a number, for not-a-number items (REQ, t-digest) or split points that are not a number or not strictly increasing, and for quantile queries of an empty sketch; bound queries that report errors and whose result depends on a number of standard deviations return one when that number is outside 1 to 3. None of them answers such a call with a made-up value.",
 ["inputs"],"every floating-point argument, every number of standard deviations, every sketch state including empty",
 "Tests try a few bad values on a few methods; each query method and each special value is a separate case.",
 ["kll/items_sketch.go","kll/items_sketch_sorted_view.go","req/sketch.go","tdigest/double.go","common/quantiles/numeric_sorted_view.go","internal/quantiles/utils.go","internal/binomialbounds/binomialbounds.go","hll/","cpc/confidence.go"],
 [("argument checks before use","query methods")])
p("C15","Lookups use exactly the locations updates used",
 "For every accepted input type, the update, the query and the combined query-and-update operations of Bloom filters, count-min and frequency sketches derive the same storage locations from the same item, so an item that was added is always found: a Bloom filter has no false negatives and a frequency estimate never misses recorded weight.",
 ["inputs"],"every item of every supported type, including empty, zero, negative zero and not-a-number values",
 "Tests look up ordinary values; a difference in canonicalisation or indexing between the paths shows only for particular items.",
 ["filters/bloom_filter.go","filters/bit_array.go","count/count_min_sketch.go","frequencies/reverse_purge_item_hash_map.go","frequencies/reverse_purge_long_hash_map.go"],
 [("common hash and index derivation","Update*/Query*/QueryAndUpdate*, getHashes, hash-map probes")])
p("C16","CPC compression tables are mutually inverse codes",
 "Every symbol that the CPC compressor can emit has a unique prefix-free code and the decompressor's tables map exactly that code back to the same symbol and length, for every code table and column permutation; so decompression returns precisely what was compressed.",
 ["inputs"],"every symbol of every code table and every column permutation",
 "Tests compress samples of sketches; a wrong entry in one table matters only for sketches in the phase and column pattern that uses it.",
 ["cpc/compression_data.go","cpc/cpc_compressed_state.go","cpc/utils.go"],
 [("encoding tables, decoding tables and permutations","cpc/compression_data.go, cpc/utils.go")])
p("C17","Numeric lookup tables are complete and well ordered",
 "The tables used to turn internal state into estimates and bounds cover every configuration the sketches accept, have the required lengths, and are strictly ordered wherever interpolation or search relies on order, so that estimates are defined and grow with the observed state for every configuration.",
 ["configurations","inputs"],"every entry of every interpolation, coefficient, error and power table for every legal configuration",
 "Tests evaluate a few configurations and cardinalities; a wrong or missing entry matters only near it.",
 ["hll/composite_interpolation_xtables.go","hll/cubic_interpolation.go","hll/relative_error_tables.go","hll/harmonic_numbers.go","cpc/icon_polynomial_coefficient.go","cpc/confidence.go","kll/items_sketch.go","internal/binomialbounds/binomialbounds.go"],
 [("x tables strictly increasing; per-lgK rows","hll, cpc, kll, internal tables")])
p("C18","Retained hashes stay below a threshold that only falls",
 "In theta and tuple sketches and their set operations every retained hash is non-zero and below the current threshold at the time it is stored, results keep exactly the hashes of the documented set (union, intersection, difference, filtered part) that lie below their reported threshold, each with its own summary, and between resets the threshold never rises (only an intersection known to be empty reports the exact empty set). Hence every estimate divides a count of hashes by the sampling rate that really produced them.",
 ["histories","inputs"],"every history of updates and set operations on theta, tuple and array-of-numbers sketches",
 "Tests check estimates within statistical error, which hides single entries stored above the threshold.",
 ["theta/hashtable.go","theta/update_sketch.go","theta/union.go","theta/intersection.go","theta/a_not_b.go","tuple/hashtable.go","tuple/union.go","tuple/intersection.go","tuple/a_not_b.go","tuple/arrayofnumbers_union.go","tuple/arrayofnumbers_intersection.go","tuple/arrayofnumbers_a_not_b.go"],
 [("hash screened against theta before insertion","HashXxxAndScreen, set operations"),("theta only combined by minimum","hashtable, union, intersection")])
p("C19","Foreign, unsupported and inconsistent images are rejected",
 "Every decoder checks the family identifier and serial version stored in the image against the ones it supports and returns an error otherwise, and every encoder stores the identifier and version its own decoder accepts. No image of another sketch family is ever decoded as if it were one's own. The decoders of HLL, KLL, frequency, Bloom, count-min, t-digest and sampling formats also reject preamble sizes their format does not define.",
 ["inputs"],"every value of the identity bytes of the image for every decoder",
 "Tests corrupt one identity byte to one value for some decoders only.",
 ["theta/decoder.go","tuple/decoder.go","hll/","cpc/","kll/","frequencies/","filters/","sampling/","tdigest/","count/"],
 [("family and version comparison on every path to success","decoders")])
p("C20","Results depend only on the input unless sampling is the point",
 "Hash-based and deterministic sketches (theta, tuple, HLL, CPC, count-min, Bloom with explicit seed, frequency items) and all serialization give the same result for the same sequence of operations: no clock, random source, map iteration order or memory address influences them. Randomness is confined to KLL, REQ, reservoir and VarOpt sampling and to Bloom seed generation.",
 ["histories","schedules"],"every operation of the deterministic sketches, and every encoder",
 "A test run compares at most a few runs; dependence on map order or addresses varies from run to run.",
 ["theta/","tuple/","hll/","cpc/","count/","filters/","frequencies/","tdigest/"],
 [("no call path to random, time, or map iteration","call graph")])
p("C21","Incompatible sketches are refused before anything changes",
 "Merging or intersecting sketches whose shapes or modes cannot be combined (Bloom filter size, hash count and seed; count-min shape and seed; REQ accuracy mode; array-of-numbers value count) with a non-empty argument returns an error, and the receiver is then exactly as it was before the call.",
 ["configurations","histories"],"every pair of incompatible configurations of every mergeable sketch",
 "Tests check that an error is returned for one pair; they do not check every differing parameter nor that the receiver is untouched.",
 ["filters/bloom_filter.go","count/count_min_sketch.go","req/sketch.go","tuple/arrayofnumbers_union.go","tuple/arrayofnumbers_intersection.go"],
 [("compatibility comparison before the first write","Merge/Union/Intersect")])
p("C22","Hash-table probing always terminates",
 "Searching and inserting in the open-addressing tables of theta, tuple, HLL, CPC and frequency sketches visits every slot at most once per search and stops: the step is coprime to the table size or the wrap-around is detected, and tables always keep free slots before an insertion.",
 ["inputs","histories"],"every key and every table occupancy reachable by any history",
 "Tests cannot enumerate keys and occupancies; a probe cycle that misses slots shows only when particular slots are full.",
 ["theta/hashtable.go","tuple/hashtable.go","hll/coupon_hash_set.go","hll/aux_hash_map.go","cpc/pair_table.go","frequencies/reverse_purge_item_hash_map.go","frequencies/reverse_purge_long_hash_map.go"],
 [("odd stride, mask, wrap detection","find functions"),("growth before the load factor is exceeded","insert functions")])
p("C23","Encoders and decoders agree on where every field lives",
 "For every serialized format, the offset, width and meaning of each field written by the encoder are the offset, width and meaning with which the decoder reads it, for every variant of the format (empty, single, exact, full), and the flag bits they use coincide.",
 ["inputs","configurations"],"every field of every variant of every serialized format",
 "Round-trip tests cover variants the test data reaches and fields whose value differs from a default.",
 ["theta/encoder.go","theta/decoder.go","tuple/encoder.go","tuple/decoder.go","hll/preamble_utils.go","cpc/utils.go","kll/preamble_utils.go","frequencies/preamble_utils.go","filters/preamble_utils.go","sampling/","tdigest/"],
 [("shared offsets and masks","preamble utilities")])
p("C24","Sizes and counts are computed without wrap-around",
 "Arithmetic that determines sizes, capacities, offsets and item counts is carried out in a type wide enough for every legal configuration, so no legal parameter makes a size or count wrap around or be cut off.",
 ["configurations","inputs"],"every legal parameter value, in particular the largest ones",
 "Tests use small parameters; wrap-around needs values near the type limits.",
 ["kll/items_sketch.go","theta/compact_sketch.go","count/count_min_sketch.go","sampling/","hll/","cpc/"],
 [("widening before arithmetic","size and capacity computations")])
p("C25","Unions handle every mode and size combination explicitly",
 "For every combination of modes, types and sizes of union and input, HLL and CPC unions either merge the input completely or return an error; no combination is silently ignored or merged with the wrong method, and a union whose size shrinks is downsampled first.",
 ["configurations","histories"],"every combination of state and size of gadget and source",
 "Tests merge selected combinations; the case analysis has dozens of combinations, some reached only by particular histories.",
 ["hll/union.go","cpc/cpc_union.go"],[("exhaustive case analysis with an error default","hll/union.go, cpc/cpc_union.go")])
# ---- not applicable by static analysis
p("C70","Estimates are accurate within the advertised error",
 "Distinct-count, quantile, frequency and subset-sum estimates lie within the advertised error of the truth with the advertised probability, for every stream.",
 ["inputs","histories"],"all streams, all configurations","Statistical tests sample a few streams.",
 ["theta/","hll/","cpc/","kll/","req/","tdigest/","sampling/"],[("estimators","all packages")])
p("C71","Lower bound, estimate and upper bound are ordered",
 "For every reachable state the lower bound is at most the estimate and the estimate at most the upper bound.",
 ["histories"],"all reachable states","Tests sample states.",["hll/","cpc/","theta/","internal/binomialbounds/"],[("bound formulas","estimators")])
p("C72","Union does not depend on the order of its inputs",
 "Merging the same set of hash-based sketches in any order or grouping gives the same estimate as one sketch of the concatenated streams.",
 ["histories"],"all permutations and groupings","Tests try a few orders.",["theta/union.go","hll/union.go","cpc/cpc_union.go"],[("merge","unions")])
p("C73","Serialization round trips preserve the whole state",
 "Decoding what was encoded yields a sketch whose every later result equals the original's, for every reachable state.",
 ["histories"],"all reachable states","Tests round-trip samples.",["all packages"],[("encode/decode","all packages")])
p("C74","Images are interchangeable with the Java and C++ libraries",
 "Every image written here decodes to the same state in the Java and C++ libraries and vice versa.",
 ["inputs"],"all images","Tests use stored samples.",["all packages"],[("formats","all packages")])
p("C75","Sampling is unbiased",
 "Every stream item has the advertised inclusion probability in reservoir and VarOpt samples, through any sequence of merges.",
 ["histories"],"all streams and merge trees","Randomised tests sample.",["sampling/"],[("replacement rules","sampling/")])
p("C76","Retained space stays within the advertised bound",
 "The number of retained items of every sketch never exceeds its advertised capacity.",
 ["histories"],"all histories","Tests sample histories.",["kll/","req/","tdigest/","theta/"],[("compaction","all packages")])
p("C77","Total weight is conserved through compaction and merging",
 "The weights of the retained items of quantile sketches always add up to the number of items seen.",
 ["histories"],"all histories","Tests sample histories.",["kll/","req/","tdigest/"],[("compaction","kll, req, tdigest")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
