#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the tables below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EFF = "interprocedural effect and aliasing analysis over SSA"
SIM = "path-sensitive abstract interpretation of the SSA form (own interval, not-a-number, nilness and length facts; no solver)"
BITS = "dataflow over a bit-provenance lattice with constant propagation over the SSA form (no solver)"
CLAIMED = {
 "C07": (BITS, "Some 280 images (every variant of every serialized format, older versions, streams, wrapped images, HLL images read into a union and theta images packed into few bits) are laid out from the field tables with unknown contents; each is cut at every length, extended, and has each of its first 48 bytes and first 64 bytes' words replaced by some 30 byte values and 24 boundary words; two or more of the counts in the first 40 bytes are also replaced together (same sum, both at a limit, all grown alike). The decoder (for theta also the iterator of the result, for wrapped CPC images the estimates and bounds) is followed along every path: none may index, slice, convert or make outside what there is, or panic explicitly, and no image missing informative bytes may be accepted (of wrapped CPC images only the preamble is ever read, so they are exempt from that). A panic reached through a branch whose condition the domain cannot keep counts only when it is confirmed with the contents fixed to one of several patterns, and so does a cut image accepted there. Other combinations of corruptions, images above 600 bytes, and requests for much memory below the address space are outside the claim."),
 "C15": (BITS + ", with value numbering of hashes", "Each Bloom filter and count-min update form is interpreted with an unknown item (integers; strings and slices of several lengths; zeros, infinities, NaNs), then each lookup form: hash values are value-numbered functions of the bytes hashed, remainders by the (small) capacity are followed for every value, and the lookup must find the item on every path, also after merging. Frequency hash tables of 8 slots keep every entry with its (unknown) weight through every insertion order over four neighbouring home slots, every purge pattern and growth; sketch-level bounds are checked for a set of constant weight patterns. External hashes are taken as fixed functions of their input."),
 "C18": ("dataflow over a domain of order facts between unknown hashes and thresholds, over the SSA form (no solver)", "Updates, insertions, rebuilds, trimming, unions, intersections, differences, compaction, filtering and conversions are interpreted over sketches whose hashes and thresholds are unknown numbers; comparisons that the order facts leave open are followed both ways, so every relative order is covered. Sketches have up to three hashes and tables up to eight slots (k up to 4); larger ones rest on the same loops."),
 "C22": (BITS, "The search loops of the theta, tuple, HLL auxiliary, HLL set, CPC pair and frequency tables are interpreted over small tables whose slots are unknown but certainly neither free nor the key, for every start and stride (and every place of one free slot): slots read are distinct, cover the table and end in the documented outcome. Insertions with unknown entries leave a free slot at every size transition, and sizing functions give tables larger than what goes in. Tables up to 64 slots are interpreted; larger sizes rest on the same code with a larger mask."),
 "C09": (BITS, "Each object is made by interpreting its constructor under concrete configurations; every field that any function stores into an existing object, and every table element, is replaced by an unknown (in the first size and grown), the reset is interpreted along every path, and the result must equal, field by field and element by element, what the constructor makes. HLL sketches of every mode come from decoded images with unknown content. Configurations are enumerated (all resize factors, several k, sampling probabilities 1 and 0.5), fields holding the configuration are listed."),
 "C25": (BITS, "Every pair of sketches (HLL: list, set, 4/6/8-bit registers, lgK 4 to 9, out of order, above a non-zero minimum; CPC: sparse, hybrid, pinned, sliding, lgK 4 to 6) is merged by interpretation into unions of several sizes. The places of coupons and registers are known, their values only up to a bit, CPC hashes only up to row and column. The result must hold, slot by slot and bit by bit, the largest contribution (CPC: the folded set of rows and columns, with window, offset and first interesting column that fit it); an HLL merge may fail only where registers would have to be downsampled, and then leaves the union as it was."),
 "C23": (BITS, "For each variant of each serialized format (theta, tuple, array-of-numbers, KLL, frequencies, count-min, t-digest, bloom, reservoir, VarOpt, HLL, CPC; empty, single, exact, full, older versions; in memory and as a stream) an image is laid out from an independent field table with unknown bits in every field; decoder, accessors and encoder are interpreted along every path, and each accessor must return, and each byte written must hold, exactly the bits of the field the table names. Lengths and counts are fixed per variant; compressed CPC words and V4 theta deltas are opaque here (C08)."),
 "C19": (BITS, "Every decoder is followed along every path on images whose family, serial version or sketch type byte holds each unsupported value, all other bytes unknown, for ten image lengths up to 100 bytes; likewise the preamble size byte for the formats that define its values (HLL, KLL, frequency, Bloom, count-min, t-digest, sampling); every path must end in an error before the content matters. Images under 8 bytes may panic as far as this rule is concerned. The t-digest compatibility format (identity bytes all zero) is a supported identity."),
 "C17": ("dataflow over exact piecewise polynomials with rational coefficients and intervals, over the SSA form; positivity of derivatives by Bernstein coefficients (no solver)", "Every path of the listed estimators and bounds is followed for every legal size and number of standard deviations with the observed state unknown: table accesses stay in range, results are defined, interpolants join and strictly grow, error tables are ordered and near their theory, closed-form tables are exact. Rounding of float64 arithmetic on unknown values is not modelled; tables of measured constants are compared with theory within tolerances and with their neighbours."),
 "C16": (BITS, "Code and decode tables, inverse pairs and permutations are compared entry by entry; the window coder is shown to invert for every table and symbol at every fill level and code length of the stream; the pair coder and the flavors are interpreted with unknown row bits over a fixed family of configurations (every lgK, several coupon counts), so a fault confined to another configuration is outside the claim."),
 "C08": (BITS, "Exact for all values: every output bit of the block routines (all 63 widths) and of the single-value routines (all widths and bit offsets) is traced to the input bit it copies and compared with the layout; refused widths are covered completely. The whole compressed encoder, decoder and wrapped iterator are followed the same way for every width and 1 to 17 hashes (thorough: 48) plus counts whose stored number needs two and three bytes; other counts are not claimed for that last rule."),
 "C01": (SIM, "For every range-over-function iterator, in every loop position (arbitrary loop states), the path after the consumer answered false is followed to the end and must neither call the consumer again nor run forever; nested iterators are inlined."),
"C06": (SIM, "For every combining operation of theta, tuple, array-of-numbers, CPC, count-min and Bloom sketches: at every possible write to the receiver and at every successful return, on every path, the whole seed or fingerprint of the argument has been compared equal with the receiver's (or the seed parameter's); constructors keep the given seed and successful calls leave it in place; decoders return only sketches whose fingerprint is known to be that of the expected seed. Version 1 theta images carry no fingerprint. That equal fingerprints imply equal seeds is not claimed."),
 "C10": (SIM, "Decides for every function that can fail or calls something that can fail (helpers, writers, readers, deferred calls) that on each path an error that may be non-nil leaves as a non-nil error result; calls proven never to fail and sentinel lookups are excluded. Faults injected by the environment are modelled by leaving each error unknown. Estimator and display functions without an error result are exempt."),
 "C11": (SIM, "On every path of every mutating method of KLL, REQ and Bloom filters that writes other state, the cached view or count must be absent, marked stale, or recomputed from the stored words; queries must rebuild an absent view; sort flags are cleared after an append. The lazily rebuilt estimator of HLL unions is not covered."),
 "C02": (EFF, "Decides, for every exported function, that no store can reach package-level storage and none is handed out or kept; standard library calls are modelled by their documentation."),
 "C03": (EFF, "Decides that no store reaches argument sketches and that the receiver or result keeps no argument storage that is ever written in place; user callbacks are assumed to honour their contracts."),
 "C04": (EFF, "Decides that queries and encoders write nothing of the receiver or arguments but listed cache fields, sort rearrangement and t-digest compression (trusted as rearrangement)."),
"C21": (SIM, "For Bloom union and intersection, count-min merge, REQ merge and array-of-numbers union and intersection: every attribute that has to agree has been compared equal before any possible write to the receiver and before any successful return, on every path with a non-empty argument."),
 "C20": ("call-graph reachability over SSA with all implementations of interface calls and all mentioned function values", "Decides that no exported function outside the sampling sketches' updates and merges can reach a random generator, clock, environment read, order-dependent map iteration, address-as-number or goroutine. User-supplied callbacks and summaries are assumed deterministic."),
 "C12": (BITS, "Sequences of updates and merges that pass through every way of making room (growth, compaction, sampling, purge, heap and reservoir, unions in exact and sampling mode) are interpreted for KLL, REQ, t-digest, count-min, both frequency sketches, reservoir and VarOpt sketches and their unions, with random choices low, high and alternating; KLL and sampling items are unknown values of which only the order is known. After every step the reported length or total weight is the one before plus exactly what was accepted, retained weights add up to it (frequencies: the bounds hold the true weight), everything retained comes from the stream, minimum and maximum are those of the accepted items, and ignored, refused and overflowing operations change nothing."),
 "C24": (BITS, "Interprets, at the limits of their parameters, every constructor that sizes a table (count-min 3..2^31 buckets x 1..127 hashes, Bloom filters to the largest legal number of bits, theta/tuple tables lgK 5..26, t-digest and KLL k to 65535, sampling k to 2^31-2, frequency maps to 2^30; large arrays consist of the cells touched) and compares what is allocated, where the first items land and what is refused with unlimited arithmetic; evaluates every function that suggests or computes a size, capacity, flavor, offset or buffer length on a grid of legal parameters including the extremes; merges sketches with one another until lengths exceed 2^48..2^62 and compares reported lengths and weights; builds sketches of more than 2^16 entries and reads them back. Bounded by those parameters: not a proof for each arithmetic expression."),
 "C13": (SIM, "For each listed constructor or builder and each out-of-range region of a parameter, every path consistent with the region is shown to end in a non-nil error; loops are summarised by havoc, unknown calls are unconstrained."),
 "C14": (SIM, "For each listed query and each invalid argument region (and the empty state), every path consistent with it is shown to end in a non-nil error."),
 "C05": (EFF, "Decides aliasing of results, copies and decoded objects with sources and inputs; sharing of storage that nothing writes in place is accepted."),
}
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i}",
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet: a structural rule for it is planned (see DESIGN.md).")})
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
