#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

# ---------------------------------------------------------------- theta
prop("T01", "Theta update sketch retains exactly the smallest distinct hashes",
 "After any sequence of typed updates, trims and resets under any lgK, sampling probability, resize factor and seed, a Theta update sketch holds exactly the distinct canonical 63-bit MurmurHash3 values of the inputs that lie below its theta, where theta is set by the sampling probability and by keeping the k smallest hashes whenever the table fills. Its theta, retained count, emptiness, estimation-mode flag and compact forms all follow from that set, whatever the order or repetition of the inputs; values the API treats as equal (-0.0 and +0.0, all NaNs, a float32 and its float64 widening, integers of 8/16/32 signed bits with the same value, 32/64-bit unsigned and 64-bit signed integers with the same bits) hash alike, and different values hash differently.",
 ["inputs","histories","configurations"], "every update sequence x every (lgK, p, resize factor, seed)",
 "unit tests feed a handful of consecutive integers at one or two lgK values; they do not compare the retained set with a model or vary p, resize factor and seed together",
 ["theta/update_sketch.go","theta/hashtable.go","theta/utils.go","internal/quick_select.go"],
 [("hash table insert/rebuild/resize/trim","theta/hashtable.go"),("canonical hashing of typed inputs","theta/update_sketch.go")],
 "stateful model-based PBT against a KMV reference model",
 "Exploration: generated histories against an independent hash-set/k-th-smallest model with its own MurmurHash3 call; lgK 5..14 plus some larger.")
prop("T02", "Theta union, intersection and A-not-B compute exact set algebra below theta",
 "For any input sketches (update, compact ordered or unordered, wrapped, decoded; exact or estimating; any lgK; possibly empty), union, intersection and A-not-B return a sketch whose theta is the minimum that the operation requires (also capped by the union's own k and sampling probability) and whose retained hashes are exactly the union, intersection or difference of the inputs' hashes below that theta. The result does not depend on the operands' form or ordering flag, nor on operand order for union and intersection (except that an intersection found exactly empty stays exactly empty); the operands and earlier results are left unchanged, and operands with a different seed are rejected.",
 ["inputs","histories","configurations"], "every tuple of operand sketches x forms x operation sequences (stateful union/intersection)",
 "tests cover fixed half-overlapping ranges; not mixed thetas, forms, early-stop on ordered inputs, or repeated stateful use",
 ["theta/union.go","theta/intersection.go","theta/a_not_b.go","theta/hashtable.go"],
 [("union with early stop for ordered inputs","theta/union.go"),("intersection","theta/intersection.go"),("A-not-B","theta/a_not_b.go")],
 "model-based PBT: set algebra over (theta, hash set) pairs",
 "Exploration: generated operand tuples in all forms, exact comparison with a set model.")
prop("T03", "Theta serialization round-trips in every format and layout",
 "Encoding any compact Theta sketch (empty, single item, exact, estimating; ordered or not; uncompressed or compressed) and decoding or wrapping the bytes yields a sketch with the same theta, seed hash, emptiness, ordering and the same retained hashes in the same order, hence the same estimate and bounds. Slice and stream paths agree, reported serialized sizes equal the bytes written and never exceed the reported maximum for the lgK, the layout is the documented DataSketches one, a wrong seed is rejected, and legacy serial versions decode to the same sketch.",
 ["inputs","configurations"], "every compact sketch x every encoding x every decoding path",
 "tests round-trip a few sizes; compressed (delta bit-packed) encoding has 63 bit widths and tail blocks that a few samples do not reach",
 ["theta/encoder.go","theta/decoder.go","theta/bit_packing.go","theta/wrapped_compact_sketch.go","theta/compact_sketch.go"],
 [("delta bit packing for each width","theta/bit_packing.go"),("preamble layout","theta/encoder.go")],
 "round-trip PBT plus independent reference codec (v1-v4)",
 "Exploration: sketches built by hash-range manipulation so that every delta width 1..63 and every block remainder occurs; checked against an independent encoder/decoder.")
prop("T04", "Theta estimates and confidence bounds are exact, ordered and calibrated",
 "A Theta sketch not in estimation mode reports its distinct count exactly, with both bounds equal to it; otherwise the estimate is retained/theta and lower <= estimate <= upper, bounds widen as the number of standard deviations grows from 1 to 3, the lower bound is never below the retained count, and (in estimation mode) a standard-deviation argument outside 1..3 is an error. Over random data the true count falls outside the k-sigma bounds no more often than the confidence level allows, and bounds agree for every form of the same sketch.",
 ["inputs","configurations"], "every (theta, retained count) reachable x numStdDevs x sketch form",
 "tests check a few estimates within a loose margin; binomial bound tables have several regimes",
 ["theta/sketch.go","internal/binomialbounds/binomialbounds.go","theta/bounds_on_ratios_in_sampled_sets.go"],
 [("binomial bounds regimes","internal/binomialbounds/binomialbounds.go")],
 "PBT: analytic relations, independent tail-probability oracle, seeded coverage statistics",
 "Exploration: relations on every generated sketch, plus exact binomial tail comparison and coverage counts with negligible false-alarm probability.")
prop("T05", "Theta Jaccard similarity brackets the ratio computed from the operands",
 "For any two Theta sketches the Jaccard result is ordered (lower <= estimate <= upper, within [0,1]), symmetric in its operands, exactly 1 for identical sketches and 0 for disjoint ones, and equals |A and B| / |A or B| of the retained hashes below the common theta; when both sketches are exact the three values coincide with the true ratio. IsExactlyEqual, IsSimilar and IsDissimilar agree with those values and no operand is modified.",
 ["inputs"], "every pair of sketches (any lgK, theta, overlap, form)",
 "tests use a few fixed overlaps with tolerance",
 ["theta/jaccard_similarity.go","theta/bounds_on_ratios_in_sketched_sets.go","theta/bounds_on_ratios_in_sampled_sets.go","internal/binomialproportionsbounds/binomialproportionsbounds.go"],
 [("ratio bounds","theta/bounds_on_ratios_in_sketched_sets.go"),("union sized to avoid sampling","theta/jaccard_similarity.go")],
 "PBT against a set-model ratio",
 "Exploration over generated pairs.")
# ---------------------------------------------------------------- tuple
prop("U01", "Tuple update sketch keys follow Theta and summaries fold every kept update",
 "For any sequence of keyed updates, trims and resets, a Tuple update sketch retains exactly the hashes (and theta) that a Theta update sketch with the same parameters retains, and the summary of each key retained throughout is the fold of the update function over exactly the values supplied for that key, in order. Compacting, filtering and iterating preserve hash-summary pairs; filtering keeps exactly the entries whose summary satisfies the predicate.",
 ["inputs","histories","configurations"], "every keyed update sequence x configuration x summary type",
 "tests use sums over a few integers; a summary attached to the wrong hash during rebuild or resize is invisible to them",
 ["tuple/update_sketch.go","tuple/hashtable.go","tuple/compact_sketch.go","internal/quick_select.go"],
 [("entries moved with their summaries on resize/rebuild","tuple/hashtable.go")],
 "stateful model-based PBT (map of hash to value list)",
 "Exploration: order-sensitive summaries make any mis-association visible.")
prop("U02", "Tuple set operations merge summaries per policy without touching their inputs",
 "Tuple union, intersection and A-not-B return exactly the keys and theta that the Theta operations return on the same hashes; each result summary is the policy's combination of the operands' summaries in presentation order (for A-not-B, A's own summary). Neither the operands, nor earlier results, nor the operation's state as seen through other references change: results and operands share no mutable summary.",
 ["inputs","histories"], "every sequence of operands and result/reset calls x policies x summary types with reference semantics",
 "tests combine fresh sketches once with value-like summaries and never re-read the operands afterwards",
 ["tuple/union.go","tuple/intersection.go","tuple/a_not_b.go","tuple/arrayofnumbers_union.go","tuple/arrayofnumbers_intersection.go","tuple/jaccard_similarity.go"],
 [("summary merge policy application","tuple/union.go"),("clone on insert and on result","tuple/union.go")],
 "model-based PBT with reference-typed, order-sensitive summaries and aliasing detection",
 "Exploration: operand snapshots are compared before/after; results are mutated to detect sharing.")
prop("U03", "Tuple sketches of any summary type round-trip through serialization",
 "Encoding a compact Tuple sketch (any summary type with a matching reader/writer, including variable-length strings) and decoding it yields the same theta, seed hash, emptiness, ordering, hashes and summaries; streams and slices agree, data is laid out as documented, and a wrong seed, wrong sketch type or truncated input is an error.",
 ["inputs","configurations"], "every compact tuple sketch x summary type",
 "tests round-trip small int sketches only",
 ["tuple/encoder.go","tuple/decoder.go","tuple/arrayofstrings_sketch.go"],
 [("tuple wire layout","tuple/encoder.go")],
 "round-trip PBT plus reference decoder",
 "Exploration over generated sketches and summary types.")
prop("U04", "Array-of-numbers and array-of-strings sketches aggregate and round-trip exactly",
 "An array-of-numbers sketch retains, per key, the element-wise sum of every value vector supplied; its compact, union, intersection and A-not-B forms combine vectors element-wise by the given policy without modifying operands; union and intersection reject operands of another vector length. Array-of-numbers and array-of-strings sketches decode from their encodings to the same entries, and equal string-array keys always address the same entry.",
 ["inputs","histories","configurations"], "every update/set-operation history x vector length x number type",
 "tests use one or two columns and small integers",
 ["tuple/arrayofnumbers_update_sketch.go","tuple/arrayofnumbers_compact_sketch.go","tuple/arrayofnumbers_sketch_encoder.go","tuple/arrayofnumbers_sketch_decoder.go","tuple/arrayofnumbers_union.go","tuple/arrayofnumbers_intersection.go","tuple/arrayofnumbers_a_not_b.go","tuple/arrayofstrings_sketch.go"],
 [("vector summaries","tuple/arrayofnumbers_sketch.go"),("wire layout","tuple/arrayofnumbers_sketch_encoder.go")],
 "model-based PBT plus round-trip",
 "Exploration over vector lengths 1..8, float64/int types.")
# ---------------------------------------------------------------- KLL
prop("K01", "KLL conserves total weight, exact extremes and the multiset of retained items",
 "After any sequence of updates, merges (any k on either side, including self-sized, tiny and empty, the sketch itself included), resets and serialization round-trips, a KLL sketch reports N equal to the number of items presented, the exact minimum and maximum, and retained items that all come from the input and whose power-of-two weights sum exactly to N. While N is small enough that nothing was compacted every rank, quantile, PMF and CDF answer is exact, and merging leaves the source sketch unchanged.",
 ["inputs","histories","configurations"], "every update/merge/reset history x k x item type",
 "tests check N, min and max on sorted streams; conservation of weight across merges of unequal k and levels is not examined",
 ["kll/items_sketch.go","kll/utils.go"],
 [("compression and level bookkeeping","kll/items_sketch.go"),("general merge","kll/items_sketch.go")],
 "stateful model-based PBT against an exact multiset",
 "Exploration; conservation laws are exact, so no statistical slack is involved.")
prop("K02", "KLL rank error stays within the published normalized error",
 "For any input order and distribution and any sequence of merges, the rank a KLL sketch reports for any value differs from the true rank by more than the normalized rank error it publishes for its (smallest merged) k only with the small probability the guarantee allows, and is unbiased. The retained size stays within the capacity that k implies, so space does not grow linearly with the stream.",
 ["inputs","histories","configurations"], "every stream and merge tree x k",
 "tests check one ordered stream at k=200 with a fixed tolerance",
 ["kll/items_sketch.go","kll/utils.go"],
 [("randomized halving","kll/utils.go"),("level capacities","kll/items_sketch.go")],
 "statistical PBT: error distribution over many seeded sketches vs published epsilon",
 "Exploration; thresholds chosen so that a correct sketch fails with probability below 1e-9.")
prop("K03", "KLL rank, quantile, PMF, CDF and partition answers agree with the retained view",
 "For any sketch, ranks are monotone in the value and quantiles monotone in the rank (in the order the sketch was given, also when it does not tell some different items apart); rank, quantile, PMF and CDF equal what the sketch's own (item, weight) pairs imply under both inclusive and exclusive criteria, PMF sums to 1, bulk and single queries agree, and partition boundaries are consistent with quantiles. Queries never change later answers, and invalid ranks, unordered or duplicate split points and empty sketches give errors.",
 ["inputs","histories"], "every sketch x query argument x criterion x query order",
 "tests query a few exact sketches",
 ["kll/items_sketch.go","kll/items_sketch_sorted_view.go","kll/items_sketch_partition_boundaries.go","internal/inequality_search.go","internal/quantiles/utils.go"],
 [("sorted view","kll/items_sketch_sorted_view.go"),("inequality search","internal/inequality_search.go")],
 "PBT: oracle recomputed from the iterator's weighted items",
 "Exploration; all comparisons exact.")
prop("K04", "KLL serialization round-trips for every item type and state",
 "Serializing any KLL sketch (empty, single item, exact, estimating, merged; float64, float32, int64, string items including empty and multi-byte strings) and deserializing it gives a sketch with identical N, k, min, max, retained weighted items and answers, which keeps working as an operand or target of further updates and merges. The byte image has the size the sketch reports, re-serializes to the same bytes, and is accepted from the other language implementations.",
 ["inputs","configurations"], "every reachable sketch x item type",
 "tests round-trip a few sizes and never use empty strings or post-deserialization updates",
 ["kll/items_sketch.go","kll/items_sketch_validate.go","kll/preamble_utils.go","common/item_sketch_string.go","common/item_sketch_double.go"],
 [("compact image layouts","kll/preamble_utils.go"),("item serdes","common/item_sketch_string.go")],
 "round-trip PBT plus reference decoder",
 "Exploration over item types and histories.")
# ---------------------------------------------------------------- REQ
prop("R01", "REQ conserves weight and extremes and is exact at the accurate end",
 "After any updates, merges and resets a REQ sketch reports N as the number of non-NaN items presented, the exact minimum and maximum, and retained items drawn from the input whose weights sum to N. In high-rank-accuracy mode the ranks of the largest items (low-rank mode: the smallest) are exact, errors elsewhere are unbiased and of the order of the published rank standard deviations, and merging leaves the source unchanged.",
 ["inputs","histories","configurations"], "every update/merge/reset history x k x accuracy mode",
 "tests use ascending streams and one merge",
 ["req/sketch.go","req/compactor.go","req/utils.go"],
 [("compaction schedule and section growth","req/compactor.go"),("merge","req/sketch.go")],
 "stateful model-based PBT plus seeded error statistics",
 "Exploration; conservation and exact-end checks are deterministic.")
prop("R02", "REQ rank, quantile, PMF, CDF and bound answers agree with the retained view",
 "REQ ranks and quantiles are monotone, equal what the sketch's (item, weight) pairs imply under inclusive and exclusive criteria, PMF sums to one and CDF ends at one, lower bound <= rank <= upper bound and lower quantile <= quantile <= upper quantile with bounds widening with the number of standard deviations; queries never change later answers; quantile ranks outside [0,1], NaN or unordered split points, NaN or infinite rank arguments and empty sketches give errors.",
 ["inputs","histories"], "every sketch x argument x criterion",
 "tests query few values on ordered streams",
 ["req/sketch.go","internal/quantiles/sorted_view.go","internal/quantiles/utils.go","internal/inequality_search.go"],
 [("sorted view","internal/quantiles/sorted_view.go"),("rank bounds","req/sketch.go")],
 "PBT: oracle recomputed from retained weighted items",
 "Exploration.")
# ---------------------------------------------------------------- t-digest
prop("D01", "t-digest conserves weight, mass and exact extremes under update and merge",
 "After any sequence of updates, merges (any k, any sizes, before or after queries or decoding) and queries, a t-digest reports a total weight equal to the number of non-NaN values presented and exact minimum and maximum; its centroids' weights sum to the total, their weighted mean equals the data mean up to rounding, centroid means lie in order within [min, max], the smallest and the largest value are never averaged with others (the outermost centroids weigh 1), and the number of centroids stays bounded in terms of k. Merging leaves the source's answers unchanged.",
 ["inputs","histories","configurations"], "every update/merge/query history x k",
 "tests use uniform sequences and one merge",
 ["tdigest/double.go"],
 [("buffer compression and centroid merging","tdigest")],
 "stateful model-based PBT over wire images and API answers",
 "Exploration.")
prop("D02", "t-digest ranks and quantiles are monotone, bounded and accurate",
 "Rank is monotone in its argument, within [0,1], 0 below the minimum and 1 above the maximum; Quantile is monotone, within [min, max], returning the extremes at 0 and 1; PMF and CDF are consistent with Rank, small inputs (every centroid a single value) give exact mid-ranks, and for smooth data in any arrival order, merged in any way, rank error stays within the weight k allows a centroid at that rank, so it is tightest near the ends. Invalid arguments and empty digests are errors.",
 ["inputs","configurations"], "every digest x argument",
 "tests use uniform data at k=100 with tolerance",
 ["tdigest/double.go"], [("interpolation in Rank and Quantile","tdigest")],
 "PBT against exact empirical distribution with per-centroid error envelopes",
 "Exploration; error envelope derived from the centroid weights.")
prop("D03", "t-digest serialization round-trips with or without the buffer",
 "Encoding a t-digest with or without its unmerged buffer and decoding it yields a digest with the same k, total weight, min, max and the same answers, able to take further updates and merges; stream and slice codecs agree with each other and with the reported size, and the reference implementation's two legacy formats decode correctly; an image holding a value no digest can hold (NaN, infinite mean, zero weight) is rejected.",
 ["inputs","configurations"], "every digest x buffer option x codec",
 "tests round-trip 0, 1 and n values",
 ["tdigest/double_encoder.go","tdigest/double_decoder.go"], [("wire layout","tdigest/double_encoder.go")],
 "round-trip PBT plus reference codec",
 "Exploration.")
# ---------------------------------------------------------------- frequencies
prop("F01", "Frequent-items bounds always contain the true weight",
 "After any sequence of weighted updates, merges (any map sizes), resets and serialization round-trips, for every item ever seen or not seen the Longs and Items sketches report lower bound <= true total weight <= upper bound, with upper - lower no larger than the reported maximum error; the stream length is exactly the sum of all weights, and the maximum error is zero while the distinct items fit and never exceeds the published fraction of the stream length.",
 ["inputs","histories","configurations"], "every weighted stream and merge tree x map size",
 "tests use small fixed streams; purge, resize and merge interplay is not examined against truth",
 ["frequencies/longs_sketch.go","frequencies/items_sketch.go","frequencies/reverse_purge_long_hash_map.go","frequencies/reverse_purge_item_hash_map.go"],
 [("purge and offset accounting","frequencies/longs_sketch.go"),("hash map delete/shift","frequencies/reverse_purge_long_hash_map.go")],
 "stateful model-based PBT against exact counts",
 "Exploration; oracle is exact counting.")
prop("F02", "Frequent-items queries have no false positives or no false negatives as asked",
 "For every threshold, the no-false-negatives query returns every item whose true weight exceeds the threshold (at least the maximum error) and the no-false-positives query returns only items whose true weight is at least that threshold; each row's estimate, lower and upper bound equal the sketch's single-item answers, rows are unique and in descending order of estimate.",
 ["inputs","histories"], "every sketch x threshold x error type",
 "tests check one threshold on tiny streams",
 ["frequencies/longs_sketch.go","frequencies/items_sketch.go"],
 [("GetFrequentItems","frequencies/items_sketch.go")],
 "model-based PBT against exact counts",
 "Exploration.")
prop("F03", "Frequent-items sketches round-trip through bytes and strings",
 "Serializing a Longs sketch to bytes or string, or an Items sketch to bytes, and reading it back yields a sketch with the same stream length, maximum error, map capacity, active items and every bound, which continues to update and merge with the same guarantees; the byte image of a Longs sketch has the size it reports. The work is proportional to the number of counters.",
 ["inputs","configurations"], "every sketch state (empty, full, purged) x item type",
 "tests round-trip a few positive keys and never update afterwards",
 ["frequencies/longs_sketch.go","frequencies/items_sketch.go","frequencies/preamble_utils.go"],
 [("wire and string layout","frequencies/longs_sketch.go")],
 "round-trip PBT plus reference decoder",
 "Exploration.")
# ---------------------------------------------------------------- count-min
prop("C01", "Count-min estimates equal the minimum over its hashed counters",
 "For any sequence of weighted updates and merges, a count-min sketch's estimate for any item equals the minimum over its rows of the summed weights of all items hashing to the same bucket; with non-negative weights it is never below the true weight, lower bound <= estimate <= upper bound, and the total weight is exact. Merging equals having processed both streams, and merging incompatible sketches or a sketch with itself is an error that changes nothing.",
 ["inputs","histories","configurations"], "every stream x (hashes, buckets, seed)",
 "tests use few items and one shape",
 ["count/count_min_sketch.go"], [("row hashing and table update","count/count_min_sketch.go")],
 "model-based PBT: independent table reconstruction",
 "Exploration; exact comparison.")
prop("C02", "Count-min serialization round-trips and sizing suggestions meet their targets",
 "Serializing and deserializing a count-min sketch preserves total weight, shape and every estimate, and a wrong seed, a bad header or a truncated image is an error; suggested bucket and hash counts achieve the requested relative error and confidence.",
 ["inputs","configurations"], "every sketch and requested error/confidence",
 "tests round-trip one sketch",
 ["count/count_min_sketch.go"], [("Serialize/Deserialize","count/count_min_sketch.go")],
 "round-trip PBT plus reference decoder",
 "Exploration.")
# ---------------------------------------------------------------- bloom
prop("B01", "Bloom filters never give false negatives and set exactly the hashed bits",
 "For any sequence of typed inserts and query-and-updates, a Bloom filter answers true for every inserted value and its bit array is exactly the union of the k double-hashed positions of the inserted values; the set-bit count is exact, query-and-update returns the prior membership, equal values of different types that the API canonicalizes hash alike, and reset empties it. Filters sized by accuracy meet the requested false positive probability at capacity.",
 ["inputs","histories","configurations"], "every insert history x size x hashes x seed",
 "tests insert a few integers in one or two shapes",
 ["filters/bloom_filter.go","filters/bloom_filter_builder.go","filters/bit_array.go"],
 [("double hashing","filters"),("bit array operations","filters")],
 "stateful model-based PBT against an exact bit model",
 "Exploration; exact comparison through serialized image.")
prop("B02", "Bloom filter set operations and serialization act bitwise",
 "Union, intersect and invert are exactly bitwise or, and, not of the arrays (over the full capacity and nothing beyond it), require equal seed, hash count and capacity, and leave the other operand unchanged; serialization round-trips the exact bits, seed, counts and capacity in the documented layout.",
 ["inputs","histories","configurations"], "every pair of compatible filters and incompatible combinations",
 "tests use small fixed filters",
 ["filters/bloom_filter.go","filters/bit_array.go"],
 [("bitwise operations","filters/bit_array.go")],
 "model-based PBT plus reference codec",
 "Exploration.")
# ---------------------------------------------------------------- sampling
prop("S01", "Reservoir samples are uniform sub-multisets of the stream",
 "For any stream, update/copy/reset history and k, a reservoir sketch holds exactly min(n, k) items drawn without replacement from the stream, reports n exactly, keeps everything in order while n <= k, and includes each stream item with equal probability k/n; subset-sum estimates are bracketed by their bounds, exact while n <= k and unbiased. Copies are independent.",
 ["inputs","histories","configurations"], "every stream x k x resize factor",
 "tests check counts on integers; inclusion probability at each stream position is not examined",
 ["sampling/reservoir_items_sketch.go"], [("replacement step","sampling/reservoir_items_sketch.go")],
 "stateful PBT plus seeded inclusion-probability statistics",
 "Exploration; statistical thresholds at < 1e-9 false alarm.")
prop("S02", "Reservoir union preserves stream length, bounds k and stays uniform",
 "A reservoir union over any sequence of sketches, raw items and single updates yields a result whose n is the sum of the inputs' n, whose k never exceeds the union's maximum (and equals it while every input is exact), which holds min(n, k) samples, whose samples are a sub-multiset of the inputs' samples, and in which every original item is equally likely to survive. Inputs and caller-owned slices are not modified or retained.",
 ["inputs","histories","configurations"], "every union history x mixed k x modes",
 "tests merge two sketches",
 ["sampling/reservoir_items_union.go"], [("two-way merge by mode","sampling/reservoir_items_union.go")],
 "stateful PBT plus seeded inclusion statistics",
 "Exploration.")
prop("S03", "Reservoir sketches and unions round-trip through serialization",
 "Serializing and deserializing a reservoir sketch or union of any supported item type preserves k, n, resize factor and the samples in order, in the documented layout, and the result keeps sampling correctly when updated further; wrong families and versions are errors.",
 ["inputs","configurations"], "every sketch/union state x item type",
 "tests round-trip small int samples",
 ["sampling/reservoir_items_sketch.go","sampling/reservoir_items_union.go","sampling/reservoir_size.go"],
 [("wire layout","sampling/reservoir_items_sketch.go")],
 "round-trip PBT plus reference decoder",
 "Exploration.")
prop("V01", "VarOpt samples conserve total weight and keep heavy items exactly",
 "After any weighted stream, a VarOpt sketch holds min(n, k) distinct stream entries whose adjusted weights sum to the total input weight; every item heavier than the threshold is kept with its exact weight, all others carry the common threshold weight, none below it is reported heavier than that, and while n <= k every item is held with its own weight. Each lighter item is kept with probability weight/threshold. Non-positive, NaN or infinite weights are rejected without effect.",
 ["inputs","histories","configurations"], "every weighted stream x k x resize factor",
 "tests use few weight patterns",
 ["sampling/varopt_items_sketch.go"], [("heap/reservoir regions and threshold","sampling/varopt_items_sketch.go")],
 "stateful model-based PBT of VarOpt invariants",
 "Exploration; float tolerance 1e-9 relative.")
prop("V02", "VarOpt union and subset sums are unbiased and conserve weight",
 "A VarOpt union over any sequence of sketches and reservoirs yields a valid sketch of at most max-k items whose n and total weight equal the sums over its inputs, usable for further updates; subset-sum estimates are bracketed by their bounds, exact below k, and unbiased; inclusion of an item is proportional to its weight. Inputs are unchanged.",
 ["inputs","histories","configurations"], "every union history x k mix x weight distribution",
 "tests check few merges",
 ["sampling/varopt_items_union.go","sampling/varopt_items_sketch.go"], [("gadget resolution with marked items","sampling/varopt_items_union.go")],
 "stateful PBT plus seeded unbiasedness statistics",
 "Exploration; statistical thresholds at < 1e-9.")
prop("V03", "VarOpt sketches and unions round-trip through serialization",
 "Serializing and deserializing a VarOpt sketch or union in any mode preserves k, n, the items with their weights, and the total weight, reports the size written, and yields an object that accepts further updates and merges with the same guarantees; malformed counts, weights or families are errors.",
 ["inputs","configurations"], "every sketch/union state x item type",
 "tests round-trip without further updates",
 ["sampling/varopt_items_sketch_decoder.go","sampling/varopt_items_union_decoder.go"], [("wire layout","sampling")],
 "round-trip PBT plus reference decoder",
 "Exploration.")
# ---------------------------------------------------------------- HLL
prop("H01", "HLL sketch state is a function of the set of inputs, alike for HLL4, 6 and 8",
 "After any sequence of typed updates and resets at any lgK, an HLL sketch's content (coupons while small, then per-slot maximum values) is exactly what the set of distinct inputs determines, whatever their order or repetition, and identical across the HLL4, HLL6 and HLL8 target types, as are the estimate and bounds for the same input order. Converting between types, copying and compacting preserve content and estimates, and copies are independent.",
 ["inputs","histories","configurations"], "every update sequence x lgK x type x conversion",
 "tests use consecutive integers; HLL4 exceptions (aux map), curMin shifts and set growth are reached by few inputs",
 ["hll/hll_sketch.go","hll/hll_4update.go","hll/hll_4array.go","hll/hll_6array.go","hll/hll_8array.go","hll/aux_hash_map.go","hll/coupon_list.go","hll/coupon_hash_set.go"],
 [("HLL4 curMin/aux exceptions","hll/hll_4update.go"),("mode promotion","hll/coupon_list.go")],
 "model-based PBT: register-array reference model read back through the wire image",
 "Exploration; coupon crafting through hash search and decoded images reaches exceptions.")
prop("H02", "HLL union is the slot-wise maximum of its inputs at the smallest lgK",
 "An HLL union over any sequence of sketches (any lgK, type and mode, in any order) and direct updates, starting from any union maximum lgK, yields a sketch whose content equals that of one sketch fed the whole input at the smallest lgK involved (in HLL mode); it is commutative, associative and idempotent in content, its own estimate and bounds equal those of its result, results of every target type agree, and sources are unchanged.",
 ["inputs","histories","configurations"], "every union history x lgK mix x type mix x modes",
 "tests use equal lgK or a single difference with loose error bounds",
 ["hll/union.go"], [("mode/lgK case analysis","hll/union.go")],
 "stateful model-based PBT: register-wise maximum model",
 "Exploration.")
prop("H03", "HLL serialization round-trips in compact and updatable form",
 "Serializing any HLL sketch or union compactly or updatably and deserializing it preserves lgK, type, content, estimates, bounds and order-dependence, matches the documented layout, is detached from the byte slice it came from, and yields a sketch that continues to update and merge exactly as the original would.",
 ["inputs","configurations"], "every sketch state x type x form",
 "tests round-trip estimates only",
 ["hll/to_slice_impl.go","hll/preamble_utils.go","hll/hll_array.go","hll/coupon_hash_set.go"],
 [("image layouts","hll/to_slice_impl.go")],
 "round-trip PBT plus reference decoder",
 "Exploration.")
prop("H04", "HLL estimates are near-exact when small and calibrated when large",
 "For every HLL sketch the bounds widen from 1 to 3 standard deviations and enclose the estimate, except that the lower bound is raised to the number of non-zero slots or coupons, which it is never below; small counts are estimated near-exactly; over random data the in-order (HIP) and the composite estimator are unbiased and their relative error stays within the error published for that lgK at every cardinality; each bound lies the published number of standard errors from the estimate, so that it misses the true count about as often as that number says; and a sketch whose slots repeat another's twice stands for twice its estimate.",
 ["inputs","configurations"], "every cardinality and lgK, HIP and merged",
 "tests check one cardinality per lgK with loose tolerance",
 ["hll/hll_estimator.go","hll/composite_interpolation_xtables.go","hll/cubic_interpolation.go","hll/relative_error_tables.go","hll/harmonic_numbers.go"],
 [("composite estimator tables","hll/composite_interpolation_xtables.go")],
 "PBT with seeded error statistics over many trials and a metamorphic doubling relation",
 "Exploration; statistical thresholds at < 1e-9.")
# ---------------------------------------------------------------- CPC
prop("P01", "CPC sketch state is a function of the set of input coupons",
 "After any sequence of typed updates, at any lgK and seed, while the sketch holds fewer than 59 coupons per row on average (about 2^lgK * 2^55 distinct inputs), a CPC sketch holds exactly the distinct (row, column) coupons of its inputs across every internal phase, so its coupon count and matrix match those of any reordering or repetition of the inputs, and copies are independent and equal. Inputs the API treats as equal produce the same coupon.",
 ["inputs","histories","configurations"], "every update sequence x lgK x seed, across all phases",
 "tests stream consecutive integers and check estimates",
 ["cpc/cpc_sketch.go","cpc/pair_table.go","cpc/utils.go"], [("window moves and surprising values","cpc/cpc_sketch.go"),("pair table","cpc/pair_table.go")],
 "model-based PBT: coupon-set reference model",
 "Exploration; matrix observed through a union and through an independent decoder of the image.")
prop("P02", "CPC union is the bitwise union of its inputs at the smallest lgK",
 "A CPC union over any sequence of sketches (any lgK, any phase, any order) yields a sketch whose coupons are exactly the union of the inputs' coupons folded to the smallest lgK among the union's own and its non-empty sources'; the estimate depends only on that coupon count and lgK, sources and earlier results are unchanged, and a different seed is rejected without effect.",
 ["inputs","histories","configurations"], "every union history x lgK mix x phases",
 "tests union a few streams and check estimates",
 ["cpc/cpc_union.go","cpc/bit_matrix.go","cpc/utils.go"], [("union phase cases","cpc/cpc_union.go")],
 "stateful model-based PBT: bit-matrix reference model",
 "Exploration.")
prop("P03", "CPC compressed images decode to the identical sketch",
 "Serializing any CPC sketch in any phase (empty, sparse, hybrid, pinned, sliding; merged or not) and deserializing it yields the same lgK, coupons, estimate and bounds, re-serializes to identical bytes, keeps updating as the original would, and reads back the same through the read-only wrapper; a wrong seed or malformed header is an error.",
 ["inputs","configurations"], "every sketch phase x lgK x merge state",
 "tests round-trip few sizes",
 ["cpc/cpc_compressed_state.go","cpc/compression_data.go","cpc/utils.go","cpc/cpc_wrapper.go"],
 [("entropy coding tables","cpc/compression_data.go"),("pair/window compression","cpc/cpc_compressed_state.go")],
 "round-trip PBT plus independent decoder with reference tables",
 "Exploration.")
prop("P04", "CPC estimates and bounds are ordered, monotone and calibrated",
 "For every CPC sketch lower <= estimate <= upper, bounds widen from 1 to 3 standard deviations, the lower bound is never below the coupon count and the estimate is monotone in it for merged sketches; over random data the relative error of both the in-order and the merged estimator stays within the error published for lgK at every cardinality.",
 ["inputs","configurations"], "every coupon count and lgK, in-order and merged",
 "tests check few cardinalities",
 ["cpc/icon_estimator.go","cpc/icon_polynomial_coefficient.go","cpc/confidence.go","cpc/cpc_sketch.go"],
 [("ICON estimator","cpc/icon_estimator.go"),("HIP accumulation","cpc/cpc_sketch.go")],
 "PBT with independent ICON solver and seeded error statistics",
 "Exploration; statistical thresholds at < 1e-9.")
# ---------------------------------------------------------------- cross-cutting
prop("X01", "Decoders reject malformed cardinality-sketch images without panicking",
 "For any byte sequence whatsoever, in particular every truncation and corruption of a valid image, decoding as a Theta, Tuple, array-of-numbers, array-of-strings, HLL (sketch or union) or CPC image either returns an error or yields a sketch all of whose queries, re-encoding and use in set operations complete; it never panics, hangs or allocates memory out of proportion to the image. A proper prefix of a valid image is rejected or read as the same content, and decoding from a stream does not depend on how the stream delivers the bytes.",
 ["inputs","fault_sequences"], "every byte string, biased to truncations/mutations of valid images",
 "tests try a handful of wrong headers",
 ["theta/decoder.go","theta/wrapped_compact_sketch.go","tuple/decoder.go","tuple/arrayofnumbers_sketch_decoder.go","hll/hll_sketch.go","hll/union.go","cpc/cpc_sketch.go","cpc/cpc_compressed_state.go"],
 [("bounds checks before reads","theta/decoder.go")],
 "structured mutation fuzzing of decoders with post-decode exercise",
 "Exploration; deterministic generation, memory-capped worker.")
prop("X02", "Decoders reject malformed quantile, frequency, count, filter and sample images",
 "For any byte sequence whatsoever, in particular every truncation and corruption of a valid image, decoding as a KLL, t-digest, frequent-items, count-min, Bloom filter, reservoir or VarOpt image either returns an error or yields an object all of whose queries, re-encoding, further updates and merges complete; it never panics, hangs or allocates memory out of proportion to the image (except for the capacity that a valid empty count-min or Bloom image declares). A proper prefix of a valid image is rejected or read as the same content.",
 ["inputs","fault_sequences"], "every byte string, biased to truncations/mutations of valid images",
 "tests try a handful of wrong headers",
 ["kll/items_sketch_validate.go","kll/items_sketch.go","tdigest/double_decoder.go","frequencies/longs_sketch.go","frequencies/items_sketch.go","count/count_min_sketch.go","filters/bloom_filter.go","sampling/reservoir_items_sketch.go","sampling/reservoir_items_union.go"],
 [("bounds checks before reads","kll/items_sketch_validate.go")],
 "structured mutation fuzzing of decoders with post-decode exercise",
 "Exploration; deterministic generation, memory-capped worker.")
prop("G01", "Images from the other language implementations decode to the same content",
 "Every golden image written by the C++ and Java implementations (Theta plain and compressed, Tuple, array-of-numbers, array-of-strings, HLL 4/6/8, CPC, KLL, t-digest incl. reference formats, frequent items, Bloom, VarOpt, reservoir) decodes to a sketch whose retained content is what this library computes for, or what is implied by, the input stream the image was built from (equal numeric inputs give equal hashes across languages, so Theta, Tuple, HLL, CPC and Bloom content is identical); decoded images answer within the published guarantees, re-encode to the same content, and further updates, merges, unions and set operations with natively built sketches behave exactly as for the natively built equivalent.",
 ["inputs","configurations"], "every golden image x further merges and updates with generated data",
 "tests check estimates of decoded images within tolerance",
 ["theta/decoder.go","tuple/decoder.go","hll/hll_sketch.go","cpc/cpc_sketch.go","kll/items_sketch.go","tdigest/double_decoder.go","frequencies/longs_sketch.go","filters/bloom_filter.go","sampling/varopt_items_sketch_decoder.go"],
 [("wire layouts","theta/decoder.go")],
 "differential PBT against golden images and natively built sketches",
 "Exploration over the image files with generated follow-up operations.")
prop("Q01", "Reads, copies, results and decoded objects are independent and side-effect free",
 "No query, iteration, serialization, copy, compaction or result call on any sketch, union or filter changes any later answer of that object (beyond documented lazy compression); and no object produced from another (copy, compact, result, decoded from a caller's buffer, slices returned or supplied) shares mutable state with it, so later changes to one are never visible through the other.",
 ["histories","inputs"], "every interleaving of reads and writes on an object and objects derived from it",
 "tests read once and discard",
 ["theta/compact_sketch.go","tuple/compact_sketch.go","kll/items_sketch.go","req/sketch.go","hll/hll_sketch.go","cpc/cpc_sketch.go","sampling/reservoir_items_sketch.go","filters/bloom_filter.go","frequencies/longs_sketch.go"],
 [("defensive copies","hll/hll_sketch.go")],
 "stateful PBT: twin-run metamorphic relation (with reads vs without) and buffer scribbling",
 "Exploration.")
prop("E01", "Reset restores a fresh sketch and failed operations change nothing",
 "After Reset any updatable sketch, union or filter behaves on every later history exactly like a newly constructed one with the same parameters; and any operation that returns an error (invalid argument, incompatible seed, k or type, malformed input) leaves the receiver and its arguments answering exactly as before; parameters outside the documented ranges are rejected by every constructor.",
 ["histories","configurations","inputs"], "every history before reset x history after x rejected operation",
 "tests reset an object once and check emptiness only",
 ["theta/update_sketch.go","tuple/update_sketch.go","hll/hll_sketch.go","hll/union.go","kll/items_sketch.go","req/sketch.go","frequencies/longs_sketch.go","filters/bloom_filter.go","sampling/reservoir_items_sketch.go","sampling/varopt_items_sketch.go"],
 [("Reset methods","theta/update_sketch.go")],
 "stateful PBT: twin-run against a fresh instance",
 "Exploration.")
prop("E02", "Objects used from different goroutines never affect each other",
 "Distinct sketches, unions, filters and views used at the same time from different goroutines give exactly the answers they give when used one after another, also when they are of the same kind and seed: no mutable state is shared behind the API. Objects that cannot change (compact and wrapped theta sketches, compact tuple and array-of-numbers sketches, CPC wrappers, numeric sorted views) can be read, serialized and used as operands of set operations by several goroutines at once, with no data race and the same answers.",
 ["inputs","schedules","configurations"], "every mix of families, history and number of workers, under drawn schedules",
 "no test starts a goroutine",
 ["theta/compact_sketch.go","theta/wrapped_compact_sketch.go","tuple/compact_sketch.go","tuple/arrayofnumbers_compact_sketch.go","cpc/cpc_wrapper.go","common/quantiles/numeric_sorted_view.go","internal/murmur3.go"],
 [("package-level state","internal/murmur3.go")],
 "PBT over concurrent histories: comparison with the sequential run, race detector on",
 "Exploration; schedules are those the Go scheduler happens to choose, the race detector covers accesses that did not collide.")
prop("A01", "Item serializers, hashers and comparators agree with their published encodings",
 "The shared item serializers (float64, float32, int64, string) write exactly the documented little-endian encodings, one item or many alike, report exactly the size they write, read back bit for bit what was written from any offset inside a larger buffer, reject truncated or out-of-range input with an error, and do not modify their inputs; the hashers give equal items equal hashes as published, and the comparators are the strict order of the items or its reverse.",
 ["inputs"], "every list of items of the four types, at every offset and truncation",
 "tests serialize a few short lists at offset 0",
 ["common/item_sketch_double.go","common/item_sketch_float.go","common/item_sketch_long.go","common/item_sketch_string.go"],
 [("bounds checks and fixed-width encodings","common/item_sketch_string.go")],
 "round-trip and differential PBT against an independent codec",
 "Exploration.")
prop("A02", "Numeric sorted views answer rank and quantile queries as defined by their items",
 "A numeric sorted view built from any sorted list of weighted items (float64, float32, int64; duplicates, extremes, an unretained minimum or maximum) answers every rank query with the exact weight fraction at or below (or below) the value, every quantile query with the item that the inclusive or exclusive definition selects, CDF and PMF with the matching sums, and its iterator with every item, weight and normalized rank in order; arguments outside the domain are rejected.",
 ["inputs"], "every weighted list x every query point and mode",
 "tests use a handful of short lists",
 ["common/quantiles/numeric_sorted_view.go","common/quantiles/numeric_sorted_view_iterator.go"],
 [("binary search by inequality","common/quantiles/numeric_sorted_view.go")],
 "model-based PBT against an exact reference",
 "Exploration.")
prop("A03", "Convenience forms, defaults, policies and lazy iterators mean what is documented",
 "Constructors 'with default' behave on every stream exactly like the general constructor with the documented parameters; OrderedResult equals Result(true) for every theta, tuple and array-of-numbers set operation; a set operation keeps the policy it was given, and a theta intersection tells it of every matched entry exactly once; a sketch compared with itself is equal with Jaccard index 1; nil items are ignored; an iteration stopped early, repeated or interleaved with another yields a prefix of the same sequence and changes nothing; published error parameters, power-of-two and geometric series helpers and the CPC coupon matrix equal their definitions.",
 ["inputs","histories","configurations"], "every stream, operand list, stopping point and helper argument",
 "tests rarely call these forms and never stop an iterator early",
 ["theta/union.go","theta/intersection.go","tuple/union.go","tuple/intersection.go","tuple/arrayofnumbers_union.go","tuple/arrayofnumbers_intersection.go","tuple/compact_sketch.go","theta/wrapped_compact_sketch.go","cpc/cpc_sketch.go","cpc/bit_matrix.go","hll/union.go","kll/items_sketch.go","filters/bloom_filter_builder.go","frequencies/longs_sketch.go","sampling/reservoir_items_union.go","sampling/varopt_items_sketch.go","common/utils.go"],
 [("early return of range-over-func iterators","theta/wrapped_compact_sketch.go")],
 "differential and metamorphic PBT",
 "Exploration.")

prop("A04", "Stream encoders and decoders report every failure of their streams",
 "For every encoder and decoder over an io.Writer or io.Reader (Theta plain and compressed, Tuple, array-of-numbers, array-of-strings, t-digest with and without its buffer, VarOpt sketch and union, count-min): when a write fails at any byte, once or from then on, encoding returns an error, what was written before is a prefix of the image, and the object is unchanged, so that encoding it again gives the whole image; when a read fails at any byte, once or from then on, decoding returns an error; and when the caller's own summary writer or reader fails for any entry, so does the whole call, while otherwise it is called exactly once per entry.",
 ["inputs","fault_sequences","configurations"], "every sketch content, fault position and kind of fault",
 "tests only use in-memory streams that never fail",
 ["theta/encoder.go","theta/decoder.go","tuple/encoder.go","tuple/decoder.go","tuple/arrayofnumbers_sketch_encoder.go","tuple/arrayofnumbers_sketch_decoder.go","tuple/arrayofstrings_sketch.go","tdigest/double_encoder.go","tdigest/double_decoder.go","sampling/varopt_items_sketch_encoder.go","sampling/varopt_items_union_encoder.go","count/count_min_sketch.go"],
 [("each binary.Write and its error","tdigest/double_encoder.go")],
 "fault-injection PBT",
 "Exploration.")

def main():
    # property list
    claimed = None
    cf = os.path.join(ROOT, "spec", "claimed.txt")
    claimed = set(open(cf).read().split()) if os.path.exists(cf) else set()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            for fl in p["files"]:
                if not os.path.exists("/repo/" + fl): print("missing anchor", p["id"], fl)
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in claimed:
            m["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/run.sh " + p["id"],
              "thorough_cmd": "VERIF_TIER=thorough bash /verif/run.sh " + p["id"],
              "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
