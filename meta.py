#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.abspath(__file__))
G = "rust-src/src/gridstore/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [f if "/" in f else G + f for f in files],
         "mechanism": [{"name": n, "where": (w if "/" in w else G + w)} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": G + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A store returns exactly the entries that were put in, best first",
  "After a builder finishes, looking up a key gives each distinct entry that was put in under it exactly once, with its relevance level (0.4, 0.6, 0.8 or 1), score (lowest 4 bits), coordinates, id (lowest 24 bits) and source-phrase hash as given. They come in descending order of relevance, then score, then position on the z-order curve, then id, then hash. Adding an entry twice, or in another order, makes no difference.",
  ["inputs"], "every list of entries: every value of every field, every way entries share relevance, score, coordinates or ids, and every size of the resulting record",
  "The tests store a handful of hand-written lists; how entries are grouped, shared, delta-sorted and sized depends on the whole list.",
  ["builder.rs", "store.rs", "gridstore_format.rs", "common.rs"],
  [("GridStoreBuilder::insert/append/compact_append, extend_entries", "builder.rs"), ("get_db_data", "builder.rs"), ("decode_value", "store.rs")],
  observe=["GridStore::get", "GridStore::iter"])
prop("C02", "Every sequence of builder calls yields the store it describes",
  "For every sequence of insert, append, compact_append, renumber and load_bin_boundaries calls on a builder, the finished store holds exactly what those calls describe: insert replaces a key's entries, append and compact_append add to them, renumber moves every key to the phrase id its table gives, keeping languages and entries. A key whose list of entries is empty is still a key. A renumber that cannot be done (a phrase id the table lacks, or two keys that would become one) reports an error and leaves everything as it was.",
  ["histories", "inputs"], "every sequence of builder calls on any keys, with any entries and any renumbering table, up to a depth",
  "The tests run two or three fixed sequences; they never build after a failed call, renumber twice, or append after a renumbering.",
  ["builder.rs"], [("GridStoreBuilder", "builder.rs"), ("copy_entries", "builder.rs"), ("renumber", "builder.rs")],
  observe=["GridStore::get", "GridStore::keys", "GridStore::iter"])
prop("C03", "A store lists and finds exactly its own keys, in order",
  "keys() and iter() list exactly the keys put in, each once, in ascending order of phrase id, and get() finds exactly those keys and no others. This holds for every phrase id and every language set, including no language and all languages, alone or together, and whether or not the store has prefix bins. Listing and looking up give the same entries.",
  ["inputs"], "every set of keys: phrase ids over the whole 32-bit range, language sets over the whole 128-bit range",
  "Keys have a variable-length encoding in which one key can be a prefix of another; the tests use a few small phrase ids and language sets.",
  ["common.rs", "store.rs", "builder.rs"], [("GridKey::write_to", "common.rs"), ("GridStore::keys, iter, get", "store.rs")],
  observe=["GridStore::keys", "GridStore::iter", "GridStore::get"])
prop("C04", "Records read back as written, whatever their shape and size",
  "Whatever a record holds, each of its lists reads back with the same length and the same values in the same order, one after another or by index. This holds for every length of the lists, every distance between the parts of a record, and every combination of such distances within one list, whether or not equal lists are stored once.",
  ["inputs"], "every record: the number of groups, coordinates and ids, and all the distances between the parts, over all the lengths at which lengths and offsets take one more byte",
  "The tests read records of a few bytes; encodings change at 2^7, 2^8, 2^14, 2^16, 2^21 and 2^24 bytes, in combinations.",
  ["gridstore_format.rs"], [("Writer", "gridstore_format.rs"), ("Reader, read_var_vec_raw, read_uniform_vec_raw, read_fixed_vec_raw", "gridstore_format.rs")],
  observe=["GridStore::get", "the record reader (hook)"], hook="carmen_verif: verif_hooks::format re-exports the private record format")
prop("C05", "Prefix bins never change what a range query finds",
  "For every list of bin boundaries in ascending order, every range of phrase ids and every language, a query on a store built with these boundaries finds the same set of matches as on a store built without any. This holds for boundaries below, between and above the stored phrase ids, and for phrases outside every bin. The boundaries a store reports are the ones it was built with.",
  ["configurations", "inputs"], "every list of boundaries, every content, every range and language of the query",
  "The tests build one content with one list of boundaries and query a few ranges.",
  ["builder.rs", "store.rs", "common.rs"], [("GridStoreBuilder::finish (bins)", "builder.rs"), ("streaming_get_matching (choice of prefix bins)", "store.rs")],
  observe=["GridStore::streaming_get_matching", "GridStore::bin_boundaries"])
prop("C06", "A crash while a store is written never makes it show wrong data",
  "If the process dies at any point of finish(), the store that is left opens, shows every key with all of its entries or not at all, and answers range queries with exactly the matches of the keys it shows. Once finish() has returned, everything is there. Building the same store again at the same path always ends in the complete store.",
  ["crash_points", "inputs"], "every crash point between the storage operations of finish(), for every content and list of boundaries; also a second crash while rebuilding",
  "No test kills a builder; the order in which data, bins and boundaries are written matters only then.",
  ["builder.rs", "store.rs"], [("GridStoreBuilder::finish", "builder.rs"), ("GridStore::new (bin boundaries)", "store.rs")],
  observe=["GridStore::new", "GridStore::get", "GridStore::iter", "GridStore::streaming_get_matching"])
prop("C07", "A storage failure is reported, never turned into a panic or wrong data",
  "If any single operation of the underlying storage fails while a store is written, finish() returns an error, and if it happens while a store is opened or read, that call returns an error or lists an error. No such failure causes a panic, makes the call report success with wrong data, or makes a different key or entry appear. Opening a path that holds no store is an error.",
  ["fault_sequences", "inputs"], "every single failing storage operation of every build, opening, lookup, listing and query over a set of stores",
  "No test injects a failure.",
  ["builder.rs", "store.rs"], [("error propagation with ?", "builder.rs"), ("error propagation with ?", "store.rs")],
  observe=["the Result of each call"])
prop("C08", "A query selects exactly the asked-for phrases, with the right language flag",
  "A query for a phrase id, or for a range of ids (start included, end not), returns matches from exactly the stored keys with such a phrase id. A match is flagged as matching the language exactly if its key's language set is all languages or shares a language with the query's; its relevance is multiplied by 0.96 if it does not (and is not near the proximity point).",
  ["inputs"], "every set of keys, every phrase id or range, every language set of the query",
  "The tests query a few keys with a few language sets; none queries the edges of the 32-bit and 128-bit ranges.",
  ["store.rs", "common.rs"], [("streaming_get_matching", "store.rs"), ("GridKey::write_to, matches_key, matches_language", "common.rs")],
  observe=["GridStore::streaming_get_matching"])
prop("C09", "A bounding box keeps exactly the matches inside it",
  "A query with a bounding box returns exactly the matches the query without it would return and whose coordinates lie inside the box, edges included. A box whose minimum lies beyond its maximum contains nothing and gives no matches, not an error. Distances, relevances and flags of the matches do not depend on the box.",
  ["inputs"], "every set of coordinates and every box over the 16-bit plane, with or without a proximity point",
  "The search walks a sorted list along the z-order curve and jumps; which jumps happen depends on the pattern of all coordinates. The tests use a few boxes.",
  ["spatial.rs", "store.rs"], [("bbox_filter, bbox_range, bbox_proximity_filter", "spatial.rs"), ("streaming_get_matching", "store.rs")],
  observe=["GridStore::streaming_get_matching"])
prop("C10", "Proximity adds the right distances and scores, and drops nothing",
  "With a proximity point a query returns the same matches as without it, each with its Euclidean distance in tiles. Its combined score is (6*exp(score-7)+1) divided by the smaller of 1 and distance/radius, a distance below 1 counting as 0.8 and a score above 7 as 7; the radius in tiles follows from the store's radius in miles and the zoom (32 tiles for 40 miles at zoom 14, 1.5 times per level, level 6 at least). It never grows with distance, never shrinks with the score, and a match within the radius is not penalised for its language.",
  ["inputs"], "every proximity point, set of coordinates, score, zoom and radius",
  "The tests check a few distances at one zoom.",
  ["spatial.rs", "store.rs"], [("proximity, tile_dist, scoredist, proximity_radius", "spatial.rs"), ("streaming_get_matching", "store.rs")],
  observe=["GridStore::streaming_get_matching"])
prop("C11", "Matches come best first, and a bounded query loses none of the best",
  "Without a proximity point, the matches of a query come in descending order of relevance and, among equals, of score, however they are spread over keys and whichever box applies. A query with a bound of n returns only real matches, none more often than it exists, and its first n (or all, if there are fewer) are as good as the n best there are. With a bound no smaller than the number of keys, nothing is missing.",
  ["inputs"], "every distribution of relevances and scores over keys, and every bound",
  "The tests look at streams of a few entries; merging several keys through a bounded heap depends on all of them.",
  ["store.rs", "common.rs"], [("streaming_get_matching (bounded heap of per-key streams)", "store.rs"), ("QueueElement ordering", "store.rs")],
  observe=["GridStore::streaming_get_matching"])
prop("C12", "Query options move between zooms to the tiles they describe",
  "Adjusting a query to another zoom keeps a bounding box covering exactly the tiles that the box covers at that zoom (all children when zooming in, the parents that contain it when zooming out). A proximity point moves to the tile that contains it when zooming out, and to the top left of the four middle children when zooming in. This holds for all zooms from 0 to 16 and all tiles of them, and adjusting to the same zoom changes nothing.",
  ["inputs"], "every pair of zooms from 0 to 16, every tile and box",
  "The tests adjust a dozen points and boxes; the arithmetic overflows only at the edges of the world and the far ends of the zoom range.",
  ["common.rs", "spatial.rs"], [("MatchOpts::adjust_to_zoom", "common.rs"), ("adjust_bbox_zoom", "spatial.rs")],
  observe=["MatchOpts::adjust_to_zoom", "spatial::adjust_bbox_zoom"])
prop("C13", "Nearby-only means within the nearby distance, cut by the box",
  "Restricting a query to what is nearby gives a box that contains every tile of the world within the nearby distance (25 miles, rounded up to whole tiles at the equator) of the proximity point along both axes, and no tile farther, intersected with the box the query had. If nothing is left, no match is returned. Without a proximity point the query stays as it is.",
  ["inputs"], "every zoom, proximity point and box",
  "The tests check four points in the middle of the world.",
  ["common.rs"], [("MatchOpts::with_nearby_only", "common.rs")], observe=["MatchOpts::with_nearby_only", "GridStore::streaming_get_matching"])
prop("C14", "Results stay valid however iterators and stores are interleaved",
  "An iterator over a lookup, a listing or a query gives the same results however its steps are interleaved with other iterators, with new queries, and with dropping the store handle it came from. Nothing it returns depends on memory that has been released. Several handles on one store do not influence each other.",
  ["histories"], "every interleaving of steps of several iterators, of opening and of dropping handles, up to a depth",
  "Iterators hold raw views into storage memory with lifetimes extended by unsafe code; the tests never keep one beyond its store or step two at once.",
  ["store.rs", "gridstore_format.rs"], [("reader lifetimes kept by reference counting", "store.rs"), ("unsafe lifetime extension", "store.rs")],
  observe=["GridStore::get", "GridStore::iter", "GridStore::streaming_get_matching"])
prop("C15", "Coalescing one subquery returns each feature once, at its best, best first",
  "Coalescing a single subquery returns one context per feature id: the entry with the feature's highest relevance and, among those, its highest combined score. Contexts come in descending order of relevance and combined score, without those 0.25 or more below the best relevance, 40 at most, and these are the best 40 whenever at most 80 keys and features match. Feature id 0 and score 0 are like any other, and an empty list of subqueries gives an empty result.",
  ["inputs"], "every content of up to 80 features with any ids, scores, relevances, coordinates and repetitions, with or without proximity and box",
  "The tests coalesce a few features; what is kept depends on the order in which entries of different features alternate.",
  ["coalesce.rs", "common.rs"], [("coalesce_single", "coalesce.rs"), ("coalesce", "coalesce.rs")], observe=["coalesce"])
prop("C16", "Coalescing several subqueries stacks only what really fits together",
  "Each context from coalescing several subqueries combines entries of different subqueries, with disjoint masks, each a real match of its subquery under the query's options at its zoom, whose tiles contain one another; its mask is the union of theirs and its relevance the sum of theirs (weight times relevance), less 0.01 if a context that ends in the last subquery is alone or in ascending mask order. With two subqueries, or with pairwise disjoint masks, the best combination of each match of the finest store with matches of the coarser ones, and each match of the coarsest alone, competes for the result. The result is sorted by relevance, has no feature of one subquery first twice, nothing 0.25 or more below the best, and 40 contexts at most.",
  ["inputs"], "every content of two and three stores at any zooms, every mask, weight and order of the subqueries",
  "The tests stack a few hand-placed tiles.",
  ["coalesce.rs"], [("coalesce_multi", "coalesce.rs"), ("coalesce", "coalesce.rs")], observe=["coalesce"])
prop("C17", "Stacking and coalescing finds exactly the stacks there are, best first",
  "As long as no limit on work or results is reached, stack_and_coalesce returns exactly the contexts that follow from the subqueries: every single match and every stack of matches of subqueries with increasing types, disjoint masks and allowed neighbours, whose tiles contain one another, each with the sum of its relevances less 0.01 if alone or in ascending mask order. A subquery that starts a stack on which nothing can be stacked gives each feature once, at its best, undiminished, without those 0.25 or more below its best. The result is sorted by relevance, then combined score.",
  ["inputs"], "every set of subqueries over stores at any zooms and types, with any masks, weights, exclusions and keys, nearby-only or not, with any content",
  "The tests run a handful of hand-made stacks; the result depends on the tree of stacks, the order of work and the content of all stores.",
  ["coalesce.rs", "stackable.rs", "spatial.rs"], [("stack_and_coalesce, tree_coalesce", "coalesce.rs"), ("stackable", "stackable.rs")], observe=["stack_and_coalesce"])
prop("C18", "The stacking tree holds exactly the permitted stacks",
  "Below its limit the stacking tree holds each permitted stack of subqueries exactly once, as a path from the root: types strictly increase, masks are pairwise disjoint, and no subquery excludes the index of the one right above it. Each node carries the union of the masks on its path, and the highest total weight reachable through it. Nothing else is in the tree.",
  ["inputs"], "every set of subqueries: types, masks, indexes, exclusions and weights",
  "The tests build five trees.",
  ["stackable.rs"], [("stackable, binned_stackable", "stackable.rs")], observe=["stackable", "stackable::bfs"])
prop("C19", "Culling the stacking tree keeps the best stacks",
  "However many stacks are possible, the tree keeps a stack whose total weight is the highest possible, and every stack that is left is a permitted one with a right maximum. If there are more than 2000 leaves, a leaf is only missing if at least 2000 leaves as good or better are there.",
  ["inputs"], "every set of subqueries that gives more than 2000 leaves",
  "One test counts the leaves of one large tree.",
  ["stackable.rs"], [("ArenaManager::add, cull_min", "stackable.rs")], observe=["stackable", "ArenaManager::get"])
prop("C20", "Limits on work never invent results, nor lose the best exact ones",
  "When a query is so broad that a limit on work or results is reached, every context that stack_and_coalesce returns is still one that the subqueries really give, with the right relevance, and the result is still sorted, without repetitions and at most 800 contexts. Subqueries for exact phrases on coarse stores are never skipped because of other subqueries, so of the contexts that need only such subqueries the best 800 are found, as far as they are among the best 40 of their stack and key. The limits on work hold and are not reached early: of keys for ranges of subqueries with a one-bit mask 40 are looked up at most (8 of one letter, 8 on stores of zoom 14 and above unless nearby-only), and of keys on stores of zoom 14 and above, unless nearby-only, 40 for ranges and 600 in all. A range of a one-bit mask on such a store is otherwise only passed over where it ends a stack that cannot exceed 0.75 of the best relevance.",
  ["inputs"], "every set of subqueries beyond the quotas and the bounded queues",
  "No test reaches a quota.",
  ["coalesce.rs", "common.rs"], [("quotas and early stop in tree_coalesce", "coalesce.rs"), ("ConstrainedPriorityQueue", "common.rs")], observe=["stack_and_coalesce"])
prop("C21", "Merging equivalent subqueries loses no key",
  "Merging the subqueries that agree in weight, index and mask into one keeps every key of every one of them, in the order given, and keeps the subqueries' order of first appearance. Subqueries that differ in any of the three stay apart. The result does not depend on how the keys were spread over subqueries.",
  ["inputs"], "every list of subqueries with any weights, indexes, masks and any number of keys each",
  "The test merges two subqueries of one key.",
  ["coalesce.rs"], [("collapse_phrasematches", "coalesce.rs")], observe=["collapse_phrasematches"])
prop("C22", "Results do not depend on threads, hashing or other queries",
  "The contexts that stack_and_coalesce and coalesce return for a query are the same in the same order on every run: whatever order the threads of the pool run in, however several queries on the same stores interleave, and whatever seeds the hash maps have. Queries on shared stores, at once or one after another, do not influence one another, and none deadlocks.",
  ["schedules"], "every interleaving of the parallel work of one query and of concurrent queries up to a bound on preemptions, and every seed tried for the hash maps",
  "The tests run one schedule, whichever the machine gives.",
  ["coalesce.rs", "store.rs"], [("par_iter().collect() in order", "coalesce.rs"), ("ordering of contexts and features", "coalesce.rs")], observe=["stack_and_coalesce", "coalesce"])
prop("C23", "The bounded queue keeps exactly the largest elements",
  "After any sequence of pushes and pops, a bounded queue of size n holds the n largest of the elements pushed and not popped (elements pushed out never return); push tells whether the element was kept. Its smallest, largest, length and descending listing agree with that content. An element equal to the smallest does not replace it.",
  ["histories"], "every sequence of operations over a few values and capacities up to a depth",
  "The queue is only tested through coalescing.",
  ["common.rs"], [("ConstrainedPriorityQueue", "common.rs")], observe=["ConstrainedPriorityQueue"])
prop("C24", "Grouping splits a stream into its runs, lazily and without loss",
  "Grouping a stream by a key gives, in order, one group per maximal run of equal keys, holding exactly the elements of that run in order. It reads at most one element beyond the group it returns, and after the end it stays ended. An empty stream gives no group.",
  ["inputs"], "every stream over a few keys up to a length",
  "The test groups two streams.",
  ["common.rs"], [("somewhat_eager_groupby", "common.rs")], observe=["somewhat_eager_groupby"])

prop("C25", "JavaScript builds and reads the store its calls describe",
  "Any sequence of JavaScript calls on a builder (insert, append, compactAppend, renumber, loadBinBoundaries, finish) gives the store that the same calls on a map of sets describe, read back through get and the key iterators with every field and language list as given: languages listed ascending, 128 and above ignored, a missing, null or undefined list meaning all languages, and undefined for a key that is not there. A call with a missing or malformed argument, a call after finish(), and a failure of the storage throw, and leave the content as it was. Iterators of keys are independent of each other, keep working when the store object is collected, give each key once in order, and after the last say they are done each time they are asked.",
  ["histories", "inputs", "fault_sequences"], "every sequence of calls up to a depth, every way to get an argument wrong, every language list, every interleaving of key iterators and collections, every storage failure",
  "The JavaScript tests call each method once or twice with good arguments; they cannot run here at all, and none calls after a failure or collects garbage at a chosen moment.",
  ["native/src/gridstore.rs", "index.js"],
  [("JsGridStoreBuilder", "native/src/gridstore.rs"), ("JsGridStore", "native/src/gridstore.rs"), ("JsGridKeyStoreKeyIterator", "native/src/gridstore.rs"), ("langarray_to_langset, langset_to_langarray, prep_for_insert", "native/src/gridstore.rs"), ("GridStore.prototype.keys", "index.js")],
  observe=["the JavaScript classes GridStoreBuilder, GridStore, GridStoreKeyIterator"])
prop("C26", "Coalescing from JavaScript answers once, and as the library does",
  "Each call of coalesce and stackAndCoalesce from JavaScript calls its callback exactly once, after the call has returned, with the library's answer for the same subqueries, options and store settings, equal in every field, or with its error. Whatever the program does between the call and the answer, changing or dropping the arguments or stores it passed, starting further calls, in whatever order they are computed and delivered, does not change an answer. A call with a malformed argument throws, starts nothing and calls nothing back.",
  ["schedules", "inputs", "histories"], "every order of starting, computing and delivering several calls, with every change of the arguments in between; every field of subqueries, options and settings; every way to get an argument wrong",
  "The JavaScript tests make a few calls one at a time with well-formed arguments; they cannot run here.",
  ["native/src/gridstore.rs"],
  [("CoalesceTask, StackAndCoalesceTask", "native/src/gridstore.rs"), ("js_coalesce, js_stack_and_coalesce, js_stackable", "native/src/gridstore.rs"), ("deserialize_phrasesubq", "native/src/gridstore.rs"), ("GridStoreOpts", "native/src/gridstore.rs")],
  observe=["the callback of coalesce and stackAndCoalesce"])
prop("C27", "Phrase sets are bridged to JavaScript without change",
  "Every call on a phrase set or its builder from JavaScript reaches the phrase set with its arguments unchanged and gives back the result unchanged, with each ending type told apart. The id map that finish() returns can be given to renumber, and the bins that getPrefixBins returns (the start of each, and one past the last; none for no bins) to loadBinBoundaries. Malformed arguments and calls after finish() throw and change nothing.",
  ["histories", "inputs"], "every sequence of calls up to a depth, every kind of result, every way to get an argument wrong",
  "The JavaScript tests make each call with good arguments on one small set; they cannot run here.",
  ["native/src/fuzzy_phrase.rs"],
  [("JsFuzzyPhraseSetBuilder", "native/src/fuzzy_phrase.rs"), ("JsFuzzyPhraseSet", "native/src/fuzzy_phrase.rs")],
  observe=["the JavaScript classes FuzzyPhraseSetBuilder and FuzzyPhraseSet"])

MC = "explicit-state model checking: "
CHECKS = {
 "C01": ("exhaustive enumeration of entry lists; each model trace replayed on the real builder and store", "All lists within the bounds of the evidence file, against a set model; the storage engine is an in-memory stand-in."),
 "C02": ("exhaustive enumeration of builder call sequences against a map model", "All call sequences up to the depth in the evidence file over 4 keys; the storage engine is an in-memory stand-in."),
 "C03": ("exhaustive enumeration of key sets against a set model", "All key sets within the bounds; the storage engine is an in-memory stand-in with byte-wise key order."),
 "C04": ("exhaustive enumeration of record shapes and part distances, written and read by the real format code", "All shapes and all combinations of distances around the encoding thresholds; larger records only around thresholds."),
 "C05": ("exhaustive enumeration of boundary lists and ranges against a set model", "All boundary lists, ranges and contents within the bounds."),
 "C06": ("exhaustive enumeration of crash points of finish() on a simulated storage engine", "Every crash point of each build explored; assumes the storage engine applies each write atomically and loses a suffix."),
 "C07": ("exhaustive single-fault injection on a simulated storage engine", "Every single storage operation failed in turn; multiple simultaneous faults not explored."),
 "C08": ("exhaustive enumeration of keys, phrases and languages against a set model", "All combinations within the bounds, at the edges of the ranges."),
 "C09": ("exhaustive enumeration of coordinate patterns and boxes against a set model", "All coordinate subsets of small squares and all boxes on them, at several places of the plane."),
 "C10": ("exhaustive enumeration of points, scores and zooms against a set model and the scoring formula", "Within the bounds; floating point compared to 1e-9."),
 "C11": ("exhaustive enumeration of distributions over keys and of bounds, order checked on the full stream", "Within the bounds."),
 "C12": ("exhaustive enumeration of zooms, tiles and boxes against wide-integer arithmetic", "All tiles of small zooms; edges, middle and thirds of the world at all zooms."),
 "C13": ("exhaustive enumeration of zooms, points and boxes against the definition", "Edges, middle, thirds and all tiles near the world's edges at all zooms."),
 "C15": ("exhaustive enumeration of contents (features, places, scores, alternation) against a set model", "All contents within the bounds, features up to 180."),
 "C16": ("exhaustive enumeration of contents, zooms, masks, weights and orders against a combination model", "Two and three subqueries; many more only in one family."),
 "C17": ("exhaustive enumeration of subqueries, contents and options against a model that lists every permitted stack", "Two to five subqueries over small stores; relevances compared to 1e-6."),
 "C18": ("exhaustive enumeration of sets of subqueries, the whole tree compared with the list of permitted stacks", "All sets of up to 4 subqueries within the bounds, wider ones in one family."),
 "C19": ("enumeration of large sets of subqueries, the whole culled tree compared with the full list of stacks", "Sets with up to 150,000 stacks against the list, larger ones against the best total."),
 "C20": ("exhaustive enumeration of query shapes around each limit against the model that lists every stack", "Shapes around each limit, one or two kinds of subquery at a time."),
 "C21": ("exhaustive enumeration of lists of subqueries against a merge model", "All lists of up to 3 subqueries within the bounds."),
 "C22": ("stateless exploration of all interleavings up to a preemption bound under a controlled scheduler, all query sequences, and a set of hash seeds", "Preemption at storage operations, atomic operations, locks and task boundaries, up to 2; sequentially consistent; hash seeds are a fixed set of 64."),
 "C23": ("exhaustive enumeration of operation sequences against a sorted-list model", "All sequences of 8 operations over 4 values and 6 sizes."),
 "C24": ("exhaustive enumeration of streams against a run-length model", "All streams of up to 11 elements over 3 keys."),
 "C25": ("exhaustive enumeration of JavaScript call sequences, malformed calls, iterator interleavings and storage failures, run on the real bindings with a stand-in JavaScript runtime", "Within the bounds; neon, neon-serde and node are stand-ins (shims/neon)."),
 "C26": ("exhaustive enumeration of the orders of calling, computing, delivering, changing and collecting, run on the real bindings with a stand-in JavaScript runtime", "Up to three calls at a time; neon, neon-serde and node are stand-ins (shims/neon)."),
 "C27": ("exhaustive enumeration of JavaScript call sequences, run on the real bindings with a recording stand-in for the phrase set", "The phrase set itself (fuzzy-phrase, another repository) is a stand-in that records its calls."),
 "C14": ("exhaustive enumeration of iterator interleavings with freed memory poisoned", "All interleavings up to the depth; memory faults are seen through poisoned allocation, not proved absent."),
}
LEVEL = {"C07": "fault_enumeration"}
claimed = set(CHECKS)
checks = []
for p in P:
    if p["id"] in CHECKS:
        t, note = CHECKS[p["id"]]
        lv = LEVEL.get(p["id"], "model_checking")
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"bash run.sh {p['id']} --thorough",
          "technique": (MC if lv == "model_checking" else "") + t, "level": lv, "level_note": note})
NA = [{"property": p["id"], "reason": "the check is being built"} for p in P if p["id"] not in claimed]
try:
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    hooks = [l.split()[0] for l in log if " verif:" in l]
except Exception:
    hooks = []
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "cfg(carmen_verif)", "enable": "RUSTFLAGS='--cfg carmen_verif' (run.sh does it for C04)", "source_commits": hooks},
     "checks": checks, "not_applicable": NA,
     "notes": "All checks build /repo/rust-src through mc/ with stand-ins for rocksdb, rayon and other dependencies (shims/), and the JavaScript bindings in /repo/native/src through js/; see DESIGN.md."}
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
