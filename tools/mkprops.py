"""Source of properties.jsonl (one dict per property)."""
import json
D = "differential-dataflow/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **kw)))

p("P01", "Timestamps form a lattice compatible with their partial order",
  "For every timestamp type the system ships (unsigned and signed machine integers, durations, the unit time, pairs, iteration products, variable-length loop coordinates, and the old/new tagged times of delta queries), the join of two times is their least upper bound and the meet is their greatest lower bound in that type's partial order. The in-place variants agree with the pure ones, and the minimum and maximum times bound all times.",
  ["inputs"], "every pair (and triple) of timestamps of each type, including coordinates of unequal length and extreme values",
  "The laws are universally quantified over unbounded timestamp spaces and nested type compositions; tests exercise a few integer pairs.",
  [D+"lattice.rs", D+"dynamic/pointstamp.rs", "dogsdogsdogs/src/altneu.rs"],
  [("Lattice::join / meet and in-place variants", D+"lattice.rs"), ("PointStamp order, join, meet", D+"dynamic/pointstamp.rs"), ("AltNeu order, join, meet", "dogsdogsdogs/src/altneu.rs")])

p("P02", "Advancing times by a frontier is indistinguishable and canonical",
  "Advancing a time by a non-empty frontier yields a time that is less-or-equal to exactly the same future times (times in advance of the frontier) as the original. Two times that no future time can tell apart advance to the same time, and advancing by an empty frontier changes nothing.",
  ["inputs"], "every timestamp of a lattice, every frontier of any size",
  "Needs all frontiers over all partially ordered times, and equivalence against all future times; tests fix a handful of frontiers.",
  [D+"lattice.rs"], [("Lattice::advance_by", D+"lattice.rs")])

p("P03", "Frontier join and meet compute exact bounds of the two frontiers",
  "The join of two frontiers admits exactly the times in advance of both, the meet admits exactly the times in advance of either, and each result is itself a minimal set of mutually incomparable times. The variants that write into or update an existing frontier give the same answer as the ones that build a new one.",
  ["inputs"], "every pair of frontiers, empty ones included, over every partially ordered time",
  "Quantifies over all pairs of antichains and all probe times; unit tests show single examples.",
  [D+"lattice.rs"], [("antichain_join, antichain_join_into, antichain_meet, Lattice for Antichain", D+"lattice.rs")])

p("P04", "Difference types satisfy the algebraic laws updates rely on",
  "Addition of differences is associative and commutative, the zero is its identity and is recognised as zero exactly when adding it changes nothing, and negation is an additive inverse. These laws hold for machine integers, wrapping integers, tuples and vectors (read as padded with zeros) and, as far as they apply to it, the presence marker. Multiplication of differences distributes over addition, and multiplying by the presence marker changes nothing.",
  ["inputs"], "all values of each difference type for which no integer overflow occurs",
  "Algebraic laws over whole value domains and arbitrary nesting of types cannot be covered by samples.",
  [D+"difference.rs"], [("Semigroup/Monoid/Abelian/Multiply implementations", D+"difference.rs")])

p("P05", "Consolidation preserves accumulated differences exactly",
  "Consolidating any sequence of updates leaves, for every distinct record (and time), exactly the sum of the differences it had before, with each surviving record appearing once, in sorted order, and none with a zero difference. This holds for in-place, sliced, offset and container-building variants, whatever the order and duplication of the input.",
  ["inputs"], "every finite sequence of updates, any duplication, ordering, cancellation and length",
  "Must hold for all sequences and for every container boundary; tests list five small vectors.",
  [D+"consolidation.rs"], [("consolidate, consolidate_updates, consolidate_slice, consolidate_updates_slice, *_from", D+"consolidation.rs"), ("ConsolidatingContainerBuilder", D+"consolidation.rs")])

p("P06", "Batchers ship each buffered update once, exactly when its time closes",
  "When a batcher seals up to an upper frontier, the shipped batch contains exactly the accumulated updates received so far whose times are not in advance of that frontier, described by the previous and the new upper frontier. Updates in advance of the frontier are retained for later seals, and the reported remaining frontier is exactly the lower bound of the retained times.",
  ["histories", "inputs"], "every interleaving of pushes of arbitrary containers of updates and seals at advancing frontiers, over partially ordered times",
  "Involves arbitrary interleavings of input and frontier movements, with chain merging dependent on sizes; tests seal one or two tiny inputs.",
  [D+"trace/implementations/merge_batcher.rs", D+"trace/implementations/chunker.rs"],
  [("MergeBatcher push/seal/merge_by/extract", D+"trace/implementations/merge_batcher.rs"), ("ContainerChunker", D+"trace/implementations/chunker.rs")])

p("P07", "Building and merging batches preserves the updates they hold",
  "A batch built from a sorted chain of updates reads back exactly those updates, and the merge of two adjacent batches holds exactly the accumulation of both, with times advanced to the compaction frontier, whatever the fuel granted to each step. The merged batch spans from the first batch's lower bound to the second's upper bound and contains no zero or duplicate update.",
  ["inputs", "schedules"], "all pairs of batches, all compaction frontiers, all sequences of fuel amounts, at every key/value/time multiplicity including single-update encodings",
  "The encoding has special cases (single repeated update, key-skipping merges, fuel exhaustion mid-key) whose combinations tests do not enumerate.",
  [D+"trace/implementations/ord_neu.rs", D+"trace/implementations/mod.rs"],
  [("OrdValMerger / OrdKeyMerger", D+"trace/implementations/ord_neu.rs"), ("UpdsBuilder / OrdValBuilder / OrdKeyBuilder", D+"trace/implementations/ord_neu.rs")])

p("P08", "Cursors visit every update in order and seek exactly",
  "Navigating a batch, or the union of several batches, by stepping visits each key once in increasing order, each value of a key once in increasing order, and presents at each value exactly the updates of all underlying batches. Seeking to a key or value lands on the first one not less than the target at or after the current position, and rewinding restores the start.",
  ["inputs", "histories"], "all batch contents and all sequences of cursor operations",
  "Quantifies over all operation sequences on all merged contents; tests walk a cursor forward over tiny inputs.",
  [D+"trace/cursor/cursor_list.rs", D+"trace/cursor/mod.rs", D+"trace/implementations/ord_neu.rs", D+"trace/chunk/mod.rs", D+"trace/chunk/vec.rs", D+"columnar/trace/chunk.rs"],
  [("CursorList minimize_keys/minimize_vals/seek/step", D+"trace/cursor/cursor_list.rs"), ("OrdValCursor/OrdKeyCursor", D+"trace/implementations/ord_neu.rs")])

p("P09", "A trace always holds exactly the history inserted into it",
  "However batches are inserted and however maintenance effort is scheduled, the batches of a trace cover the inserted interval contiguously and their accumulation at every time in advance of the compaction frontier equals that of all inserted batches. A cursor restricted to an upper frontier shows exactly the batches before it, and merging eventually completes under continued effort.",
  ["histories", "schedules"], "all sequences of insertions (of any batch sizes, empty ones included), exert calls, physical and logical compaction requests",
  "Merge state machines depend on the whole history of sizes and effort; tests insert three batches.",
  [D+"trace/implementations/spine_fueled.rs"],
  [("Spine insert/introduce_batch/roll_up/apply_fuel/tidy_layers/consider_merges/cursor_through/map_batches", D+"trace/implementations/spine_fueled.rs")])

p("P10", "Shared traces are compacted only as far as every reader permits",
  "A trace with several readers is compacted logically and physically no further than the most conservative live reader allows, and it is allowed to advance once readers move on or are dropped. Every reader therefore reads correct accumulations at all times in advance of its own frontier, no matter what other readers do.",
  ["histories"], "all histories of cloning, dropping and advancing handles to one trace",
  "Depends on arbitrary interleavings of several handles' advances, clones and drops.",
  [D+"operators/arrange/agent.rs", D+"trace/mod.rs"],
  [("TraceAgent clone/drop/set_*_compaction", D+"operators/arrange/agent.rs"), ("TraceBox adjust_*_compaction", D+"operators/arrange/writer.rs")])

p("P11", "Arranging a collection indexes exactly its updates, in adjoining batches",
  "The batches an arrangement emits hold exactly the input's accumulated updates, each batch starting at the frontier where the previous one ended, and the shared trace shows the same contents. Importing the trace into another dataflow replays its compacted past and then every later batch exactly once, so both views accumulate to the same collection at every time from the import frontier on.",
  ["histories", "schedules"], "all input histories, all points at which a trace is imported, all advances of its compaction frontiers",
  "The hand-off between snapshot and live batches depends on timing and on frontier order; tests import at one or two fixed points.",
  [D+"operators/arrange/arrangement.rs", D+"operators/arrange/agent.rs", D+"operators/arrange/writer.rs"],
  [("arrange_core", D+"operators/arrange/arrangement.rs"), ("TraceAgent::import*, new_listener", D+"operators/arrange/agent.rs"), ("TraceWriter insert/exert/seal", D+"operators/arrange/writer.rs")])

p("P12", "Join output equals the relational join at every time",
  "At every time, the accumulated output of a join equals the product, per matching key, of the two inputs' accumulations at that time: each pair of matching updates contributes once, at the join of their times, with the product of their differences. This holds for any arrival order of the two inputs, any partially ordered time and any suspension of the work.",
  ["histories", "schedules"], "all pairs of update histories, arrival interleavings, and yields of the fueled join",
  "Exactly-once pairing depends on the interleaving of two inputs, acknowledged frontiers and trace compaction; tests join a few records.",
  [D+"operators/join.rs", D+"operators/int_proxy/join.rs", D+"operators/int_proxy/history.rs", D+"operators/common.rs"],
  [("join_with_tactic", D+"operators/join.rs"), ("bilinear_wave", D+"operators/int_proxy/mod.rs"), ("ValueHistory replay", D+"operators/common.rs")])

p("P13", "Reduce output equals the reduction of the input at every time",
  "At every time and for every key, the accumulated output of a reduction equals the user's function applied to the accumulated, value-ordered, non-zero input for that key, and is empty where the input is empty. This holds for partially ordered times, including times that never appear in the input but arise as joins of input times.",
  ["histories", "schedules"], "all input histories over partially ordered times, all batchings of them and all frontier schedules",
  "Interesting-time discovery, retraction of stale outputs and pending work depend on sets of incomparable times and their arrival order.",
  [D+"operators/reduce.rs", D+"operators/int_proxy/reduce.rs"],
  [("reduce_with_tactic", D+"operators/reduce.rs"), ("discover_times / history replay", D+"operators/int_proxy/reduce.rs")])

p("P14", "Operators cut time into gapless, non-overlapping output intervals",
  "When an operator retires an interval of time while holding capabilities at several incomparable times, the descriptions of the batches it emits start at the interval's lower frontier, end at its upper frontier, and each adjoins the next. Every time in the interval belongs to exactly one emitted batch, whose capability is less or equal to it.",
  ["inputs"], "all lower and upper frontiers and all sets of held capabilities",
  "Quantifies over arbitrary antichains and sets of capabilities; tests run mostly totally ordered times, where a single batch always suffices.",
  [D+"operators/reduce.rs", D+"operators/int_proxy/reduce.rs"],
  [("tile_descriptions and batch emission", D+"operators/int_proxy/reduce.rs"), ("retire", D+"operators/reduce.rs")])

p("P15", "Totally ordered counting and thresholding track the input exactly",
  "With totally ordered time, the counting operator reports at every time exactly one record per present key, carrying the key's accumulated count, and nothing for absent keys. The distinct and threshold operators report at every time exactly the threshold function of each present key's count, again nothing for absent keys, including keys that vanish and return.",
  ["histories"], "all update histories over totally ordered times and all batchings",
  "Correct retraction depends on every transition of the count, in and across batches, including through zero.",
  [D+"operators/count.rs", D+"operators/threshold.rs"],
  [("count_total_core", D+"operators/count.rs"), ("threshold_semigroup, threshold_total", D+"operators/threshold.rs")])

p("P16", "Iteration converges to the fixed point for every input version",
  "The result of an iterative computation, at every outer time, is the fixed point reached by repeatedly applying the loop body to that time's input, independent of earlier versions of the input. A loop variable observed at an iteration equals its initial value plus what was fed back from the previous iteration.",
  ["histories"], "all input histories and all terminating loop bodies",
  "The incremental result after any history of input changes has to coincide with a from-scratch run; tests compare a few.",
  [D+"operators/iterate.rs", D+"collection.rs"],
  [("Iterate::iterate, Variable", D+"operators/iterate.rs"), ("enter/leave", D+"collection.rs")])

p("P17", "Linear collection operators act record by record on the accumulation",
  "Mapping, filtering, flat-mapping, negating, concatenating, joining differences, exploding, entering and leaving scopes, delaying and consolidating collections each commute with accumulation: the output at every time is the corresponding function of the accumulated input at that time. In particular, updates are neither lost, duplicated nor moved to a wrong time.",
  ["inputs", "histories"], "all collections, all record functions",
  "Quantifies over every function and every history.",
  [D+"collection.rs", D+"trace/wrappers/enter.rs", D+"operators/arrange/arrangement.rs"],
  [("VecCollection / Collection operators", D+"collection.rs")])

p("P18", "Input sessions introduce exactly the updates they were given, at their times",
  "Every insert, remove or update performed on an input session enters the collection exactly once, at the session's time when it was made (or at the later time named by the caller), whatever the sequence of flushes, advances and drops. Times that the session refuses are rejected, and advancing never moves an update already made.",
  ["histories"], "all sequences of session operations",
  "Buffering and flushing depend on operation sequences of any length; tests use a few.",
  [D+"input.rs"], [("InputSession insert/update_at/flush/advance_to/close", D+"input.rs")])

p("P19", "Captured collections survive duplication and reordering of messages",
  "From any stream of captured messages in which each message of a true history appears at least once, in any order and any number of times, the reader yields every update of that history exactly once and announces frontiers only after all updates before them were yielded. The writer's progress statements cover time contiguously and state the exact number of distinct updates at each time, even when the sink asks for retries.",
  ["fault_sequences", "histories", "inputs"], "all permutations and duplications of messages, all prefixes of delivery, all retry patterns",
  "Delivery orders and duplications are combinatorial; the one doc example is in order.",
  [D+"capture.rs"], [("iterator::Iter::next", D+"capture.rs"), ("sink::build, source::build", D+"capture.rs")])

p("P20", "Dynamic-scope timestamps behave as iteration coordinates of any depth",
  "Loop coordinates of varying length are ordered as if padded with zeros, have one representation per value, and advance by path summaries consistently with that order: following two summaries in turn equals following their composition, and larger inputs give larger outputs. Leaving a scope of some depth truncates coordinates to that depth and merges updates accordingly.",
  ["inputs"], "all coordinate vectors of any length and all summaries, including ones that retain fewer coordinates",
  "Laws over unbounded-length vectors with trailing zeros and truncations; the tests do not cover them.",
  [D+"dynamic/pointstamp.rs", D+"dynamic/mod.rs", D+"columnar/collection/operators.rs"],
  [("PointStamp new/partial order, PointStampSummary results_in/followed_by", D+"dynamic/pointstamp.rs"), ("leave_dynamic", D+"dynamic/mod.rs")])

p("P21", "Views of a trace present the same updates under the mapped times",
  "A trace entered into a nested scope, entered with per-record inner times, or restricted to a frontier presents exactly the underlying updates with exactly the mapped times, both through its stream and through its cursors. Compaction requested through the view is translated so that no time distinguishable through the view becomes indistinguishable underneath.",
  ["inputs", "histories"], "all traces, all per-record time functions that are monotone, all compaction frontiers",
  "Frontier translation must be right for all antichains of product times.",
  [D+"trace/wrappers/enter.rs", D+"trace/wrappers/enter_at.rs", D+"trace/wrappers/frontier.rs"],
  [("TraceEnter", D+"trace/wrappers/enter.rs"), ("TraceEnter (enter_at)", D+"trace/wrappers/enter_at.rs"), ("TraceFrontier", D+"trace/wrappers/frontier.rs")])

p("P22", "Upsert arrangements maintain the latest value per key",
  "Given a stream of keyed optional values over totally ordered time, the arrangement's accumulation at each time holds for each key exactly the last value assigned at or before that time, and no value if the last assignment was a deletion. Several assignments to one key at one time resolve to a single deterministic one, and repeated assignment of the same value changes nothing.",
  ["histories"], "all sequences of upserts, batched and scheduled in any way",
  "Depends on arbitrary assignment histories straddling batch boundaries.",
  [D+"operators/arrange/upsert.rs"], [("arrange_from_upsert", D+"operators/arrange/upsert.rs")])

p("P23", "Delta-query joins observe each pair of changes exactly once",
  "Times tagged old or new are ordered by time first and then old before new, so that of two changes at the same time exactly one observes the other. A half join matches each stream update with exactly the arranged updates that the given comparison admits, and the sum of the half joins over all relations equals the change in the full join at every time.",
  ["histories", "inputs"], "all update histories of all relations and all interleavings",
  "Exactly-once coverage of simultaneous changes depends on all combinations of times; tests have none.",
  ["dogsdogsdogs/src/altneu.rs", "dogsdogsdogs/src/operators/half_join.rs", "dogsdogsdogs/src/operators/half_join2.rs"],
  [("AltNeu", "dogsdogsdogs/src/altneu.rs"), ("half_join_internal_unsafe", "dogsdogsdogs/src/operators/half_join.rs"), ("half_join2", "dogsdogsdogs/src/operators/half_join2.rs")])

p("P24", "Chunked storage neither loses nor invents updates",
  "Splitting sorted updates into bounded chunks, packing small chunks, advancing times, extracting by frontier and merging chunk sequences each preserve the accumulated updates and the order invariant, and stay within the chunk size bound. A batch stored as chunks reads back identically to one stored flat.",
  ["inputs", "schedules"], "all sorted update sequences, chunk boundaries, frontiers and fuel amounts",
  "Boundary conditions arise where equal records straddle chunk boundaries; tests cover a few layouts.",
  [D+"trace/chunk/mod.rs", D+"trace/chunk/vec.rs"],
  [("Chunk merge/extract/advance/settle/pack", D+"trace/chunk/mod.rs"), ("VecChunk", D+"trace/chunk/vec.rs"), ("ChunkBatch, ChunkBatchMerger", D+"trace/chunk/mod.rs")])

p("P25", "Columnar storage reads back and merges exactly what was written",
  "Update collections held in columnar tries enumerate exactly the updates they were formed from, sorted and accumulated, through forming, filtering, consolidating, merging, splitting and spilling. Merging two tries equals accumulating the concatenation of their updates. Carrying such collections through builders, containers, exchange and arrangement, within or across workers, neither loses updates nor the record counts progress tracking depends on.",
  ["inputs"], "all update sequences and all pairs of tries",
  "Offsets of nested lists must agree for all shapes (shared keys, shared values, empty remainders).",
  [D+"columnar/updates.rs", D+"columnar/trie_merger.rs", D+"columnar/trace/chunk.rs", D+"columnar/collection/operators.rs"],
  [("Updates form/filter/consolidate", D+"columnar/updates.rs"), ("trie merger", D+"columnar/trie_merger.rs"), ("columnar Chunk", D+"columnar/trace/chunk.rs")])

p("P26", "Compact containers return what was pushed and search exactly",
  "Offset lists, slice containers and plain vectors used to store batches return at each index exactly the element pushed there, whatever the sequence and magnitude of pushes. Searching forward from a position with a monotone predicate returns exactly the number of leading elements that satisfy it.",
  ["inputs"], "all sequences of pushes (including offsets beyond 32 bits) and all monotone predicates and ranges",
  "Encodings switch representation at value thresholds and gallop across exponentially spaced probes; tests push a few numbers.",
  [D+"trace/implementations/mod.rs"],
  [("OffsetList", D+"trace/implementations/mod.rs"), ("BatchContainer::advance", D+"trace/implementations/mod.rs"), ("SliceContainer", D+"trace/implementations/mod.rs")])

# ---- listed, but outside what contracts over this code can decide (see MANIFEST not_applicable) ----
p("P27", "Results do not depend on the number of workers or message timing",
  "The accumulated output of any dataflow at any completed time is the same for every number of workers and every interleaving of their execution. Records that must meet are routed to one worker by a hash that is a function of the record alone.",
  ["schedules", "configurations"], "all worker counts, all interleavings",
  "Interleavings of concurrent workers are not controlled by tests.",
  [D+"hashable.rs", D+"operators/arrange/arrangement.rs"], [("exchange by key hash", D+"operators/arrange/arrangement.rs")])

p("P28", "Graph algorithms compute what their names promise",
  "Breadth-first labels are shortest distances, label propagation gives connected components, strong components are exactly the maximal mutually reachable sets, and generated identifiers are unique, for every graph and every history of changes to it.",
  ["inputs", "histories"], "all graphs and change histories",
  "Holds for all graphs under all edit sequences; tests compare a few random ones.",
  [D+"algorithms/graphs/bfs.rs", D+"algorithms/graphs/scc.rs", D+"algorithms/graphs/propagate.rs", D+"algorithms/identifiers.rs"],
  [("bfs, propagate, strongly_connected, assign_unique_identifiers", D+"algorithms/")])

p("P29", "Interactive programs mean the same after lowering",
  "A program in the interactive language, after parsing, scoping, lowering and optimisation, computes the same collections as its direct relational meaning, for every program and input.",
  ["programs", "inputs"], "all programs of the interactive language and all inputs",
  "The space of programs cannot be sampled exhaustively.",
  ["interactive/src/lower.rs", "interactive/src/scope_ir.rs"], [("lowering", "interactive/src/lower.rs")])

json_path = __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl")
with open(json_path, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
