"""Per-property configuration of the checks, and the generator of MANIFEST.json (python3 tools/props.py)."""
import json, os
PROPS = {}
NA = {}
def p(id, **kw): PROPS[id] = kw
def na(id, reason): NA[id] = reason

COMMON_TRUST = ["Verus 0.2026.09.13, its bundled Z3 and vstd specifications of the Rust standard library",
                "tools/extract.py: the textual desugarings it applies are listed under `desugarings`"]

p("P01", units=["lattice_impls"], level="proof",
  bounded=["PointStamp order/join/meet", "Duration and unit lattice"], bound="random search over small coordinate grids",
  note="join/meet are least upper / greatest lower bounds for Product, pairs, AltNeu, Maximum and every machine integer: postconditions on the real functions, discharged by Verus for all inputs")
p("P02", units=["lattice"], level="proof",
  note="advance_by: indistinguishability, canonicity and the empty case are lemmas over the contract of the real function, for every lattice satisfying the trait contract")
p("P03", units=["frontier"], level="proof",
  note="antichain joins and meets: exact bounds and minimality are postconditions of the real functions, for every partial order")

p("P04", units=["difference"], level="proof",
  bounded=["multiplication of wrapping integers", "the blanket impl for borrowed right-hand sides"], bound="random values of nested difference types",
  trust=["std::num::Wrapping's operators are arithmetic modulo 2^N"],
  assume=["machine sums and products that overflow are outside the laws (the contracts carry the range precondition)"],
  note="the laws are lemmas over the contracts of the real implementations for every machine integer, wrapping integer, tuple arity, vector and the presence marker")
p("P05", units=["consolidation"], level="proof",
  bounded=["the closures handed to sort_by / sort_unstable_by and the iterator adaptors named in desugarings"], bound="random sequences of up to a few thousand updates",
  trust=["the standard library's sorts return a sorted permutation", "differences satisfy their laws without overflow"],
  note="totals preserved, strictly sorted, no zeros: postconditions of every consolidation function and of the consolidating container builder, for all sequences")

p("P06", units=["batcher"], level="proof",
  bounded=["the chunker feeding the batcher", "accounting of memory in the batcher's logger (dropped from the extracted text)"], bound="random streams of updates and seals",
  trust=["std::collections::VecDeque and the conversions between Vec, VecDeque and iterators (assumed contracts)", "differences satisfy their laws without overflow"],
  assume=["decisions that depend on Vec::capacity are arbitrary booleans in the proof"],
  note="seal ships exactly the updates not beyond the given frontier with exact totals, keeps the rest, reports their lower envelope and adjoins descriptions: postconditions of MergeBatcher over those of the real merger, for all inputs and chains")
p("P07", units=["batches"], level="proof",
  bounded=["the containers under the batches (columnar and reference counted layouts, serialisation)", "Batch::empty and the chunk-to-input conversions of BuilderInput", "the chunked batches of trace::chunk"], bound="random batches of up to thousands of updates over several key, value and time types, merged under random fuel",
  trust=["the batch containers' contract (property P26)", "consolidate (property P05) as the function giving the consolidated list of an accumulation", "Lattice::join of frontiers and advance_by (properties P02 and P03), as uninterpreted functions", "BuilderInput: draining yields the parts of the items, key_eq and val_eq are equality"],
  assume=["record, value and time orders are total and lawful (the documented contract of Ord)", "counters of updates stay below isize::MAX", "borrowed and owned forms of an item are one type"],
  note="every function of the ordered builders and mergers for keys with values and for keys alone, with the update and value layers they write: building gives back the input exactly, a merge weaves both batches and holds at each key and value the consolidation of both lists advanced to the joined frontier; fuel left over means done, with progress at each key")
p("P08", units=["cursors", "chunkcursor", "listing"], level="proof",
  bounded=["the cursors of wrapped traces (see P21)", "cursor_list, which makes one cursor per batch", "Vals and Upds built by the builders (the layout invariant is assumed here)"], bound="random batches and traces walked by random programs of cursor calls",
  trust=["BatchContainer implementations satisfy the contract proved for them under P26", "comparison and cloning of keys and values in a chunk (same, below, copy), Option::as_mut"],
  assume=["the storage a cursor walks satisfies its layout invariant: sorted keys, offsets that increase and end at the length; chunks that are not empty and whose concatenation is in order", "a chunk cursor is not asked to seek a key before its current one (the cursor over a chunk batch is shown to search from the front then)"],
  note="every method of the cursors over ordered batches, and of the cursor over a list of cursors: which keys and values remain ahead after each call, that every storage holding the shown key and value is presented exactly once, and that rewinding shows everything again, for any number of cursors; the cursor over a vector chunk and the cursor over a batch of chunks satisfy one contract over the updates in order, the latter for chunks cut anywhere (a key, or a value's times, straddling any number of chunks); to_vec lists every value of every key with its updates")
p("P09", units=["spine"], level="proof",
  bounded=["that insert_at never meets an unfinished merge (the fueling discipline; a panic is read as a refusal)", "completion of merging when no merge is open and layers wait for virtual updates", "the policies deciding levels, fuel and effort (left open in the proof)"], bound="random programs of insertions, compactions, exertions and reads with batches of sizes zero to thousands",
  trust=["timely's Antichain (assumed contract)", "the batch and merger contract: a merger's result spans both inputs and accumulates to both from its frontier on, and fuel left over means done (properties P06 and P07 for ordered batches)"],
  assume=["frontiers given to set_*_compaction do not go back (property P10)", "accumulations are read through any additive map into the integers", "fewer than 2^27 layers; a merge takes fewer than isize::MAX steps"],
  note="every method of the fueled spine and its merge state machine: the batches held cover what was inserted and accumulate to it from the compaction frontier on; a restricted read shows exactly the batches before its frontier; open merges have strictly less left after each exertion")
p("P10", units=["sharing", "frontier"], level="proof",
  bounded=["batches inserted while readers exist (TraceWriter through the shared trace)", "imported streams of batches", "map_batches and batches_through of a shared trace"], bound="random programs over several readers of one arrangement, compacting and reading at random",
  trust=["timely's MutableAntichain (a count per time, and the frontier of the counted times)", "Rc<RefCell<..>> sharing: the shared trace box is an explicit mutable argument of the extracted functions, so one call at a time"],
  note="the readers' frontiers are ghost state of the shared box; that the underlying trace is told exactly the meet of what the living readers hold, never more, is a postcondition of opening, cloning, advancing and dropping a reader, for every number of readers and every partial order")
p("P12", units=["joining", "driver", "consolidation"], level="proof",
  bounded=["the join driver's plumbing around the extracted blocks"], bound="random pairs of histories over products, arrival orders, compactions and yields, for the cursor-based and the proxied join",
  trust=["the trace reader: batches_through gives the stream's batches up to a frontier, exactly for whatever lies beyond its compaction frontier (assumed contract; properties P09 and P10)", "the cursors over batches (assumed contract: groups in key order, a value's times; properties P08 and P09)", "the container builder (opaque: containers handed out hold the calls in order)", "the user's closure as a log of the calls it receives"],
  assume=["the log is read through any map that is additive in each difference, into any commutative monoid, which covers multiplication that distributes over addition", "times form a lattice (property P03); tuple orders are lawful (property P02)", "the arrangement stream: batches in order, abutting, only empty ones omitted; an arriving batch's times lie beyond the frontier last seen and its capability"],
  note="ValueHistory, EditList, JoinThinker::think, bilinear_wave and the deferred iterator's next are extracted from the running code: whatever is suspended, the calls made for two sorted lists of groups are worth the product over matching keys of the updates, each pair once, with its joined time; the driver is extracted block by block (loading, each input, advancing, draining, compacting): the work prepared is always worth the product of what has been accepted of the two streams, and everything prepared ships under its capability")
p("P13", units=["reduction", "tiling"], level="proof",
  bounded=["HistoryReplayer::compute, the reference and proxied tactics' loops and discover_times (the argument about interesting times they follow is proved as lemmas; their bodies are not yet tied to it)", "the driver reduce_with_tactic and the batches it ships (its placement of output: property P14)"], bound="random histories over two- and three-dimensional times, batchings and frontier schedules, through all the reduce operators, every time of the lattice compared to a reduction from scratch",
  trust=["the cursors over batches (assumed contract: groups in key order, a value's times; properties P08 and P09)", "slice sorting and deduplication"],
  assume=["times form a lattice (property P03) whose total order extends the partial order", "the user's function answers with a correction of the output it is shown"],
  note="populate_key, replay_key, ValueHistory, EditList, update_meet, sort_dedup and the cutting of output are extracted from the running code; lemmas over arbitrary lattices show that a walk of the histories which re-evaluates at every time reached by the batch and the pending times leaves accumulated output right everywhere")
p("P14", units=["tiling"], level="proof",
  bounded=["the remainder of retire (the loop over keys) and the driver that mints capabilities and ships the batches", "int_proxy's placement of updates in tiles"], bound="random sets of held times over products and the reduce operators run over random histories",
  trust=["timely's Antichain (assumed contract; `==` and `extend`)", "the batch builders (opaque: what is put in for a held time is what comes out)", "Iterator::position on a reversed slice"],
  assume=["`proper`: the upper frontier is beyond the lower one and held times are from the lower one on (what the driver maintains)"],
  note="tile_descriptions, the cutting of output in both cursor-based tactics, the choice of the buffer for each output update and the frontier handed back are extracted from the running code; lemmas show that intervals that adjoin cover each time of the interval exactly once")
p("P11", units=["stream"], level="proof",
  bounded=["the construction of the operators and the sources around the verified bodies (names, activators, logging)", "the trace's own contents (property P09) and the exchange of updates among workers"], bound="random histories, import points, compactions and worker counts",
  trust=["timely's capabilities, CapabilitySet, Antichain and message handles (assumed contracts)", "the batcher and the chunker (assumed contracts; properties P05 and P06), the builder (property P07) and the trace's insert and map_batches (property P09)", "queues are read and written by one thread (Rc/Weak/RefCell modelled as plain values)"],
  assume=["timely delivers messages whose updates are at their capability's time or later, at capabilities not before the input frontier last seen", "differences satisfy their laws without overflow"],
  note="the arrange operator's activation, TraceWriter::{insert,exert,seal,drop}, the registration of a listener and the activations of both import sources are extracted from the running code; the lemmas show that what is sent adjoins and accumulates to the input, and that a replayed log leads to the writer's frontier")
p("P15", units=["totals"], level="proof",
  bounded=["arranging the input (count_total on a collection)", "the operators running under timely"], bound="random histories over small domains in random batchings, with keys that vanish and return",
  trust=["the cursors over batches and traces (assumed contracts; properties P08 and P09)", "timely's input and output handles (assumed contracts)", "differences satisfy their laws without overflow"],
  assume=["batches arrive in the order of their intervals, so under a total order their updates are presented in the order of time", "From<i8> embeds the integers", "the trace has reached the upper limit when it is read (Option::unwrap)"],
  note="one activation of the counting and the thresholding operator emits, for every key and every time, exactly the replacement of what the count before called for; lemmas chain activations over whole histories and through the threshold closure")
p("P16", units=["looping", "linear"], level="proof",
  bounded=["that the operators in a loop body act on differences as the body acts on accumulations (properties P12, P13, P15 and P17, one by one)", "termination, and the incremental run of a loop under timely"], bound="random histories of inputs to several loops (single, mutual, from nothing, nested), with every version compared to a run from scratch",
  trust=["timely's feedback, connect_loop, and scopes: a loop's messages carry the updates they were given, later by the promised step (assumed contract)", "enter, leave, concat, negate and results_in between collections (assumed contracts over accumulations; their bodies are discharged in unit `linear` for property P17)"],
  assume=["the loop body determines the accumulation at each time from the accumulation at that time", "differences form a commutative group"],
  note="Variable::new, new_from and set, and the closures of both `iterate`s, are extracted from the running code; the postconditions give that at every outer time the value leaving is the limit of the body applied again and again to that time's input, whatever the other times hold")
p("P17", units=["linear", "consolidation", "reading"], level="proof",
  bounded=["consolidate (through an arrangement: P06, P07, P10)", "the closures that as_collection and as_vecs hand to flat_map_ref, and as_container", "map_in_place and its aliasing pattern", "the Rc containers", "concatenate of many collections"], bound="random collections, record functions and scopes",
  trust=["timely's stream operators (map, flat_map, filter, concat, delay_batch, enter, leave, unary): assumed contracts on the bag of records and the time of the message carrying each", "std's iterator adaptors"],
  assume=["record functions are pure (FnMut is read as Fn)"],
  note="each operator's running body, closures included, is shown to act record by record with the time and difference required; the container operators (negate, enter, leave, results_in) per activation and per container; flat_map_batches (behind flat_map_ref, as_collection and as_vecs) is shown to send each update of each batch once for each datum made of its key and value, in the order of the batches and at the time of their message, and nothing else; lemmas give that mapping, filtering, negating and concatenating commute with accumulation and that no record is moved before its message")
p("P18", units=["session"], level="proof",
  bounded=["creating sessions and collections with initial contents (new_collection*, to_collection)", "delivery of what was handed to timely's input handle"], bound="random programs over a session, run to completion",
  trust=["timely's input handle: what is sent is delivered once under its capability's time (assumed contract)"],
  assume=["decisions that depend on Vec::capacity are arbitrary", "a panic is a refusal: assert! is taken to return only if its condition holds"],
  note="what a session was given, sent plus buffered, is a postcondition of every operation: each update enters once at its time, flushing and dropping send everything, time only moves forward and stale times are refused")
p("P19", units=["capture"], level="proof",
  bounded=["the reader as a dataflow: source::build's MESSAGES and PROGRESS operators (routing, the second copy of the statement queue)"], bound="random histories, permuted and duplicated, with sinks that ask for retries",
  trust=["timely's ChangeBatch, MutableAntichain, frontiers and input/output handles; std's VecDeque, HashMap and HashSet (assumed contracts)", "the sink takes a message exactly when poll returns None"],
  assume=["the delivered messages are drawn from one true history (each time's count is the number of its distinct updates)", "updates carry no time before the writer's frontier (timely's guarantee)"],
  note="Iter::next yields each update exactly once and only reports complete prefixes, and a lemma over its invariant gives that everything delivered is reported in whatever order; both writers' activations and the reader's deduplication are extracted from their closures: statements abut, counts are exact, nothing is sent twice or lost on retry")
p("P20", units=["pointstamp"], level="proof",
  bounded=["progress tracking through dynamic scopes", "Columnation of stamps"], bound="random coordinates and summaries of depth up to five; nested dynamic loops over random inputs",
  trust=["the columnar builder returns what was pushed, in order, as containers (decided with property P25)", "iterator combinators (zip, chain(repeat), take, all, skip) in the comparisons, and SmallVec read as Vec", "timely's contract for capabilities (`delayed`) and messages"],
  assume=["coordinates and their summaries satisfy timely's laws: Timestamp, PathSummary, differential's Lattice"],
  note="PointStamp's new, comparisons, lattice and path summaries, leave_dynamic's connection and per-message closure (of the columnar leave_dynamic too) and feedback_summary are extracted from the running code; the lemmas prove the order laws, that composition agrees with following in turn, and monotonicity in stamps and in summaries")
p("P21", units=["views"], level="proof",
  bounded=["map_batches of the three wrappers", "the streams of entered arrangements"], bound="random traces read through views, compacted through views",
  trust=["timely's Refines and Antichain (assumed contracts)", "the wrapped trace, batch and cursor behave as functions of their state (assumed contracts)"],
  assume=["the user's inverse in enter_at is consistent with the times assigned"],
  note="each wrapper's cursor performs exactly the wrapped operation and shows each update once at the mapped time; frontiers are translated exactly, and a lemma gives that nothing distinguishable through an entered view is compacted away")
p("P22", units=["upsert"], level="proof",
  bounded=["the operator around the verified loops: stashing input, capabilities, the upper of each batch, compaction of the trace"], bound="random assignment histories (repeated, deleted, simultaneous) in random batchings and schedules",
  trust=["the trace's cursor (assumed contract: keys and values in order, every time's difference; properties P08 and P09)", "the batch builder (takes what it is given, sorted; property P07)", "BinaryHeap, BTreeMap, Vec::sort and Vec::dedup_by (assumed contracts)"],
  assume=["before the interval each key's group holds at most one value, once (what the operator itself maintains; the two assertions in the code are proved under it)", "keys, values and times are lawfully ordered and cloned; stored differences sum without overflow", "the lists handed to the loop are those of the upserts taken"],
  note="the loop that takes the upserts before the upper frontier and the loop that resolves them key by key are extracted from the running code: for every key and time, what was held and the updates made accumulate to the greatest of the upserts at the last time not after it, or to what was held if there is none")
p("P23", units=["lattice_impls", "halves", "consolidation"], level="proof",
  bounded=["half_join2 (same contract, decided by search)", "the exchange, scheduling and activation around half_join's loops", "lookup_map and the prefix extenders"], bound="random streams and arrangements over small domains and interleavings, with and without yielding",
  trust=["the arrangement's cursor presents each key's values and updates once, in key order (contract decided by P08 and P09)", "timely's Antichain, capabilities and frontiers (assumed contracts)", "HashMap: entries are appended to, never lost (assumed contract)"],
  assume=["times are lawfully and compatibly ordered, differences satisfy their laws", "the user's comparison is a function of its two times; a comparison that admits a time admits all earlier ones", "triples compare by their first component first", "the count of work passed to the yield function is machine arithmetic treated as unconstrained"],
  note="half_join: process_proposals answers each request it marks done exactly once and in full (every value of its key, the accumulated admitted updates at the join of times) and only when no update still to come could be admitted; the loop over the stash keeps every other request under a capability not beyond it; what the arrangement may forget is exactly what the frontier function allows; lemmas: an answer is final, and of one change per relation exactly one finds all others. Old/new tagged times: order and lattice laws in lattice_impls")
p("P24", units=["chunk", "vecchunk"], level="proof",
  bounded=["the columnar chunk's merge, extract, advance and settle", "ChunkBatchMerger, ChunkBatchBuilder and ChunkBatchCursor"], bound="random chains of small chunks for both chunk types, drained and resumed at arbitrary points",
  trust=["std::collections::VecDeque and the conversions between Vec, VecDeque and iterators (assumed contracts)", "differences satisfy their laws without overflow", "slice sorting and chunks, Rc::make_mut and try_unwrap, and comparison of tuples of references (assumed contracts)", "advance_by, as an uninterpreted function (property P02)"],
  assume=["the contract of trait Chunk is assumed of the columnar chunk, which is checked against it by the bounded stand-in; for VecChunk it is proved", "vectors hold at most isize::MAX records"],
  note="packing, settling, merging and cutting chains of chunks: contents, grading and progress are postconditions of the generic functions over the contract of trait Chunk, for every chunk type satisfying it; VecChunk's galloping search, merge, extract, advance and settle are proved to satisfy it")
p("P25", units=["trie", "recording"], level="proof",
  bounded=["merging two tries layer by layer (survey, write_layer, write_diffs, merge_pair)", "splitting a trie by a frontier (extract), chunks of tries: merge, advance, settle, spilling", "exchange, containers and record counts (RecordedUpdates, the distributor), the columnar operators"], bound="random updates with shared keys and values, random shapes of chains, spilled and not",
  trust=["the columnar crate: a container reads back, in order, what was pushed on it (assumed contract)", "sort_unstable and Peekable (assumed contracts)"],
  assume=["keys, values and times are lawfully ordered, and borrowed and owned items are one type", "differences satisfy their laws without overflow"],
  note="a trie is related to the sequence of updates it spells; consolidating, forming, filtering, iterating, melding, keeping some items of a layer and splitting are proved to spell exactly the updates they should, for every shape of trie; as_recorded_updates is shown to send every update of every batch once, in order; the merge of tries, spilling and exchange are decided by the bounded stand-in")
p("P26", units=["storage"], level="proof",
  trust=["the standard library's Vec, slices and integer conversions (vstd specifications)", "containers hold fewer than usize::MAX / 2 elements"],
  note="push, index, len, iteration, clear of offset lists and slice containers, and the galloping search (both copies), are proved for every sequence of pushes and every monotone predicate")

def manifest():
    checks = []
    for id in sorted(PROPS):
        c = PROPS[id]
        checks.append(dict(property=id, quick_cmd="python3 tools/check.py " + id,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + id,
                           evidence_file="evidence/%s.json" % id,
                           technique=c.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run; failed obligations replayed against the real code"),
                           level=c["level"], level_note=c["note"]))
    m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    return m

na("P27", "independence from worker count quantifies over concurrent interleavings of timely's runtime, an external dependency; no contract on this repository's functions expresses it")
na("P28", "the algorithms are compositions of dataflow combinators whose meaning lives in closures handed to the runtime; there is no loop or data structure in their source to put a contract on, and the properties of the operators they use are decided separately")
na("P29", "the lowering is a recursive translation between syntax trees; relating it to a relational semantics needs a mechanised semantics of both languages, i.e. a model, not contracts on the code")

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    listed = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    for i in listed:
        if i not in PROPS and i not in NA: na(i, "no check yet")
    json.dump(manifest(), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    print(len(PROPS), "claimed,", len(NA), "not applicable")
