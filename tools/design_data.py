# id -> (oracle, not covered / bounds)
D = {}
def d(i, oracle, bounds): D[i] = (oracle, bounds)
d('C01', 'A reference scheduler (ordered multiset of tick, phase, precedence level, insertion number) predicts the whole firing history; the same history is also run in different slices and must fire identically (metamorphic).',
  'AsyncEvent only with a positive delay (its same-tick position is not promised).')
d('C02', 'A reference graph: reachability for cycle detection, topological levels for the order of firing. Refusals must come with a real cycle, and every declared edge must be respected by what fires.',
  'Self-links are ignored by the library and by the model; a cycle report may include the path that leads into the cycle; operator>> across phases is refused by design.')
d('C03', 'A list of in-flight payloads with identity, value, due tick and handle count; the payload type counts its live instances, so a leak, a double release or a use after release shows up.',
  'SingleCycleUniqueEvent only on edges of its clock, and time has advanced after clearEvents; moves of GlobalEvent and setContinuing after proxies exist are not asserted; at most 1100 payloads in flight.')
d('C04', 'Exact arithmetic in 128-bit integers for rationals, and the defining equations of clock ratios (ticks per cycle, edges, periods, conversions) for clock trees.',
  'Unsigned terms; the difference is |a-b|; sums whose cross terms do not fit, and products whose result does not fit, are not generated; getTick(double) below 2^20 cycles; a period made from a frequency is within 1 of 1e6/f.')
d('C05', 'A list of sends with value, due tick and receiver set; every delivery, pull and cancel is compared, including order among receivers with declared precedences.',
  'cancel() on an out-port cancels what is pending at its in-ports; handlerless ports only with a delay of at least 1; sends from outside of handlers need a delay of at least 1; the order of an immediate and a scheduled delivery of one tick is free.')
d('C06', 'A reference of the arrival rule (earliest edge of the receiver after the integral or fractional delay), plus a queue model of refused and retried data.',
  'ready/valid only with both ends on one clock and a port delay of 0 or 1, sends only when isReady(); one send per sender cycle; setReady at tick 0 not generated.')
d('C07', 'std::vector of self-checking elements (instances are counted and stamped, so a stale copy or a leaked element is seen) with a list of live iterators.',
  'Iterators are not used after a growing Buffer has grown; insert at end() through an iterator is not generated; iterators of erased entries are checked only until the slot is reused.')
d('C08', 'std::deque of self-checking elements with live iterators; occupancy statistics compared with cycle-by-cycle accounting.',
  'end() iterators of a CircularBuffer are not used after a later push; operators < and > of its iterators (inverted today) and operator-> of const iterators (does not compile) not covered; inserting into a full CircularBuffer replaces the oldest entry.')
d('C09', 'Slot array and age list for Array and FrontArray; stable sorted list for PriorityQueue.', 'isOlder/isYounger only on valid slots; a bounded PriorityQueue has no remove and back.')
d('C10', 'Arrays of optional values shifted once per update.', 'Pipe::resize only right after construction; writes of an automatic SharedData only after the Update phase; copies only without a pending update.')
d('C11', 'A reference pipeline (stages, stall, bubbles, suppression) that predicts the contents and the handler calls of every cycle, in order.',
  'Handlers in the Tick phase; invalidateStage after the handlers; flush and stall from within handlers only with a forward or backward order.')
d('C12', 'The obvious reference for each utility: std::list, std::map, big-integer loops, std::optional, exact comparisons in 128 bits.',
  'TieredMap with unsigned keys and nodes of at least 2; undefined arguments (ceil_log2(0), lcm(0,0), ..) excluded; BoundedValue.hpp does not build in C++17.')
d('C13', 'Per unit the cycle at which each register becomes visible; callbacks fire once at the first update at which all of their registers are ready.',
  'Actions on edges of the scoreboard clock; clearBits not called from callbacks; views are never destroyed.')
d('C15', 'A byte array per bank; delta checkpoints against the set of lines that changed.',
  'Lines of 0 bytes are a known finding; line sizes that do not divide a padded access are not asserted; cyclic subset definitions not generated.')
d('C16', 'Bit-by-bit big integers for RegisterBits, a byte array with masks for registers and fields, counted notifications.',
  'writeUnmasked may skip notifications; Definition::operator== not asserted; conflicting definitions not generated.')
d('C17', 'A byte array per memory object and an interval list for the map; notifications compared one by one.', 'Accesses of size 0 and DMI outside of the window not asserted.')
d('C18', 'Per cache the sequence of outstanding writes over a base memory: each byte is the newest outstanding write covering it, else the base.',
  'External changes come with merges unless no cache holds the block; pokes only where no write is outstanding; dropping a write drops all newer ones; commits from the oldest.')
d('C19', 'A full copy of the simulated state for every checkpoint and a tree of checkpoints; every load is compared byte for byte.',
  'Which id is current after deleting the current checkpoint, the number of dead checkpoints and traceValue are not asserted; one checkpointer per tree; the cherry-pick checkpointer needs SimDB.')
d('C20', 'The saved bytes of state, restored in the same and in another tree of the same structure; file stream adaptors against a byte vector.',
  'Corruption only by truncation or a wrong first control byte; the state after a failed restore is not asserted (except a missing file, which must change nothing).')
d('C21', 'Exact 64-bit accounting of every counter and window.', 'Values below 2^53; moves only before finalization.')
d('C22', 'A recursive-descent evaluator written for this check, over doubles, with the documented precedence.',
  'Unary sign binds tighter than **, ** is right associative; counters named like a builtin, and results that depend on the sign of a NaN, are skipped; time-unit conversions with 1e-12 tolerance.')
d('C23', 'The list of samples, re-binned from scratch; statistics recomputed.', 'Mean and deviation are over bin counts (as documented in the code); the labels of cumulative tables and the StateHistogram table are not asserted; StateTimerUnit not covered.')
d('C24', 'Per-context accounting; windows by difference.', 'At least one context; aggregates registered by the user report current values.')
d('C25', 'The statistics themselves read through the API; each format is parsed by a small parser of its own and compared value by value (differential between formats).',
  'Non-integral values carry 6 significant digits; header styles, trigger keys and arch-content are not asserted; HTML by its name and value cells.')
d('C27', 'Text of a drawn value in every notation, value computed exactly in 128 bits; round trip print/parse; a history model of defaults, locks, validation and callbacks.',
  'Blank strings, "-", digits followed by further numbers and inexact fractions are not asserted; float inf/nan excluded.')
d('C28', 'The list of assignments; a lookup is answered by the last assignment whose pattern matches each level.', 'All paths of a tree have one depth; required-ness asserted only when unambiguous.')
d('C29', 'Round trip of every parameter type through emitter and reader, and a reference application of assignments to names and patterns.',
  'YAML nulls, aliases, <OPTIONAL> values and parameters named include are not generated; origin line numbers not asserted.')
d('C32', 'A tree of plain records with names, groups, aliases, tags and phases; every lookup is recomputed by brute force over all nodes.',
  '"__" inside a name, private subtrees, moved nodes and destruction of inner nodes not generated.')
d('C33', 'The set of (observer, source) pairs implied by the registrations in force; posts and log lines must reach exactly these, once.',
  'Order among observers not asserted; observers do not change within callbacks; MirrorNotificationSource not covered.')
d('C34', 'An evaluator over the expression tree that generated the text.', 'Patterns hold no |, comma or braces; nested !! not generated.')
d('C35', 'Cycle-by-cycle model: set of active triggers per clock, conditions re-evaluated from the model counters; expressions latch each term and fire when the formula becomes true.',
  'Alignment is always set explicitly; cycle and time triggers are not set again before their cancelled time has passed (documented); statistics in expressions count from the creation of the trigger (as today); context-counter, toggle and expiring triggers not covered.')
d('C37', 'Every transaction written to the collection is read back through the transaction database reader and compared.', '')
d('C38', 'A reference set-associative cache with explicit recency lists or tree bits.', 'Powers of two for sets; stride equals the line size (or larger with the addresses of one bank); NT lines only through NT replacement.')
d('C39', 'Reference counts computed from the set of live pointers; objects are self-checking and counted.', 'Self-assignment (asserts today) excluded; upcasts to the first base; the pool outlives its pointers; the exact watermark threshold is not asserted.')
d('C41', 'Metamorphic: the same model configuration is run several times in fresh processes and with observers attached; counters and logs must not differ.', '')
