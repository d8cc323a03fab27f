"""The registered checks: id -> sources, build options, the rule for non-trivial cases."""
CHECKS = {}
def check(id, src, rule, assumptions=(), **kw):
    CHECKS[id] = dict(src=[src] if isinstance(src, str) else src, rule=rule, assumptions=list(assumptions), **kw)

check('C01', 'C01.cpp', 'a case is a clock tree, 1-10 events in any phase with a random acyclic precedence, and a history of runs (exact, non-exact, unbounded) and of schedule/cancel/query actions made between runs and inside handlers; non-trivial: at least 4 events fired and the history has a cancellation, a refused or same-tick schedule, or more than one clock')

check('C03', 'C03.cpp', 'a case is 1-5 payload/unique/single-cycle-unique/global events in any phase on one or two clocks and a history of prepare, hold, copy, move, assign, drop, schedule, cancel (all, by time, by value, by predicate, by handle), query and run operations made between runs and inside handlers; non-trivial: at least 4 deliveries and a cancellation, a held handle or a duplicate unique schedule')

check('C02', 'C02.cpp', 'a case is (a) a history of link/unlink/detect/sort/dump on a graph of 8-21 vertices and ordering points, or (b) 2-11 events in any phases with up to 16 declared precedences (event-event, event-GOP, GOP-event, event-phase) and removals, finalized and fired; non-trivial: user edges beyond the phase chain and a cycle, a removal, a sort or at least four events')

check('C04', 'C04.cpp', 'a case is (a) a chain of rational operations over 32/64-bit terms whose cross products are representable, or (b) a tree of 1-7 clocks by ratio or frequency, conversions at drawn cycles and ticks, and runs with events on every clock; non-trivial: at least two arithmetic operations, or at least two clocks and two events fired')

check('C05', 'C05.cpp', 'a case is (a) 1-5 data/signal in-ports and 1-4 out-ports in any phases with delays 0-3 on one or two clocks, randomly bound (directly, reversed, through exported ports), with declared producers, consumers and precedences, and a history of sends, cancels, pulls, queries and runs made between runs and inside handlers, or (b) two buses of drawn port names bound to each other; non-trivial: at least 4 deliveries and a zero-delay send, a cancellation, a coalesced signal or a fan-out, or a bus of at least two ports')

check('C06', 'C06.cpp', 'a case is 1-3 sync in-ports with 1-2 sync out-ports each, on clocks of drawn ratios and phases with integral or fractional port delays, and a history of sends (delayed, sliding), ready changes, queries and run slices; non-trivial: at least 4 deliveries and a retry while not ready, a slide, a refused send or a crossing between clocks of different period')

check('C07', 'C07.cpp', 'a case is a Buffer of capacity 1-12 (fixed or growing) of self-checking elements and 5-50 push, insert, erase, overwrite, step, clear and move operations by index, iterator and reverse iterator; non-trivial: at least 4 insertions and 2 erasures')

check('C08', 'C08.cpp', 'a case is a Queue of capacity 0-17 or a CircularBuffer of capacity 1-12 of self-checking elements, sometimes with occupancy statistics and a running clock, and 5-60 push, pop, pop_back, insert, erase, overwrite, step, clear operations; non-trivial: at least 4 insertions and removals (2 from a queue, 1 from a circular buffer)')

check('C09', 'C09.cpp', 'a case is an aged, plain or front Array of capacity 1-14 of self-checking elements with 5-50 write, erase, overwrite, clear, age and circular-iteration operations, or a PriorityQueue (unbounded or bounded, two orderings) with 5-60 insert, pop, erase, remove, force and clear operations; non-trivial: at least 4 insertions and one removal')

check('C10', 'C10.cpp', 'a case is a Pipe of 1-12 stages (updated manually or by itself, on a clock of drawn ratio) or a SharedData (manual or automatic, constructed, copied, moved or assigned) and 3-40 cycles with up to 3 operations each; non-trivial: at least 3 appends and 6 stage moves, or 3 writes and 2 values seen')

check('C11', 'C11.cpp', 'a case is a pipeline of 1-8 stages with 0-2 handlers per stage (plain or with payload), ordered forward, backward or by drawn pairs, updated manually or by itself on a clock of drawn ratio, and 5-40 cycles of append, write, invalidate, flush, stall (crushing bubbles, suppressing events), clear and (de)activate operations made before, inside and after the handlers; non-trivial: at least 4 handler calls and a stall or flush')

check('C12', 'C12.cpp', 'a case is a history of operations on one utility (a FastList of self-checking elements, bit arrays of 1-40 bytes, a TieredMap of any node size with clustered and extreme keys, ValidValue/LockedValue, a bounded_int of one of eleven type pairs, tags) or a batch of drawn arguments of the math and string helpers; non-trivial: several insertions and removals, a shift among six operations, keys beyond one node, accepted bounded operations, or at least two tokens')

check('C13', 'C13.cpp', 'a case is 1-2 scoreboards with latency tables of 1-4 units (immediate, 1-6 cycles, no forwarding) anywhere in the tree, and 3-30 cycles of setReady, set, clear, view creation, callback registration (some of whose callbacks set registers, register or clear callbacks) and clearing, before and after the Update phase; or a drawn latency table to validate, or a register mask to print; non-trivial: at least 2 callbacks fired with at least 2 views and a delayed update or a clear')

check('C15', 'C15.cpp', 'a case is 1-14 data views of 1-64 bytes (nested subsets, initial bytes) over lines of 1-512 bytes with a fill pattern, in one or two banks, and 5-80 typed reads and writes in both byte orders, padded/truncated accesses, copies, string renderings, resets and bank copies; or 4-60 byte-range operations on sparse lines; or a pattern fill; or a layout to refuse; non-trivial: at least 3 writes and 2 reads with three views or multi-byte accesses (2 writes and a read on lines)')

check('C16', 'C16.cpp', 'a case is a register set of 1-12 registers of 1-512 bytes with up to 4 (overlapping, read-only) fields, subset overlays, groups, banks, aliases, initial values, proxies and observers, and 5-50 typed, buffer, field, direct and reset accesses; or a batch of bit-vector operations of 1-64 bytes; non-trivial: at least 3 writes and 2 reads with notifications or three registers, or a non-zero shift')

check('C17', 'C17.cpp', 'a case is 1-4 memory objects (blocks of 1-128 bytes, fill patterns), a memory map with up to dozens of mappings added while 10-120 reads, writes, peeks, pokes, direct-memory and refused accesses run through the map and the objects with observers coming and going; or a mapping tree of up to 90 mappings looked up at every block; non-trivial: at least 6 legal accesses and 2 writes with two mappings, a spanning access or a notification, or at least four mappings')

check('C18', 'C18.cpp', 'a case is 1-3 cached memories (blocks of 1-64 bytes) over one system memory that tells the other caches of every committed write, and 8-90 writes, reads, commits, drops, merges, pokes, silent changes of uncached blocks and refused operations, every byte of every memory compared after each; non-trivial: at least 3 writes, a commit and a drop or merge, with overlapping writes or two caches')

check('C19', 'C19.cpp', 'a case is a device tree with up to two register sets and two memories and 5-60 operations that change registers and memories, reset memories, run the scheduler, create (forced or automatic) checkpoints, load and delete any of them, change the snapshot threshold, forget the current checkpoint or are refused, the history tree compared after each and every live checkpoint restored at the end; non-trivial: at least 4 checkpoints, 2 loads and 3 changes with a deletion or a branch')

check('C20', 'C20.cpp', 'a case is two device trees of the same structure and 5-40 saves to and restores from streams, files and FILE streams in both, mixed with changes, ordinary checkpoints, loads, incomplete data and refused operations; or a sequence of writes and reads through the FILE stream adapters; non-trivial: at least 2 saves, 3 restores one of them into the other tree, 3 changes and a load or refusal, or over 1024 bytes in at least 3 pieces')

check('C21', 'C21.cpp', 'a case is 2-10 counters of every kind and behaviour (some moved by a growing vector) and up to two statistics over them on two clocks, and 3-14 points in time with up to 5 increments, sets, starts and stops of cycle counting, window starts and ends, copies, assignments, accumulations and refused operations each, every counter and instance compared after each; non-trivial: at least 10 operations, an ended window, two instances and cycle counting or a copy')

check('C22', 'C22.cpp', 'a case is a tree of 2-6 counters with awkward names, two parameters and the built-in variables, and 2-5 expressions of up to four levels rendered with random spacing, redundant parentheses and case or built through the C++ operators, evaluated, started, ended, copied and compared while counters and time move, one in twelve malformed; non-trivial: at least 8 nodes and 4 evaluations')

check('C23', 'C23.cpp', 'a case is one histogram (plain with the largest values, over buckets, over an enumeration, cycle-weighted, enumeration cycle-weighted or of states) of drawn range, bin width and idle value, with 1-40 samples at and around every bin boundary and outside the range, or a history of values held, added and scheduled over time on a clock of drawn ratio, with every bin, statistic and the printed table compared; non-trivial: at least 4 samples with one outside the range, or at least 4 changes of value with a window of statistics open')

check('C24', 'C24.cpp', 'a case is 1-3 context counters (plain, over cycle counters, weighted; 1-20 contexts; summed or with an expression of their own) and 3-13 points in time with up to 6 increments, sets, starts and stops of single contexts, changes of the weights, windows of the aggregate, of single contexts and of the registered aggregate functions, expansions and grouped printings and refused operations each; non-trivial: at least 8 operations, 4 of them counts, two contexts and a window')

check('C25', 'C25.cpp', 'a case is a tree of units with counters, statistics and parameters, a report defined by a YAML definition (nested scopes, wildcards with captures in names, subreports per match, expressions, autopopulation, styles) and by calls, copied, assigned or moved, with counting and window starts and an end, compared with the statistics it names and written by every formatter; or a file name or format name to choose a formatter; non-trivial: at least 3 statistics, a wildcard and a subreport or an expression')
check('C27', 'C27.cpp', 'a number in a non-trivial notation, or a parameter history with at least two accepted changes, or a validation run with rules of which some fail')
check('C28', 'C28.cpp', 'a history over 1-3 trees with at least four assignments, one of them to a pattern, and a lookup that an assignment matches')

check('C29', 'C29.cpp', 'a case is a tree of up to 3 levels with parameters of 14 kinds (scalars to three-dimensional vectors, awkward strings) written by the emitter and read back into another tree and through the virtual tree; or 1-8 assignments to names and patterns written as YAML in a drawn structure (nesting, dotted keys, block and flow, comments, includes), some of them wrong; or layers of parameters, configuration files and an architecture file given to a simulation; non-trivial: at least 2 parameters with a change, or 3 assignments with a pattern or an include, or two layers')
check('C38', 'C38.cpp', 'a case is a history of up to 60 accesses, allocations, invalidations, touches and mode changes of a cache of drawn geometry (1-16 ways, list or tree replacement, 1-64 sets, lines of 1-128 bytes) over a pool of conflicting blocks, every way, victim, byte and statistic compared with a reference cache; or a history of touches of a replacement policy; or addresses through a decoder; non-trivial: at least 2 evictions and 8 operations, or 3 ways and 6 touches, or 2 sets and bytes')
check('C39', 'C39.cpp', 'a case is a history of up to 40 creations (on the heap and from a pool of 1-12 blocks, some with constructors that allocate or throw), copies, moves, assignments (also from members of the object being released), conversions, resets, weak copies and locks over a handful of pointers and linked objects, compared with explicit counts after each; non-trivial: at least 4 objects and 10 operations')

check('C34', 'C34.cpp', 'a case is a tree with at least 4 nodes and 1-5 expressions of which at least one accepts some nodes and refuses others, or a report populated by an expression with some but not all statistics')

check('C32', 'C32.cpp', 'a case is a history of up to 26 constructions, attachments, aliases, tags, removals and refused changes of device trees ending with at least 5 nodes below the root and at least two searches of which one finds several nodes; or a pattern with a wildcard matched against a name of two or more characters')

check('C33', 'C33.cpp', 'a case is a history of up to 50 changes of trees, sources, observers (on nodes, sources and the global node, by name, pattern or list) and posts, with a post reaching several observers and two observers left at the end; or of message sources, taps and destinations with a message that reaches several destinations')

check('C35', 'C35.cpp', 'a case is a run of 4-60 cycles with counters and notifications driven at random and triggers made, set, deactivated, moved and destroyed, also by the callbacks of other triggers; non-trivial: at least two (times: three) firings, or a start that is reached together with a stop or a repetition')
