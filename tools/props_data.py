S='sparta/sparta/'
prop('C01', 'Scheduler fires every scheduled event exactly once, on time and in order',
 'Every event scheduled on the scheduler fires exactly once, at exactly the tick it was scheduled for and never after being cancelled; simulated time never goes backwards, within one tick events fire in scheduling-phase order, then in declared-precedence order, and events of the same precedence level fire in the order they were scheduled. A bounded run of N ticks fires exactly the events due in that window, and splitting a run into consecutive bounded runs yields the same firing history as one run.',
 ['histories','schedules'], 'all sets of events (phases, precedence edges, delays, clocks), all histories of schedule/cancel calls made before and from inside handlers, and all ways of slicing the run',
 'Scheduler_test and Events_test drive a handful of fixed schedules; ordering, cancellation and run slicing interact over an unbounded set of histories.',
 [S+'kernel/Scheduler.hpp','sparta/src/Scheduler.cpp',S+'events/Scheduleable.hpp','sparta/src/Scheduleable.cpp'],
 [('sorted tick-quantum list with per-precedence-group vectors','Scheduler::scheduleEvent / determineTickQuantum_ / run'),('DAG group ids per phase','Scheduleable::setupDummyPrecedence.., DAG::finalize')],
 ['handler invocations with Scheduler::getCurrentTick'])
prop('C02', 'Event precedence graph: order is honoured and only real cycles are rejected',
 'After finalization every precedence edge is respected by the assigned ordering groups, for events and global ordering points alike; declaring precedence that would make the graph cyclic is rejected exactly when a cycle really exists, and the reported cycle is a real one. Removing an edge removes exactly that constraint.',
 ['inputs','histories'], 'all directed graphs over events/vertices, in any order of edge insertion and removal',
 'DAG_test exercises a few hand-written graphs; the guarantee is over all graphs and insertion orders.',
 [S+'kernel/DAG.hpp','sparta/src/DAG.cpp',S+'kernel/Vertex.hpp','sparta/src/Vertex.cpp'],
 [('topological sort with cycle detection','DAG::finalize, DAG::sort, DAG::detectCycle'),('edge bookkeeping','Vertex::link/unlink')])
prop('C03', 'Payload and unique events deliver each payload once and cancel exactly',
 'A payload event delivers every prepared-and-scheduled payload exactly once, unmodified, at its own due time, and cancelling removes exactly the deliveries that match (all, by relative time, or by predicate) and reports what it removed or what is still scheduled accurately. Unique and single-cycle-unique events fire at most once per tick/cycle and at least once for each tick/cycle for which they were scheduled.',
 ['histories'], 'all histories of prepare/schedule/cancel/query calls on payload, unique and single-cycle-unique events, including calls from handlers',
 'Events_test covers fixed sequences with few payloads in flight; recycling of delivery proxies makes behaviour depend on the whole history.',
 [S+'events/PhasedPayloadEvent.hpp',S+'events/PhasedUniqueEvent.hpp',S+'events/PhasedSingleCycleUniqueEvent.hpp',S+'events/GlobalEvent.hpp'],
 [('recycled payload proxies and in-flight list','PhasedPayloadEvent'),('add-if-not-scheduled','Scheduler::scheduleEvent')])
prop('C04', 'Clock and rational arithmetic is exact; clock domains keep their ratios',
 'Rational numbers behave as exact normalized fractions under construction, arithmetic and comparison. In a tree of clocks built from frequencies or ratios, each clock has the period its ratio to its parent implies, cycle-to-tick and tick-to-cycle conversions are mutually consistent, and the current/elapsed cycle of every clock agrees with simulated time.',
 ['inputs','configurations'], 'all rationals with in-range terms, all clock trees and ratios, all simulated times',
 'Rational_test and Clock_test use a few constants and one clock tree.',
 [S+'utils/Rational.hpp',S+'simulation/Clock.hpp','sparta/src/Clock.cpp',S+'simulation/ClockManager.hpp',S+'utils/MathUtils.hpp'],
 [('gcd/lcm normalisation','Rational.hpp, MathUtils.hpp'),('period normalisation','ClockManager::normalize, Clock::calculateNorm_')])
prop('C05', 'Ports deliver every send once, to every bound receiver, after exact delay',
 'Data sent on an out-port reaches each bound in-port exactly once, unmodified, exactly (send delay + port delay) cycles later and in an order consistent with due time and send order; pulled data is the most recent delivery and is visible only from its delivery on. Cancelling, per-delay or by predicate, removes exactly the pending deliveries it names, and driven-status queries agree with what is pending.',
 ['histories','configurations'], 'all port topologies (fan-out, fan-in, exported ports, buses), delays, clocks and send/cancel/pull histories',
 'Port_test uses fixed topologies and delays.',
 [S+'ports/DataPort.hpp',S+'ports/SignalPort.hpp',S+'ports/Port.hpp',S+'ports/Bus.hpp',S+'ports/ExportedPort.hpp',S+'utils/DataContainer.hpp'],
 [('payload events per in-port','DataInPort::receivePortData_')])
prop('C06', 'Sync ports cross clock domains without loss, reordering or early arrival',
 'Data sent on a sync port between clock domains of any frequencies is delivered exactly once, in send order, on a rising edge of the receiver clock, never earlier than the configured delay permits and no later than the first receiver edge satisfying it and the one-item-per-cycle and readiness rules.',
 ['histories','configurations'], 'all sender/receiver clock ratios and phases, delays, send and ready/not-ready histories',
 'SyncPort_test uses a few fixed frequency pairs.',
 [S+'ports/SyncPort.hpp'], [('destination-cycle computation','SyncInPort::computeSendToReceiveDelay_, send_')])
prop('C07', 'Buffer behaves as an ordered, bounded, stable-iterator sequence',
 'After any sequence of operations a buffer holds exactly the elements inserted and not yet erased, in insertion-position order, reports its size/free space exactly, never exceeds its capacity (unless resizable), and iterators refer to the same element until that element is erased, when they become invalid.',
 ['histories'], 'all sequences of push/insert/erase/access/clear operations, element types and capacities',
 'Buffer_test runs fixed scripts.',
 [S+'resources/Buffer.hpp'], [('pointer list over a data pool','Buffer')])
prop('C08', 'Queue and circular buffer are exact FIFO/sequence containers',
 'A queue yields its elements in exact FIFO order and supports removal from the back; a circular buffer behaves as an ordered sequence under insert/erase at any position. Size, free-entry count, indexed access, iteration and iterator/handle validity always agree with the reference sequence, for every capacity and across index wrap-around.',
 ['histories'], 'all operation sequences, capacities (powers of two or not), wrap-arounds and element types',
 'Queue_test and CircularBuffer_test run fixed scripts with one or two capacities.',
 [S+'resources/Queue.hpp',S+'resources/CircularBuffer.hpp'],
 [('wrap-around physical/logical index mapping','Queue::getPhysicalIndex_, CircularBuffer')])
prop('C09', 'Array and priority queue keep slot contents and age/priority order exact',
 'An array stores each element in exactly the requested slot until it is erased, reports slot validity and occupancy exactly, and its oldest/youngest and age-ordered views list valid entries in exact insertion-age order. A front array fills the lowest free slot, and a priority queue always yields elements in priority order with ties handled stably and nothing lost or duplicated.',
 ['histories'], 'all operation sequences over normal and aged arrays, front arrays and priority queues of all sizes',
 'Array_test and PriorityQueue_test run fixed scripts.',
 [S+'resources/Array.hpp',S+'resources/FrontArray.hpp',S+'resources/PriorityQueue.hpp'],
 [('aged index list','Array::AgedIndex / insertAgedList_')])
prop('C10', 'Pipe and shared data advance in lock-step with the clock',
 'Data appended to a pipe stage moves exactly one stage per clock cycle (or per explicit update) and leaves after the last stage, with no element lost, duplicated or reordered, and validity/size always matching a shift-register model; flush removes exactly the named data. Shared data written in a cycle becomes the present value in the next cycle and not before.',
 ['histories'], 'all pipe lengths and histories of append/write/invalidate/flush/update operations interleaved with time',
 'Pipe_test and SharedData_test run fixed scripts.',
 [S+'resources/Pipe.hpp',S+'resources/SharedData.hpp'], [('update event per cycle','Pipe::internalUpdate_')])
prop('C11', 'Pipeline fires stage handlers exactly for stages that hold data',
 'A pipeline behaves as a shift register: each cycle valid stages move forward unless stalled, each registered stage handler fires exactly in those cycles in which its stage holds valid data, in the declared stage order, and stall, restart, flush and invalidate affect exactly the stages they name.',
 ['histories','configurations'], 'all pipeline lengths, handler registrations and append/stall/flush histories over time',
 'Pipeline_test runs fixed scripts.',
 [S+'resources/Pipeline.hpp',S+'resources/Pipe.hpp'], [('per-stage events with precedence','Pipeline::deactivateOrActivate.., advance')])
prop('C12', 'Utility containers and value wrappers keep their documented semantics',
 'FastList, BitArray, TieredMap, ValidValue, LockedValue, bounded_int, tags, the string helpers and the integer math helpers each behave exactly like the simple reference (std::list, bit vector, std::map, optional, ...) they stand for, for every sequence of operations; FastList never relocates live elements.',
 ['histories','inputs'], 'all operation sequences and values',
 'Their tests run fixed scripts.',
 [S+'utils/FastList.hpp',S+'utils/BitArray.hpp',S+'utils/TieredMap.hpp',S+'utils/ValidValue.hpp',S+'utils/LockedValue.hpp',S+'utils/Utils.hpp',S+'utils/StringUtils.hpp',S+'utils/Tag.hpp',S+'utils/MathUtils.hpp'],
 [('free-list and index links','FastList.hpp'),('sparse tiers','TieredMap.hpp')])
prop('C13', 'Scoreboard reports readiness exactly when results are available',
 'A scoreboard view reports a register set as ready exactly when every register in it has been marked ready and the forwarding latency from the producing unit to the viewing unit has elapsed; every registered readiness callback fires exactly once, when its registers all become ready to that view, and never for registers cleared in between.',
 ['histories','configurations'], 'all latency tables, unit types, and set/clear/query/register/clear-callback histories over time',
 'Scoreboard_test runs one configuration and a fixed script.',
 [S+'resources/Scoreboard.hpp','sparta/src/Scoreboard.cpp'], [('payload event per broadcast','Scoreboard::set')])
prop('C15', 'Architectural data storage returns exactly what was last written',
 'Reading any data view, array element or byte range backed by architectural data returns the most recently written bytes for that location (initial value if never written) under any mix of access sizes and byte orders, and distinct segments never alias; resets and copies restore exactly the initial bytes.',
 ['histories','inputs'], 'all layouts of segments, access sizes, offsets, endianness and read/write/reset histories',
 'DataView_test covers fixed layouts.',
 [S+'functional/ArchData.hpp',S+'functional/ArchDataSegment.hpp',S+'functional/DataView.hpp',S+'utils/ByteOrder.hpp'],
 [('lazily allocated lines, initial values','ArchData::Line, DataView')])
prop('C16', 'Registers honour fields, write masks, banks and notifications',
 'For every register size and field layout, reads return the last written value restricted by the write mask (masked bits keep their value for writes and are changed by unmasked pokes), field reads and writes affect exactly their bit range, banked and shared/subset registers alias exactly as defined, lookups by id/name/group/alias agree, and each observed read or write is reported once with the correct before/after values.',
 ['histories','configurations'], 'all register set definitions and access histories',
 'Register_test uses one fixed definition table.',
 [S+'functional/Register.hpp',S+'functional/RegisterSet.hpp',S+'functional/RegisterBits.hpp',S+'functional/RegisterBankTable.hpp'],
 [('write masks','RegisterBits.hpp, Register::computeWriteMask'),('subset overlay','RegisterSet')])
prop('C17', 'Memory objects and memory maps route every access to the right bytes',
 'Accesses to memory objects and memory maps return exactly the bytes last written to the addressed location, reach exactly the mapped target with the correctly translated address, fail without side effects when any part is unmapped, misaligned or crosses an access boundary, and observers see each access once with the right data; peeks and pokes behave as reads and writes without triggering side effects.',
 ['histories','configurations'], 'all block sizes, mappings, access sizes/addresses and read/write/peek/poke histories',
 'Memory_test and MemoryMap_test use fixed maps.',
 [S+'memory/MemoryObject.hpp',S+'memory/BlockingMemoryIF.hpp',S+'memory/BlockingMemoryIFNode.hpp',S+'memory/SimpleMemoryMap.hpp',S+'memory/SimpleMemoryMapNode.hpp',S+'memory/DebugMemoryIF.hpp',S+'memory/DMIBlockingMemoryIF.hpp'],
 [('binary-tree lookup of mappings','SimpleMemoryMap')])
prop('C18', 'Cached memory keeps outstanding writes and backing store coherent',
 'A cached memory returns, for every read, the value produced by the outstanding stores applied in order on top of the backing memory; committing, merging or flushing outstanding writes makes exactly those bytes and no others change in the backing store.',
 ['histories'], 'all histories of writes, reads, commits, merges and drops',
 'CachedMemory_test runs a fixed script.',
 [S+'memory/CachedMemory.hpp'], [('ordered store data list','CachedMemory')])
prop('C19', 'Fast checkpoints restore exactly the state at the time they were taken',
 'Loading any live checkpoint restores every checkpointed register and memory byte, and the simulated tick, to exactly the values they had when it was taken, regardless of how many checkpoints, branches, restores and deletions occurred in between; deleting a checkpoint never disturbs any other, and the reported chains/branches/live sets match the true history tree.',
 ['histories'], 'all histories of writes, save, load, delete, branch and forget operations, and all snapshot thresholds',
 'FastCheckpoint_test follows a few scripted histories.',
 [S+'serialization/checkpoint/FastCheckpointer.hpp',S+'serialization/checkpoint/DeltaCheckpoint.hpp',S+'serialization/checkpoint/Checkpointer.hpp',S+'serialization/checkpoint/VectorStorage.hpp',S+'functional/ArchData.hpp'],
 [('delta chain back to nearest snapshot','DeltaCheckpoint::load/canDelete, FastCheckpointer::cleanupChain_')])
prop('C20', 'Persistent checkpoints round-trip through files and streams',
 'State saved to a file or stream by a persistent checkpointer is restored bit-exactly by any checkpointer over an identically structured tree, and corrupt or truncated checkpoint data is never silently accepted as a complete restore; restoring does not disturb the ordinary checkpoints before and after it, and the FILE stream adapters carry every byte exactly once and in order.',
 ['histories','inputs'], 'all architectural states and save/restore orders',
 'PersistentFastCheckpoint_test has one script.',
 [S+'serialization/checkpoint/PersistentFastCheckpointer.hpp',S+'serialization/checkpoint/VectorStorage.hpp',S+'functional/ArchData.hpp'],
 [('ArchData save/restore stream format','ArchData::save/restore')])
prop('C21', 'Counters and statistic windows report exact deltas',
 'A counter reports exactly the increments applied to it (a latest-value counter its last value), a cycle counter exactly the cycles counted while running, and a statistic instance exactly the change (or value, per its behaviour) between the start and end of its window.',
 ['histories'], 'all histories of increments, sets, starts, stops, snapshots and time advances',
 'Counter_test and Statistic_test run fixed scripts.',
 [S+'statistics/Counter.hpp',S+'statistics/CycleCounter.hpp',S+'statistics/ReadOnlyCounter.hpp',S+'statistics/CounterBase.hpp',S+'statistics/StatisticInstance.hpp','sparta/src/StatisticInstance.cpp'],
 [('window start/end snapshots','StatisticInstance')])
prop('C22', 'Statistic expressions evaluate to their mathematical value',
 'Every well-formed statistic expression evaluates to the value given by standard arithmetic precedence and function semantics over the current values of the referenced counters, statistics, constants and built-ins, and malformed expressions are rejected rather than mis-evaluated.',
 ['inputs'], 'all expressions of the grammar over all variable values',
 'StatisticExpression_test evaluates a few fixed strings.',
 [S+'statistics/Expression.hpp',S+'statistics/ExpressionGrammar.hpp','sparta/src/ExpressionGrammar.cpp','sparta/src/Expression.cpp',S+'statistics/ExpressionNodeTypes.hpp'],
 [('Spirit grammar','ExpressionGrammar.cpp')])
prop('C23', 'Histograms bin every sample exactly once and report exact statistics',
 'Each sample added to a histogram increases exactly one bin (underflow, the regular bin whose range contains it, or overflow) and the total; cycle-weighted and enum histograms attribute to each value exactly the cycles it was held, and min/max/mean/standard deviation equal their mathematical definitions.',
 ['histories','configurations'], 'all ranges, bin widths and sample sequences (over time)',
 'The histogram tests use one configuration each.',
 [S+'statistics/Histogram.hpp',S+'statistics/CycleHistogram.hpp',S+'statistics/EnumHistogram.hpp',S+'statistics/EnumCycleHistogram.hpp',S+'statistics/BasicHistogram.hpp',S+'statistics/StateHistogram.hpp'],
 [('bin index computation','Histogram addValue')])
prop('C24', 'Context counters aggregate per-context counts exactly',
 'A context counter total equals the sum (or weighted average / aggregate function) of its per-context counts, each per-context count equals the increments applied to that context, and its expanded statistics report the same values.',
 ['histories','configurations'], 'all context counts, weights and increment histories',
 'ContextCounter_test uses fixed counts.',
 [S+'statistics/ContextCounter.hpp',S+'statistics/WeightedContextCounter.hpp','sparta/src/ContextCounter.cpp'],
 [('internal counters','ContextCounter')])
prop('C25', 'All report formats present the same, correct statistic values',
 'For every report definition over a tree, the report contains exactly the statistics it names, in the order given, with values equal to those of the underlying counters/statistics over the report window (also after the report is copied, assigned or moved), and each output format (text, CSV, JSON and its reduced form, Python, HTML, JS, gnuplot) carries these names and values, to its printing precision, in a well-formed document.',
 ['inputs','configurations'], 'all trees, report definitions, windows and statistic values',
 'Report tests compare a few golden files.',
 [S+'report/Report.hpp','sparta/src/Report.cpp',S+'report/format/JSON.hpp',S+'report/format/CSV.hpp',S+'report/format/PythonDict.hpp',S+'report/format/Text.hpp','sparta/src/JsonFormatter.cpp','sparta/src/BaseFormatter.cpp'],
 [('report YAML parser','Report.cpp'),('formatters','report/format')])
prop('C27', 'Parameter values survive text round-trips and reject invalid input',
 'Assigning a parameter from text yields exactly the value the text denotes for its type (base prefixes, digit separators, decimal and binary suffixes with fractions, sums of suffixed numbers; vectors and nested vectors by item), and printing a value and parsing the text gives the same value for every type. Text that is malformed or does not fit the type is rejected; a rejected assignment (bad text, written after being read when not volatile, locked down, or refused by a modification callback) leaves value, default and counts of reads and writes unchanged. Dependent validation accepts exactly the permitted values and names the rules that fail, and modification callbacks run once per assignment and may only set parameters later in the set.',
 ['inputs','histories'], 'all parameter types, values and texts',
 'Parameter_test and SmartLexCast_test use fixed values.',
 [S+'simulation/Parameter.hpp','sparta/src/Parameter.cpp',S+'simulation/ParameterSet.hpp',S+'utils/LexicalCast.hpp',S+'utils/SmartLexicalCast.hpp'],
 [('smartLexicalCast / lexicalCast','utils')])
prop('C28', 'Parameter tree resolves overrides, wildcards and priorities correctly',
 'Among the assignments made to a parameter tree - to exact paths or to patterns with wildcards at any level, by set or by merging or copying another tree - the value (and origin) a path resolves to is that of the last one that matches it, and paths no assignment matches have no value. Entries are listed as unread exactly while no lookup matched them since they were assigned, an entry last assigned as required is reported required until unrequired, and the leaves of a tree are exactly the paths assigned.',
 ['histories','inputs'], 'all sequences of set/merge/get operations with wildcards at any level',
 'VPT_test uses fixed trees.',
 [S+'simulation/ParameterTree.hpp'], [('wildcard node matching and write-through','ParameterTree::Node')])
prop('C29', 'Configuration files round-trip and apply exactly what they say',
 'A parameter configuration written as YAML and read back into an identical tree reproduces every parameter value exactly; reading YAML applies exactly the named values to exactly the matching nodes, in order, and rejects configuration naming nonexistent parameters.',
 ['inputs','configurations'], 'all trees, parameter values (including awkward strings and nested vectors) and YAML structurings of them',
 'Existing tests use fixed configuration files.',
 [S+'parsers/ConfigParserYAML.hpp','sparta/src/ConfigParserYAML.cpp',S+'parsers/ConfigEmitterYAML.hpp','sparta/src/YAMLTreeEventHandler.cpp',S+'app/ConfigApplicators.hpp'],
 [('YAML event handlers','ConfigParserYAML.cpp')])
prop('C32', 'Device tree naming, lookup and search are mutually consistent',
 'In every device tree, each node is found by its full path from the root and by its name, alias or group from its parent; wildcard searches return exactly the matching nodes; sibling names are unique; and illegal names or structural changes in the wrong phase are rejected without altering the tree.',
 ['configurations','histories'], 'all trees, names, aliases, groups and search patterns',
 'TreeNode_test uses one fixed tree.',
 [S+'simulation/TreeNode.hpp','sparta/src/TreeNode.cpp'], [('name/group/alias maps; pattern regex','TreeNode::findChildren, createSearchRegexPattern')])
prop('C33', 'Notifications and log messages reach exactly the right observers',
 'A posted notification or log message is delivered exactly once to every observer registered at or above its source for its type/name/category, with its payload intact, and to no one else; observation status queries and registration changes take effect exactly, at any tree depth and order of registration versus construction.',
 ['histories','configurations'], 'all trees of sources and taps, categories, registration and de-registration histories',
 'Notification_test and Log_test use fixed trees.',
 [S+'log/NotificationSource.hpp',S+'log/MessageSource.hpp',S+'log/Tap.hpp','sparta/src/MessageSource.cpp','sparta/src/Destination.cpp','sparta/src/TreeNode.cpp'],
 [('observer propagation','TreeNode::broadcastRegistrationForNotificationToSubtree_, NotificationSourceBase')])
prop('C34', 'Tree filter expressions select exactly the matching nodes',
 'Every well-formed tree filter expression accepts exactly the nodes given by its boolean meaning over node name, tags, type and visibility, with the documented precedence.',
 ['inputs'], 'all expressions and node attributes',
 'TreeFilter_test evaluates fixed expressions.',
 [S+'tree/filter/Expression.hpp',S+'tree/filter/Grammar.hpp','sparta/src/TreeFilterExpression.cpp','sparta/src/TreeFilterExpressionGrammar.cpp'],
 [('Spirit grammar','TreeFilterExpressionGrammar.cpp')])
prop('C35', 'Triggers fire exactly once, exactly when their condition is reached',
 'A counter, cycle or time trigger fires exactly once per arming at the exact point its counter, clock or simulated time reaches the configured point and never before; expression triggers fire exactly when their logical combination becomes true, and recurring triggers at every period.',
 ['histories','configurations'], 'all trigger points, counter increment histories, clocks, periods and expressions',
 'Trigger tests use fixed expressions and counts.',
 [S+'trigger/SingleTrigger.hpp',S+'trigger/Trigger.hpp',S+'trigger/TriggerManager.hpp',S+'trigger/ExpressionTrigger.hpp','sparta/src/ExpressionTrigger.cpp','sparta/src/Trigger.cpp'],
 [('counter proxies and scheduled trigger events','SingleTrigger')])
prop('C37', 'Pipeline collection files reproduce every collected transaction',
 'Every transaction collected during simulation can be read back from the generated database with exactly its location, time interval and content, whatever the query window, and no transaction is invented, lost or moved, including across heartbeat boundaries.',
 ['histories'], 'all histories of collected values, start/stop times, heartbeats and read windows',
 'Collection tests only check that files are produced.',
 [S+'pipeViewer/Outputter.hpp','sparta/src/ArgosOutputter.cpp',S+'collection/PipelineCollector.hpp',S+'collection/Collectable.hpp','helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp'],
 [('heartbeat index file','Outputter, Reader')])
prop('C38', 'Cache model agrees with a reference set-associative cache',
 'For every access history, hit/miss outcome, way contents, victim choice and line data of the cache models equal those of a reference cache with the configured geometry and replacement policy; address decoding is a bijection between addresses and (tag, index, offset).',
 ['histories','configurations'], 'all geometries, replacement policies and access histories',
 'simple_cache test uses one geometry.',
 ['sparta/cache/Cache.hpp','sparta/cache/SimpleCache.hpp','sparta/cache/SimpleCache2.hpp','sparta/cache/LRUReplacement.hpp','sparta/cache/TreePLRUReplacement.hpp','sparta/cache/DefaultAddrDecoder.hpp'],
 [('replacement update','LRUReplacement, TreePLRUReplacement')])
prop('C39', 'Shared pointers destroy each object exactly once, when unreferenced',
 'Under every history of copies, moves, assignments, conversions, resets and weak locks, a reference-counted object is destroyed exactly once, exactly when its last strong reference goes away; use counts and weak expiry are exact, and an allocator-recycled block is never handed out while still referenced.',
 ['histories'], 'all pointer operation histories, with and without the pooling allocator',
 'SpartaSharedPointer_test runs fixed scripts.',
 [S+'utils/SpartaSharedPointer.hpp',S+'utils/SpartaSharedPointerAllocator.hpp'], [('reference counting','SpartaSharedPointer')])
prop('C41', 'Simulations are reproducible and observation does not perturb them',
 'The same model, configuration and inputs always produce the same results, and turning on observation (logging, reports, pipeline collection, final-configuration dumps) changes no reported statistic; re-running from a written final configuration reproduces the same results.',
 ['configurations'], 'all configurations and observation options of the example simulators',
 'Example tests run fixed command lines against golden outputs.',
 ['sparta/src/CommandLineSimulator.cpp','sparta/src/Simulation.cpp','sparta/src/SimulationConfiguration.cpp','sparta/example/CoreModel/src'],
 [('command line handling','CommandLineSimulator.cpp')])
