claim('E01', 'abstract interpretation of operator members over the three-valued operand domain',
      'every operand assignment up to 5 (thorough 7) operands; the n-ary members keep only booleans, so longer '
      'argument lists repeat states already covered')
NA['U04'] = 'whole-program behaviour over runtime histories: no static argument in reach; its clauses are covered by the L, M, S, E properties'
NA['U05'] = 'termination depends on runtime plan data; no sound static bound in reach'
claim('E02', 'path-sensitive abstract interpretation: known-ness of operands vs. result per operator member',
      'every operand symbolic; every path of every registered operator member, result type and operand count up to 4')
claim('E03', 'path-sensitive dataflow: guards dominating division, remainder, square root and real-to-integer conversion',
      'every such site reachable from an operator member')
claim('E04', 'abstract interpretation with result terms normalised as polynomials; orderings of operands enumerated',
      'comparison-only operators over representatives of every weak ordering; arithmetic by symbolic terms')
claim('L01', 'abstract interpretation of the transition choosers: full decision table compared with the semantics',
      'every node class, state, and valuation of the consulted conditions (true/false/unknown/absent); condition wrappers interpreted over all inputs')
claim('L02', 'abstract interpretation of exit/entry actions over every chosen transition; published outcome compared with the semantics',
      'every node class, state, condition valuation, parent state')
claim('L03', 'typestate dataflow: set of active conditions at a fixpoint of transitions, compared with the conditions consulted',
      'every reachable abstract node state of every class')
claim('L04', 'typestate dataflow: activation counters over the fixpoint of transitions',
      'every reachable abstract node state of every class, counters exact')
claim('L05', 'abstract interpretation: no chosen transition reaches an error report; published state equals chosen state',
      'every reachable abstract node state of every class')
claim('L06', 'effect analysis over every chosen transition: actions queued with the executive compared with the prescribed ones',
      'every reachable abstract node state of every class')
claim('L07', 'abstract interpretation over a concrete chain of timepoints with symbolic times',
      'every pair of node states, with and without earlier entries')
claim('M01', 'typestate dataflow: set of held resources at a fixpoint of transitions',
      'every reachable abstract node state of every class; a node with every kind of resource')
claim('M02', 'typestate closure of the resource classes plus abstract interpretation of the acquire/release/wait actions of nodes',
      'every operation sequence of each resource class from its constructed state (states closed); every subset of free resources')
claim('S01', 'typestate: queue status versus queue membership closed under every notification and queue operation of the executive',
      'worlds of up to three nodes, every queue status, every notification; priorities and arrival orders enumerated')
claim('S02', 'abstract interpretation of the step over concrete worlds: order and multiplicity of effects',
      'worlds of two or three nodes whose transitions enqueue every pair of work kinds over up to three micro steps')
claim('S03', 'bounded exhaustive abstract interpretation of the intrusive queue members compared with a list model',
      'all operation sequences up to the bound over three items with every priority assignment')
claim('S04', 'bounded exhaustive abstract interpretation of save/set/restore histories of every variable kind with symbolic values; assignments over recording operands; flag typestate over chosen transitions',
      'every variable kind x initial value kind x history prefix x assigned value; arrays of up to two elements; element index changing between save, write and restore')
claim('E05', 'abstract interpretation of subscription, activation and notification of composite expressions over recording operands',
      'every composite kind with 0 to 6 operands (thorough 9) and nested one in another; every node operator with up to 3 children; every node class with each condition')
claim('E06', 'abstract interpretation of every operation in every distinct state of each notifying expression with symbolic values; node announcements over chosen transitions',
      'histories up to 6 operations (arrays 4; thorough 8/5) with at most two nested activations; arrays of up to two elements; all command handle values; all node transitions')
claim('E07', 'typestate closure of activation counting with symbolic values, by abstract interpretation of the variable members',
      'histories up to 5 operations (thorough 7) of every variable kind, at most two nested activations; acknowledgement flags and command handles')
claim('V03', 'abstract interpretation of the name and parse functions over every enumerator and every near-miss name',
      'every enumerator of the six name tables; several hundred strings that are no name')
claim('V04', 'abstract interpretation of the comparison members over an order domain (contents are ranks of a total order)',
      'every pair (order: every triple) of a representative family per type: arrays up to two elements with every known pattern and leftover contents, every Value type, states up to two parameters, every cached-value class')
claim('V05', 'typestate closure of the cached-value classes under every update with symbolic values, by abstract interpretation',
      'every cached-value class, every update operation, in states reached by up to two earlier updates')
claim('V01', 'abstract interpretation of the Value members with a heap-ownership typestate and symbolic contents',
      'every pair of value kinds (13 known, 6 unknown) under copy, move, assignment, typed assignment, reading with every reader, printing and destruction')

claim('E08', 'abstract interpretation of the array classes and array references over an index-range domain with checked element accesses',
      'arrays of 0..3 elements (thorough 0..4) with every known pattern; indices partitioned into each element, one past, and the rest as one range')
claim('V02', 'abstract interpretation of writers, sizes and readers in a byte domain (numbers as symbolic bytes, strings of symbolic text and length)',
      'all bit patterns of numbers, all texts below 2^24 characters; arrays of 0..10, 17, 128, 256 elements; states of 0..3 and 128 parameters')

claim('C01', 'abstract interpretation of every post through its real queue to the executive, payloads opaque; bounded exhaustive histories of the queue classes',
      'all 40 post kinds alone, every pair of kinds with and without processing between (thorough: triples); queue histories up to 5 (thorough 7) operations')
claim('C05', 'abstract interpretation of the listener hub over recording listeners with chosen filter answers',
      'up to three listeners, every combination of filters, short histories of every event kind')
claim('C07', 'abstract interpretation of handler registration and dispatch over a decided-key map model with recording handlers',
      'all registration histories up to the bound over two names and the default; every handler answer, error included')

claim('C02', 'lockset dataflow over the call graph of every class that owns a mutex or a thread: intersection of locks held at all accesses of each shared field; lock release on every exit',
      'every member function, callback and thread body of those classes, both queue implementations and every adapter; thread creation and join as ordering; lambdas followed')
claim('C03', 'lockset dataflow over the whole-program call graph (virtual calls, std::function and C callbacks resolved by type): self-acquisition and cycles of the lock-order relation',
      'every acquisition site on every call path from every entry point of the libraries and programs')
claim('C04', 'abstract interpretation of the application object over recording executive and interface manager with chosen answers',
      'every run mode, every sequence of answers (queue empty or not, step needed or not) up to three rounds, every entry point that may step the executive')
claim('C06', 'abstract interpretation of every start-up path with each component failing in turn (fault enumeration over recorded answers)',
      'every component answer in every start-up operation; up to two adapters and listeners; interface files as concrete XML trees')

claim('I01', 'abstract interpretation of lookups, state cache and cache entries together over bounded histories with recording outside interface',
      'sets of up to three lookups (constant, variable and looked-up names and parameters), histories of activation, parameter change, update and deactivation up to the bound')
claim('I02', 'abstract interpretation of change lookups and cache entries over bounded histories with a tightest-threshold model',
      'integer and real states, tolerance variables changed during the history, up to three lookups per state')
claim('I03', 'abstract interpretation of the arbiter and real commands over bounded histories with an account model',
      'a resource file with hierarchies, batches of up to three commands with completions, re-issue and denial between; every combination of the command set')
claim('I04', 'abstract interpretation of arbitration over batches with every priority order; requests as constants and variables',
      'batches of up to four commands alone and after earlier batches; equal priorities in either order')
claim('I05', 'abstract interpretation of real commands over bounded histories of issue, end, handle, value and abort reports, compared with a model',
      'every handle value, destination type and order of reports up to the bound; names and arguments as constants and variables')
claim('U02', 'abstract interpretation of both copies of the message queue map, of the receivers and of the message adapter over bounded histories, compared with a model',
      'up to 6 operations over two message names and both duplicate policies (quick 5); three waiting receivers with any one aborted; parameters of every type and knownness')
claim('U03', 'abstract interpretation of the timebases under the time adapter over a clock and timer model',
      'histories of up to 6 (quick 5) operations over deadlines ahead, just now and past, expiries early, on time and late, stops and restarts; tick intervals over the whole range; one failing system call')
claim('X01', 'abstract interpretation of the expression parser from the real tag table through type checking to the built function, over every operator tag and operand type',
      'all operator tags; 0..6 operands (thorough 7); every pair of operand types, longer lists with one operand of another type; wanted types; created and borrowed operands, any operand refused')
claim('X03', 'abstract interpretation of the plan parser and the nodes and expressions it builds, over concrete plan trees with condition operands set to true, false and unknown',
      'every node type with each condition alone, all but one, all (thorough: all 256 sets); end conditions with every handle and acknowledgement; chains of three nodes with every subset of inherited conditions and every valuation')
claim('X04', 'abstract interpretation of the whole plan parser and the nodes it builds, over concrete plan trees enumerated by place, kind and type of each declaration',
      'a name declared at any subset of four levels; four names in every order; every pair of reference and declared type; every pair of declaration kinds; interface modes with and without outer variable and default; library calls, nested and recursive; mutexes at any subset of levels')
claim('U01', 'abstract interpretation of the datagram encoder, decoder and message definitions over byte buffers of the declared size',
      'every parameter type and size, alone, between others and in pairs, scalar and arrays of up to three; boundary values; values of other types, sizes and ranges; incomplete datagrams; 36 kinds of ill-formed definitions')
claim('E09', 'class-hierarchy query plus abstract interpretation of the whole plan parser over plans that pass a variable on to a writer',
      'every expression class; three levels of In / InOut / no interface between declaration and writer; library calls up to two deep with eight kinds of argument; assignments and command results, whole variables and array elements, four types (two in libraries)')
claim('X02', 'abstract interpretation of the whole plan parser over concrete plan trees, each a well-formed plan changed in one place',
      'eighteen well-formed plans covering every kind of node, declaration and body; each element of each left out, doubled, renamed, emptied, moved, mixed with junk or replaced by one of 12 others; each attribute left out and set to other values; ill-formed literals and unknown names')
