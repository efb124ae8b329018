#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=text), why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

# ------------------------------------------------------------------ node life cycle
p('L01', 'Node state transitions follow the PLEXIL life-cycle rules',
  '''For every node type, node state and combination of condition values (true, false, unknown, absent), the state a
  node moves to next - or the decision to stay - is the one the PLEXIL execution semantics prescribe, with ancestor
  exit, own exit, ancestor invariant and own invariant taking precedence, in that order, over end and action
  conditions. An unknown condition never counts as true or as false.''',
  ['programs', 'histories', 'inputs'], 'all node types x states x three-valued valuations of all conditions',
  '''The regression plans exercise a few dozen valuations; the space is the product of node types, states and
  three-valued condition vectors.''',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc',
   'src/exec/UpdateNode.cc', 'src/exec/LibraryCallNode.cc'],
  [('getDestStateFrom* virtual methods', 'src/exec/*Node.cc, NodeImpl.cc'), ('getDestState dispatch', 'src/exec/NodeImpl.cc')],
  [('m_nextState', 'destination chosen for the next transition', 'src/exec/NodeImpl.hh')],
  ['listener node-transition notifications', 'node state variable'])
p('L02', 'Every finish or iteration end records the prescribed outcome and failure type',
  '''Whenever a node leaves its active phase, the outcome and failure type it publishes are the ones the PLEXIL
  semantics prescribe for the reason it left: skipped, success, failure with pre-/post-condition, invariant or
  parent-failed type, or interrupted with exited or parent-exited type; and a reset for the next iteration clears both.
  When several reasons hold at once the reported one follows the precedence ancestor exit, exit, ancestor invariant,
  invariant, then post-condition.''',
  ['programs', 'histories', 'inputs'], 'all node types x source states x three-valued condition vectors',
  'Same product space as the state choice; regression plans check the final outcome of a few failure combinations.',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc'],
  [('outcome/failure assignments next to each destination choice', 'getDestStateFrom* in src/exec'),
   ('transition() copies them to the published variables', 'src/exec/NodeImpl.cc')],
  [('m_nextOutcome, m_nextFailureType', 'result to publish', 'src/exec/NodeImpl.hh')],
  ['node outcome and failure variables'])
p('L03', 'A condition is consulted only while it is being kept up to date',
  '''In each state of each node type, every condition that can influence the next transition - the node's own or one
  inherited from its ancestors - is switched on (subscribed and evaluated) while the node is in that state, so a change
  that makes it true always wakes the node. Conditions irrelevant to the new state are switched off.''',
  ['programs', 'histories'], 'all node types x all paths through the life cycle, including loops through repeat iterations and failures',
  '''Activation is a count per expression: leaks and premature switch-offs show only after particular multi-step
  histories (failing, repeating, being exited by an ancestor).''',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc'],
  [('activate/deactivate pairs in transitionFrom*/transitionTo*', 'src/exec')], None, ['Expression::isActive of each condition'])
p('L04', 'Activation of conditions and variables balances over every life-cycle path',
  '''Over any sequence of transitions, every condition, local variable and action expression of a node is switched on
  and off in balance: none is switched off more often than on, and returning to the same state always leaves the same
  set switched on, however often the node repeats.''',
  ['histories', 'programs'], 'all cycles in the life-cycle graph of every node type',
  'An imbalance accumulates one unit per iteration or appears only on rare exit paths; tests do not count activations.',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/expr/Notifier.cc'],
  [('activation counting', 'src/expr/Notifier.cc'), ('transition entry/exit actions', 'src/exec')], None, ['activation counts'])
p('L05', 'Every transition the executive can choose is accepted and carried out',
  '''Whenever the executive chooses a transition for a node, the node's exit action for the old state and entry action
  for the new state both accept that pair: no chosen transition ends in an internal error, and afterwards the node's
  published state is the chosen one.''',
  ['programs', 'histories'], 'all node types x all destinations reachable under some condition valuation',
  'Rare pairs (for example failing while finishing because of an ancestor exit) are never driven by the plans under test.',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/LibraryCallNode.cc'],
  [('transitionFrom/transitionTo switches and their destination checks', 'src/exec')])
p('L06', 'Node actions are started, aborted and undone on exactly the right transitions',
  '''A command, assignment or update is issued exactly once each time its node starts executing; it is aborted (a
  command) or undone (an assignment) exactly when the node leaves execution to a failing state with the action pending
  or made, and neither happens on any other transition.''',
  ['programs', 'histories'], 'all transitions of the action node types',
  'Which transition performs the action is a matter of every entry/exit pair; tests observe only nominal plans.',
  ['src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/NodeImpl.cc'],
  [('specializedHandleExecution, abort', 'src/exec/*Node.cc')], None, ['dispatcher calls', 'assignment queue'])
p('L07', 'Node timepoints record each entry and exit of a state',
  '''On every transition of a node the recorded end time of the state being left and start time of the state being
  entered are both set to the same transition time, and a reset to inactive discards the recorded times of the earlier
  iteration; times of states never visited are unknown.''',
  ['histories', 'programs'], 'all transitions of all nodes',
  'Timepoints of only a few node/state pairs are referenced in test plans.',
  ['src/exec/NodeImpl.cc', 'src/exec/NodeTimepointValue.cc', 'src/exec/NodeTimepointValue.hh'],
  [('logTransition / timepoint list', 'src/exec/NodeImpl.cc')])

# ------------------------------------------------------------------ resources of nodes
p('M01', 'A node that leaves execution gives back every mutex and variable it reserved',
  '''On every path by which a node that has started executing stops executing - normal end, failure, exit, or abort,
  whether its own or an ancestor's - each mutex and variable it reserved is released exactly once, by the time it
  finishes or starts another iteration, and nodes waiting for it are told.''',
  ['histories', 'programs', 'fault_sequences'], 'all exit paths of every node type',
  'Tests release mutexes only on nominal completion; the leak appears on particular failure paths and then blocks some other node forever.',
  ['src/exec/NodeImpl.cc', 'src/exec/ListNode.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/Mutex.cc', 'src/expr/Reservable.cc'],
  [('releaseResourceReservations / mutex release calls in transitions', 'src/exec/NodeImpl.cc')])
p('M02', 'A shared mutex or variable has at most one holder and no lost waiter',
  '''A mutex or variable is granted only when it has no holder, is freed only by its holder, and freeing it notifies
  every registered waiter; a node acquires all the resources it needs or none of them. A node that gives up waiting is no
  longer registered as a waiter.''',
  ['histories', 'programs'], 'all acquire/try/release/wait/give-up interleavings of nodes',
  'Contention tests use two or three nodes and one mutex.',
  ['src/exec/Mutex.cc', 'src/expr/Reservable.cc', 'src/exec/PlexilExec.cc', 'src/exec/NodeImpl.cc'],
  [('acquire/release/addWaitingNode', 'src/expr/Reservable.cc, src/exec/Mutex.cc')])

# ------------------------------------------------------------------ scheduling
p('S01', 'A node whose conditions changed is always re-examined (no lost wake-up)',
  '''Whenever a condition of a node changes or a resource it waits for is freed, the node is queued for examination
  unless it is already queued, whatever it was doing at that moment; a node's recorded queue membership always matches
  the queue it is really in. No notification is dropped and none raises an internal error.''',
  ['histories', 'schedules', 'programs'], 'all queue statuses x all notifications and queue operations',
  'Lost wake-ups need a notification to arrive in one particular queue status; plans under test hit few of the combinations.',
  ['src/exec/PlexilExec.cc', 'src/exec/NodeImpl.cc', 'src/utils/LinkedQueue.hh'],
  [('queue status switch in notify()', 'src/exec/NodeImpl.cc'), ('queue operations', 'src/exec/PlexilExec.cc')],
  [('m_queueStatus', 'which queue the node is in and whether it was notified meanwhile', 'src/exec/NodeImpl.hh')])
p('S02', 'A macro step runs to quiescence in the prescribed phase order',
  '''Within one step, micro steps repeat: every node whose conditions changed is examined, then all nodes found due
  transition, in the order found. They stop when no node is due or when an assignment, retraction, command or abort is waiting.
  Then the pending assignments are performed, then the retractions, and only then commands (subject to resource arbitration),
  aborts and updates are handed to the outside, each exactly once and in the order issued. Listeners are told of every transition
  of a micro step, once, and of the end of the step, once.''',
  ['programs', 'histories'], 'all plans and event histories',
  'Order violations are visible only to plans whose nodes read variables assigned in the same step.',
  ['src/exec/PlexilExec.cc'], [('step()', 'src/exec/PlexilExec.cc')])
p('S03', 'Queued nodes are served in priority order, then in arrival order',
  '''When several nodes compete for the same variable or mutex, the one with the numerically smallest priority is
  granted first and equal priorities are granted in arrival order; the intrusive queues never lose, duplicate or misorder
  an element under any sequence of insertions and removals.''',
  ['histories', 'programs'], 'all sequences of queue operations',
  'Unit tests use fixed short sequences.', ['src/utils/LinkedQueue.hh', 'src/exec/PlexilExec.cc', 'src/exec/NodeImpl.hh'],
  [('LinkedQueue, PriorityQueue insert/remove/pop', 'src/utils/LinkedQueue.hh'), ('node priority comparator', 'src/exec')])
p('S04', 'Assignments save, write, acknowledge; aborted ones restore the variable',
  '''An assignment captures the old value of its variable before writing, writes the value of its right-hand side as
  evaluated when the node started (unknown included), and then acknowledges; when aborted it restores the captured value
  and signals the abort. Acknowledgement and abort flags are reset before the next iteration.''',
  ['histories', 'programs'], 'all assignment life cycles', 'Abort of assignments is covered by one or two plans.',
  ['src/exec/Assignment.cc', 'src/exec/AssignmentNode.cc', 'src/expr/UserVariable.cc', 'src/expr/ArrayReference.cc', 'src/expr/ArrayVariable.cc'],
  [('execute/retract/fixValue', 'src/exec/Assignment.cc'), ('saveCurrentValue/restoreSavedValue', 'src/expr')])

# ------------------------------------------------------------------ expressions
p('E01', 'Logical operators compute three-valued logic exactly',
  '''NOT, AND, OR, XOR, implication and the known-ness test compute Kleene three-valued logic for any number of operands:
  a result is unknown exactly when the known operands do not determine it.''',
  ['inputs', 'programs'], 'all operand counts and all true/false/unknown operand vectors',
  'Tests sample two- and three-operand vectors for some operators.', ['src/expr/BooleanOperators.cc'],
  [('operator()(...) / calc members', 'src/expr/BooleanOperators.cc')])
p('E02', 'Strict operators are unknown exactly when an operand is unknown or out of domain',
  '''Arithmetic, comparison, string, array and conversion operators return an unknown result when any operand is
  unknown, and whenever they report a known result that result was actually computed on that path.''',
  ['inputs', 'programs'], 'all operators x operand counts x known/unknown vectors',
  'Tests sample some unknown positions for some operators.',
  ['src/expr/ArithmeticOperators.cc', 'src/expr/Comparisons.cc', 'src/expr/ConversionOperators.cc', 'src/expr/StringOperators.cc', 'src/expr/ArrayOperators.cc', 'src/expr/OperatorImpl.cc'],
  [('calc/operator() members returning bool', 'src/expr')])
p('E03', 'Arithmetic never traps: undefined operations yield unknown',
  '''Integer division and remainder by zero, overflowing division, square root of a negative number, and conversion of a
  real that has no integer representation give an unknown result; they never crash the executive or yield an arbitrary
  value.''',
  ['inputs'], 'all operand values', 'Tests use ordinary operand values.',
  ['src/expr/ArithmeticOperators.cc', 'src/expr/ConversionOperators.cc'], [('guards before / % sqrt and narrowing casts', 'src/expr')])
p('E04', 'Each operator computes its own operation on operands in order',
  '''Every arithmetic, comparison and string operator applies exactly its mathematical operation to its operands in
  written order, at every supported operand count and for every numeric type; for real/integer overloads of the same
  operator the two agree wherever both are defined.''',
  ['inputs', 'programs'], 'all operators x operand counts x types x orderings of operand values',
  'Tests sample values; an operation wrong only for one overload or at higher operand counts escapes.',
  ['src/expr/ArithmeticOperators.cc', 'src/expr/Comparisons.cc', 'src/expr/Comparisons.hh', 'src/expr/StringOperators.cc'],
  [('calc/operator() members', 'src/expr')])
p('E05', 'Changes propagate: a composite listens to all it depends on',
  '''Every composite expression - operator call, array reference, alias, lookup, node condition - subscribes to every
  expression its value depends on while it has listeners and unsubscribes when the last one leaves, whatever the number of
  sub-expressions, so a change of any input of an active expression reaches every listener; an expression that owns
  sub-expressions activates each of them when it is first activated and deactivates them with it (aliases and node
  functions only listen). A node listens to every condition that can make it change state until it is dismantled.''',
  ['programs', 'histories'], 'all composite expression kinds x operand counts',
  'Operand-count-specialised variants and removal paths are barely exercised.',
  ['src/expr/Function.cc', 'src/expr/CachedFunction.cc', 'src/expr/Propagator.cc', 'src/expr/ArrayReference.cc', 'src/expr/Alias.cc', 'src/intfc/ExprVec.cc', 'src/intfc/Lookup.cc', 'src/intfc/CommandImpl.cc', 'src/exec/NodeFunction.cc'],
  [('doSubexprs, handleActivate, handleDeactivate overrides', 'src/expr, src/intfc')])
p('E06', 'A changed value is always announced',
  '''Whenever the value (or known-ness) of an active variable, array element, lookup, command handle or node state
  variable changes, its listeners are notified on that same operation; inactive ones do not notify.''',
  ['histories', 'programs'], 'all mutating operations x all current/new values',
  'Tests check listener calls for a few setters.',
  ['src/expr/UserVariable.cc', 'src/expr/ArrayVariable.cc', 'src/expr/ArrayReference.cc', 'src/expr/SimpleBooleanVariable.cc', 'src/intfc/Lookup.cc', 'src/intfc/CommandHandleVariable.cc', 'src/exec/NodeVariables.cc', 'src/expr/CachedFunction.cc'],
  [('publishChange calls', 'src/expr, src/intfc, src/exec')])
p('E07', 'Activation is edge-triggered; inactive means unknown',
  '''The first activation of an expression makes it evaluate and activate what it depends on, the last deactivation undoes
  that, and activations in between change nothing; a variable or lookup reads as unknown while inactive and starts each
  activation from its initial value.''',
  ['histories', 'programs'], 'all nestings of activation and deactivation',
  'Tests activate and deactivate once.', ['src/expr/Notifier.cc', 'src/expr/UserVariable.cc', 'src/expr/ArrayVariable.cc', 'src/expr/SimpleBooleanVariable.cc', 'src/intfc/Lookup.cc'],
  [('activate/deactivate counting', 'src/expr/Notifier.cc')])
p('E08', 'Array accesses are bounds-checked everywhere',
  '''Reading an array element at a negative, out-of-range or unknown index never yields a known value (it is unknown or a
  plan error), writing one never changes any element, reading and writing an element in range act on exactly that element,
  and no array operation touches memory outside the elements the array currently has.''',
  ['inputs', 'programs'], 'all index values and array sizes', 'Tests use a few indices.',
  ['src/expr/ArrayReference.cc', 'src/value/ArrayImpl.cc', 'src/value/Array.cc', 'src/expr/ArrayVariable.cc'],
  [('checkIndex guards', 'src/value/Array.cc, src/value/ArrayImpl.cc'), ('selfCheck', 'src/expr/ArrayReference.cc')])
p('E09', 'Read-only expressions cannot be written through any alias',
  '''Constants, input aliases, lookups, operators and node state expressions never offer write access, directly or through
  any chain of aliases or array references; only declared variables, their elements and in-out aliases do.''',
  ['programs'], 'all expression kinds and alias chains', 'Tests check some kinds.',
  ['src/expr/Expression.hh', 'src/expr/Alias.cc', 'src/expr/ArrayReference.cc', 'src/expr/UserVariable.cc', 'src/expr/ArrayVariable.cc'],
  [('isAssignable / asAssignable overrides', 'src/expr')])

# ------------------------------------------------------------------ values
p('V01', 'Every value type is handled by every generic value operation',
  '''Copying, moving, assigning, comparing, ordering, printing and measuring a generic value handle each value type -
  scalars, strings, the four array kinds, the internal enumerations, and unknown - with that type's own operation; no type
  falls into another type's case or into a default that loses it, and storage is released exactly when the type owns it.''',
  ['inputs'], 'all ordered pairs of value types x known/unknown', 'Tests cover the common types.',
  ['src/value/Value.cc', 'src/value/Value.hh'], [('switch over the type tag', 'src/value/Value.cc')])
p('V02', 'Serialised values and states read back exactly',
  '''Writing any value, array or state to its byte form and reading it back gives an equal object, the reader consumes
  exactly the bytes the writer produced, and the announced size equals the number of bytes written - for every value,
  including extreme numbers, empty and long strings and arrays, and unknown elements (an unknown value reads back as
  unknown). Text too long for the byte form is refused by the writer, never written in part.''',
  ['inputs'], 'all values of all serialisable types', 'Tests round-trip a few small values per type.',
  ['src/value/Value.cc', 'src/value/ArrayImpl.cc', 'src/value/ValueType.cc', 'src/value/PlexilTypeTraits.cc', 'src/intfc/State.cc'],
  [('serialize/deserialize/serialSize triples', 'src/value, src/intfc')])
p('V03', 'Names of enumerated values read back as the same value',
  '''For node states, outcomes, failure types, command handles and value types, converting an enumerated value to its
  printed name and parsing that name back gives the same value, distinct values have distinct names, and other strings are
  rejected.''',
  ['inputs'], 'all enumerators and all strings', 'Tests cover a subset of names.',
  ['src/value/NodeConstants.cc', 'src/value/CommandHandle.cc', 'src/value/ValueType.cc', 'src/exec/PlexilNodeType.cc'],
  [('name tables and parse switches', 'src/value')])
p('V04', 'Value and state comparison is a consistent equality and order',
  '''Equality of values, arrays, states and cached values is an equivalence that distinguishes known from unknown and
  ignores the stale contents of unknown elements; ordering is a strict order consistent with equality.''',
  ['inputs'], 'all pairs and triples of values', 'Tests compare hand-picked pairs.',
  ['src/value/Value.cc', 'src/value/ArrayImpl.cc', 'src/intfc/State.cc', 'src/intfc/CachedValueImpl.cc'],
  [('equals/lessThan/operator==,<', 'src/value, src/intfc')])
p('V05', 'The cached value of a state changes exactly when a different value arrives',
  '''Updating the cached value of an external state stores the new value and known-ness and reports a change exactly when
  they differ from what was stored, for every value type and for the integer-to-real promotion; setting it unknown is a
  change exactly when it was known.''',
  ['inputs', 'histories'], 'all cached types x old/new values', 'Tests use a few numeric updates.',
  ['src/intfc/CachedValueImpl.cc', 'src/intfc/CachedValue.cc'], [('update/updatePtr/setUnknown', 'src/intfc/CachedValueImpl.cc')])

# ------------------------------------------------------------------ external interface core
p('I01', 'Active lookups always follow the cached state; inactive ones are forgotten',
  '''A lookup is registered with the shared state cache exactly while it is active and re-registered when its state
  parameters change; every update of a state reaches every registered lookup of it, a lookup that becomes active reads a
  value of the current cycle, and the cache entry remains only while someone needs it.''',
  ['histories', 'programs'], 'all sequences of activation, parameter change, update and deactivation',
  'Tests use single lookups with one activation.', ['src/intfc/Lookup.cc', 'src/intfc/StateCacheEntry.cc', 'src/intfc/StateCache.cc'],
  [('ensureRegistered/unregister', 'src/intfc/Lookup.cc'), ('registerLookup/unregisterLookup/notify', 'src/intfc/StateCacheEntry.cc')])
p('I02', 'Change-lookup thresholds are the tightest needed and never miss a change',
  '''A change lookup is told of a new value whenever it differs from the last reported one by at least its tolerance, in
  either direction and for every numeric type, and always on a known/unknown edge; the thresholds requested from the
  outside are the tightest over all its active lookups and are withdrawn when none is left.''',
  ['inputs', 'histories'], 'all tolerances, values and sets of lookups', 'Tests use one lookup and few values.',
  ['src/intfc/Lookup.cc', 'src/intfc/StateCacheEntry.cc'], [('thresholdsExceeded/setThresholds/updateThresholds', 'src/intfc')])
p('I03', 'Each issued command is dispatched or denied, and its resources come back',
  '''In each arbitration cycle every queued command is either passed on for execution or reported denied, never both and
  never neither; resources are debited only for accepted commands and returned exactly once, when the command's node is
  done with it. A rejected command leaves no trace in the resource accounts.''',
  ['histories', 'programs', 'configurations'], 'all batches of commands x resource declarations',
  'Tests use one resource file and small batches.', ['src/intfc/ResourceArbiterInterface.cc', 'src/exec/PlexilExec.cc', 'src/exec/CommandNode.cc', 'src/intfc/CommandImpl.cc'],
  [('arbitrateCommands/releaseResourcesForCommand', 'src/intfc/ResourceArbiterInterface.cc')])
p('I04', 'Resource use never exceeds capacity and higher priority wins',
  '''A batch of accepted commands never drives a resource beyond its capacity or below zero given what is already in use;
  commands are considered in priority order, and a command whose needs fit is not denied because of one that was itself
  denied. The requests judged are the values of their expressions at the moment of issue.''',
  ['histories', 'configurations'], 'all batches x resource states', 'Same.', ['src/intfc/ResourceArbiterInterface.cc'],
  [('determineAcceptGreedySort, partialResourceAcquisition', 'src/intfc/ResourceArbiterInterface.cc')])
p('I05', 'Command handle, result and abort reports drive the node as documented',
  '''A command handle value reported by the outside is stored and announced; the node's end check sees each of the
  terminal handle values as completion as documented, an abort acknowledgement completes the abort, and a command's
  previous handle and acknowledgement are cleared before it is issued again. The name and arguments dispatched are those of
  the moment of issue.''',
  ['histories'], 'all handle values x order of reports', 'Plans use nominal handle sequences.',
  ['src/intfc/CommandImpl.cc', 'src/intfc/CommandHandleVariable.cc', 'src/exec/CommandNode.cc'],
  [('setCommandHandle/acknowledgeAbort/reset', 'src/intfc/CommandImpl.cc')])

# ------------------------------------------------------------------ application framework
p('C01', 'Everything an adapter reports reaches the executive, unaltered and in order',
  '''Each lookup value, command handle, command return value, abort acknowledgement, update acknowledgement, message and plan
  posted through the adapter interface is placed in the input queue with its payload, and the executive takes entries in
  posting order and applies each to its addressee with that payload; no entry kind is dropped or misread.''',
  ['histories', 'schedules', 'inputs'], 'all entry kinds and arrival orders',
  'Tests post a few entry kinds through the test harness, which bypasses the queue.',
  ['src/app-framework/InterfaceManager.cc', 'src/intfc/QueueEntry.cc', 'src/intfc/QueueEntry.hh', 'src/app-framework/SimpleInputQueue.cc', 'src/app-framework/SerializedInputQueue.cc'],
  [('QueueEntry::initFor* producers', 'src/intfc/QueueEntry.cc'), ('InterfaceManager::processQueue consumer', 'src/app-framework/InterfaceManager.cc')])
p('C02', 'Shared data of the concurrent parts is only touched under its lock',
  '''Data shared between the executive thread and adapter threads - input queue, message queues, run-state of the
  application, socket receive state - is read and written only while the mutex that protects it is held (or is
  atomic), and every lock taken is released on every exit path, exceptions included.''',
  ['schedules'], 'all thread interleavings and exit paths', 'Data races do not fail tests deterministically.',
  ['src/app-framework/SerializedInputQueue.cc', 'src/app-framework/ExecApplication.cc', 'src/interfaces/UdpAdapter', 'src/interfaces/IpcAdapter', 'src/interfaces/IpcUtils/IpcFacade.cc'],
  [('std::lock_guard / unique_lock scopes', 'same')])
p('C03', 'No thread ever waits for a lock it already holds',
  '''No call path acquires a non-recursive lock twice, directly or through any callee, and locks that can be held together
  are always taken in the same order; so the application cannot deadlock against itself.''',
  ['schedules', 'programs'], 'all call paths', 'Deadlock needs a path and configuration that tests do not run.',
  ['src/app-framework/ExecApplication.cc', 'src/app-framework/SerializedInputQueue.cc', 'src/interfaces/UdpAdapter', 'src/interfaces/IpcUtils/IpcFacade.cc', 'src/utils'],
  [('lock acquisition sites and call graph', 'src')])
p('C04', 'The executive is stepped only under its lock until no work is left',
  '''Every path that steps the executive or feeds the input queue to it holds the executive lock, processes all queued input
  first, and repeats until neither queued input nor pending work is left; an external event is never left unprocessed when
  the run loop goes to sleep.''',
  ['schedules', 'histories'], 'all run modes and wake-up orders', 'Depends on arrival time of events.',
  ['src/app-framework/ExecApplication.cc', 'src/app-framework/InterfaceManager.cc'], [('runExec / notifyExec / waitForExternalEvent', 'src/app-framework/ExecApplication.cc')])
p('C05', 'Listeners receive every event exactly once and unfiltered unless filtered',
  '''Each node transition, assignment, added plan and added library is passed once, in order, to every registered listener
  whose filter accepts it, and the collected batch is emptied after delivery.''',
  ['histories', 'configurations'], 'all event batches and listener sets', 'One listener is used in tests.',
  ['src/app-framework/ExecListenerHub.cc', 'src/app-framework/ExecListener.cc', 'src/app-framework/ListenerFilters.cc'],
  [('stepComplete / notify* fan-out', 'src/app-framework/ExecListenerHub.cc')])
p('C06', 'Start-up and shutdown failures are reported, never ignored',
  '''When constructing, initialising or starting any adapter, listener, filter or executive component fails, or a requested
  plan or library cannot be loaded, the failure is reported to the caller of the enclosing operation as failure, and every
  start-up step is performed, in order, before the executive may run.''',
  ['fault_sequences', 'configurations'], 'all component failures', 'No failing components in tests.',
  ['src/app-framework/AdapterConfiguration.cc', 'src/app-framework/ExecApplication.cc', 'src/app-framework/ExecListenerHub.cc', 'src/app-framework/InterfaceManager.cc', 'src/universal-exec/UniversalExec.cc'],
  [('boolean results of initialize/start', 'src/app-framework')])
p('C07', 'Lookups and commands go to the handler registered for them, else to the default',
  '''A lookup or command is routed to the handler registered under its exact name when there is one, otherwise to the
  registered default handler, otherwise to a built-in one (lookups stay unknown, commands are reported as succeeded, aborts and
  planner updates are acknowledged). A later registration under a name replaces the earlier one. A handler that fails with an
  interface error leaves the lookup unknown, the command handle COMMAND_INTERFACE_ERROR, the abort not acknowledged.''',
  ['configurations', 'inputs'], 'all registration sets and names', 'Tests register few handlers.',
  ['src/app-framework/AdapterConfiguration.cc'], [('getLookupHandler/getCommandHandler/register*', 'src/app-framework/AdapterConfiguration.cc')])

# ------------------------------------------------------------------ plan parser
p('X01', 'Each operator element of a plan becomes the operator it names',
  '''Every operator tag of the plan schema is bound to the operation of that name, with the argument and result types that
  operation supports, its operands in plan order; the parser rejects an operator applied to an unsupported number or type
  of arguments, leaving nothing it created behind.''',
  ['programs', 'inputs'], 'all operator tags x argument counts and types', 'Parser tests cover some operators.',
  ['src/xml-parser/Operations.cc', 'src/xml-parser/OperationFactory.cc', 'src/xml-parser/ExpressionMap.gperf', 'src/xml-parser/createExpression.cc'],
  [('tag table and Operation objects', 'src/xml-parser/Operations.cc')])
p('X02', 'A malformed plan is rejected with a parser error, never accepted or crashed on',
  '''Each plan element is structurally checked before it is built. A plan in which a required element is missing, one that may
  appear once is doubled, an element is empty, unknown or where it does not belong, an attribute is missing or unknown, a
  reference names nothing, or a literal is ill-formed ends in a parser error; and no change to a plan makes parsing it fail in
  any other way - by a failed assertion, another exception or the use of something deleted. (Elements behind the last one the
  language reads in a body, an index or a name are ignored.)''',
  ['inputs', 'programs'], 'all XML documents', 'Tests cover a few malformed plans.',
  ['src/xml-parser/parsePlan.cc', 'src/xml-parser/parseNode.cc', 'src/xml-parser/parseGlobalDeclarations.cc', 'src/xml-parser/parser-utils.cc', 'src/xml-parser/ConstantFactory.cc', 'src/xml-parser/commandXmlParser.cc', 'src/xml-parser/parseAssignment.cc', 'src/xml-parser/LookupFactory.cc', 'src/xml-parser/parseNodeReference.cc'],
  [('check* pass and finalize pass', 'src/xml-parser')])
p('X03', 'Each plan condition element becomes that condition of that node',
  '''Each condition element of a node - start, repeat, skip, pre, invariant, end, post, exit - is installed as the condition of
  that name, absent ones get the default value the semantics prescribe (true or false), and user conditions of action nodes
  are combined with the node's built-in completion conditions.''',
  ['programs'], 'all node types x sets of conditions present', 'Plans under test use common subsets.',
  ['src/xml-parser/parseNode.cc', 'src/exec/NodeImpl.cc', 'src/exec/CommandNode.cc', 'src/exec/AssignmentNode.cc', 'src/exec/UpdateNode.cc', 'src/exec/ListNode.cc'],
  [('condition name table and default conditions', 'src/exec/NodeImpl.cc'), ('createConditionWrappers/finalizeConditions', 'src/exec')])
p('X04', 'Names in plans mean their innermost declaration; interfaces bind as declared',
  '''A variable or mutex name means the declaration of the innermost enclosing node that has one (for mutexes, else the plan's
  global one), of the type the reference says; a name without declaration in scope, or declared twice in one node, ends in a
  parser error. A declared variable starts with its initial value, or unknown. An In interface variable reads, and cannot
  write, the enclosing variable of its name; an InOut variable may write it and needs one that is writable; a default value
  is used only when no such variable exists. A library node sees the aliases its call gives it and nothing else of its
  caller.''',
  ['programs'], 'all nestings, kinds and types of declarations', 'Plans under test use unique names.',
  ['src/xml-parser/findDeclarations.cc', 'src/xml-parser/VariableReferenceFactory.cc', 'src/xml-parser/parseNode.cc', 'src/xml-parser/parseLibraryCall.cc', 'src/exec/NodeVariableMap.cc', 'src/exec/NodeImpl.cc', 'src/exec/LibraryCallNode.cc'],
  [('innermost declaration in the check and in the build', 'src/xml-parser/findDeclarations.cc, src/exec/NodeVariableMap.cc'), ('linkInVar/linkInOutVar', 'src/xml-parser/parseNode.cc'), ('LibraryCallNode::addAlias', 'src/exec/LibraryCallNode.cc')])

# ------------------------------------------------------------------ adapters and utilities
p('U01', 'Datagram encoding stays inside its buffer and round-trips',
  '''Encoding parameters into a datagram and decoding one never touches bytes outside the buffer of the declared length, and
  decoding what was encoded yields the same values at the same offsets, for every supported parameter type. What a
  definition has no room for is not sent, and a datagram shorter than its definition is not decoded.''',
  ['inputs'], 'all message definitions and datagrams', 'Tests send fixed small messages.',
  ['src/interfaces/UdpAdapter/UdpAdapter.cc', 'src/interfaces/UdpAdapter/udp-utils.cc'], [('encode/decode helpers', 'src/interfaces/UdpAdapter/udp-utils.cc')])
p('U02', 'Messages and their waiting receivers are paired first-in first-out without loss',
  '''An incoming message is handed to the longest-waiting receiver of its name, or kept (or replaced, when duplicates are
  disallowed) until one arrives; no message is delivered twice and no receiver served twice. A receiver whose command was
  aborted or refused takes no message and leaves the order of the others. The message adapter announces and hands over messages
  in their order, each under a handle of its own, and answers every command of its own exactly once.''',
  ['histories', 'schedules'], 'all arrival orders', 'Not covered by tests.',
  ['src/interfaces/UdpAdapter/MessageQueueMap.cc', 'src/interfaces/IpcAdapter/MessageQueueMap.cc', 'src/app-framework/MessageAdapter.cc'],
  [('updateQueue pairing loop', 'MessageQueueMap.cc')])
p('U03', 'A requested wake-up happens: no timer deadline is lost',
  '''Setting a deadline either arms the timer for it or, when it is already past, triggers the wake-up at once; an early timer
  expiry re-arms the remaining time, and every expiry notifies the executive. In tick mode the timer repeats with the interval
  asked for. This holds again after a stop and a start, and a timer that cannot be had is reported, not taken for running.''',
  ['schedules', 'inputs'], 'all deadlines relative to now', 'Depends on timing.',
  ['src/app-framework/PosixTimebase.cc', 'src/app-framework/ItimerTimebase.cc', 'src/app-framework/TimeAdapter.cc'],
  [('setTimer / timeout', 'src/app-framework')])
p('U04', 'Executed plans end with the results the plan text implies (end to end)',
  '''For any valid plan and event script, the sequence of node transitions and final variable values equals that of the
  published operational semantics of the language.''',
  ['programs', 'histories'], 'all plans and scripts', 'Regression plans are samples.', ['src'], [('whole executive', 'src')])
p('U05', 'The executive always reaches quiescence',
  '''Every macro step terminates for every plan without a self-triggering cycle.''',
  ['programs'], 'all plans', 'Termination cannot be tested.', ['src/exec/PlexilExec.cc'], [('quiescence loop', 'src/exec/PlexilExec.cc')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
