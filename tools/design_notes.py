# further notes per property for DESIGN.md: limits, corrected false alarms, judgements
NOTES = {
 'E01': 'A plan operator with 2 operands, 3 or more operands and each operand unknown in turn is what tests sample; here every valuation and count is taken.',
 'E03': 'Undefined results (division by zero, overflow of the only quotient that overflows, square root and conversion out of range) must be excluded by path facts at the operation itself.',
 'V04': 'First written as "equal values print equally", which is too strong for leftover contents of unknown elements; the property is over known elements.',
 'V05': 'Refreshing the time stamp on a same-value update is not demanded (the code documents that it is not a change).',
 'C07': 'First stated as "a second registration is refused"; the documented behaviour is that it replaces the first. The statement was corrected.',
 'S03': 'Instantiated at a neutral element type, so that only the queue members are judged.',
 'C02': 'Fields written before their thread exists or after it is joined do not count as shared; the stand-alone simulator, a program of its own, is left out. Mutexes, atomics, semaphores and condition variables synchronise themselves. The executive object counts as data of the application that owns it.',
 'C03': 'Calls through std::function and C callbacks are resolved by signature to every function whose address is taken; virtual calls to every override of a class the program can have objects of. A try_lock never waits, so it adds nothing.',
 'I01': 'The outside world is a table of state values that is answered through the recording interface; the update an adapter answers with is posted through the real interface members.',
 'I02': 'An integer threshold that would overflow at INT_MAX is outside the value range tried (judged not a defect).',
 'I03': 'A resource given back by a taker that outlasts its giver (negative weight) may drive an account below zero: this is what the resource file asked for, so histories whose account is below zero are not probed further.',
 'I04': 'Which of two commands of equal priority wins is left open by the documentation: both orders are accepted. Sums that reach the very capacity are compared with a tolerance.',
 'U02': 'Defects found and repaired: aborted or refused receivers swallowed messages, duplicates stayed queued when disallowed, the message command handlers answered several times and read parameters that are not there, every message handle was the empty string. PublishMessage and SendMessage are stubs in the tree: only their answers are judged. The UDP and IPC copies of the map are separate classes of the same name and are judged separately.',
 'U03': 'Defects found and repaired: a stopped timebase never started again, a failed start counted as running, a deadline equal to the present disarmed the interval timer, long tick intervals overflowed 32 bits. Deadlines are cut to the resolution of the timer, up to 8 us are allowed for repeated conversions. DispatchTimebase is not compiled on Linux.',
 'I05': 'The report interface is called as the input queue does; which handle values end a command is judged in L04/L05 and here from the announcements of the handle.',
 'X01': 'Each operand element stands for an expression of a chosen type; the table of what each tag means is written from the language documentation. Left open by the documentation and not judged: the numeric type chosen when an operand has unknown type in second place. A Boolean compared by order with an operand of unknown type passes the type check and is refused when built, which is a refusal all the same.',
 'X03': 'Values and wake-ups are judged on the real expressions and notifiers; waking is observed where the node would queue itself for evaluation. The conditions of a library call node are those of a list.',
 'X04': 'Defects found and repaired: the children of a library whose root declares nothing saw the variables of the caller instead of the aliases; a mutex name in a library could mean a mutex of the caller; a library that calls itself was expanded until the stack overflowed; alias values were never type-checked and aborted at run time.',
 'U01': 'Defects found and repaired: the sizes of a message definition were summed modulo 2^32, so that a definition too long for any datagram got a buffer of a few bytes and its encoder and decoder ran past it; a datagram shorter than its definition was decoded from the remains of the previous one. Strings with embedded zero bytes are outside the rule: plans can not contain them. Sending failures of the socket are outside too.',
 'E09': 'Defect found and repaired: the refusal of a write to an element of a read-only array was thrown inside a handler that swallowed it, so In arrays could be written element by element. An array element given for an InOut parameter is refused by the parser although it could be written; the rule leaves that open (it may be refused, and if accepted must write the element of the declared array).',
 'X02': 'Defects found and repaired: names of lists and children were compared by address; a resource could have two upper bounds or release flags; a command without an Arguments element was never checked against its declaration; the body of a Command or list node could be any element; junk in command and library declarations was ignored; a mutex with an initial value failed an assertion. Recorded: the schema lets a scalar value populate an array, which the parser accepts and the array variable then refuses with an uncaught PlanError. First written to demand that junk behind or inside a text-only element be refused: nothing reads it, so the statement was weakened.',
}
