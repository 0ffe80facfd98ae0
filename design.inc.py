# hand-written part of the per-property section of DESIGN.md: the oracle and why it can reach what tests cannot
ORACLE = dict(
P01='A table of the documented transitions (harness/fsm_model.h) written from the documentation. Each state is reached through the public interface, then symbolic transition numbers are requested; result, state afterwards and callback sequence are compared with the table.',
P02='Round trips over all state and transition values and over symbolic strings of bounded length (names are matched against the table of all names).',
P03='Threads request symbolic transitions while the machine runs; every accepted request must be followed by exactly its state sequence, every refused one by none; deadlock is a violation. Data races are detected by vector clocks.',
P04='A reference FIFO. Producers, waiters and clears are interleaved; each waiter must return exactly the next states; a waiter that stays blocked while a state is queued is a deadlock violation.',
P05='A reference set of subscriptions; symbolic histories of subscribe, unsubscribe and emit, and interleavings of emit with them; each subscriber sees each event emitted while it is subscribed once.',
P06='A heap map of the shared segment (the model of POSIX shm keeps every object\'s allocations): content, size and alignment of each message are tracked by a reference; at the end the free memory of the segment is what it was, each deallocation callback was called once.',
P07='Reference contents per message and user; both users live in one process with separate mappings (the shm model maps an object once per user). After the last message is gone the free memory of each segment is the initial one.',
P08='A reference count per region block kept by the harness; a callback before it reaches zero, a second callback, or a missing one after destruction of the region is a violation. The ack threads run under the scheduler.',
P09='A reference table of regions and segments and of the events each subscriber must have seen; deadlock and termination of the process are violations.',
P10='Reference content, size and alignment per message; the release function of user data counts its calls; libzmq messages are modelled with reference counts (rt/zmq.cpp).',
P11='Virtual time: for each timeout, moment of the peer and of the interruption the exact allowed results and time windows are computed by the harness.',
P12='Each sent message carries symbolic content and a sender/sequence identity; receivers must see whole messages, once, in order per sender.',
P13='The expected answer is computed from the modelled answers of the operating system; acquired lists, pipes and results are counted.',
P39='The text is decoded again and compared with the symbolic random bytes; the solver shows equality for all of them.',
P14='A reference validator for address, type, method and numbers written from the documentation; symbolic choice of fields and, for the copy properties, of all settings.',
P15='The harness tracks the release of every original buffer and the free memory of the segment; contents are symbolic.',
P16='A reference interpretation of the sub-option text and of property trees (defaults, inheritance from channel to socket, numSockets) compared field by field.',
P17='A reference map and the list of expected notifications; symbolic histories of set, update (all or nothing), delete and subscribe, and interleavings of two threads.',
P18='A model of host names, interfaces and ports in use; the addresses finally bound or connected, and the properties published, are compared with what the configuration means.',
P19='A reference vector of messages (identity and order) against Parts under all operations.',
P20='Recorded message buffers: each allocation through the memory resource has one message, which is handed over or released once.',
P21='Counts of signals and passes under all schedules with a bounded number of preemptions, spurious wakeups included.',
P22='Virtual clock: for symbolic durations of iterations the achieved rate over each window is compared with the requested one.',
P23='Arithmetic comparison of symbolic version triples; reference implementations of the string helpers on symbolic strings.',
P24='At most one owner; reference owner variable; interleavings of take, steal, release, change and wait.',
P25='A reference list of search paths; fixture directories with plugin files; recorded creation order.',
P26='The event trace of the device (states and hooks) against the documented life cycle; a watchdog in virtual time detects waiting for ever.',
P27='The model of libzmq tells which sockets are ready; the answers of the poller must agree for every subchannel; virtual time for timeouts.',
P28='Mock channels with recorded input; the output of each device must be the input as the device promises it (all messages, order, targets).',
P29='The set of shared objects that must exist is computed from the history of joins and leaves; after it the shm model is asked for every name of the session.',
P30='Virtual time and preemptions of any length at any scheduling point; the set of objects after each step against the rule of the statement.',
P31='A reference count of live instances under symbolic histories and two threads.',
P32='The harness knows every live buffer, its segment, size, owner and a content byte by which it is found through a mapping of its own; the list must be that set.',
P33='The sequence of hooks, channel operations and transport creations against the documented life cycle, for symbolic controller decisions.',
P34='Each message offered by the mock transports carries an identity; each must be seen by one callback, once; no two callbacks at a time.',
P35='An expected value per option, the documented order of hooks, and expected exit codes, computed by the harness from the chosen arguments and faults.',
P38='Three sessions of known ids (precomputed SHA-256); the set of objects and the free memory of each session after the command are compared with what the command means.',
P37='Round trip of each supported type through the store and its text.',
P40='The counters of mock sockets follow a known course in virtual time; every rate line is compared with the exact difference of the counters over the time since the previous line, and lines are counted against the period.',
P36='A script of the child process (what it writes when, when it closes its files or ends) against which the returned text, the exit code, the signals sent and the input received are compared, for all orders of completions.',
)
