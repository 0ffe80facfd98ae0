BND = 'Every feasible path of the harness is followed to its end and every assertion on it decided; bounds are listed in the evidence file. Trusted: clang 18 lowering at -O1, the executor in engine/ (validated by native runs of explored paths), the environment models in rt/ and shim/.'
prop('P01', 'Device state machine accepts exactly the documented transitions',
     'From every state, a requested transition is accepted (and reported as accepted) exactly when the documented transition table allows it, and leads to exactly the documented next state, which is announced to the preparation callback, the subscribers (ordered by the numbers their keys start with) and the state handler, once each and in that order (only the error state may be announced to subscribers again when processing ends); an accepted transition is announced once to the transition subscribers, and unsubscribed callbacks are not called. A rejected request is reported as rejected and changes nothing. An error request is accepted from every state and the error and exiting states are final. While one accepted transition is still pending, every further request except an error request is rejected.',
     ['histories', 'inputs'], 'all states x all transition requests, and all request histories up to the bound', 'tests drive a few legal sequences; the rule quantifies over every state, request and history, in particular the illegal ones',
     ['fairmq/StateMachine.cxx', 'fairmq/StateMachine.h', 'fairmq/States.h'], [('transition table and no_transition', 'fairmq/StateMachine.cxx'), ('ChangeState pending check', 'fairmq/StateMachine.cxx')], BND)
prop('P02', 'State and transition names are total and invertible',
     'Every state and every transition has a unique documented name, looking that name up gives back the same state or transition, and any other text or value is rejected with an exception.',
     ['inputs'], 'all enumerators, all integer values, all byte strings up to the bound and all one-byte corruptions of all names', 'the tests look up a handful of names; totality, inversion and rejection quantify over all texts',
     ['fairmq/States.cxx', 'fairmq/States.h'], [('name tables', 'fairmq/States.cxx')], BND)
prop('P03', 'Concurrent transition requests are serialised and never lost',
     'Whatever threads request transitions concurrently with the thread that processes them: each accepted request is processed exactly once (or superseded by an error), consecutive processed states are always joined by a legal transition, and waiting for a pending transition neither misses one nor reports one that does not exist. An accepted error request, or an exception escaping a state handler, always ends processing in the error state with subscribers informed. The state machine has no data races.',
     ['schedules', 'histories'], 'all interleavings within the preemption bound at every synchronisation operation and atomic access, all request values', 'unit tests run one schedule; lost wakeups, double handling and races show up in a few of many thousand',
     ['fairmq/StateMachine.cxx'], [('fStateMtx, fNewStatePending and its condition variable', 'fairmq/StateMachine.cxx'), ('ProcessWork error path', 'fairmq/StateMachine.cxx')], BND)
prop('P04', 'State queue delivers states in order, once, without lost wakeups',
     'States pushed into the queue are handed out in push order, each exactly once, to waiting calls; a wait ends with a state, with its timeout or with its custom predicate only, a timed out wait loses nothing, and the error state is reported as an exception each time and is not consumed. A waiter is never left blocked when a state has been pushed or its predicate became true by a notification. A predicate passed by the caller is evaluated intact and stays usable.',
     ['schedules', 'histories'], 'all operation histories and all producer/consumer interleavings within the bounds', 'tests use one producer and fixed timing',
     ['fairmq/StateQueue.h'], [('fMtx/fCV guarded std::queue', 'fairmq/StateQueue.h')], BND)
prop('P05', 'Event manager delivers each event exactly once to current subscribers',
     'Emitting an event calls, exactly once and with the given key and arguments unchanged, every callback currently subscribed for that event type and signature, and no other; a subscriber name stands for at most one callback per type and signature, subscribing again replaces it and unsubscribing ends it. Operations may be issued concurrently and from inside callbacks without deadlock, race or lost subscription. Unsubscribing what is not subscribed fails and changes nothing.',
     ['histories', 'schedules', 'inputs'], 'all histories of subscribe, unsubscribe and emit over two subscribers, two events and four signatures, and all interleavings of two threads, within the bounds', 'the unit test exercises one history with one thread',
     ['fairmq/EventManager.h', 'fairmq/EventManager.cxx'], [('fSignals, fConnections under fMutex', 'fairmq/EventManager.h')], BND)
prop('P14', 'Channel validation, settings and copies',
     'A channel is accepted exactly when its name consists of allowed characters, its socket type is known, every one of its comma separated endpoints has a known protocol with the parts this needs and a connection method (its own modifier or the channel method), and its sizes and logging interval are not negative; a channel counts as valid exactly after a successful validation and any changed setting ends that. Settings read back as set, survive copying, moving, assigning and the round trip through the configuration properties, have the documented defaults when absent, and are applied to the socket; a copy does not share the socket. Calls without a timeout use the channel timeouts, an explicit timeout overrides them, and transfer results are passed on unchanged.',
     ['inputs'], 'every character, type, method and endpoint form, pairs of endpoints, all 32-bit values of every setting at once', 'tests validate a dozen literal channels',
     ['fairmq/Channel.cxx', 'fairmq/Channel.h', 'fairmq/ProgOptions.cxx'], [('Channel::Validate', 'fairmq/Channel.cxx'), ('property constructor, copy operations', 'fairmq/Channel.cxx'), ('ProgOptions::AddChannel', 'fairmq/ProgOptions.cxx')], BND + ' The socket is a recording stand-in.')
prop('P16', 'Channel configuration text and documents mean what they say',
     'Parsing channel configurations - the command line suboptions or a configuration document - yields exactly one property for every setting of every configured socket, of the right type and with the value given for the socket, else the common one of the channel, else the documented default; sockets are numbered in order, a number of sockets repeats the common settings, the first of several channels with one name counts, and only the addressed device is considered. Unknown or incomplete suboptions are ignored; a channel without a name, an empty device id or a malformed document is refused with an exception. No text makes the parser fail in any other way.',
     ['inputs'], 'all combinations of suboption forms and short raw texts, and all document shapes with every setting at each level within the bounds', 'tests parse a few literal configurations; per-setting tables can be wrong for one setting only',
     ['fairmq/SuboptParser.cxx', 'fairmq/JSONParser.cxx'], [('channelOptionKeys and the option loop', 'fairmq/SuboptParser.cxx'), ('ChannelParser, SubChannelParser', 'fairmq/JSONParser.cxx')], BND + ' getsubopt and number conversion run natively.')
prop('P17', 'Property store: reads, all-or-nothing updates and notifications',
     'After any history of sets, updates, deletions and multi-property operations every read (by type, as text, with fallback, by prefix, by expression, count and key list) reflects exactly the last successful write of each key; updating fails, changing nothing and notifying nobody, when any key does not exist, also for several keys at once. Every successful write of a registered type notifies each subscriber of that type once and each textual subscriber once, with the value written, and nothing else notifies. Concurrent writers, deleters and readers cause no failure, torn multi-property update or race, and callbacks may use the store.',
     ['histories', 'schedules'], 'all operation histories over three keys with integer and text values, and all interleavings of two threads, within the bounds', 'tests check single calls one at a time on one thread',
     ['fairmq/ProgOptions.h', 'fairmq/ProgOptions.cxx', 'fairmq/Properties.cxx', 'fairmq/Properties.h'], [('fVarMap under fMtx, emission after unlocking', 'fairmq/ProgOptions.h, fairmq/ProgOptions.cxx')], BND + ' boost::program_options runs natively.')
prop('P19', 'Multipart container keeps every message once and in order',
     'A multipart container holds exactly the messages added and not yet taken, in the order they were added, whether added one by one, several at once or from another container; indexing, iteration, size and emptiness agree with that. Moving or clearing never loses, duplicates or reorders messages, each message is released exactly once, and access past the end through the checked accessor is rejected.',
     ['histories'], 'all histories of adding, merging, moving, taking and clearing over two containers within the bounds', 'tests build a few fixed containers',
     ['fairmq/Parts.h'], [('AddPart overloads', 'fairmq/Parts.h')], BND)
prop('P20', 'Message memory resource and container hand-over',
     'Memory obtained from the message memory resource has the requested size and alignment, does not overlap other live memory, and is backed by exactly one message that lives until it is released or handed out, once, with its content intact. Turning a container into a message yields a message of exactly the used size and content, without copying when the container already lives in the target memory, and by copying into the target otherwise; without any target it is rejected. Every backing message is released exactly once.',
     ['histories', 'inputs'], 'all histories of allocation, release, hand-out and hand-in, and all container sizes, contents and targets within the bounds', 'the test covers one allocation pattern per type',
     ['fairmq/MemoryResources.h', 'fairmq/MemoryResources.cxx', 'fairmq/MemoryResourceTools.h'], [('messageMap', 'fairmq/MemoryResources.h'), ('getMessage', 'fairmq/MemoryResourceTools.h')], BND)
prop('P21', 'Semaphores: no lost signal, no extra pass, shared copies agree',
     'The number of passed waits never exceeds the initial count plus the signals given, and no waiter stays blocked while the count is positive, for every interleaving of waits and signals and any spurious wakeups; the reported count is always initial count plus signals minus passed waits. Copies of a shared semaphore act on one count, which outlives any individual copy. No operation races.',
     ['schedules'], 'all interleavings of up to four waiters and three signallers within the preemption bound, spurious wakeups included', 'tests run one timing',
     ['fairmq/tools/Semaphore.cxx', 'fairmq/tools/Semaphore.h'], [('fCount under fMutex with fCv', 'fairmq/tools/Semaphore.cxx')], BND)
prop('P22', 'Rate limiter keeps enforcing the requested rate',
     'For every requested rate the limiter can be constructed and called without failure, and it keeps limiting whatever the history of iteration durations was: after a settling phase of constant short iterations the achieved rate is within 10% of the requested one. A slow phase never switches the limiter off and never makes it sleep a negative or unbounded time.',
     ['inputs', 'histories'], 'a grid of rates from 1 mHz to above 1 GHz, symbolic durations of a slow phase and of the following iterations', 'the test measures one rate in real time',
     ['fairmq/tools/RateLimit.h'], [('maybe_sleep control loop', 'fairmq/tools/RateLimit.h')], BND + ' Time is the virtual clock of rt/.')
prop('P23', 'Version order and string helpers are exact',
     'Versions compare as major, then minor, then patch for all values, with all six comparison operators consistent and the order transitive. The prefix and suffix tests hold exactly for prefixes and suffixes (the empty text included), argument vectors are converted unchanged and in order with the program name dropped only on request, and text concatenation keeps every argument in order.',
     ['inputs'], 'all 32-bit version components; all strings up to the bound', 'tests compare a few literals',
     ['fairmq/tools/Version.h', 'fairmq/tools/Strings.h'], [('operators', 'fairmq/tools/Version.h'), ('StrStartsWith, StrEndsWith, ToStrVector, ToString', 'fairmq/tools/Strings.h')], BND)
prop('P31', 'Instance limiter counts live instances exactly',
     'Creating an instance fails exactly when the configured number of instances of that kind is alive; a failed creation changes nothing, destroying an instance always makes room for one again, and kinds do not influence each other. The reported count is the number of live instances.',
     ['histories'], 'all construction and destruction histories up to the bound for limits 0 to 3', 'tests create and destroy one sequence',
     ['fairmq/tools/InstanceLimit.h'], [('fCount', 'fairmq/tools/InstanceLimit.h')], BND)
prop('P37', 'Properties of every supported type keep value, type and text',
     'For every registered property type - characters, integers of all widths, floating point, booleans, texts, paths and vectors of these - a value set through any of the set and update calls is read back unchanged with its type, is converted to exactly its text (elements joined by comma and blank, 8-bit integers as numbers), and is announced once with the unchanged value to subscribers of exactly that type and once as text. Reading as another type is refused. Types added by the user behave the same; unregistered types are reported as such and not converted.',
     ['inputs'], 'all registered types x all four set and update calls x 8-bit values exhaustively, limit values of the wider types, vectors up to three elements', 'the tests cover int and string; the tables hold 72 entries each of which can be wrong on its own',
     ['fairmq/Properties.cxx', 'fairmq/Properties.h', 'fairmq/ProgOptions.h'], [('fTypeInfos', 'fairmq/Properties.cxx'), ('fEventEmitters', 'fairmq/Properties.cxx')], BND + ' Number formatting of iostreams runs natively.')
prop('P33', 'Device life cycle: hooks, channels and transports follow the states',
     'For every legal sequence of transitions, each state of a device calls exactly its own hooks once and in the documented order (running: PreRun, then ConditionalRun while it returns true, Run, PostRun), and no hook is called after one has failed. Channels and sub-channels exist, as configured and with their configured or the default transport, from the end of initialization until the reset hook has returned; binding and connecting endpoints are bound and connected once, before the Bind and Connect hook; resetting releases all sockets and transports, and the device can be initialized again. An exception from a hook, or an error request, ends in the final error state, is reported by an exception and announced to subscribers. A transition requested at any time interrupts a transfer that waits or starts before the transition is processed, transports are usable otherwise, and a stop request at the moment when running ends by itself is harmless.',
     ['histories', 'schedules', 'inputs'], 'all legal controller histories up to the bound, a failure or error request at every hook, all interleavings of a controlling thread within the preemption bound', 'tests drive one life cycle per feature; lost interrupts and leftovers of an earlier life need particular histories and schedules',
     ['fairmq/Device.cxx', 'fairmq/Device.h', 'fairmq/StateMachine.cxx'], [('state handlers', 'fairmq/Device.cxx'), ('InterruptTransports, ResumeTransports', 'fairmq/Device.cxx'), ('RunWrapper', 'fairmq/Device.cxx')], BND + ' The transports are recording stand-ins.')
prop('P18', 'Attaching channels: endpoints, automatic ports, late addresses',
     'Every endpoint of a channel is bound or connected once, in order, by the method its modifier or else the channel asks for, with its host name resolved; when a socket refuses a TCP address and automatic binding is on, ports of the configured range are tried until one is accepted, and nothing but the port is changed. The address actually used is written back to the channel and the configuration. A binding channel without address is bound to the configured interface. A channel that cannot be bound, or cannot be connected within the initialization timeout (addresses configured meanwhile being used), puts the device into the error state without calling the hook; neither happens earlier, and a requested transition ends the waiting.',
     ['inputs', 'histories'], 'all endpoint forms, modifiers and methods, refusals at every endpoint, port ranges and numbers of refused ports, times at which an address becomes known', 'tests bind fixed addresses that are accepted',
     ['fairmq/Device.cxx', 'fairmq/Channel.cxx'], [('AttachChannel, AttachChannels, ConnectWrapper', 'fairmq/Device.cxx'), ('BindEndpoint', 'fairmq/Channel.cxx')], BND + ' Sockets, host name and interface lookup are stand-ins; ports are drawn with one seed.')
prop('P34', 'Data callbacks see every transfer once, one at a time',
     'While a device with data callbacks runs, every transfer received on an input channel is handed to exactly the callback registered for that channel, once, complete, with the index of its sub-channel, and in order of arrival per sub-channel; callbacks never run at the same time, whatever the number of channels and transports. After a callback returned false or failed none is called any more; a failing callback puts the device into the error state, and running ends when a callback returned false or a transition is requested. Nothing is received without being handed over.',
     ['schedules', 'histories', 'inputs'], 'all configurations of channels, sub-channels, transports and callback kinds with all queue contents and outcomes of callbacks, all interleavings of the transport threads and a controlling thread, within the bounds', 'tests use one channel or rely on timing',
     ['fairmq/Device.cxx', 'fairmq/Device.h'], [('HandleSingleChannelInput, HandleMultipleChannelInput, PollForTransport', 'fairmq/Device.cxx'), ('OnData', 'fairmq/Device.h')], BND + ' The transports are stand-ins with queues.')
prop('P28', 'Bundled devices pass data on completely and in order',
     'Proxy and merger pass every transfer they receive on exactly once, the splitter to its outputs in turn, the multiplier to every output, each with all its parts, in order and unchanged; they go on until stopped, and only a transfer whose sending was interrupted may be lost. The benchmark sampler sends, and the sink receives, exactly the configured number of transfers (without limit: until stopped), of the configured parts and size.',
     ['histories', 'inputs'], 'all queue contents, part numbers and contents, output configurations, iteration limits and points of interruption within the bounds', 'the tests run single devices with one fixed data flow',
     ['fairmq/devices/Proxy.h', 'fairmq/devices/Merger.h', 'fairmq/devices/Splitter.h', 'fairmq/devices/Multiplier.h', 'fairmq/devices/BenchmarkSampler.h', 'fairmq/devices/Sink.h'], [('Run, HandleData', 'fairmq/devices/*.h')], BND + ' The transport is a stand-in with queues; the file output of the sink is not covered.')

prop('P24', 'Device control belongs to at most one plugin',
     'At any time at most one plugin is in control of the device: control can be taken exactly when nobody else has it, is taken implicitly by the first state change request, can be stolen, and is given up by its holder only; a state change request of any other plugin is refused with an exception and does not reach the device, a permitted one has the result of the device. The reported controller is the plugin in control. Every thread that waits for the release of control goes on once control was released and nobody holds it, however many wait. Properties, states and notifications reached through the plugin interface are those of the device and its configuration.',
     ['histories', 'schedules'], 'all histories of taking, stealing, releasing and requesting by three plugins, all interleavings of a releasing, a taking and two waiting threads, within the bounds', 'tests drive one plugin on one thread',
     ['fairmq/PluginServices.cxx', 'fairmq/PluginServices.h', 'fairmq/Plugin.h'], [('fDeviceController under fDeviceControllerMutex', 'fairmq/PluginServices.cxx'), ('fReleaseDeviceControlCondition', 'fairmq/PluginServices.cxx')], BND)
prop('P25', 'Plugin manager: search paths, loading and creation order',
     'The search paths are the prepended, then the given (by setting them or the default option), then the appended ones; a path is refused exactly when it is empty or exists and is not a directory, and a refused call changes nothing. A plugin file is found in the first search path that has it, under the current before the old prefix. What is no plugin is refused with an exception. However often a plugin is loaded, it is created once, visited once and offers its options once, in the order of first loading; a plugin that cannot be created is reported and no later one is created.',
     ['histories', 'inputs'], 'all search path arguments and calls over five kinds of paths, all search orders and plugin names, all sequences of loading built-in and missing plugins with a failure at any creation, within the bounds', 'tests use a few fixed paths and one plugin',
     ['fairmq/PluginManager.cxx', 'fairmq/PluginManager.h'], [('SetSearchPaths, AppendSearchPath, PrependSearchPath', 'fairmq/PluginManager.cxx'), ('fPluginOrder, fPlugins', 'fairmq/PluginManager.cxx')], BND + ' The built-in plugins are stand-ins; successful loading of shared libraries is not covered.')
prop('P06', 'Shared memory messages: size, content, alignment and release of the buffer',
     'A shared memory message has the size and alignment it was created or rebuilt with, and its buffer lies in the segment, overlaps no other live buffer and keeps its content until the message is rebuilt, copied over, resized or destroyed. Copies share one buffer whose reference count is the number of messages using it; changing, shrinking or destroying one of them does not affect the others, and the buffer goes back to the segment exactly when the last one lets go of it, so that an emptied session has all its memory. A buffer handed over with a deallocation function is released exactly once, whatever its size. The used size can be reduced, never increased. A request that does not fit is refused with an exception after the configured number of attempts at the configured interval, earlier when interrupted, and is served as soon as memory is available at an attempt; a refused request changes nothing else and a size above the segment size is always refused.',
     ['histories', 'inputs'], 'all histories of creating, rebuilding, copying, resizing and destroying messages with both allocation algorithms, sizes and alignments, and all outcomes of waiting for memory, within the bounds', 'tests use a handful of sizes and check one message at a time; leaks, overlaps and early releases need particular histories',
     ['fairmq/shmem/Message.h', 'fairmq/shmem/Manager.h', 'fairmq/shmem/Common.h'], [('Hdr, FullSize, Construct', 'fairmq/shmem/Common.h'), ('Allocate, Deallocate, ShrinkInPlace', 'fairmq/shmem/Manager.h'), ('Deallocate, Copy, SetUsedSize', 'fairmq/shmem/Message.h')], BND + ' Shared memory objects and libzmq are models (rt/), the allocators are the real ones of Boost.')
prop('P07', 'Shared memory transfers: content, sharing and release across users and segments',
     'A shared memory message that has been sent arrives at exactly one receiver with its content, size and order, alone or as one part of a multipart message, whichever segment of the session it lives in and whatever the receiving message held before. The sender\'s message is empty afterwards and can be reused; a send that is refused leaves its messages as they were. Copies of a message on both sides share the buffer; it goes back to the segment it came from when the last message using it, of whichever user, is gone, not earlier and not later, including buffers in transfers nobody received.',
     ['histories', 'inputs'], 'all histories of two users sending, receiving, forwarding, copying, rebuilding and destroying messages, with symbolic contents, in one or two segments and with both allocation algorithms, within the bounds', 'tests send one message at a time between two sockets of one session and look at its content, not at what becomes of the buffer',
     ['fairmq/shmem/Socket.h', 'fairmq/shmem/Message.h', 'fairmq/shmem/Manager.h'], [('Send, Receive', 'fairmq/shmem/Socket.h'), ('Deallocate, CloseMessage', 'fairmq/shmem/Message.h'), ('GetAddressFromHandle, GetSegment', 'fairmq/shmem/Manager.h')], BND + ' Shared memory objects and libzmq are models (rt/).')
prop('P08', 'Unmanaged region blocks are acknowledged exactly once, after their last use',
     'For every block of a shared memory unmanaged region that was given to a message, the callback of the region is called exactly once, with the address, size and hint given with the block, after the last message using it has been destroyed, rebuilt or reused - whichever user of the session held it, however often it was copied, sent, forwarded or received, and never while a message still uses it. Acknowledgements of blocks released before the region is destroyed are delivered before its destruction returns, also when the release happens concurrently in another thread, when there are more than fit in one bunch, and when the queue to the receiver is full as long as the receiver makes room within the linger time. Running out of reference counts is reported by an exception and loses no block.',
     ['histories', 'schedules'], 'all histories of two users creating, sending, receiving, forwarding, copying, rebuilding and destroying messages of a region, for both callback kinds, both places of the reference counts, and all interleavings of a release with acknowledgement threads and destruction, within the bounds', 'tests wait for a fixed number of callbacks in one fixed history',
     ['fairmq/shmem/UnmanagedRegion.h', 'fairmq/shmem/UnmanagedRegionImpl.h', 'fairmq/shmem/Message.h'], [('SendAcks, ReceiveAcks, ReleaseBlock, StopAcks', 'fairmq/shmem/UnmanagedRegion.h'), ('ReleaseUnmanagedRegionBlock, Deallocate', 'fairmq/shmem/Message.h')], BND + ' Shared memory objects and libzmq are models (rt/).')
prop('P09', 'Unmanaged regions: unique ids, region events and region information',
     'A region that has been created has the size, the flags and - if one was chosen - the id asked for, its id differs from that of every other region of the session, and its content stays until it is destroyed. Choosing the id of an existing region for one of another size is refused. GetRegionInfo lists every existing region and segment once with its address, size, flags and id, and tells destroyed ones apart. A subscriber is told once of every segment and of every region that exists or is created while it is subscribed, and once of the destruction of each of those after it happened; nothing is reported without a subscription. None of this depends on which user or thread creates, destroys, looks up or subscribes at the same time, nothing blocks or terminates the process, and the last user of the session removes the objects of all regions.',
     ['histories', 'schedules'], 'all histories of creating, destroying, looking up, subscribing and joining, by two users of a session or in one ZeroMQ context, and all interleavings of region operations of two threads with a bounded number of preemptions', 'tests check one subscription in one order; races between creation, destruction, lookup and the event thread need particular interleavings',
     ['fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/zeromq/Context.h', 'fairmq/zeromq/UnmanagedRegion.h'], [('CreateRegion, RemoveRegion, GetRegion, GetRegionInfo, RegionEventsLoop', 'fairmq/shmem/Manager.h'), ('AddRegion, RemoveRegion, RegionEventsSubscription', 'fairmq/zeromq/Context.h')], BND + ' Shared memory objects and libzmq are models (rt/); regions backed by files are outside.')
prop('P10', 'ZeroMQ messages: size, content, alignment and release of the buffer',
     'A ZeroMQ message has the size, content and alignment it was created, rebuilt or received with, whatever it held before; copies keep their content when the original is changed or destroyed. A buffer handed over with a deallocation function is released exactly once and not before the last message using it lets go of it; so is a block of an unmanaged region. The used size can be reduced, never increased, and the content before it is kept. A message that cannot be allocated, in whatever form, is refused with an exception and leaks nothing, and stays usable if it existed before.',
     ['histories', 'inputs'], 'all histories of creating, rebuilding, copying, resizing, receiving and destroying messages, all sizes and alignments of allocations, within the bounds', 'tests use a handful of sizes and check one message at a time',
     ['fairmq/zeromq/Message.h'], [('Rebuild, SetUsedSize, Realign', 'fairmq/zeromq/Message.h')], BND + ' libzmq is a model (rt/zmq.cpp).')
prop('P11', 'Transfers: result codes, timeouts, interruption and counters',
     'Sending or receiving a message or several parts, with either transport, returns the number of bytes transferred if the transfer is done, and a negative code otherwise: timeout when it could not be done at once with timeout 0 or within a positive timeout, which is not over before that time nor more than one polling interval (100 ms) after it; interrupted, within one polling interval, when the transport is interrupted while waiting; error when the socket cannot do it. Without a timeout it waits until it is done or interrupted, and it is done as soon as the peer makes it possible. A message that was not sent keeps its content, can be sent later, and its receiver sees nothing of the failed attempts. After resuming, transfers work as before. The counters of a socket are the exact numbers of transfers done and of their bytes, whatever the size of the parts.',
     ['inputs', 'histories', 'schedules'], 'all combinations of direction, form, timeout, moment of the peer or of the interruption, and an interrupting signal, within the bounds', 'tests use one timeout and a peer that is already there; the boundary cases need particular moments',
     ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/Common.h'], [('Send, Receive', 'fairmq/zeromq/Socket.h'), ('Send, Receive', 'fairmq/shmem/Socket.h'), ('ShouldRetry, HandleErrors', 'fairmq/zeromq/Common.h')], BND + ' libzmq is a model (rt/zmq.cpp) with virtual time; with an interrupting signal a transfer may give up one polling interval before its timeout.')
prop('P12', 'Transfers: every message arrives once, whole, in order; socket options',
     'Every message that was sent successfully, as a single message or with several parts, arrives at exactly one receiver (with publish/subscribe: at every subscriber with room), once, with all its parts and nothing else, in their order and with their content, and messages from one sender to one receiver arrive in the order they were sent - whichever side binds, whoever connects first, however many senders and receivers share the channel, through whatever queue sizes, and with sender and receiver running concurrently. Requests and replies alternate. A socket reports the option values set last and refuses those the transport does not support, tells the number of connected peers, refuses addresses that are in use or invalid, and leaves nothing behind when it is closed.',
     ['histories', 'schedules', 'inputs'], 'all histories of transfers between up to two senders and two receivers with symbolic contents, and all interleavings of a sender and a receiver with a bounded number of preemptions', 'tests send a fixed sequence over one pair of sockets',
     ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/Common.h', 'fairmq/Parts.h'], [('Send, Receive, options', 'fairmq/zeromq/Socket.h'), ('Send, Receive, options', 'fairmq/shmem/Socket.h'), ('Bind, Connect, updateNumberOfConnectedPeers', 'fairmq/zeromq/Common.h')], BND + ' libzmq is a model (rt/zmq.cpp).')
prop('P15', 'Channels convert messages of another transport without loss or double release',
     'A message of one transport can be sent over a channel of the other one, alone or mixed with others in one transfer: it is converted to the transport of the channel and arrives with its content, size and order. The original buffer, also one handed over with a deallocation function, is released exactly once, not before its last use and not later than the message sent. A conversion that does not fit is refused with an exception and a transfer that times out is reported as such; in both cases the messages keep their content and can be sent again. Receiving replaces messages of another transport by messages of the channel. All memory of either transport is returned when the messages are gone.',
     ['histories', 'inputs'], 'all histories of creating messages of both transports, sending them over channels of both, receiving, resizing and destroying them, within the bounds', 'tests forward one kind of message between two devices',
     ['fairmq/Channel.h', 'fairmq/shmem/Message.h', 'fairmq/zeromq/Message.h'], [('CheckSendCompatibility, CheckReceiveCompatibility, Send, Receive', 'fairmq/Channel.h')], BND + ' Shared memory objects and libzmq are models (rt/).')
prop('P27', 'Pollers report exactly the subchannels that are ready',
     'A poller built from channels, from pointers or from channel names covers every subchannel of these channels once, in order, with either transport. After a poll it reports input for exactly the subchannels with a waiting message and output for exactly those with room, under the index and under the name alike, and nothing before the first poll. A poll ends at once when something is ready, as soon as something gets ready, or with its timeout, also when signals interrupt it; without a timeout it waits. Unknown channels are refused with an exception, listing a channel twice changes nothing.',
     ['histories', 'inputs'], 'all histories of sending, receiving, filling, emptying and polling over sets of subchannels of all kinds, with events at all moments relative to the timeout, within the bounds', 'tests poll two channels in one fixed order',
     ['fairmq/zeromq/Poller.h', 'fairmq/shmem/Poller.h'], [('Poller, Poll, CheckInput, CheckOutput', 'fairmq/zeromq/Poller.h'), ('Poller, Poll, CheckInput, CheckOutput', 'fairmq/shmem/Poller.h')], BND + ' libzmq is a model (rt/zmq.cpp) with virtual time.')
prop('P29', 'Shared memory sessions: joining, leaving, failed joins and clean-up',
     'The first user of a session creates its management segment and each first user of a segment id creates that segment with the algorithm and size asked for; later users, with whatever algorithm or size, share what exists. The shared objects of a session exist exactly as long as it has a user: when the last one leaves they are all removed, unless that user asked for no clean-up; then a later user continues with them, and a clean-up removes them all and reports what it removed. Users that come and go, also concurrently, and attempts to join or to create a region that fail for any reason (unknown algorithm, size too small or not available, locking fails) change nothing for the others, leave no object behind and do not prevent a later attempt from succeeding. The monitor interface tells which segments and regions are present and how much memory is free, refuses what does not exist, and a reset empties the segments and keeps them usable.',
     ['histories', 'schedules'], 'all histories of three users joining with valid and invalid settings, leaving, and clean-ups and resets, and all interleavings of two users joining and leaving with a bounded number of preemptions', 'tests start and stop one or two devices with valid settings',
     ['fairmq/shmem/Manager.h', 'fairmq/shmem/Monitor.cxx', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/shmem/TransportFactory.h'], [('Manager::Manager, CleanupIfLast', 'fairmq/shmem/Manager.h'), ('Cleanup, CleanupFull, ResetContent, SegmentIsPresent, RegionIsPresent, GetFreeMemory', 'fairmq/shmem/Monitor.cxx')], BND + ' Shared memory objects are models (rt/) with a size limit. A user joining while the last one cleans up is a known finding.')
prop('P30', 'Shared memory monitor: cleans up dead sessions only, ends as documented',
     'A watching monitor never removes the objects of a session whose users send heartbeats, whatever the relative timing of heartbeats and its checks; it removes all objects of a session whose users stopped without leaving, not before and soon after its timeout, and goes on watching for the next session. A monitor that self-destructs ends after the session it has seen is over, or after twice its timeout if there was none, and not earlier; one that does not runs until a signal. In view-only mode it never removes anything, and only a monitor told so cleans up when it ends. There is at most one watching monitor per session; its end, but not that of a refused or viewing one, makes room for another.',
     ['histories', 'schedules'], 'all histories of users joining, leaving, dying and pausing, for all modes of the monitor, and all interleavings of its threads and the heartbeats with a bounded number of preemptions of any length', 'tests need real seconds for one session and one timing',
     ['fairmq/shmem/Monitor.cxx', 'fairmq/shmem/Monitor.h', 'fairmq/shmem/Manager.h'], [('Watch, CheckHeartbeats, Run, SignalMonitor', 'fairmq/shmem/Monitor.cxx'), ('Heartbeats', 'fairmq/shmem/Manager.h')], BND + ' Time is virtual; interactive mode is outside.')
prop('P26', 'Built-in controller drives a device through its life and ends it on a signal',
     'The control plugin takes control unless disabled or somebody else has it. In static mode it brings the device through all its states to running and, when running ends by itself, resets and ends it; each state is entered once. In interactive mode it executes each control key as the transition it stands for, ignores those not possible, and ends the device on quit. A termination signal at any moment - in any state, in the middle of any hook, while a state changes, while another plugin is in control - leads, through legal transitions only, to the exiting state with everything that was initialized reset, after which control is released. When a hook fails the device ends in the error state and the controller stops. The plugin can be destroyed at once when the device has ended.',
     ['histories', 'schedules'], 'all control modes with a signal at any event, a slow or failing hook and a self-ending device, all key sequences, and all interleavings of signal handling and device with a bounded number of preemptions', 'tests run one mode with a signal after seconds of running',
     ['fairmq/plugins/control/Control.cxx', 'fairmq/StateQueue.h', 'fairmq/PluginServices.cxx'], [('RunStartupSequence, RunShutdownSequence, SignalHandler', 'fairmq/plugins/control/Control.cxx'), ('StateQueue', 'fairmq/StateQueue.h')], BND + ' Signals and the terminal are models; an aborting second SIGINT is outside.')
prop('P35', 'Device runner: options, hooks, exit codes and configured channels',
     'The runner calls its four hooks once each in the documented order, ModifyRawCmdLineArgs seeing and changing the arguments before they are parsed and InstantiateDevice finding the complete configuration. Each option of FairMQ, of the plugins and of the user has the value given for it, in any of the accepted notations, or its default; arguments nobody knows are ignored, repeated or malformed ones refused. --help and --print-options end successfully without creating a device, --version and --print-channels without running it. A device that runs has the configured id, gets exactly the channels that the document or text selected for its id or key - none if that is malformed - before it is initialized, goes through its life once, and the runner returns 0. Without a device it returns 1, an exception from a hook or from the device leaves Run and becomes exit code 1 with the exception handlers. While the device runs, changes of the log settings take effect at once; afterwards they are not followed any more. The runner always returns and can then be destroyed.',
     ['inputs', 'histories'], 'all sequences of arguments out of a set of forms, all general options, all ways of configuring channels, and a failure of any hook of runner or device, within the bounds', 'tests start a few fixed command lines and look at the exit code',
     ['fairmq/DeviceRunner.cxx', 'fairmq/ProgOptions.cxx', 'fairmq/plugins/config/Config.cxx', 'fairmq/PluginManager.cxx'], [('Run, HandleGeneralOptions, SubscribeForConfigChange', 'fairmq/DeviceRunner.cxx'), ('ParseAll, Notify', 'fairmq/ProgOptions.cxx'), ('Config', 'fairmq/plugins/config/Config.cxx')], BND + ' The log library and the transports are stand-ins; Boost.ProgramOptions is executed natively.')
prop('P36', 'Running a command captures its whole output and exit code',
     'tools::execute runs the given command once, gives it the given input, if there is any, and returns and shows everything the command wrote to its standard output and standard error, line by line and in order, each line once and with the given prefix, also a last line without line break, and its exit code, whatever the order in which the command writes, closes its files and ends. If a signal is given, a command that has not ended by itself gets it once and its end is waited for; no other process gets a signal. A command that ends without reading its input does not end the caller, and one that cannot be started is reported by an exception.',
     ['inputs', 'schedules'], 'all short outputs over an alphabet with line breaks, all ways to cut them into pieces, all orders of completions that are ready at the same time, all moments at which the command ends or closes its files, with and without input and signal', 'tests run a command or two; lost output needs a particular order of writing and ending',
     ['fairmq/tools/Process.cxx'], [('execute', 'fairmq/tools/Process.cxx')], BND + ' Boost.Asio, Boost.Process, the child process and signals are a model (rt/asio).')
prop('P32', 'Debug mode lists exactly the live shared memory buffers',
     'In debug mode the monitor interface lists, for each segment of a session, every buffer that is still used by a message or by a transfer in flight, once, with its place, size, creating process and time of creation, and nothing else - whichever user of the session, with whatever segment of its own, created, received, copied, rebuilt or destroyed the messages. A session that does not exist, or was created without debug information, has no buffers. Resetting a transport reports an error exactly if messages of it still exist.',
     ['histories'], 'all histories of two users of a session, with one or two segments, creating, sending, receiving, copying, rebuilding, destroying messages and resetting, within the bounds', 'the tests never ask for the list; entries go wrong only with several users and segments',
     ['fairmq/shmem/Monitor.cxx', 'fairmq/shmem/Manager.h', 'fairmq/shmem/Message.h'], [('GetDebugInfo', 'fairmq/shmem/Monitor.cxx'), ('Allocate, Deallocate, Reset', 'fairmq/shmem/Manager.h')], BND + ' Shared memory objects and libzmq are models (rt/).')
prop('P38', 'Shared memory tool and ids: commands reach their session and no other',
     'All users of a session and the tools derive the same 8 digit hexadecimal id from user and session name - the beginning of the SHA-256 of both - or take the id given, as number or text; the objects of a session carry that id, and users with other user ids or session names have other objects. Each command of fairmq-shmmonitor acts on the addressed session only: clean-up removes all its objects, reset empties its segments, viewing changes nothing, monitoring obeys the timeout, ends after a signal and cleans up if told so, a second monitor ends at once and changes nothing. In interactive mode each key does what it is documented to do, nothing is removed in view-only mode, and the terminal is restored at the end. Invalid options are refused with a non-zero exit code before anything is done.',
     ['inputs', 'histories'], 'all commands in all forms of addressing one of three sessions that exist or not, for two users, and all key sequences of the interactive mode, within the bounds', 'the tests never run the tool; wrong addressing shows only with several sessions and users',
     ['fairmq/shmem/runMonitor.cxx', 'fairmq/shmem/Common.cxx', 'fairmq/shmem/Monitor.cxx', 'fairmq/tools/IO.h'], [('main', 'fairmq/shmem/runMonitor.cxx'), ('makeShmIdStr, makeShmIdUint64', 'fairmq/shmem/Common.cxx'), ('Interactive, Cleanup, ResetContent', 'fairmq/shmem/Monitor.cxx')], BND + ' Shared memory objects are models (rt/); PicoSHA2 is a stand-in; the daemon mode is outside.')
prop('P13', 'Network helpers report the interfaces, routes and addresses of the host',
     'The list of host addresses has every interface with an IPv4 address, with its first one, and nothing else; the address of an interface is that, or empty. The network interface of the default route is that of the first default route of the routing table of the kernel; only without one the route command decides, its output stripped of surrounding space; if neither knows, an exception says so. A host name is resolved to its first IPv4 address, or to nothing. Failures of the operating system are reported, and everything obtained from it is released on every way out.',
     ['inputs'], 'all lists of interfaces with failures at any point, all routing tables and outputs of the route command, all answers of the resolver, within the bounds', 'tests can only look at the one configuration of the machine they run on',
     ['fairmq/tools/Network.cxx'], [('getHostIPs, getInterfaceIP, getDefaultRouteNetworkInterface, getIpFromHostname', 'fairmq/tools/Network.cxx')], BND + ' The system interfaces (getifaddrs, getnameinfo, getaddrinfo, popen, the routing table) are models.')
prop('P39', 'Unique ids carry all the randomness of the system',
     'A generated id is the text of a version 4 UUID in lower case whose 122 free bits are exactly the random bits read from the system, so that different randomness gives different ids, also when the source delivers the bytes in pieces; the next id uses fresh randomness. Ids as hashes differ as well. Without a source of randomness an exception says so, and no id is made up.',
     ['inputs'], 'all values of the 32 random bytes of two ids (for the hash: of a few of them), all short reads', 'tests see a few random ids; a lost bit or a repeated id is invisible in them',
     ['fairmq/tools/Unique.cxx', 'fairmq/tools/Unique.h'], [('Uuid, UuidHash', 'fairmq/tools/Unique.cxx')], BND + ' The source of randomness is a model.')
prop('P40', 'Rate logging reports the traffic of each logging period',
     'While a device is running, one line is logged for every sub-channel whose rate logging period is N > 0 seconds, every N seconds, under the name of the sub-channel; it gives the messages and megabytes (1000000 bytes) per second received and sent in the time since the previous line of that sub-channel, or since running began. Nothing is logged for sub-channels with period 0, nor outside the running state; ending the running state, at any time, does not wait for a period to pass, and the next time in running starts from the counters at that moment.',
     ['histories', 'inputs', 'schedules'], 'all periods of three sub-channels, several times in running, increments of the counters, and all moments of a stop request with a bounded number of preemptions', 'no test looks at the rates; with a period of 1 s on one channel a mistake in the time base is invisible',
     ['fairmq/Device.cxx'], [('LogSocketRates, RunWrapper', 'fairmq/Device.cxx')], BND + ' Sockets are mocks with settable counters; log lines are taken from the operands of the log statement.')
