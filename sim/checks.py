"""Which scenarios decide which property, and for how many seconds."""
Q, T = 25, 600
CHECKS = {
 'C01': dict(scenarios=[('c01_calls', 2), ('c01_clean', 1), ('c01_churn', 1)], quick=Q, thorough=T,
   what='Several clients with several caller threads issue synchronous and asynchronous calls to several servers over shared connections, while connections are reset, refused, black-holed, stalled and partitioned, servers crash, stop and restart, nodes pause and single threads stall. Every call must complete exactly once and within its timeout plus slack; after the faults stop calls succeed again; a call never outlives the connection it was made on; everything can be destroyed. c01_churn resets connections all the time while calls with timeouts of minutes are issued: each ends with its connection. c01_clean injects no losses: every call has its handler\'s result.'),
 'C02': dict(scenarios=[('c02_clean', 3), ('c02_lossy', 2), ('c02_shapes', 1), ('c02_foreign', 1)], quick=Q, thorough=T, ignore=['call-late'],
   what='Clients call servers with requests and responses of 0 to 300000 bytes, every compression type in both directions and every buffer block size, while the byte stream is cut by short reads, short writes, segmentation, tiny socket buffers and stalls. Handlers verify that every request is one that was sent, unchanged; callers verify the response byte for byte. Without connection losses (c02_clean) every call must have exactly its own handler\'s result and unknown services the matching error; with losses (c02_lossy) whatever succeeds must be right. c02_shapes sends messages of any shape: empty, deeply nested, with optional and repeated fields present or not, and of sizes around the block size of the compressors. c02_foreign plays a server of another make that answers in any order with any compression.'),
 'C03': dict(scenarios=[('c03_once', 3), ('c03_queued', 2)], quick=Q, thorough=T, ignore=['call-late'],
   what='Connections are reset, partitioned and lost around the sending of requests, servers crash, stop and restart; handlers count executions per call. Requests that time out while they wait unsent behind a blocked connection are followed until long after the connection moves again.'),
 'C04': dict(scenarios=[('c04_client', 2), ('c04_precedence', 2), ('c04_server', 2), ('c04_wait', 1), ('c04_connect', 1)], quick=Q, thorough=T,
   what='Calls with timeouts of 1 ms to 20 s against slow and silent handlers, lost and black-holed connections and partitions, with timeouts from the controller, method options, service options and default: no timeout is reported early and none later than 250 ms (two periods of the 100 ms timer) plus injected stalls after it was due. A scripted client sends batches to a server with one thread and verifies which requests are executed and answered after waiting there, and a real client does the same with slow handlers in front. Connections that are established late, after the connect timeout or never: calls that wait fail at the connect timeout and only then.'),
 'C05': dict(scenarios=[('c05_clean', 2), ('c05_lossy', 3)], quick=Q, thorough=T, ignore=['call-late'],
   what='Many callers start concurrently over several channels to the same and different addresses. Without losses exactly one connection per client and address is ever made; after connections were lost in every way calls succeed again within 20 s of the end of the faults over exactly one connection per address, and ConnectionCount() of both sides agrees.'),
 'C06': dict(scenarios=[('c06_hostile', 1)], quick=Q, thorough=T,
   what='One to three peers send malformed input to a server that also serves well-behaved clients: random bytes, broken headers and sizes, unparsable and mutated metas and bodies, corrupted, truncated, bombing and concatenated compressed bodies of every type, malformed, endless, deeply nested, mutated and pipelined HTTP, all cut into pieces and ended by early close, half close or reset. No crash, no invalid memory access, no hang; well-behaved calls all succeed; what is surely invalid is answered with an error or a close and no handler runs for it.'),
 'C07': dict(scenarios=[('c07_hostile', 1)], quick=Q, thorough=T,
   what='A scripted server answers with malformed bytes: broken and negative sizes, bad and mutated metas, wrong and repeated sequence ids, contradictory status, corrupted compressed bodies, unparsable bodies, bytes of another protocol, early close and reset, mixed with good answers. The client must not crash or spin, each call completes once and within its timeout, only a well-formed response for a pending call makes it succeed, and calls to a good server are unaffected.'),
 'C08': dict(scenarios=[('c08_limits', 2), ('c08_edge', 2)], quick=Q, thorough=T,
  what='One to three clients and one or two servers, each with or without limits of 1 to 8 MB/s in both directions, exchange up to 8 MB in messages of up to 400 KB, while limits are lowered, raised, set and removed at run time, threads stall and connections are reset. The bytes through every process are metered against a leaky bucket with the bounded burst the limit allows, calls pending without any byte moving for longer than the largest debt are a stall, and traffic without a limit must finish at network speed. c08_edge issues single calls that exhaust a limit while threads stall for about the length of a slice, so that a refill meets a refusal.'),
 'C09': dict(scenarios=[('c09_client', 1), ('c09_server', 1)], quick=Q, thorough=T,
  what='Clients whose requests leave slowly or not at all (a peer that stops reading, a partition, small socket buffers, a server reading at a limited rate) call with messages of up to 200 KB against pending limits from zero up; refusals are judged with bounds on the memory the queued calls can occupy. Servers whose handlers stall and whose peers stop reading have to stop taking requests once the queue surely exceeds the limit, take them again when it drains or the limit is raised, and answer every request they took exactly once.'),
 'C10': dict(scenarios=[('c10_server', 2), ('c10_client', 2), ('c10_slow', 1)], quick=Q, thorough=T,
  what='Connections with uses spaced closely below, at and above the keep-alive time, calls that last about as long as it, changes of the option at run time (also off and on), clocks far from zero, slow and stalled threads; scripted peers watch a server, and the connections of a client are watched from outside; messages that take longer than the keep-alive time to go out.'),
 'C11': dict(scenarios=[('c11_limit', 1)], quick=Q, thorough=T,
  what='Up to eight scripted peers connect, send requests, wait and leave (by close, reset, with requests in flight or without any) against a server with a limit of 0 to 6 or none, which is changed at run time; threads stall. The number of connections served at a time is judged against the limits in force when the last of them can have been accepted, refusals against the most others that can have been counted.'),
 'C12': dict(scenarios=[('c12_accept', 2), ('c12_start', 1)], quick=Q, thorough=T,
  what='accept() fails with EMFILE, ENFILE, ENOBUFS, ENOMEM or EPERM a few times or until further notice, repeatedly, with socket, bind and listen failures during the recovery, aborted connections and stalled threads, while established connections are used and new ones come; stops and restarts during the recovery; starts that fail to resolve, open, bind or listen.'),
 'C13': dict(scenarios=[('c13_failover', 2), ('c13_blackout', 2), ('c13_spread', 1), ('c13_load', 1)], quick=Q, thorough=T,
  what='Up to four servers behind one channel are cut off, stopped and crashed (noticeably or silently) and come back, by address or by name (also names that fail to resolve at first), while several callers use the channel and threads stall. Every call is judged: it fails only on a server that was disturbed, no call goes to a server whose failure was noticed, one server always works; after the end all servers receive calls again, evenly. In c13_blackout all servers fail, some come back, and from then on every call must succeed except one for each server that is still down. Calls issued one by one to servers of different speed must go to one with the fewest pending, within the load capacity.'),
 'C14': dict(scenarios=[('c14_change', 2), ('c14_probe', 1)], quick=Q, thorough=T,
  what='Addresses are added to and removed from a multi-server channel from other threads, in any order and repeatedly, while callers use it; the channel is destroyed with calls pending, or without Init(). In c14_probe the addresses belong to servers that were down and are just found to be up again over a slow network. No call started after a removal goes there, calls under way complete, added servers receive calls, the load stays even over the current set.'),
 'C15': dict(scenarios=[('c15_shutdown', 1)], quick=Q, thorough=T, ignore=['call-late'],
   what='Clients are shut down by one or two threads at random moments while calls are issued, queued, answered and timing out on them. Shutdown returns; at its return every call handed over before is complete; racing and later calls complete with an error; then channels and clients are destroyed and no thread and descriptor is left.'),
 'C16': dict(scenarios=[('c16_stop', 1)], quick=Q, thorough=T, ignore=['call-late'],
   what='A server with traffic is stopped (by one or two threads) and started again several times at random moments, also after failures to accept, while others read its state. After Stop() no handler starts, no thread, connection or listening port remains; Start() succeeds on the same port and clients reconnect by themselves; handlers that still hold requests answer later.'),
 'C17': dict(scenarios=[('c17_timers', 1)], quick=Q, thorough=T,
   what='Up to four threads add one-shot and repeating timers of 0 to 2000 ms, remove them (also at the very moment they are due) and clear the manager; callbacks remove themselves and others, add timers, clear and take long; threads stall; finally the manager is destroyed. Every callback is judged: its result, its time, its number, that it never overlaps itself, and that its closure is freed exactly once.'),
 'C18': dict(scenarios=[('c18_group', 4), ('c18_fail', 1), ('c18_server', 3)], quick=Q, thorough=T,
   what='Up to four threads and the tasks themselves post and dispatch tasks to a group of one to five threads, which is destroyed early or late; threads that cannot be created; per-thread initialisation and finalisation of a server\'s threads over starts, failed starts and stops.'),
 'C19': dict(scenarios=[('c19_stats', 2), ('c19_window', 2), ('c19_status', 1)], quick=Q, thorough=T,
  what='One to twelve threads on up to three nodes call five methods of two services, which answer at once, late, from another thread, slowly or with a failure, on one to five server threads that stall, over connections that may be reset; then the built-in statistics (whole history and a window that holds only the last phase, over a restart), the status and ConnectionCount() are compared with what the handlers did and what the simulated network knows. c19_window asks servers of up to 25 minutes of age for counts, mean and maximum times over periods of any length, while calls go on and afterwards, and compares them with the end of every single call; a part of the runs asks around the moment its ring of time slots wraps. c19_status asks for health, status, list of services and options over the built-in service and changes options over it, while the server can or (accept and bind failing) cannot listen.'),
 'C20': dict(scenarios=[('c20_destroy', 2), ('c20_server', 1), ('c20_client', 1), ('c20_steady', 1)], quick=Q, thorough=T, ignore=['call-late'],
  what='Whole generations of servers, clients and channels are created, used, disturbed (resets, partitions, hostile and HTTP visitors, full queues, refused connections, restarts, failed starts) and destroyed; afterwards no descriptor is open, no thread lives, and from the second generation on not one block of memory allocated since the first remains. A long-lived server and a long-lived client go through many cycles of connections, failures and restarts, and each time nothing is connected their descriptors and threads must be what they were before the first connection and their memory must not grow with the number of cycles (8 + 2 per thread + 1 per descriptor ever open at once of asio cache allowed, at most 8 or 12 blocks of 300 bytes or more). Connections that stay carry bursts of calls: what is kept between bursts must not grow with their number (10 + 3 per thread blocks allowed).'),
 'C21': dict(scenarios=[('c21_http', 2), ('c21_pages', 1)], quick=Q, thorough=T, ignore=['call-late'],
  what='Raw HTTP clients send requests in every fragmentation (JSON and protobuf POST, GET with a request parameter, messages with every kind of field, registered pages with exact and prefix paths, pages registered and unregistered meanwhile, unknown paths, unusable arguments, built-in pages; headers in any case and spacing, bodies up to 300 KB, pipelined or one by one, slow readers, abandoned requests) next to binary peers on the same port, without and with resets and restarts of the server. Every answer is parsed strictly: status line, header lines, one Content-Length, a body of just that length, JSON or protobuf equal to the request it answers; each request is run once by the method or page that owned its path at some moment of its life, is answered once, and nothing follows the last answer. c21_pages: two threads register and unregister up to eight pages as fast as they can while up to six clients ask for pages and for the list of them.'),
 'C22': dict(scenarios=[('c22_oom', 2), ('c22_shapes', 1), ('c22_threads', 1)], quick=Q, thorough=T, ignore=['call-late'],
  what='Buffer allocations fail at random or for a while, on clients and servers, under traffic of binary calls, compressed messages of any shape, HTTP calls and pages; threads cannot be created while servers start or restart and clients are constructed. No crash; every call and HTTP request is answered or its connection ends (no call is left to its timeout of minutes); whatever succeeds carries the whole message; a server that could not start says so and leaves nothing behind, and starts when threads are there again; a client without threads fails its calls at once; afterwards calls succeed and, in a second round, no memory is left.'),
}
# verdict classes that show another property to be broken, not this one
IGNORE = {
}
RULES = ('The seed decides the configuration, the workload, the fault kinds enabled and every scheduling, timing and fault decision. '
  'A run counts as non-trivial when its workload did the operations in question (probe "work") and its schedule hash was not seen before in the same worker.')
ASSUMPTIONS = [
  'The threads of all nodes run as fibers on one OS thread; memory is sequentially consistent (no weak-memory reordering); preemption happens at synchronisation, system calls, volatile accesses, hooked atomics and at sampled plain memory accesses.',
  'The simulated TCP gives an ordered byte stream per connection: loss and reordering of packets appear as delay, stall and reset, as above a real TCP.',
  'The wall clock of a node may be off by a constant but does not jump within a run.',
  'Seeded sampling: a quiet run is evidence about the seeds explored, not a proof.',
]
REAL = ['all sources of /repo/src/sofa/pbrpc (client, server, channels, streams, timers, thread groups, web service, JSON, compression), compiled with scheduling points at memory accesses', 'boost::asio 1.83 (header-only, compiled instrumented)', 'protobuf runtime, zlib and snappy libraries (uninstrumented)']
STUBS = ['threads, mutexes, condition variables, thread-local keys (simulated scheduler)', 'clocks, sleeps, timerfd', 'sockets, epoll, eventfd, name resolution (simulated network)', 'malloc and operator new (checking allocator)']
