#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
S='src/sofa/pbrpc/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(qtext.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook)))

HOOK="scheduling points at the inline-assembly atomics (SOFA_PBRPC_SIM_HOOKS in atomic.h and smart_ptr)"

p('C01','Every call completes exactly once',
"""Every RPC issued through a live client completes exactly once: a synchronous call returns once, and the
callback of an asynchronous call runs exactly once, with the controller's result already final. This holds
whatever the network, the servers, timeouts and other threads do, and a call with a timeout is never left
hanging. When the connection a call was made on ends, the call completes soon after that instead of waiting for
its timeout, and a call to a reachable server that answers in time succeeds. The client neither crashes nor deadlocks on the way.""",
['schedules','fault_sequences','histories'],
"""All interleavings of caller, network, timer and callback threads; all sequences of refused, black-holed,
stalled, reset and closed connections, slow handlers, server crashes and restarts; any mix of sync and async calls.""",
"""The unit tests cover buffers, closures, thread groups and the timeout manager; none makes a call over a
connection that fails, and none can decide the interleaving of response, timeout and connection loss.""",
['rpc_client_impl.cc','rpc_client_stream.h','rpc_message_stream.h','rpc_controller_impl.h','rpc_timeout_manager.h','simple_rpc_channel_impl.cc','wait_event.h'],
[('single transition of a call to done','rpc_controller_impl.h'),('close handler fails all pending calls','rpc_client_stream.h'),('timeout events keyed by call','rpc_timeout_manager.h')],
[('pending call table','calls waiting for a response on a connection','rpc_client_stream.h')],
['return of the stub method','done callback','RpcController::Failed/ErrorCode'],HOOK)

p('C02','A successful call returns its own handler\'s response, byte for byte',
"""A call that reports success carries exactly the response that the handler produced for exactly the request
the caller passed in, for every message size, compression setting and fragmentation of the byte stream, with
any number of calls in flight on shared connections. A call whose handler reports failure fails at the caller with the
handler's reason, and a call to an unknown service or method fails with the matching error. A handler
only ever sees requests some caller sent, unchanged.""",
['schedules','inputs','fault_sequences'],
"""All message sizes and contents, compression pairs, segmentations, short reads and writes, send-buffer sizes,
completion orders of concurrent handlers, and connection losses in the middle of a message.""",
"""No existing test sends two overlapping calls, splits a message across reads, or fails a write half-way.""",
['rpc_byte_stream.h','rpc_message_stream.h','rpc_server_message_stream.h','rpc_client_stream.h','rpc_server_stream.h','binary_rpc_request.cc','binary_rpc_request_parser.cc','buffer.cc','tran_buf_pool.h','compressed_stream.cc','gzip_stream.cc','block_wrappers.cc','rpc_request.cc'],
[('sequence-id matching','rpc_client_stream.h'),('header, meta and data framing','rpc_message_stream.h'),('incremental request parser','binary_rpc_request_parser.cc')],
[],['response message at the caller','request message in the handler','ErrorCode/ErrorText'],HOOK)

p('C03','A request is executed at most once',
"""Each issued call leads to at most one execution of its handler, over any history of reconnects, failovers,
retries of the transport and server restarts. A call that reports success was executed exactly once; a call
that was refused before sending, or that completed while its request was still waiting unsent in the client, is never executed afterwards.""",
['schedules','fault_sequences','crash_points'],
"""All connection losses before, during and after the transmission of a request, server crashes and restarts, and
interleavings of sending, receiving, timing out and closing.""",
"""The existing tests never lose a connection between sending and answering, so a resend would go unnoticed.""",
['rpc_client_stream.h','rpc_message_stream.h','rpc_server_stream.h','rpc_client_impl.cc','rpc_controller_impl.h','dynamic_rpc_channel_impl.cc'],
[('pending queue and resend-free close','rpc_message_stream.h'),('request-sent notification','rpc_client_stream.h')],
[],['handler invocations by call id','call completion'],HOOK)

p('C04','Timeouts are honoured on both sides',
"""A call with timeout T is never reported as timed out before T has elapsed, and is complete at the latest a
small constant timer granularity after T, however the connection, the server or the handler behaves. The timeout set
on the controller takes precedence over the one in the method options, then the service options. A server does not start a
handler for a request whose caller's timeout had already expired while the request was waiting on the server. With a connect timeout set, calls that wait for a connection fail once it has not
been established for that long, and no connection is given up for that reason before or after it was established.""",
['schedules','fault_sequences','inputs'],
"""All timeout values and mixes of them on one client, all delays and stalls of connects, sends, handlers and
responses, and all interleavings of timer and network threads.""",
"""Timeout tests need real waiting and check one sleeping value; the rounding, the order of add and erase and the
interplay with connecting and queueing are not reached.""",
['rpc_timeout_manager.h','rpc_client_impl.cc','rpc_controller_impl.h','rpc_client_stream.h','rpc_server_impl.cc','rpc_request.cc','binary_rpc_request.cc','simple_rpc_channel_impl.cc'],
[('timeout event queue','rpc_timeout_manager.h'),('server-side timeout check before execution','binary_rpc_request.cc')],
[],['time of completion','ErrorCode','handler start time'])

p('C05','One connection per address, re-established automatically',
"""All calls of one client to one server address share one connection: at no time does the client use more than one established
connection per address. After a connection is lost for any reason, calls on the same channel succeed again within a bounded time once the
server is reachable, without any action by the user.""",
['schedules','fault_sequences','histories'],
"""All concurrent first uses of an address from many threads and channels, and all sequences of refusals, resets,
partitions, idle closes and server restarts followed by a fault-free period.""",
"""No existing test opens a client connection, let alone loses one.""",
['rpc_client_impl.cc','rpc_client_stream.h','rpc_byte_stream.h','simple_rpc_channel_impl.cc'],
[('stream map per address','rpc_client_impl.cc'),('closed streams are replaced on the next call','rpc_client_impl.cc')],
[],['connections accepted by the server side of the network','RpcClient::ConnectionCount','call results'],HOOK)

p('C06','No byte sequence from a peer harms the server or its other clients',
"""Whatever bytes a peer sends to a server port, in whatever fragmentation and with whatever early close or reset,
the server neither crashes, aborts, corrupts memory nor hangs, and it keeps answering the well-formed requests of all other
connections correctly. A peer that sends something that is no valid request gets its connection closed or an error response, and no handler runs for it.""",
['inputs','schedules','fault_sequences'],
"""All byte streams, in particular mutated binary and HTTP requests, extreme sizes in headers, corrupt compressed
payloads, truncated messages and slow or vanishing senders, next to a well-behaved client.""",
"""The existing tests never feed a server bytes from a socket.""",
['rpc_server_message_stream.h','rpc_server_stream.h','rpc_request_parser.cc','binary_rpc_request_parser.cc','http_rpc_request_parser.cc','binary_rpc_request.cc','http_rpc_request.cc','rpc_message_header.h','compressed_stream.cc','gzip_stream.cc','block_wrappers.cc','lz4.cc','rpc_server_impl.cc','pbjson.cc'],
[('magic check and size checks of the header','binary_rpc_request_parser.cc'),('HTTP parser states','http_rpc_request_parser.cc')],
[],['server process state','responses to a well-behaved client','fate of the hostile connection'])

p('C07','No byte sequence from a server harms the client',
"""Whatever bytes a server sends back, in whatever fragmentation and with whatever early close or reset, the client
neither crashes, aborts, corrupts memory nor spins, and every pending call still completes exactly once. Only a
well-formed response addressed to a pending call can make that call succeed, and calls to other addresses are unaffected.""",
['inputs','schedules','fault_sequences'],
"""All byte streams, in particular headers with inconsistent, negative or huge sizes, unknown or repeated sequence
ids, requests instead of responses, corrupt metadata and compressed payloads.""",
"""The existing tests never let a client read a response that its own server code did not write.""",
['rpc_message_stream.h','rpc_client_stream.h','rpc_message_header.h','compressed_stream.cc','gzip_stream.cc','block_wrappers.cc','lz4.cc'],
[('header checks','rpc_message_stream.h'),('parse errors close the stream or fail the call','rpc_client_stream.h')],
[],['client process state','call completion and results'])

p('C08','Throughput limits hold and never stall traffic',
"""With a configured inbound or outbound throughput limit, the bytes transferred by all connections together stay within the limit over time,
up to a bounded burst, and a client or server with no limit set is not throttled. A limit only delays traffic: every call without an
expired timeout still completes, and a limit changed at run time takes effect from the next time slice in both directions.""",
['schedules','configurations','histories'],
"""All limits, message sizes, numbers of connections and sequences of limit changes while traffic is queued.""",
"""No existing test transfers data under a limit or changes one at run time.""",
['flow_controller.h','rpc_server_impl.cc','rpc_client_impl.cc','rpc_message_stream.h','rpc_server_message_stream.h'],
[('quota per time slice','flow_controller.h'),('timer slot that refills and triggers streams','rpc_server_impl.cc')],
[],['bytes sent and received per window of time','call completion'])

p('C09','Pending send buffers stay bounded without losing messages',
"""A client whose connection does not drain refuses further calls with the send-buffer-full error once the configured pending
limit is reached, so its queued data stays bounded, and never refuses for that reason when the queue is below the limit. A server whose
responses are not read by a peer stops taking requests from that connection while the limit is exceeded and resumes
when the queue drains; no accepted request or response is lost, duplicated or reordered into another message.""",
['schedules','fault_sequences','configurations'],
"""All pending limits including zero, message sizes, stalls of the peer or the network and later recoveries.""",
"""No existing test has a peer that stops reading.""",
['rpc_message_stream.h','rpc_server_message_stream.h','rpc_client_impl.cc','rpc_server_impl.cc','rpc_client_stream.h','rpc_server_stream.h'],
[('pending size accounting','rpc_message_stream.h'),('reading suspended while the pending limit is exceeded','rpc_server_message_stream.h')],
[],['error code of refused calls','bytes the server consumed from a stalled peer','completion of all accepted calls'],HOOK)

p('C10','Keep-alive closes idle connections and only those',
"""With a keep-alive time K, a connection on which nothing was read or written for K is closed within a small constant time after that,
and a connection is never closed as idle while less than K (less the 100 ms resolution of the check) has passed since its last read or write, nor, on the client, while a call on it is not complete, nor, on the server, while a handler is working on a request of it. With keep-alive disabled no connection is closed for being idle.""",
['schedules','histories','configurations'],
"""All keep-alive times on client and server, traffic patterns close to the limit, and changes of the option at run time.""",
"""Needs minutes of real time per case; the existing tests do not cover it.""",
['rpc_server_impl.cc','rpc_client_impl.cc','rpc_byte_stream.h'],
[('ticks of the last read or write','rpc_byte_stream.h'),('periodic idle check','rpc_server_impl.cc')],
[],['time of the close seen by the peer'])

p('C11','The server never serves more than max_connection_count connections',
"""A server with a connection limit N never serves requests on more than N connections at a time: connections beyond the limit are closed
without disturbing the accepted ones. When accepted connections go away, new connections are accepted again, and the limit can be changed at run time.""",
['schedules','histories','fault_sequences'],
"""All arrival and departure patterns of connections, abrupt resets, and interleavings of accept and close handling.""",
"""No existing test opens more than one connection to a server.""",
['rpc_server_impl.cc','rpc_listener.h','rpc_server_stream.h'],
[('check on accept','rpc_server_impl.cc'),('live connection count','rpc_server_impl.cc')],
[],['answers on each connection','RpcServer::ConnectionCount'])

p('C12','The server recovers from failures to accept',
"""When accepting a connection fails for lack of resources, the server keeps serving its established connections and
by itself accepts new connections again within a bounded time after the condition ends, and handlers of connection events are
notified. Failing to listen at start is reported by the return value, leaves nothing running, and a later start can succeed.""",
['fault_sequences','schedules'],
"""All placements of transient and persistent accept, socket, bind and listen failures relative to other events, including
stopping the server during recovery.""",
"""The existing tests cannot make accept fail.""",
['rpc_server_impl.cc','rpc_listener.h'],
[('restart of the listener by the maintenance timer','rpc_server_impl.cc')],
[],['new connections being served','RpcServerOptions event handler calls','return value of Start'])

p('C13','A multi-server channel fails over and fails back',
"""Calls on a channel with several servers succeed while at least one server stays reachable, once the failure of
the others has been detected (a server on which a call failed for lack of a connection or of an answer counts as
failed until its next successful health check), and a server that comes back receives calls again within a bounded time.
Calls are only ever sent to configured addresses, and are spread over all live servers rather than piling up on some of them: a call goes to a live server with the fewest calls
pending, and with a load capacity set, a call issued while every live server has that many pending is refused as busy, and no other.""",
['fault_sequences','schedules','histories'],
"""All sequences of crashes, restarts, partitions and heals of a set of servers, and interleavings of calls with
liveness detection.""",
"""No existing test uses a channel with more than one address.""",
['dynamic_rpc_channel_impl.cc','rpc_channel.cc'],
[('live and dead server maps','dynamic_rpc_channel_impl.cc'),('periodic health check through the builtin service','dynamic_rpc_channel_impl.cc')],
[],['which server executed a call','call results after convergence'],HOOK)

p('C14','Servers can be added and removed while calls are running',
"""When an address is removed from a multi-server channel, calls started after that are no longer sent to it,
calls already under way on it still complete, and the other servers are unaffected. An added reachable address receives calls within a
bounded time, and no interleaving of changes and calls crashes, deadlocks or loses a call.""",
['schedules','histories','fault_sequences'],
"""All interleavings of address changes from several threads with calls and health checks.""",
"""No existing test changes the address set.""",
['dynamic_rpc_channel_impl.cc','rpc_channel.cc'],
[('address changes handled by the channel','dynamic_rpc_channel_impl.cc')],
[],['which server executed a call','call completion'],HOOK)

p('C15','Shutting a client down completes all calls and leaves nothing behind',
"""When a client is shut down or destroyed, at any moment and from any caller thread, every call still pending completes exactly once, the shutdown
returns, and after it has returned no callback of an earlier call runs any more. A call made after shutdown, or racing with it, completes with an error instead
of crashing or hanging.""",
['schedules','histories'],
"""All interleavings of shutdown with calls being issued, sent, answered, timed out or waiting for a connection.""",
"""A test can shut down an idle client, not at every instant of a call's life.""",
['rpc_client_impl.cc','rpc_client.cc','rpc_timeout_manager.h','thread_group_impl.h','rpc_client_stream.h','timer_worker.h'],
[('order of teardown','rpc_client_impl.cc')],
[],['callbacks','return of Shutdown'],HOOK)

p('C16','Stopping and restarting a server is safe at any moment',
"""Stopping a server, at any moment and with any traffic under way, returns, and after it has returned no handler is started and all connections
are closed; handlers that still hold a request may answer later without harm. A stopped server can be started again, also on the same port, and serves normally, and clients
reconnect to it by themselves.""",
['schedules','histories','fault_sequences'],
"""All interleavings of stop and start with accepts, requests, late responses, timers and listener recovery.""",
"""No existing test stops a server under load.""",
['rpc_server_impl.cc','rpc_server.cc','rpc_listener.h','rpc_server_stream.h','thread_group_impl.h','timer_worker.h'],
[('order of teardown','rpc_server_impl.cc')],
[],['return of Stop','handler starts','connections seen by peers'],HOOK)

p('C17','Timers of the timeout manager run as specified',
"""A one-shot timer runs exactly once with the timeout result, not before its interval has elapsed and within a small constant after it, or,
if it was removed or the manager cleared or destroyed before, exactly once with that result instead; removing tells truthfully
whether the timer was still pending. A repeating timer runs again and again, its n-th run never earlier than n intervals after it was added, and never concurrently with itself, until it is removed. No
interleaving of adding, removing, clearing, running and destroying loses a timer, runs it twice or touches freed memory.""",
['schedules','histories','inputs'],
"""All interleavings of operations from several threads and from inside callbacks with the timer thread, and all intervals.""",
"""The unit test runs a handful of intervals sequentially with a tolerance.""",
['timeout_manager_impl.cc','timeout_manager.cc','timeout_manager_impl.h'],
[('event table and timer thread','timeout_manager_impl.cc')],
[],['callback type and time','return value of erase'],HOOK)

p('C18','A thread group runs every accepted task exactly once',
"""Every task posted or dispatched to a live thread group runs exactly once on one of its threads, tasks run concurrently up to the number of threads, and a
group with one thread runs posted tasks in the order posted by each caller; post() never runs the task inside the call. Destroying the group waits for running tasks and leaves no thread
running; per-thread initialisation runs before the first task of a thread, and finalisation after its last.""",
['schedules','histories','fault_sequences'],
"""All interleavings of posting threads, worker threads and destruction, tasks that post tasks, and failures to create a thread.""",
"""The unit test posts a few tasks from one thread.""",
['thread_group_impl.h','thread_group.cc'],
[('work queue shared by the threads','thread_group_impl.h')],
[],['task executions','thread identities'],HOOK)

p('C19','Statistics and status report what happened',
"""For every method the success and failure counts reported by the built-in statistics, summed over a period without further calls, equal the numbers of calls that
succeeded and failed on the server in that period, however many ran concurrently. The reported number of connections equals the
number of live connections once the system is quiet, and pending message and buffer counters return to zero.""",
['schedules','histories'],
"""All concurrent completions of calls on any number of server threads.""",
"""The existing tests do not query statistics after concurrent calls.""",
['service_pool.h','builtin_service_impl.cc','rpc_server_impl.cc','rpc_server_stream.h'],
[('per-method counters in time slots','service_pool.h')],
[],['Stat, Status and Health of the built-in service','RpcServer::ConnectionCount'],HOOK)

p('C20','Nothing is leaked over connections, calls, failures and restarts',
"""Once clients, channels and servers have been shut down and destroyed, every socket and other descriptor they opened is closed, every
thread they started has ended and the memory they allocated is released, whatever calls and failures happened in between. While they are alive, the descriptors and buffers
of a closed connection are released within a bounded time.""",
['schedules','fault_sequences','histories'],
"""All histories of connects, calls, failures, timeouts, idle closes and restarts.""",
"""No existing test counts descriptors or memory, or makes connections fail.""",
['rpc_byte_stream.h','rpc_client_impl.cc','rpc_server_impl.cc','rpc_listener.h','tran_buf_pool.h','buffer.cc','io_service_pool.cc','rpc_controller_impl.h','closure.h'],
[('ownership by reference counts','rpc_byte_stream.h')],
[],['open descriptors, threads and allocations of the simulated process'],HOOK)

p('C21','Every HTTP request is answered exactly once and correctly',
"""Each well-formed HTTP request on a server port, GET or POST, to a method, a registered web page or an unknown path, gets exactly one well-formed response with the matching status and a body of exactly the
announced length, and responses come back with each connection's own data, for every fragmentation of the request and any number of
requests on one connection. A method called through HTTP runs once with the JSON arguments given, and registering and unregistering web pages at run time takes effect
for later requests without disturbing concurrent ones.""",
['inputs','schedules','fault_sequences'],
"""All fragmentations, header variations, pipelined and sequential requests, slow readers and concurrent registrations.""",
"""The unit test exercises the web service object without any connection.""",
['http_rpc_request_parser.cc','http_rpc_request.cc','web_service.cc','rpc_server_stream.h','rpc_server_impl.cc','pbjson.cc'],
[('HTTP parser','http_rpc_request_parser.cc'),('copy-on-write page table','web_service.cc')],
[],['bytes read by a raw HTTP client','handler invocations'],HOOK)

p('C22','Running out of memory or threads fails calls, not the process',
"""When a network buffer cannot be allocated or a thread cannot be created, the operation that needed it fails cleanly: affected calls complete with an error, affected connections are closed, starting reports failure,
and nothing crashes, hangs or is completed twice. When resources are available again, calls succeed again.""",
['fault_sequences','schedules'],
"""All placements of single and repeated failures of buffer allocation and thread creation.""",
"""The existing tests cannot make an allocation or thread creation fail.""",
['tran_buf_pool.h','buffer.cc','rpc_byte_stream.h','rpc_message_stream.h','rpc_server_message_stream.h','thread_group_impl.h','timer_worker.h','rpc_client_impl.cc','rpc_server_impl.cc','simple_rpc_channel_impl.cc'],
[('NULL checks after buffer allocation','buffer.cc'),('thread creation result checks','thread_group_impl.h')],
[],['call completion','return value of Start','process state'])

# ---- not decidable by this family (see not_applicable in MANIFEST.json)
p('C30','JSON and protobuf conversion is faithful',
"""Converting a message to JSON and back yields an equal message, and malformed JSON is rejected with an error and no partial result being used.""",
['inputs'],"""All messages and JSON texts.""","""The tests sample no conversions.""",
['pbjson.cc'],[('recursive conversion','pbjson.cc')])
p('C31','String, URL and address utilities are correct',
"""Splitting, trimming, URL decoding and address parsing produce the documented result for every input string.""",
['inputs'],"""All strings.""","""Tests sample a few strings.""",
['string_utils.cc','rpc_endpoint.cc'],[('string functions','string_utils.cc')])
p('C32','Closures call what they were bound to with the bound arguments',
"""A closure invokes exactly the bound function with the bound and passed arguments, and one-shot closures free themselves after one run while permanent ones do not.""",
['programs','inputs'],"""All arities and argument types.""","""Tests sample some arities.""",
['closure.h','ext_closure.h'],[('generated templates','closure_helper.h')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
