// Deterministic simulator: public interface used by the scenarios.
// All threads of all simulated nodes are fibers on one OS thread; see DESIGN.md.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

typedef int64_t ns_t;
static const ns_t US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---------------------------------------------------------------- choices
// Every random decision is a pure function of (seed, stream, index in stream),
// or, in replay, looked up in the list of non-default (non-zero) choices.
enum StreamKind {
    ST_SCHED = 1,   // per fiber: switch at a scheduling point
    ST_NEXT = 2,    // per fiber: whom to run when this one blocks
    ST_MEM = 3,     // per fiber: gap to next preemption at a plain memory access
    ST_NET = 4,     // per connection direction
    ST_FAULT = 5,   // per fault site
    ST_WORK = 6,    // per workload stream
    ST_POLICY = 7,
    ST_WAKE = 8,
};
uint32_t choice(uint32_t kind, uint32_t id, uint32_t n);              // uniform 0..n-1, 0 is the default
bool chance(uint32_t kind, uint32_t id, uint32_t num, uint32_t den);  // default false
// log-ish distributed value in [lo,hi]; default lo
uint64_t choice_log(uint32_t kind, uint32_t id, uint64_t lo, uint64_t hi);
// workload choices (stream chosen by the calling fiber)
uint32_t W(uint32_t n);
bool Wp(uint32_t num, uint32_t den);
uint64_t Wlog(uint64_t lo, uint64_t hi);
inline uint32_t Wr(uint32_t lo, uint32_t hi) { return lo + W(hi - lo + 1); }

// ---------------------------------------------------------------- time, fibers
ns_t now();                       // simulated monotonic time since start of the run
void sleep_ns(ns_t d);            // blocks the calling fiber
uint64_t event_seq();             // global event sequence number
int spawn(int node, const char* name, std::function<void()> fn);   // returns fiber id
void join(int fid);
bool fiber_done(int fid);
bool wait_until(const std::function<bool()>& pred, ns_t timeout, ns_t step = MS);  // false on timeout
int cur_fiber();
int cur_node();
void set_node(int node);          // node of the calling fiber (children inherit)
// while it lives, this thread is a caller inside the library: it can be stalled like the library's own threads
void api_scope(int d);
struct ApiScope { ApiScope() { api_scope(1); } ~ApiScope() { api_scope(-1); } };
struct NodeScope { int old; NodeScope(int n) : old(cur_node()) { set_node(n); } ~NodeScope() { set_node(old); } };

// ---------------------------------------------------------------- nodes
// node i has the address 10.0.0.i (i in 1..200)
std::string node_ip(int node);
void node_crash(int node, bool silent);   // fibers frozen for ever; sockets reset (silent: vanish)
void node_up(int node);                   // the address answers again (new fibers may be spawned)
void node_pause(int node, ns_t d);        // all fibers of the node stalled
int live_threads(int node);               // pthreads (not harness fibers) alive on node
int open_fds(int node);
int peak_fds(int node);                              // the most there ever were at one time
int established(int node_a, int node_b, int port_b);  // connections a->b:port with both ends open
// conns from a to b:port whose client end is open and established
int client_conns(int node_a, int node_b, int port_b);
int max_client_conns(int node_a, int node_b, int port_b);   // high-water mark
int total_connects(int node_a, int node_b, int port_b);     // established since start
int conn_ends(int node_a, int node_b, int port_b, ns_t* times, int most);   // when the client end of a connection was closed or told of its end, or a connect failed
bool listening(int node, int port);
uint64_t bytes_tx(int node);     // bytes accepted by send() on that node
uint64_t bytes_rx(int node);     // bytes returned by recv()
ns_t last_rx(int node);          // when recv() was last called, whatever it returned

// ---------------------------------------------------------------- faults
enum FaultKind {
    F_SHORT_READ, F_SHORT_WRITE, F_SEGMENT, F_DELAY, F_STALL, F_RST, F_CONN_REFUSED, F_CONN_BLACKHOLE,
    F_CONN_RESET_EARLY, F_ACCEPT_EMFILE, F_ACCEPT_ABORT, F_SOCKET_EMFILE, F_BIND_FAIL, F_LISTEN_FAIL, F_EAGAIN,
    F_SMALL_SNDBUF, F_PARTITION, F_NODE_CRASH, F_NODE_PAUSE, F_FIBER_STALL, F_OOM, F_THREAD_FAIL, F_SPURIOUS_WAKE,
    F_DNS_FAIL, F_CLOCK_JUMP, F_CLOCK_SKEW, F_EINTR, F_SETSOCKOPT_FAIL, F_PEER_CLOSE, F_HOSTILE_BYTES, F_SLOW_HANDLER, F_NODE_RESTART,
    F_EPOLL_SPURIOUS, F_LINK_RESET,
    F_KINDS
};
extern const char* const kFaultNames[F_KINDS];
struct NetCfg {            // per-mille rates unless noted
    int short_read, short_write, segment, stall, rst, refuse, blackhole, accept_abort, accept_emfile, socket_emfile;
    int eagain;
    ns_t lat_min, lat_max; // base latency range (per connection), jitter up to the same again
    ns_t stall_max;
    uint32_t sndbuf_min, sndbuf_max;
};
extern NetCfg net;               // used for all nodes
struct SysCfg { int fiber_stall; ns_t fiber_stall_max; int spurious_wake; int oom; int thread_fail; int eintr; };
extern SysCfg sys;
void faults_off();               // heal everything, stop injecting
void faults_on();                // injecting may be configured again
void count_fault(int kind);
uint64_t fault_count(int kind);
void partition(int a, int b, bool on);   // bytes and connects between a and b held while on
void reset_conns(int a, int b);          // RST on all connections between a and b (-1: any)
void force_accept_fail(int node, int err, int count); // next <count> accepts on node fail (-1: until cleared)
void force_bind_fail(int node, int err, int count);
void force_listen_fail(int node, int err, int count);
void force_thread_fail(int node, int nth);            // the nth next pthread_create on node fails (1-based, 0: off)
void force_oom(int node, int count);                  // next <count> buffer mallocs on node fail (-1: until cleared)
void force_socket_fail(int node, int err, int count);
void dns_add(const std::string& name, int node);
void dns_fail(const std::string& name, bool on);
void set_sndbuf(int node, uint32_t bytes);            // capacity of connections subsequently made to/from node (0: default)
void wall_clock_jump(ns_t d);
void clock_skew(int node, ns_t d);                    // constant offset of the node's wall clock
ns_t stalled_total();                                 // sum of all thread stalls, node pauses and link stalls injected so far
void dense(int gap);                                  // threads started from now on are preempted about every <gap> memory accesses (unless the run has no preemption)

// raw byte-stream access for scripted peers (blocking, called from harness fibers)
int raw_connect(int to_node, int port, ns_t timeout = 5 * SEC);   // from current node; -1 on failure
int raw_listen(int port);
int raw_accept(int lfd, ns_t timeout);
// >0 bytes, 0 EOF, -1 error/reset, -2 timeout
int raw_recv(int fd, void* buf, size_t n, ns_t timeout);
bool raw_send(int fd, const void* buf, size_t n, ns_t timeout = 60 * SEC);  // all or false
void raw_close(int fd);
void raw_reset(int fd);          // close with RST
void raw_shutdown_wr(int fd);
int raw_unread(int fd);

// ---------------------------------------------------------------- verdict, coverage
// Ends the run with a violation.
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::fail(cls, __VA_ARGS__); } while (0)
void probe(const char* name);                // rare-condition counters
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line; never affects the schedule
void hash_mix(uint64_t v);                   // adds to the event-log hash
void param(const char* name, int64_t v);     // run parameter for reports

// memory accounting (application arena)
struct MemStat { uint64_t live_blocks, live_bytes; uint64_t seq; };
MemStat mem_stat();
void mem_dump_since(uint64_t seq, int max);  // note()s the live blocks allocated after seq
uint64_t mem_live_since(uint64_t seq, uint64_t* bytes, size_t least = 0);  // blocks of at least <least> bytes

// scenario registry
struct Scenario { const char* name; void (*fn)(); const char* what; };
void register_scenario(const Scenario& s);
struct Reg { Reg(const char* n, void (*f)(), const char* w) { Scenario s = { n, f, w }; register_scenario(s); } };
#define SCENARIO(name, what) static void scen_##name(); static sim::Reg reg_##name(#name, scen_##name, what); static void scen_##name()
void set_warmup(void (*fn)());   // run before forking (no simulation)
} // namespace sim
