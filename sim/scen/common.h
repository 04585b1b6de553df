// Shared by all scenarios: servers, calls with their expected results, fault environments.
// Only the public interface of the library is used.
#pragma once
#include "core/sim.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <sofa/pbrpc/pbrpc.h>
#include "sim_test.pb.h"

namespace sc {
using namespace sim;
using sofa::pbrpc::RpcClient;
using sofa::pbrpc::RpcClientOptions;
using sofa::pbrpc::RpcServer;
using sofa::pbrpc::RpcServerOptions;
using sofa::pbrpc::RpcChannel;
using sofa::pbrpc::RpcChannelOptions;
using sofa::pbrpc::RpcController;
namespace gp = google::protobuf;

std::string gen(uint64_t id, size_t n, int salt);   // the payload that belongs to an id
uint64_t hash64(uint64_t x);

struct Exec { int node; ns_t at; uint64_t seq; };
struct Call {
    uint64_t id; ns_t issued, completed; uint64_t issue_seq, done_seq; int64_t timeout_ms;   // timeout in force
    bool async, started, success, request_sent; int done, code; std::string text, remote;
    int chan, method;             // 0 Echo 1 Work 2 Quick 3 Plain 4 Own 5 unknown service 6 unknown method
    uint32_t size, resp_size, delay_us, mode; std::string req_text;
    std::vector<Exec> execs; ns_t stalled_at_issue, returned_at; int caller_node;
    int req_comp, resp_comp; bool delete_early; bool expect_fail_ok, returned; int entered; bool any_result;
    simtest::Req* req; simtest::Resp* resp; RpcController* cntl;
    Call();
};
struct World {
    std::map<uint64_t, Call*> calls; uint64_t next_id; int executing; int max_executing; uint64_t total_execs; int deferred_pending;
    std::map<int, int> node_execs; uint64_t done_total, ok_total, fail_total; uint64_t forbidden_from, forbidden_to; bool allow_unknown; // unknown ids may reach handlers (hostile input)
    std::map<int, bool> stopped;       // node: no handler may start
    std::map<int, bool> no_defer;      // node: handlers answer at once
    std::function<void(Call*)> on_exec; std::function<void(Call*)> on_done;
    std::map<int, uint64_t> srv_ok, srv_fail; // what handlers reported, per method
    struct Fin { ns_t begin, end; int method; bool ok; }; std::vector<Fin> fins; // the same one by one
    World();
};
extern World* w;
void world_init();

// how calls of a scenario look
struct CallCfg {
    uint32_t max_size, max_resp; int compress; int fail_pct, defer_pct, slow_pct; uint32_t slow_us; int64_t tmo_lo, tmo_hi; int async_pct; int default_tmo_pct; int bad_pct;
    CallCfg();
};
std::string fail_reason(uint64_t id);    // what a refusing handler says
Call* make_call(const CallCfg& c);
void issue(Call* c, RpcChannel* ch);                // sync calls return when complete; async ones after CallMethod
bool all_done();
int pending_calls();
ns_t max_deadline();                                // latest issued+timeout over incomplete calls
// Waits for every call and checks the final guarantees: done once, in time, response correct, at most one execution.
void finish_calls(ns_t slack);
void check_calls();
void expect_all_ok();                               // for runs without faults: every call has exactly the result its handler gave
const char* code_name(int c);

gp::Service* new_echo_service();
gp::Service* new_short_service();

struct ServerEv : public RpcServer::EventHandler { int notified, last; ServerEv() : notified(0), last(0) {} virtual void NotifyAcceptFailed(sofa::pbrpc::RpcErrorCode c, const std::string&) { notified++; last = c; } };
struct Server {
    int node, port; RpcServer* s; ServerEv* evh; RpcServerOptions opt; bool started;
    Server(int node, int port = 8000, const RpcServerOptions& o = RpcServerOptions());
    bool start(); void stop(); void destroy();
    std::string addr() const;
    void crash(bool silent);               // frozen for ever
    bool restart_after_crash();            // new server object on the same node
};
RpcServerOptions small_server();                     // few threads
RpcClientOptions small_client();
std::string addr_of(int node, int port = 8000);

// fault environment of a run, chosen from the seed; stalls: thread stalls and pauses may be included
struct EnvCfg { bool stalls, net, conn, spurious; EnvCfg() : stalls(true), net(true), conn(true), spurious(true) {} };
void random_env(const EnvCfg& e);
void random_latency();
void teardown_check(std::vector<int> nodes);         // no threads, no descriptors left on the nodes
// closes clients/servers given; checks that shutdown returns in bounded time
void bounded(const char* what, ns_t limit, std::function<void()> fn);
struct Done : public gp::Closure { std::function<void()> fn; Done(std::function<void()> f) : fn(f) {} void Run() { std::function<void()> f; f.swap(fn); delete this; f(); } };
// a wire message
std::string frame(const std::string& meta, const std::string& data);
std::string frame_hdr(const char* magic, int32_t meta, int64_t data, int64_t total);
}
