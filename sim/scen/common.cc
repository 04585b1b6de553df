#include "common.h"
#include <stdarg.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/builtin_service.pb.h>
#include <sofa/pbrpc/pbjson.h>

namespace sc {
using sofa::pbrpc::LogLevel;
World* w;
uint64_t hash64(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
std::string gen(uint64_t id, size_t n, int salt) {
    std::string s(n, 0); uint64_t h = hash64(id * 31 + salt); int style = h % 3;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = style == 0 ? hash64(h + i) : style == 1 ? hash64(h + i / 512) : 0x4142434445464748ULL + (h & 7);
        size_t k = n - i < 8 ? n - i : 8; memcpy(&s[i], &v, k);
    }
    return s;
}
Call::Call() { memset((void*)this, 0, offsetof(Call, text)); chan = method = 0; size = resp_size = delay_us = mode = 0; req_comp = resp_comp = 0; stalled_at_issue = 0; returned_at = -1; caller_node = 0; delete_early = expect_fail_ok = returned = false; entered = 0; any_result = false; req = NULL; resp = NULL; cntl = NULL; }
World::World() : next_id(1), executing(0), max_executing(0), total_execs(0), deferred_pending(0), done_total(0), ok_total(0), fail_total(0), forbidden_from(0), forbidden_to(0), allow_unknown(false) {}
CallCfg::CallCfg() : max_size(4096), max_resp(4096), compress(30), fail_pct(10), defer_pct(20), slow_pct(10), slow_us(20000), tmo_lo(500), tmo_hi(5000), async_pct(50), default_tmo_pct(10), bad_pct(3) {}

static void log_to_trace(LogLevel level, const char* file, int line, const char* fmt, va_list ap) {
    char b[900]; vsnprintf(b, sizeof b, fmt, ap);
    const char* f = strrchr(file, '/'); f = f ? f + 1 : file;
    if (level == sofa::pbrpc::LOG_LEVEL_FATAL) sim::fail("check-failed", "internal check of the library failed: %s", b);
    note("LOG%d %s:%d %s", (int)level, f, line, b);
}
static void warm() {
    sofa::pbrpc::set_log_handler(log_to_trace);
    sofa::pbrpc::internal::set_log_level(sofa::pbrpc::LOG_LEVEL_ERROR);
    // force the lazy parts of protobuf that all runs share
    simtest::Req r; r.set_id(1); r.DebugString(); simtest::Resp p; p.set_id(1); p.DebugString();
    simtest::EchoService::descriptor()->DebugString(); simtest::ShortService::descriptor()->DebugString();
    sofa::pbrpc::RpcMeta m; m.set_type(sofa::pbrpc::RpcMeta::REQUEST); m.set_sequence_id(1); m.DebugString();
    sofa::pbrpc::builtin::BuiltinService::descriptor()->DebugString();
    for (int i = 0; i < sofa::pbrpc::builtin::BuiltinService::descriptor()->method_count(); i++) {
        gp::MessageFactory::generated_factory()->GetPrototype(sofa::pbrpc::builtin::BuiltinService::descriptor()->method(i)->input_type())->New()->ShortDebugString();
        gp::MessageFactory::generated_factory()->GetPrototype(sofa::pbrpc::builtin::BuiltinService::descriptor()->method(i)->output_type())->New()->ShortDebugString();
    }
    std::string js; sofa::pbrpc::pb2json(&r, js); std::string err; sofa::pbrpc::json2pb("{\"id\":1}", &r, err);
}
static struct WarmReg { WarmReg() { set_warmup(warm); } } warm_reg;

void world_init() { w = new World(); }
const char* code_name(int c) { return c == 0 ? "success" : sofa::pbrpc::RpcErrorCodeToString(c); }

// ------------------------------------------------------------------ service
static std::string printable(uint64_t id, size_t n) { std::string r = gen(id, n, 5); for (char& c : r) c = 32 + (unsigned char)c % 95; return r; }
std::string fail_reason(uint64_t id) { char b[64]; if (id % 11 == 6) return ""; snprintf(b, sizeof b, "handler refuses %lu", (unsigned long)id); std::string r = b; if (id % 7 == 3) r += " " + printable(id, 50 + id % 3000); if (id % 7 == 5) r += " \"\\/\n\t\x01 \xc3\xa4 {}[],:%s%d"; return r; }
static void answer(int node, const simtest::Req* rq, simtest::Resp* rp) {
    rp->set_id(rq->id()); rp->set_node(node); rp->set_text(rq->text()); rp->set_payload(gen(rq->id(), rq->resp_size(), 1));
    int64_t s = 0; for (int i = 0; i < rq->nums_size(); i++) s += rq->nums(i); rp->set_sum(s);
}
static void report(int method, bool ok, ns_t begin) { (ok ? w->srv_ok : w->srv_fail)[method]++; World::Fin f = { begin, now(), method, ok }; w->fins.push_back(f); }
static void run_handler(int method, gp::RpcController* cntl, const simtest::Req* rq, simtest::Resp* rp, gp::Closure* done) {
    int node = cur_node(); uint64_t id = rq->id(); ns_t begin = now();
    auto it = w->calls.find(id);
    if (w->forbidden_to && id >= w->forbidden_from && id < w->forbidden_to) fail("hostile-executed", "a handler runs for an invalid request");
    // (mutated input may carry the id of somebody else's request)
    if (it == w->calls.end() || (w->allow_unknown && rq->text() == "hostile")) {
        if (!w->allow_unknown) fail("wrong-request", "handler on node %d got a request with id %lu that nobody sent", node, (unsigned long)id);
        rp->set_id(id); done->Run(); return;
    }
    Call* c = it->second;
    note("handler id=%lu mode=%u", (unsigned long)id, c->mode);
    if (c->method != method) fail("wrong-request", "request %lu for method %d reached the handler of method %d", (unsigned long)id, c->method, method);
    if (rq->payload() != gen(id, c->size, 0) || rq->resp_size() != c->resp_size || rq->mode() != c->mode || rq->delay_us() != c->delay_us || rq->text() != c->req_text || rq->nums_size() != (int)(id % 5))
        fail("wrong-request", "handler got a changed request %lu (payload %zu bytes, sent %u)", (unsigned long)id, rq->payload().size(), c->size);
    for (int i = 0; i < rq->nums_size(); i++) if (rq->nums(i) != (int)(id * 3 + i)) fail("wrong-request", "handler got changed numbers in request %lu", (unsigned long)id);
    if (w->stopped[node]) fail("handler-after-stop", "a handler starts on node %d after Stop() returned (request %lu)", node, (unsigned long)id);
    Exec e = { node, now(), event_seq() }; c->execs.push_back(e);
    if (c->execs.size() > 1) fail("executed-twice", "request %lu executed %zu times (nodes %d and %d)", (unsigned long)id, c->execs.size(), c->execs[0].node, node);
    w->total_execs++; w->node_execs[node]++;
    if (w->on_exec) w->on_exec(c);
    w->executing++; if (w->executing > w->max_executing) w->max_executing = w->executing;
    if (c->mode == 3 && c->delay_us) { sleep_ns(c->delay_us * 1000LL); }
    w->executing--;
    if (c->mode == 2) { report(method, false, begin); cntl->SetFailed(fail_reason(id)); done->Run(); return; }
    if (c->mode == 1 && !w->no_defer[node]) {
        uint32_t us = c->delay_us; w->deferred_pending++;
        spawn(node, "defer", [=] { sleep_ns(us * 1000LL); answer(node, rq, rp); report(method, true, begin); done->Run(); w->deferred_pending--; });
        return;
    }
    answer(node, rq, rp); report(method, true, begin);
    done->Run();
}
class EchoImpl : public simtest::EchoService {
public:
    void Echo(gp::RpcController* c, const simtest::Req* q, simtest::Resp* p, gp::Closure* d) { run_handler(0, c, q, p, d); }
    void Work(gp::RpcController* c, const simtest::Req* q, simtest::Resp* p, gp::Closure* d) { run_handler(1, c, q, p, d); }
    void Quick(gp::RpcController* c, const simtest::Req* q, simtest::Resp* p, gp::Closure* d) { run_handler(2, c, q, p, d); }
};
class ShortImpl : public simtest::ShortService {
public:
    void Plain(gp::RpcController* c, const simtest::Req* q, simtest::Resp* p, gp::Closure* d) { run_handler(3, c, q, p, d); }
    void Own(gp::RpcController* c, const simtest::Req* q, simtest::Resp* p, gp::Closure* d) { run_handler(4, c, q, p, d); }
};
gp::Service* new_echo_service() { return new EchoImpl(); }
gp::Service* new_short_service() { return new ShortImpl(); }

// ------------------------------------------------------------------ calls
Call* make_call(const CallCfg& k) {
    Call* c = new Call(); c->id = w->next_id++; c->completed = -1;
    { static const char m[] = { 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4 }; c->method = m[W(12)]; }
    c->size = Wlog(0, k.max_size); c->resp_size = Wlog(0, k.max_resp);
    uint32_t r = W(100);
    c->mode = (int)r < k.fail_pct ? 2 : (int)r < k.fail_pct + k.defer_pct ? 1 : (int)r < k.fail_pct + k.defer_pct + k.slow_pct ? 3 : 0;
    c->delay_us = c->mode == 1 || c->mode == 3 ? Wlog(0, k.slow_us) : 0;
    c->async = (int)W(100) < k.async_pct;
    bool dflt = (int)W(100) < k.default_tmo_pct;
    if ((int)W(100) < k.bad_pct) c->method = 5;
    static const int dtmo[] = { 10000, 10000, 1500, 2500, 700, 10000 };   // options of the methods and services in sim_test.proto
    c->timeout_ms = dflt ? dtmo[c->method] : (int64_t)Wlog(k.tmo_lo, k.tmo_hi);
    if (W(4) == 0) c->req_text = "text-" + std::to_string(c->id);
    c->delete_early = W(2) == 0;
    c->cntl = new RpcController(); if (!dflt) c->cntl->SetTimeout(c->timeout_ms);
    if ((int)W(100) < k.compress) { c->req_comp = Wr(0, 4); c->cntl->SetRequestCompressType((sofa::pbrpc::CompressType)c->req_comp); }
    if ((int)W(100) < k.compress) { c->resp_comp = Wr(0, 4); c->cntl->SetResponseCompressType((sofa::pbrpc::CompressType)c->resp_comp); }
    c->req = new simtest::Req(); c->resp = new simtest::Resp();
    c->req->set_id(c->id); c->req->set_payload(gen(c->id, c->size, 0)); c->req->set_resp_size(c->resp_size); c->req->set_mode(c->mode); c->req->set_delay_us(c->delay_us);
    if (!c->req_text.empty()) c->req->set_text(c->req_text);
    for (int i = 0; i < (int)(c->id % 5); i++) c->req->add_nums(c->id * 3 + i);
    c->chan = -1; w->calls[c->id] = c;
    return c;
}
static void completed(Call* c) {
    if (c->entered++) fail("completed-twice", "call %lu completed %d times", (unsigned long)c->id, c->entered);
    c->completed = now(); c->done_seq = event_seq(); w->done_total++;
    c->success = !c->cntl->Failed(); c->code = c->cntl->ErrorCode(); c->text = c->cntl->ErrorText(); c->request_sent = c->cntl->IsRequestSent(); c->remote = c->cntl->RemoteAddress();
    note("call %lu done: %s %s sent=%d", (unsigned long)c->id, code_name(c->code), c->text.c_str(), c->request_sent);
    hash_mix(c->id * 4 + c->success);
    if (c->any_result) {}
    else if (c->success) {
        w->ok_total++;
        if (c->code != 0) fail("result", "call %lu reports success with error code %d", (unsigned long)c->id, c->code);
        simtest::Resp* p = c->resp;
        if (c->method == 5) fail("wrong-response", "call %lu to an unknown method succeeded", (unsigned long)c->id);
        if (c->execs.empty()) fail("success-without-execution", "call %lu succeeded but no handler ran for it", (unsigned long)c->id);
        if (c->mode == 2) fail("wrong-response", "call %lu succeeded although its handler failed it", (unsigned long)c->id);
        int64_t sum = 0; for (int i = 0; i < (int)(c->id % 5); i++) sum += c->id * 3 + i;
        if (p->id() != c->id) fail("wrong-response", "call %lu got the response of %lu", (unsigned long)c->id, (unsigned long)p->id());
        if ((int)p->node() != c->execs[0].node || p->sum() != sum || p->text() != c->req_text || p->payload() != gen(c->id, c->resp_size, 1))
            fail("wrong-response", "call %lu got a changed response (payload %zu bytes, expected %u)", (unsigned long)c->id, p->payload().size(), c->resp_size);
    } else {
        w->fail_total++;
        if (c->code == 0) fail("result", "call %lu failed without an error code", (unsigned long)c->id);
        if (c->code == sofa::pbrpc::RPC_ERROR_FROM_USER) {
            if (c->mode != 2 || c->execs.empty()) fail("wrong-response", "call %lu reports a handler failure that never happened: %s", (unsigned long)c->id, c->text.c_str());
            std::string fr = fail_reason(c->id); if (c->text != "RPC_ERROR_FROM_USER" + (fr.empty() ? "" : ": " + fr)) fail("wrong-response", "call %lu reports the reason \"%s\", the handler gave \"%s\"", (unsigned long)c->id, c->text.c_str(), fail_reason(c->id).c_str());
        }
        if ((c->code == sofa::pbrpc::RPC_ERROR_FOUND_SERVICE || c->code == sofa::pbrpc::RPC_ERROR_FOUND_METHOD) && c->method != 5)
            fail("wrong-response", "call %lu to an existing method fails with %s", (unsigned long)c->id, code_name(c->code));
    }
    if (w->on_done) w->on_done(c);
    if (c->delete_early) { delete c->req; delete c->resp; delete c->cntl; c->req = NULL; c->resp = NULL; c->cntl = NULL; }
    c->done = 1;   // nothing of the call is touched after this: the scenario may forget it
}
void issue(Call* c, RpcChannel* ch) {
    const gp::ServiceDescriptor* e = simtest::EchoService::descriptor(); const gp::ServiceDescriptor* s = simtest::ShortService::descriptor();
    const gp::MethodDescriptor* m = c->method <= 2 ? e->method(c->method) : c->method <= 4 ? s->method(c->method - 3) : simtest::GhostService::descriptor()->method(0);   // a service that no server has
    if (c->method == 5) c->expect_fail_ok = true;
    c->issued = now(); c->issue_seq = event_seq(); c->started = true; c->stalled_at_issue = stalled_total(); c->caller_node = cur_node();
    note("call %lu issued: method %d size %u resp %u mode %u timeout %ld comp %d/%d %s", (unsigned long)c->id, c->method, c->size, c->resp_size, c->mode, (long)c->timeout_ms, c->req_comp, c->resp_comp, c->async ? "async" : "sync");
    if (c->async) { { ApiScope api; ch->CallMethod(m, c->cntl, c->req, c->resp, new Done([c] { completed(c); })); } c->returned_at = now(); c->returned = true; }
    else { { ApiScope api; ch->CallMethod(m, c->cntl, c->req, c->resp, NULL); } completed(c); }
}
int pending_calls() { int n = 0; for (auto& p : w->calls) if (p.second->started && !p.second->done) n++; return n; }
bool all_done() { return pending_calls() == 0; }
ns_t max_deadline() { ns_t m = 0; for (auto& p : w->calls) if (p.second->started && !p.second->done) m = std::max(m, p.second->issued + p.second->timeout_ms * MS); return m; }
void check_calls() {
    for (auto& p : w->calls) {
        Call* c = p.second; if (!c->started) continue;
        if (c->execs.size() > 1) fail("executed-twice", "request %lu executed %zu times", (unsigned long)c->id, c->execs.size());
        int k = c->code;
        if (c->done && !c->success && !c->execs.empty() && (k == sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL || k == sofa::pbrpc::RPC_ERROR_RESOLVE_ADDRESS || k == sofa::pbrpc::RPC_ERROR_NOT_IN_RUNNING || k == sofa::pbrpc::RPC_ERROR_SERVER_UNAVAILABLE || k == sofa::pbrpc::RPC_ERROR_SERIALIZE_REQUEST))
            fail("executed-though-refused", "call %lu failed (%s) before anything was sent, but it was executed", (unsigned long)c->id, code_name(k));
    }
}
void finish_calls(ns_t slack) {
    while (!all_done()) {
        ns_t until = std::max(max_deadline() + slack + stalled_total(), now());
        if (!wait_until([] { return all_done(); }, until - now() + 1, 5 * MS)) {
            if (now() < max_deadline() + slack + stalled_total()) continue;
            for (auto& p : w->calls) { Call* c = p.second; if (c->started && !c->done) fail("call-hangs", "call %lu (timeout %ld ms, %s, %zu executions) is not complete %.3f s after it was issued", (unsigned long)c->id, (long)c->timeout_ms, c->async ? "async" : "sync", c->execs.size(), (now() - c->issued) / 1e9); }
        }
    }
    for (auto& p : w->calls) {
        Call* c = p.second; if (!c->started) continue;
        ns_t lim = c->issued + c->timeout_ms * MS + slack + (stalled_total() - c->stalled_at_issue);
        if (c->completed > lim) fail("call-late", "call %lu (timeout %ld ms) completed after %.3f s: %s", (unsigned long)c->id, (long)c->timeout_ms, (c->completed - c->issued) / 1e9, code_name(c->code));
        if (c->code == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT && !c->success && c->completed < c->issued + c->timeout_ms * MS)
            fail("timeout-early", "call %lu (timeout %ld ms) reported as timed out after %.3f s: %s", (unsigned long)c->id, (long)c->timeout_ms, (c->completed - c->issued) / 1e9, c->text.c_str());
    }
    check_calls();
}
void expect_all_ok() {
    for (auto& p : w->calls) {
        Call* c = p.second; if (!c->started) continue; int want = c->method == 5 ? (int)sofa::pbrpc::RPC_ERROR_FOUND_METHOD : c->mode == 2 ? (int)sofa::pbrpc::RPC_ERROR_FROM_USER : 0;
        if (c->code != want && !(c->method == 5 && c->code == sofa::pbrpc::RPC_ERROR_FOUND_SERVICE)) fail("spurious-failure", "nothing was wrong, but call %lu (method %d, %u bytes, timeout %ld ms) ended with %s: %s", (unsigned long)c->id, c->method, c->size, (long)c->timeout_ms, code_name(c->code), c->text.c_str());
        if (c->method != 5 && c->execs.size() != 1) fail("not-executed", "call %lu ended with %s and was executed %zu times", (unsigned long)c->id, code_name(c->code), c->execs.size());
    }
}

// ------------------------------------------------------------------ servers, environment
RpcServerOptions small_server() { RpcServerOptions o; o.work_thread_num = Wr(1, 4); o.io_service_pool_size = W(4) == 0 ? 2 : 1; o.max_pending_buffer_size = 100; return o; }
RpcClientOptions small_client() { RpcClientOptions o; o.work_thread_num = Wr(1, 3); o.callback_thread_num = Wr(1, 3); return o; }
std::string addr_of(int node, int port) { return node_ip(node) + ":" + std::to_string(port); }
Server::Server(int n, int p, const RpcServerOptions& o) : node(n), port(p), s(NULL), evh(new ServerEv()), opt(o), started(false) {
    NodeScope ns(node); s = new RpcServer(opt, evh); s->RegisterService(new_echo_service()); s->RegisterService(new_short_service());
}
std::string Server::addr() const { return addr_of(node, port); }
bool Server::start() { NodeScope ns(node); w->stopped[node] = false; started = s->Start(W(2) ? "0.0.0.0:" + std::to_string(port) : addr()); if (!started) w->stopped[node] = true; return started; }
void Server::stop() { NodeScope ns(node); bounded("RpcServer::Stop", 60 * SEC, [this] { s->Stop(); }); started = false; w->stopped[node] = true; }
void Server::destroy() {
    if (!s) return; NodeScope ns(node);
    // a request must not be held longer than its server lives: from here on handlers answer at once, and those that hold one finish first
    w->no_defer[node] = true; wait_until([] { return w->deferred_pending == 0; }, 100 * SEC);
    bounded("~RpcServer", 60 * SEC, [this] { delete s; }); s = NULL; started = false; w->no_defer[node] = false;
}
void Server::crash(bool silent) { node_crash(node, silent); s = NULL; started = false; }
bool Server::restart_after_crash() { node_up(node); count_fault(F_NODE_RESTART); NodeScope ns(node); s = new RpcServer(opt, evh); s->RegisterService(new_echo_service()); s->RegisterService(new_short_service()); return start(); }

void random_latency() {
    switch (W(4)) {
    case 0: break;
    case 1: net.lat_min = 10 * US; net.lat_max = 20 * US; break;
    case 2: net.lat_min = 100 * US; net.lat_max = 5 * MS; break;
    case 3: net.lat_min = 1 * MS; net.lat_max = 60 * MS; break;
    }
}
void random_env(const EnvCfg& e) {
    random_latency();
    if (e.net) {
        if (W(3) == 0) net.short_read = Wr(20, 600);
        if (W(3) == 0) net.short_write = Wr(20, 600);
        if (W(3) == 0) net.segment = Wr(20, 600);
        if (W(4) == 0) net.eagain = Wr(10, 200);
        if (W(4) == 0) { net.stall = Wr(5, 60); net.stall_max = Wr(2, 400) * MS; }
        if (W(4) == 0) { net.sndbuf_min = 256; net.sndbuf_max = 16384; }
    }
    if (e.conn) {
        if (W(4) == 0) net.rst = Wr(5, 60);
        if (W(6) == 0) net.refuse = Wr(50, 400);
        if (W(6) == 0) net.blackhole = Wr(50, 300);
        if (W(6) == 0) net.accept_abort = Wr(50, 300);
    }
    if (e.stalls && W(3) == 0) { sys.fiber_stall = Wr(20, 3000); sys.fiber_stall_max = Wlog(100 * US, 300 * MS); }
    if (e.spurious) { if (W(4) == 0) sys.spurious_wake = Wr(10, 2000); if (W(5) == 0) sys.eintr = Wr(10, 2000); }
    param("short_read_permille", net.short_read); param("short_write_permille", net.short_write); param("segment_permille", net.segment); param("rst_permille", net.rst); param("thread_stall_ppm", sys.fiber_stall);
}
void teardown_check(std::vector<int> nodes) {
    for (int n : nodes) {
        if (!wait_until([n] { return live_threads(n) == 0 && open_fds(n) == 0; }, 10 * SEC, 10 * MS)) {
            if (live_threads(n)) fail("leak", "%d threads still run on node %d after everything was destroyed", live_threads(n), n);
            fail("leak", "%d descriptors still open on node %d after everything was destroyed", open_fds(n), n);
        }
    }
}
void bounded(const char* what, ns_t limit, std::function<void()> fn) {
    int node = cur_node(); ns_t t0 = now();
    std::string name = what;
    int f = spawn(node, "api", [fn] { ApiScope api; fn(); });
    ns_t end = t0 + limit;
    while (!fiber_done(f)) { if (now() > end + stalled_total()) fail("api-hangs", "%s has not returned after %.1f s", what, (now() - t0) / 1e9); sleep_ns(1 * MS); }
    join(f);
}
std::string frame_hdr(const char* magic, int32_t meta, int64_t data, int64_t total) {
    std::string s(24, 0); memcpy(&s[0], magic, 4); memcpy(&s[4], &meta, 4); memcpy(&s[8], &data, 8); memcpy(&s[16], &total, 8); return s;
}
std::string frame(const std::string& meta, const std::string& data) { return frame_hdr("SOFA", meta.size(), data.size(), meta.size() + data.size()) + meta + data; }
}
