// C22: buffers cannot be allocated, threads cannot be created
#include "calls.h"
#include "raw.h"
namespace sc { void forget_calls(); }
using namespace sc;
namespace {
bool page(const sofa::pbrpc::HTTPRequest&, sofa::pbrpc::HTTPResponse& r) { for (int i = 0; i < 8; i++) if (!r.content->Append(gen(7, 4000, 9))) return false; return true; }
// One HTTP request: it is answered by a well-formed answer or the connection ends, it never just stays unanswered
void http_once(int node, ns_t limit) {
    int fd = raw_connect(node, 8000); if (fd < 0) return;
    std::string s, what; switch (W(5)) {
        case 0: s = "GET /page HTTP/1.1\r\n\r\n"; what = "a page"; break;
        case 1: s = "GET /nothing HTTP/1.1\r\n\r\n"; what = "an unknown path"; break;
        case 2: s = "GET /status HTTP/1.1\r\n\r\n"; what = "a built-in page"; break;
        case 3: case 4: { Call* c = raw_call(200, W(2) ? 500 : 40000); c->method = 0; c->mode = W(3) == 0 ? 2 : 0; c->req->set_mode(c->mode); std::string b = c->req->SerializeAsString(); s = "POST /simtest.EchoService.Echo HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; what = "call " + std::to_string(c->id); break; } }
    if (!raw_send(fd, s.data(), s.size())) { raw_close(fd); return; } probe("http");
    std::string in; char b[8192]; ns_t t = now(), st = stalled_total(); size_t need = 0;
    for (;;) {
        int r = raw_recv(fd, b, sizeof b, 100 * MS);
        if (r > 0) { in.append(b, r); t = now(); st = stalled_total(); }
        else if (r != -2) { probe("http_closed"); break; }
        size_t e = in.find("\r\n\r\n");
        if (e != std::string::npos && !need) { size_t p = in.find("Content-Length: "); if (p == std::string::npos || p > e) fail("bad-http", "no length in the answer to %s", what.c_str()); need = e + 4 + atol(in.c_str() + p + 16); }
        if (need && in.size() > need) fail("bad-http", "%zu bytes too many in the answer to %s", in.size() - need, what.c_str());
        if (need && in.size() == need) { if (what == "a page" && in.find(gen(7, 4000, 9)) != std::string::npos) { std::string all; for (int i = 0; i < 8; i++) all += gen(7, 4000, 9); if (in.substr(e + 4) != all) fail("bad-http", "an incomplete page was sent as if it was complete"); probe("page_ok"); } probe("http_answered"); break; }
        if (now() > t + limit + (stalled_total() - st)) fail("no-answer", "%.1f s ago the last byte came for %s, which is neither answered nor refused (%zu bytes)", (now() - t) / 1e9, what.c_str(), in.size());
    }
    raw_close(fd);
}
void oom_round(bool strict) {
    Mix m; m.clients = 2; m.servers = 2; m.callers = 4; m.per_caller = 12; if (W(2)) { m.call.max_size = m.call.max_resp = 100000; m.env.net = false; } else m.call.max_size = m.call.max_resp = W(2) ? 3000 : 20000; m.call.bad_pct = 0; m.call.slow_us = 50000;
    m.nem_crash = m.nem_partition = m.nem_pause = m.nem_skew = false; m.nem_reset = m.nem_stop = !strict; m.env.conn = !strict; m.env.stalls = W(2);
    if (strict) { m.call.tmo_lo = m.call.tmo_hi = 300000; m.call.default_tmo_pct = 0; }
    CallsBed b(m); if (W(2)) { b.sopt.read_buffer_base_block_factor = Wr(0, 9); b.sopt.write_buffer_base_block_factor = Wr(0, 9); }
    b.start(); for (int i = 0; i < b.m.servers; i++) { NodeScope ns(b.snode(i)); b.servers[i]->s->RegisterWebServlet("/page", sofa::pbrpc::NewPermanentExtClosure(page)); }
    // calls end soon after they were issued, not only by their timeout of some minutes
    if (strict) w->on_done = [&](Call* c) { if (c->code == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT) fail("call-hangs", "call %lu (%zu executions) was never answered and ended by its timeout of %ld s", (unsigned long)c->id, c->execs.size(), (long)c->timeout_ms / 1000); };
    if (W(2)) { sys.oom = W(2) ? Wr(10, 300) : Wr(300, 3000); probe("random_oom"); }
    bool stop = false; int kind = W(3);
    int adv = kind ? spawn(0, "memory", [&] { int n = Wr(1, 12); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(100 * US, 300 * MS)); int node = W(2) ? b.cnode(W(b.m.clients)) : b.snode(W(b.m.servers)); if (W(2)) { force_oom(node, Wlog(1, 30)); } else { force_oom(node, -1); sleep_ns(Wlog(100 * US, 500 * MS)); force_oom(node, 0); } } force_oom(1, 0); }) : -1;
    std::vector<int> v; int nv = Wr(0, 3); for (int i = 0; i < nv; i++) { int n = Wr(1, 6); v.push_back(spawn(5 + i, "http", [&, n] { for (int j = 0; j < n; j++) { http_once(b.snode(W(b.m.servers)), 30 * SEC); if (W(2)) sleep_ns(Wlog(1, 100 * MS)); } })); }
    b.wait_callers(); for (int f : v) join(f); stop = true; if (adv >= 0) join(adv); force_oom(1, 0);
    auto moved = [&] { uint64_t n = 0; for (int i = 0; i < b.m.servers; i++) n += bytes_rx(b.snode(i)); for (int i = 0; i < b.m.clients; i++) n += bytes_rx(b.cnode(i)); return n; };
    if (strict) for (;;) {
        uint64_t was = moved(); ns_t st = stalled_total(); if (wait_until([] { return all_done(); }, 60 * SEC)) break; if (moved() != was || stalled_total() != st) continue;
        for (auto& p : w->calls) if (p.second->started && !p.second->done) fail("call-hangs", "call %lu (%zu executions) is not complete %.1f s after it was issued, and nothing moves", (unsigned long)p.first, p.second->execs.size(), (now() - p.second->issued) / 1e9); }
    b.finish(3 * SEC); w->on_done = nullptr; b.heal(); b.finish(3 * SEC); b.expect_recovery(20 * SEC);
    { ns_t st = stalled_total(); auto sc_ = [&](int i) { int n = 0; for (int c = 0; c < 10; c++) n += established(c, b.snode(i), 8000); return n; }; auto cc = [&](int i) { int n = 0; for (int k = 0; k < b.m.servers; k++) n += established(b.cnode(i), b.snode(k), 8000); return n; };
      for (int i = 0; i < b.m.servers; i++) { Server* s = b.servers[i]; if (s->s && !wait_until([&] { return s->s->ConnectionCount() == sc_(i); }, 5 * SEC + (stalled_total() - st))) fail("wrong-count", "server %d has %d connections, ConnectionCount() is %d", i, sc_(i), s->s->ConnectionCount()); }
      for (int i = 0; i < b.m.clients; i++) if (!wait_until([&] { return b.clients[i]->ConnectionCount() == cc(i); }, 5 * SEC + (stalled_total() - st))) fail("wrong-count", "client %d has %d connections, ConnectionCount() is %d", i, cc(i), b.clients[i]->ConnectionCount()); }
    b.destroy(); check_calls(); for (Server* s : b.servers) delete s; b.servers.clear();
    if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not end");
}
}
SCENARIO(c22_oom, "buffers cannot be allocated at random moments, once or for a while, on clients and servers") {
    world_init(); bool strict = W(2); param("strict", strict); int rounds = W(3) ? 1 : 2; for (int i = 0; i < rounds; i++) {
        uint64_t seq = mem_stat().seq; oom_round(strict); forget_calls(); faults_off();
        if (i) { uint64_t by = 0, n = mem_live_since(seq, &by); if (n) { mem_dump_since(seq, 40); fail("memory-leak", "everything was destroyed, but %lu blocks (%lu bytes) are still allocated", (unsigned long)n, (unsigned long)by); } }
        w->allow_unknown = false; if (i + 1 < rounds) faults_on(); }
}
namespace {
void try_calls(RpcChannel* ch, bool must, ns_t within, const char* when) {
    int n = Wr(1, 5); std::vector<Call*> cs;
    for (int i = 0; i < n; i++) { CallCfg k; k.fail_pct = k.defer_pct = k.slow_pct = k.bad_pct = 0; k.tmo_lo = k.tmo_hi = 300000; k.default_tmo_pct = 0; Call* c = make_call(k); cs.push_back(c); bounded("CallMethod", within, [&] { issue(c, ch); }); }
    wait_until([&] { for (Call* c : cs) if (!c->done) return false; return true; }, within); 
    for (Call* c : cs) { if (!c->done) fail("call-hangs", "%s: call %lu (%s) is not complete %.1f s after it was issued", when, (unsigned long)c->id, c->async ? "async" : "sync", (now() - c->issued) / 1e9); if (must && !c->success) fail("no-recovery", "%s: call %lu ends with %s: %s", when, (unsigned long)c->id, code_name(c->code), c->text.c_str()); }
    probe("work");
}
}
SCENARIO(c22_threads, "a thread of a server or client cannot be created") {
    world_init(); random_latency(); if (W(2)) { sys.fiber_stall = Wr(20, 3000); sys.fiber_stall_max = Wlog(10 * US, 50 * MS); }
    RpcServerOptions so = small_server(); so.work_thread_num = Wr(1, 4); int st = 1 + so.work_thread_num * so.io_service_pool_size; RpcClientOptions co = small_client(); int ct = 2 + co.work_thread_num + co.callback_thread_num; bool multi = W(3) == 0;
    Server s(11, 8000, so); int tries = Wr(0, 3);
    for (int i = 0; i < tries; i++) {
        int nth = Wr(1, st); force_thread_fail(11, nth); bool ok = false; int f0 = open_fds(11); bounded("RpcServer::Start", 20 * SEC, [&] { ok = s.start(); }); force_thread_fail(11, 0);
        if (ok) fail("start", "Start() reports success although thread %d of %d could not be created", nth, st);
        if (!wait_until([] { return live_threads(11) == 0; }, 5 * SEC)) fail("leak", "%d threads still run after Start() failed", live_threads(11));
        if (listening(11, 8000)) fail("start", "the port listens after Start() failed"); (void)f0;
        if (open_fds(11)) fail("fd-leak", "%d descriptors open after Start() failed", open_fds(11)); probe("server_fail");
        if (W(3) == 0) { s.stop(); probe("stop_not_started"); }
    }
    if (!s.start()) fail("start", "Start() fails although every thread could be created (%d attempts before failed)", tries); if (live_threads(11) != st) fail("thread-num", "%d threads of the server run instead of %d", live_threads(11), st);
    NodeScope ns(1); int gens = Wr(1, 3);
    for (int g = 0; g < gens; g++) {
        bool bad = W(3) > 0; int nth = Wr(1, ct); if (bad) force_thread_fail(1, nth);
        RpcClient* cl = NULL; bounded("RpcClient()", 20 * SEC, [&] { cl = new RpcClient(co); }); force_thread_fail(1, 0);
        RpcChannel* ch = NULL; { std::vector<std::string> l(1, s.addr()); l.push_back(addr_of(12)); bounded("RpcChannel()", 20 * SEC, [&] { ch = multi ? new RpcChannel(cl, l, RpcChannelOptions()) : new RpcChannel(cl, s.addr(), RpcChannelOptions()); }); }
        if (bad) {
            probe("client_fail"); try_calls(ch, false, 20 * SEC, "a client whose threads could not be created");
            if (W(2)) cl->ResetOptions(co); if (cl->ConnectionCount()) fail("leak", "a client that does not run has %d connections", cl->ConnectionCount());
            if (W(2)) bounded("RpcClient::Shutdown", 20 * SEC, [&] { cl->Shutdown(); }); if (W(2)) try_calls(ch, false, 20 * SEC, "a client that did not start was shut down");
        } else if (!multi) { try_calls(ch, true, 20 * SEC, "all threads were created"); }
        bounded("destroying the client", 20 * SEC, [&] { delete ch; delete cl; });
        if (!wait_until([] { return live_threads(1) == 0 && open_fds(1) == 0; }, 10 * SEC)) fail("leak", "%d threads and %d descriptors left of a client that is destroyed", live_threads(1), open_fds(1));
    }
    { RpcClient cl(co); RpcChannel ch(&cl, s.addr(), RpcChannelOptions()); try_calls(&ch, true, 20 * SEC, "threads can be created again"); }
    if (W(2)) { s.stop(); force_thread_fail(11, Wr(1, st)); if (s.start()) fail("start", "Start() reports success although a thread could not be created"); force_thread_fail(11, 0); probe("restart_fail"); }
    s.destroy(); teardown_check({ 1, 11 });
}
