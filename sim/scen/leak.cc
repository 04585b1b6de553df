// C20: nothing is leaked: descriptors, threads, memory
#include "raw.h"
#include <sofa/pbrpc/builtin_service.pb.h>
namespace sc { void hostile_visit(int node, std::vector<int>* left_open); void hostile_world(); }
using namespace sc;
namespace sc { void forget_calls() { for (auto& p : w->calls) { Call* c = p.second; delete c->req; delete c->resp; delete c->cntl; delete c; } uint64_t n = w->next_id; *w = World(); hostile_world(); w->next_id = n; } }
namespace {
CallCfg cfg() { CallCfg k; k.max_size = k.max_resp = W(3) == 0 ? 60000 : 3000; k.tmo_lo = 50; k.tmo_hi = 2000; k.default_tmo_pct = 0; k.slow_us = 200000; return k; }
bool on_page(const sofa::pbrpc::HTTPRequest&, sofa::pbrpc::HTTPResponse& r) { r.content->Append("page"); return true; }
void http_visit(int node) {
    int fd = raw_connect(node, 8000); if (fd < 0) return; int n = Wr(1, 4); char b[8192];
    for (int i = 0; i < n; i++) {
        std::string s; uint64_t id = 0x7000000 + W(1000); (void)id;
        switch (W(5)) { case 0: s = "GET /status HTTP/1.1\r\n\r\n"; break; case 1: s = "GET /nothing HTTP/1.1\r\n\r\n"; break; case 2: s = "GET /page HTTP/1.1\r\n\r\n"; break;
            case 3: s = "GET /simtest.EchoService.Echo?request=%7B%22id%22%3A" + std::to_string((0x4A563CULL << 32) + W(1000)) + "%7D HTTP/1.1\r\n\r\n"; break;
            case 4: { std::string j = "{\"id\":" + std::to_string((0x4A563CULL << 32) + W(1000)) + ",\"text\":\"x\"}"; s = "POST /simtest.EchoService.Work HTTP/1.1\r\nContent-Length: " + std::to_string(j.size()) + "\r\n\r\n" + j; break; } }
        size_t cut = W(3) ? s.size() : W(s.size()); if (!raw_send(fd, s.data(), cut)) break; if (cut < s.size()) break; probe("http");
        if (W(4)) { ns_t end = now() + Wlog(1, 300 * MS); while (now() < end) { int r = raw_recv(fd, b, sizeof b, std::max<ns_t>(1, end - now())); if (r != -2) break; } }
    }
    if (W(3)) raw_close(fd); else raw_reset(fd);
}
// a server that accepts and then does not read, or closes
struct Deaf { int node, fib; bool stop; std::vector<int> fds; Deaf(int n) : node(n), fib(-1), stop(false) {}
    void start() { fib = spawn(node, "deaf", [this] { int l = raw_listen(8000); while (!stop) { int fd = raw_accept(l, 50 * MS); if (fd >= 0) { if (W(3) == 0) { char b[500]; raw_recv(fd, b, sizeof b, 100 * MS); if (W(2)) raw_reset(fd); else raw_close(fd); } else fds.push_back(fd); } } raw_close(l); for (int f : fds) raw_close(f); fds.clear(); }); }
    void end() { stop = true; join(fib); } };
struct Round {
    std::vector<Server*> sv; std::vector<RpcClient*> cl; std::vector<RpcChannel*> ch; int S, C;
    void server(int i) {
        Server* s = new Server(11 + i, 8000, small_opts()); sv.push_back(s); NodeScope ns(11 + i);
        if (W(3) == 0) { gp::Service* dup = new_echo_service(); if (s->s->RegisterService(dup)) fail("start", "a service was registered twice"); delete dup; }
        if (W(4) == 0) { int k = W(3); if (k == 0) force_bind_fail(11 + i, EADDRINUSE, 1); if (k == 1) force_socket_fail(11 + i, EMFILE, 1); if (k == 2) force_listen_fail(11 + i, EADDRINUSE, 1); bool ok = s->start(); force_bind_fail(11 + i, 0, 0); force_socket_fail(11 + i, 0, 0); force_listen_fail(11 + i, 0, 0); if (ok && k != 1) fail("start", "Start() reports success although it failed"); if (!ok) probe("failed_start"); }
        if (!s->started && !s->start()) fail("start", "Start() failed");
        if (W(2)) { s->s->RegisterWebServlet("/page", sofa::pbrpc::NewPermanentExtClosure(on_page)); if (W(2)) s->s->RegisterWebServlet("/page2", sofa::pbrpc::NewPermanentExtClosure(on_page)); if (W(3) == 0) delete s->s->UnregisterWebServlet("/page"); }
    }
    RpcServerOptions small_opts() { RpcServerOptions o = small_server(); if (W(3) == 0) o.keep_alive_time = 1; if (W(4) == 0) o.max_connection_count = Wr(1, 3); if (W(4) == 0) o.max_throughput_in = Wr(1, 20); if (W(4) == 0) o.max_throughput_out = Wr(1, 20); if (W(4) == 0) o.max_pending_buffer_size = 0; if (W(3) == 0) { o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); } return o; }
    void client(int i) {
        NodeScope ns(1 + i); RpcClientOptions o = small_client(); if (W(3) == 0) o.keep_alive_time = 1; if (W(3) == 0) o.connect_timeout = Wlog(1, 500); if (W(4) == 0) o.max_pending_buffer_size = 0; RpcClient* c = new RpcClient(o); cl.push_back(c); int n = Wr(1, 3);
        for (int k = 0; k < n; k++) { RpcChannelOptions co; if (W(2)) co.create_with_init = false; std::string a; switch (W(6)) { case 0: case 1: case 2: a = addr_of(11 + W(S)); break; case 3: a = addr_of(14); break; case 4: a = W(2) ? "nowhere:8000" : addr_of(15); break;
            case 5: { std::vector<std::string> l; for (int j = 0; j < S; j++) l.push_back(addr_of(11 + j)); l.push_back(W(2) ? addr_of(14) : "nowhere:8000"); RpcChannel* x = new RpcChannel(c, l, co); if (W(2)) x->Init(); ch.push_back(x); owner.push_back(i); probe("multi"); continue; } }
            RpcChannel* x = new RpcChannel(c, a, co); if (W(2)) x->Init(); ch.push_back(x); owner.push_back(i); }
    }
    std::vector<int> owner;
};
void one_round(bool quiet_env) {
    Round r; r.S = Wr(1, 2); r.C = Wr(1, 2); Deaf deaf(14); deaf.start(); if (!quiet_env) { EnvCfg e; random_env(e); } else random_latency();
    for (int i = 0; i < r.S; i++) r.server(i); for (int i = 0; i < r.C; i++) r.client(i);
    std::vector<int> fs, open; bool stop = false;
    for (size_t i = 0; i < r.ch.size(); i++) { int node = 1 + r.owner[i], n = Wr(1, 8); fs.push_back(spawn(node, "caller", [&, i, n] { for (int j = 0; j < n; j++) { CallCfg k = cfg(); issue(make_call(k), r.ch[i]); probe("work"); if (W(2)) sleep_ns(Wlog(1, 100 * MS)); } })); }
    int vis = Wr(0, 3); for (int v = 0; v < vis; v++) { int n = Wr(1, 4); fs.push_back(spawn(5 + v, "visitor", [&, n] { for (int j = 0; j < n; j++) { int s = 11 + W(r.S); if (W(2)) http_visit(s); else { hostile_visit(s, &open); probe("hostile"); } } })); }
    int nem = spawn(0, "nemesis", [&] { int n = Wr(0, 4); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(MS, SEC)); if (stop) break; int s = W(r.S); switch (W(3)) { case 0: reset_conns(W(2) ? 1 + (int)W(r.C) : -1, W(2) ? 11 + s : -1); break; case 1: r.sv[s]->stop(); sleep_ns(Wlog(1, 500 * MS)); r.sv[s]->start(); probe("restart"); break; case 2: int c = 1 + W(r.C); partition(c, 11 + s, true); sleep_ns(Wlog(MS, SEC)); partition(c, 11 + s, false); break; } } });
    bool early = W(3) == 0;    // everything is taken down while calls and connections are in progress
    if (early) { stop = true; join(nem); sleep_ns(Wlog(1, SEC)); for (int i = 0; i < r.C; i++) { NodeScope ns(1 + i); bounded("RpcClient::Shutdown", 60 * SEC, [&] { r.cl[i]->Shutdown(); }); } if (W(2)) for (Server* s : r.sv) s->stop(); probe("early"); }
    for (int f : fs) join(f); stop = true; join(nem); faults_off(); finish_calls(3 * SEC); if (W(2)) sleep_ns(Wlog(MS, 3 * SEC));
    for (int i = 0; i < r.C; i++) { NodeScope ns(1 + i); bounded("destroying channels and client", 60 * SEC, [&] { bool first = W(2); if (first) { delete r.cl[i]; } for (size_t k = 0; k < r.ch.size(); k++) if (r.owner[k] == i) delete r.ch[k]; if (!first) delete r.cl[i]; }); }
    for (Server* s : r.sv) { if (W(2) && s->started) s->stop(); s->destroy(); delete s; }
    deaf.end(); for (int f : open) raw_close(f); if (!wait_until([] { return w->deferred_pending == 0; }, 100 * SEC)) fail("handlers-hang", "handlers do not end");
    std::vector<int> nodes; for (int i = 0; i < 16; i++) nodes.push_back(i); teardown_check(nodes);
}
void strict(uint64_t seq, const char* what) {
    uint64_t b = 0, n = mem_live_since(seq, &b); if (n) { mem_dump_since(seq, 40); fail("memory-leak", "%s: %lu blocks of memory (%lu bytes) that were allocated in between are still allocated", what, (unsigned long)n, (unsigned long)b); }
}
}
SCENARIO(c20_destroy, "servers, clients and channels are created, used, disturbed and destroyed; nothing stays behind") {
    world_init(); hostile_world(); int rounds = Wr(1, 2); { one_round(true); forget_calls(); }
    for (int i = 0; i < rounds; i++) { uint64_t seq = mem_stat().seq; one_round(W(3) == 0); forget_calls(); strict(seq, "everything was destroyed"); }
}
namespace {
// descriptors of a node that belong to nothing but the objects themselves
void idle_again(int node, int fds, int threads, const char* who, ns_t most) {
    ns_t st0 = stalled_total(); ns_t end = now() + most; while (open_fds(node) != fds) { if (now() > end + (stalled_total() - st0)) fail("fd-leak", "all connections of the %s ended %.1f s ago, but it has %d descriptors open, %d before the first connection", who, most / 1e9, open_fds(node), fds); sleep_ns(10 * MS); }
    if (live_threads(node) != threads) fail("thread-leak", "the %s has %d threads, %d before the first connection", who, live_threads(node), threads);
}
// a stream leaves the list just after its descriptor was closed
bool none_left(const std::function<int()>& count) { ns_t st0 = stalled_total(); return wait_until([&] { return count() == 0; }, 3 * SEC, 10 * MS) || wait_until([&] { return count() == 0; }, stalled_total() - st0 + 1, 10 * MS); }
// memory that a long-lived object keeps while nothing goes on: caches of asio (small blocks, some for every thread and connection), nothing big
// (the reactor of asio keeps one 168-byte block for each descriptor it ever had at one time)
struct Growth {
    uint64_t seq0, base, base_big; int n, slack, node; Growth(int nd) : seq0(mem_stat().seq), base(0), base_big(0), n(0), slack(0), node(nd) {}
    void sample(int cycle, uint64_t big_ok) {
        uint64_t by = 0, k = mem_live_since(seq0, &by), big = mem_live_since(seq0, NULL, 300); note("live: %lu blocks %lu bytes, %lu big", (unsigned long)k, (unsigned long)by, (unsigned long)big);
        if (big > big_ok) { mem_dump_since(seq0, 60); fail("memory-grows", "%d times connections came and went; now, when there are none, %lu blocks of at least 300 bytes are kept", cycle + 1, (unsigned long)big); }
        if (k == 0 || cycle == 0) return; if (!base) base = k; if (k > base + slack + peak_fds(node)) { mem_dump_since(seq0, 60); fail("memory-grows", "%lu blocks of memory were kept when connections had come and gone a few times, %lu after %d times", (unsigned long)base, (unsigned long)k, cycle + 1); }
    }
};
}
SCENARIO(c20_server, "a long-lived server; connections of all kinds come and go; descriptors and memory return to the same level") {
    world_init(); hostile_world(); RpcServerOptions o = small_server(); if (W(3) == 0) o.max_connection_count = Wr(1, 3); if (W(3) == 0) o.max_throughput_in = Wr(2, 20); if (W(3) == 0) o.max_throughput_out = Wr(2, 20); if (W(4) == 0) o.max_pending_buffer_size = 0; if (W(3) == 0) { o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); }
    Server s(11, 8000, o); s.start(); { NodeScope ns(11); s.s->RegisterWebServlet("/page", sofa::pbrpc::NewPermanentExtClosure(on_page)); } sleep_ns(50 * MS); int fds = open_fds(11), threads = live_threads(11); Growth g(11); g.slack = 8 + 2 * threads; int cycles = Wr(4, 10); int np = Wr(1, 5);
    EnvCfg e; e.conn = W(2); e.stalls = W(2); random_env(e);
    for (int c = 0; c < cycles; c++) {
        { std::vector<int> fs, open; 
        for (int p = 0; p < np; p++) { int n = Wr(1, 4); fs.push_back(spawn(1 + p, "visitor", [&] { for (int i = 0; i < n; i++) switch (W(5)) {
            case 0: http_visit(11); break;
            case 1: hostile_visit(11, &open); break;
            case 2: { Peer q; if (!q.connect(11)) break; int k = Wr(0, 5); for (int j = 0; j < k && !q.closed; j++) { Call* x = raw_call(W(4) ? 2000 : 100000, W(4) ? 2000 : 100000); if (W(3) == 0) set_mode(x, 1, Wlog(1, 200000)); if (!q.request(x)) break; if (W(2)) q.await(x->id, Wlog(1, 500 * MS)); } q.close(W(2)); probe("peer"); break; }
            case 3: { RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions()); int k = Wr(1, 5); for (int j = 0; j < k; j++) { CallCfg x = cfg(); issue(make_call(x), ch); } if (W(2)) cl->Shutdown(); delete ch; delete cl; probe("client"); break; }
            case 4: { int fd = raw_connect(11, 8000); if (fd < 0) break; sleep_ns(Wlog(1, 300 * MS)); if (W(2)) raw_close(fd); else raw_reset(fd); break; } } probe("work"); })); }
        if (W(3) == 0) fs.push_back(spawn(0, "nemesis", [&] { sleep_ns(Wlog(MS, SEC)); reset_conns(-1, 11); }));
        for (int f : fs) join(f); finish_calls(3 * SEC); for (int f : open) raw_close(f); }
        idle_again(11, fds, threads, "server", 3 * SEC); if (!none_left([&] { return s.s->ConnectionCount(); })) fail("fd-leak", "no connections are left, but ConnectionCount() is %d", s.s->ConnectionCount());
        if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not end");
        forget_calls(); sleep_ns(SEC + 2 * (sys.fiber_stall ? sys.fiber_stall_max : 0)); g.sample(c, 8);
    }
    faults_off(); s.destroy(); std::vector<int> nodes; for (int i = 0; i < 16; i++) nodes.push_back(i); teardown_check(nodes);
}
SCENARIO(c20_client, "a long-lived client; servers, connections and channels come and go; descriptors and memory return to the same level") {
    world_init(); hostile_world(); Deaf deaf(14); deaf.start(); int S = Wr(1, 3); std::vector<Server*> sv; for (int i = 0; i < S; i++) { RpcServerOptions o = small_server(); if (W(4) == 0) o.max_connection_count = 1; sv.push_back(new Server(11 + i, 8000, o)); }
    NodeScope ns(1); RpcClientOptions o = small_client(); if (W(3) == 0) o.connect_timeout = Wlog(1, 500); if (W(4) == 0) o.max_pending_buffer_size = 0; if (W(4) == 0) o.max_throughput_in = Wr(2, 20); if (W(4) == 0) o.max_throughput_out = Wr(2, 20); RpcClient* cl = new RpcClient(o);
    { RpcChannel x(cl, addr_of(15), RpcChannelOptions()); CallCfg q = cfg(); q.async_pct = 0; issue(make_call(q), &x); } finish_calls(3 * SEC); forget_calls(); sleep_ns(SEC);    // its reactor exists from now on
    int fds = open_fds(1), threads = live_threads(1); Growth g(1); g.slack = 8 + 2 * threads; int cycles = Wr(4, 10); EnvCfg e; e.conn = W(2); e.stalls = W(2); random_env(e); bool kept = W(2); std::vector<RpcChannel*> ch; if (kept) for (int i = 0; i < S; i++) ch.push_back(new RpcChannel(cl, addr_of(11 + i), RpcChannelOptions()));
    for (int c = 0; c < cycles; c++) {
        for (Server* s : sv) if (W(6)) if (!s->start()) fail("start", "Start() failed"); if (deaf.fib < 0) { deaf.stop = false; deaf.start(); }
        { std::vector<RpcChannel*> tmp; std::vector<int> own; int n = Wr(1, 5); for (int i = 0; i < n; i++) { std::string a; switch (W(7)) { case 0: a = addr_of(14); break; case 1: a = addr_of(15); break; case 2: a = "nowhere:8000"; break;
                case 3: { std::vector<std::string> l; for (int j = 0; j < S; j++) l.push_back(addr_of(11 + j)); l.push_back(addr_of(15)); tmp.push_back(new RpcChannel(cl, l, RpcChannelOptions())); tmp.back()->Init(); probe("multi"); continue; }
                default: a = addr_of(11 + W(S)); } tmp.push_back(new RpcChannel(cl, a, RpcChannelOptions())); }
        std::vector<int> fs; std::vector<RpcChannel*> all = tmp; all.insert(all.end(), ch.begin(), ch.end());
        for (RpcChannel* x : all) { int k = Wr(1, 8); fs.push_back(spawn(1, "caller", [&, x, k] { for (int j = 0; j < k; j++) { CallCfg q = cfg(); issue(make_call(q), x); probe("work"); if (W(2)) sleep_ns(Wlog(1, 100 * MS)); } })); }
        bool stop = false; int nem = spawn(0, "nemesis", [&] { int n = Wr(0, 3); for (int i = 0; i < n && !stop; i++) { sleep_ns(Wlog(MS, 500 * MS)); if (stop) break; int s = W(S); switch (W(3)) { case 0: reset_conns(1, -1); break; case 1: if (sv[s]->started) { sv[s]->stop(); probe("stop"); } break; case 2: partition(1, 11 + s, true); sleep_ns(Wlog(MS, SEC)); partition(1, 11 + s, false); break; } } });
        for (int f : fs) join(f); stop = true; join(nem); finish_calls(3 * SEC); for (RpcChannel* x : tmp) delete x; }
        if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not end");
        for (Server* s : sv) if (s->started) s->stop(); deaf.end(); deaf.fib = -1; reset_conns(1, -1);
        int bh = net.blackhole; net.blackhole = 0; idle_again(1, fds, threads, "client", 3 * SEC); net.blackhole = bh; if (!none_left([&] { return cl->ConnectionCount(); })) fail("fd-leak", "no connections are left, but ConnectionCount() is %d", cl->ConnectionCount());
        if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not end");
        forget_calls(); sleep_ns(2500 * MS + 2 * (sys.fiber_stall ? sys.fiber_stall_max : 0)); g.sample(c, 12);
    }
    faults_off(); for (RpcChannel* x : ch) delete x; bounded("~RpcClient", 60 * SEC, [&] { delete cl; }); for (Server* s : sv) { s->destroy(); delete s; } std::vector<int> nodes; for (int i = 0; i < 16; i++) nodes.push_back(i); teardown_check(nodes);
}

namespace {
void steady(int cycles, bool check) {
    RpcServerOptions o = small_server(); if (W(3) == 0) { o.read_buffer_base_block_factor = Wr(0, 9); o.write_buffer_base_block_factor = Wr(0, 9); } if (W(4) == 0) o.max_throughput_in = Wr(5, 20); if (W(4) == 0) o.max_throughput_out = Wr(5, 20); Server s(11, 8000, o); s.start(); int C = Wr(1, 2), web = -1; std::vector<RpcClient*> cl; std::vector<RpcChannel*> ch;
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); RpcClientOptions co = small_client(); if (W(4) == 0) co.max_throughput_in = Wr(5, 20); cl.push_back(new RpcClient(co)); if (W(4) == 0) { std::vector<std::string> l(1, s.addr()); ch.push_back(new RpcChannel(cl[i], l, RpcChannelOptions())); probe("multi"); } else ch.push_back(new RpcChannel(cl[i], s.addr(), RpcChannelOptions())); }
    { NodeScope ns(11); s.s->RegisterWebServlet("/page", sofa::pbrpc::NewPermanentExtClosure(on_page)); } if (W(3) == 0) web = raw_connect(11, 8000);
    uint64_t seq0 = mem_stat().seq, base = 0; int slack = 10 + 3 * (live_threads(11) + live_threads(1) + live_threads(2)); int burst = Wr(10, 60); uint32_t size = W(3) ? 100 : 5000; bool fails = W(2), tmo = W(3) == 0; int per = Wr(1, 3);
    for (int c = 0; c < cycles; c++) {
        std::vector<int> fs; for (int i = 0; i < C; i++) for (int p = 0; p < per; p++) fs.push_back(spawn(1 + i, "caller", [&, i] { for (int j = 0; j < burst; j++) { CallCfg g; g.async_pct = 95; g.bad_pct = fails ? 5 : 0; g.fail_pct = fails ? 10 : 0; g.slow_pct = 2; g.defer_pct = 10; g.slow_us = 5000; g.default_tmo_pct = 0; g.compress = 10; g.tmo_lo = tmo ? 1 : 30000; g.tmo_hi = tmo ? 300 : 60000; g.max_size = g.max_resp = size; issue(make_call(g), ch[i]); probe("work"); if (W(8) == 0) sleep_ns(Wlog(1, 3 * MS)); } }));
        if (web >= 0) { std::string q = "GET /page HTTP/1.1\r\n\r\n"; char b[4096]; for (int i = 0; i < 3; i++) { raw_send(web, q.data(), q.size()); size_t n = 0; while (n < 4 || memcmp(b + n - 4, "page", 4)) { int r = raw_recv(web, b + n, sizeof b - n, 30 * SEC); if (r <= 0) fail("http", "no answer on a kept connection"); n += r; } } probe("http"); }
        for (int f : fs) join(f); finish_calls(3 * SEC); if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 100 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not end");
        forget_calls(); sleep_ns(2500 * MS + 4 * (sys.fiber_stall ? sys.fiber_stall_max : 0));
        uint64_t by = 0, k = mem_live_since(seq0, &by); note("live: %lu blocks %lu bytes", (unsigned long)k, (unsigned long)by); if (c == 0 || !check) continue; if (!base) { base = k; continue; }
        if (k > base + slack) { mem_dump_since(seq0, 60); fail("memory-grows", "the connections stay, and %lu blocks of memory were kept when nothing was pending after 2 bursts of calls, %lu after %d", (unsigned long)base, (unsigned long)k, c + 1); }
    }
    if (web >= 0) raw_close(web); for (int i = 0; i < C; i++) { NodeScope ns(1 + i); bounded("destroying the client", 60 * SEC, [&] { delete ch[i]; delete cl[i]; }); } s.destroy(); std::vector<int> nodes; for (int i = 0; i < 16; i++) nodes.push_back(i); teardown_check(nodes);
}
}
SCENARIO(c20_steady, "connections that stay and carry many calls; memory does not grow with their number, and nothing is left at the end") {
    world_init(); EnvCfg e; e.conn = false; if (W(2)) random_env(e); else random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 10 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(3) == 0) { sys.fiber_stall = Wr(1000, 20000); sys.fiber_stall_max = Wlog(20 * US, 2 * MS); }
    steady(1, false); forget_calls(); uint64_t seq = mem_stat().seq; steady(Wr(3, 8), true); forget_calls(); strict(seq, "everything was destroyed");
}
