// C08: throughput limits
#include "calls.h"
using namespace sc;
namespace {
const int64_t MB = 1 << 20;
// Bytes through one process in one direction against its limit: a leaky bucket over the whole run.
int64_t g_big[20];     // the largest message so far that node sends
struct Meter {
    int node; bool out; struct Set { ns_t from, to; int mb; }; std::vector<Set> h; uint64_t last; ns_t t; double level, most; int64_t extra; ns_t lag; int conns;
    Meter(int n, bool o, int mb) : node(n), out(o), last(0), t(0), level(0), most(0), extra(0), lag(20 * MS), conns(1) { Set s = { 0, 0, mb }; h.push_back(s); }
    int limit() const { return h.back().mb; }
    void sample() {
        ns_t n = now(); uint64_t b = out ? bytes_tx(node) : bytes_rx(node); bool free = false; int64_t rate = h.back().mb * MB;
        const Set& s = h.back(); if (s.to < 0 || s.mb < 0 || t < s.to + 200 * MS + lag) free = true;      // unlimited, or the change is not yet in effect
        if (free) level = 0;
        else {
            level = std::max(0.0, level - rate * ((n - t) / 1e9)) + (double)(b - last); most = std::max(most, level);
            int64_t burst = rate / 10 * 2 + (out ? std::min(extra, (g_big[node] + 2000) * (conns + 1)) : extra) + rate / 1000 * (stalled_total() / MS + 10);
            if (level > burst) fail("over-limit", "node %d %s %.0f bytes more than its limit of %ld MB/s allows, a burst of %ld bytes included", node, out ? "sent" : "received", level - burst, (long)(rate / MB), (long)burst);
            if (level > rate / 10 / 2) probe("at_limit");
        }
        last = b; t = n;
    }
};
// a call at the upper end of the sizes
void resize(Call* c, uint32_t M, uint32_t req, uint32_t resp) { if (req == M) c->size = M - W(M / 8), c->req->set_payload(gen(c->id, c->size, 0)); if (resp == M) c->resp_size = M - W(M / 8), c->req->set_resp_size(c->resp_size); }
int pick() { static const int n[] = { -1, -1, 1, 1, 2, 3, 5, 8 }; return n[W(8)]; }
}
SCENARIO(c08_limits, "clients and servers with throughput limits in both directions, changed while traffic is queued") {
    world_init(); bool strict = W(3) != 0, resets = W(4) == 0; int S = Wr(1, 2), C = Wr(1, 3); std::vector<Meter> m; std::vector<Server*> sv; std::vector<RpcClient*> cl; std::vector<std::vector<RpcChannel*> > ch;
    uint32_t M = W(3) ? Wlog(30000, 400000) : Wlog(1000, 400000); int changes = W(2) ? Wr(1, 5) : 0; bool full = W(3) == 0; memset(g_big, 0, sizeof g_big); random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 5 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    bool some = W(8) != 0;
    for (int i = 0; i < S; i++) { RpcServerOptions o = small_server(); o.max_throughput_in = some ? pick() : -1; o.max_throughput_out = some ? pick() : -1; m.push_back(Meter(11 + i, false, o.max_throughput_in)); m.push_back(Meter(11 + i, true, o.max_throughput_out)); bool late = W(4) == 0; RpcServerOptions o0 = o; if (late) o0.max_throughput_in = o0.max_throughput_out = -1; sv.push_back(new Server(11 + i, 8000, o0)); if (late) { NodeScope ns(11 + i); sv[i]->s->ResetOptions(o); } sv[i]->start(); }
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); RpcClientOptions o = small_client(); if (some && W(2)) { o.max_throughput_in = pick(); o.max_throughput_out = pick(); } m.push_back(Meter(1 + i, false, o.max_throughput_in)); m.push_back(Meter(1 + i, true, o.max_throughput_out)); cl.push_back(new RpcClient(o)); ch.push_back(std::vector<RpcChannel*>()); for (int j = 0; j < S; j++) ch[i].push_back(new RpcChannel(cl[i], addr_of(11 + j), RpcChannelOptions())); }
    if (!strict) { sys.fiber_stall = Wr(20, 1000); sys.fiber_stall_max = Wlog(100 * US, 200 * MS); if (W(2)) { net.short_read = Wr(20, 200); net.short_write = Wr(20, 200); net.segment = Wr(20, 200); } }
    int nreset = resets ? Wr(1, 4) : 0;
    for (auto& x : m) x.conns = (x.node > 10 ? C : S) * (1 + nreset), x.extra = (int64_t)(x.node > 10 ? C : S) * (1 + nreset) * (x.out ? M + 2000 : 32768) + (x.out ? M + 2000 : 32768);
    bool over = false; std::vector<int> fs; int64_t budget = full ? Wlog(3000000, 15000000) : Wlog(500000, 8000000); ns_t base = now(); uint64_t moved = 0; ns_t moved_at = now(); ns_t last_change = now(); int64_t seq_calls = 0;
    int watch = spawn(0, "meter", [&] { while (!over) { for (auto& x : m) x.sample(); 
        uint64_t b = 0; for (int i = 1; i < 20; i++) b += bytes_tx(i) + bytes_rx(i); if (b != moved) { moved = b; moved_at = now(); }
        int worst = INT_MAX; for (auto& x : m) if (x.limit() > 0) worst = std::min(worst, x.limit());
        // the debt of one message per direction is paid at the rate of the limit
        ns_t idle = now() - std::max(moved_at, last_change), lim = 500 * MS + 20 * net.lat_max + stalled_total() + (worst < INT_MAX ? (ns_t)((m[1].extra + (int64_t)C * S * 40000) * 2.0 / (worst * MB) * 1e9) : 0);
        if (pending_calls() && idle > lim) fail("stalled", "calls are pending, but no byte was moved for %.3f s", idle / 1e9);
        sleep_ns(Wlog(5 * MS, 60 * MS)); } });
    int per = Wr(1, 4); 
    for (int i = 0; i < C; i++) for (int k = 0; k < per; k++) fs.push_back(spawn(1 + i, "caller", [&, i] { while (budget > 0) {
        CallCfg g; g.bad_pct = 0; g.fail_pct = 2; g.slow_pct = 5; g.defer_pct = 10; g.slow_us = 2000; g.tmo_lo = g.tmo_hi = 900000; g.default_tmo_pct = 0; g.max_size = W(3) ? M : 10; g.max_resp = W(3) ? M : 10; g.compress = 0;
        int n = Wr(1, 4); for (int j = 0; j < n; j++) { Call* c = make_call(g); if (resets) c->any_result = true; int to = W(S); if (full) resize(c, M, g.max_size, g.max_resp); g_big[1 + i] = std::max<int64_t>(g_big[1 + i], c->size); g_big[11 + to] = std::max<int64_t>(g_big[11 + to], c->resp_size); if (j + 1 < n) c->async = true; budget -= c->size + c->resp_size + 3000; issue(c, ch[i][to]); seq_calls++; probe("work"); } if (W(4) == 0) sleep_ns(Wlog(1, 300 * MS)); } }));
    if (nreset) fs.push_back(spawn(0, "nemesis", [&] { for (int i = 0; i < nreset; i++) { sleep_ns(Wlog(MS, 2 * SEC)); reset_conns(W(2) ? 1 + (int)W(C) : -1, W(2) ? 11 + (int)W(S) : -1); } }));
    bool undo = W(2); int op = spawn(0, "operator", [&] { for (int i = 0; i < changes; i++) { sleep_ns(Wlog(MS, 3 * SEC)); bool all = undo && i + 1 == changes; int who = W(S + C);
        for (int q = 0; q < S + C; q++) if (all || q == who) { int a = all ? -1 : pick(), b = all ? -1 : pick(); ns_t t = now();
            Meter& x = m[2 * q]; Meter& y = m[2 * q + 1]; Meter::Set s = { t, -1, a }; x.h.push_back(s); s.mb = b; y.h.push_back(s); note("limits of node %d: in %d out %d", x.node, a, b);
            if (q < S) { NodeScope ns(11 + q); RpcServerOptions o = sv[q]->s->GetOptions(); o.max_throughput_in = a; o.max_throughput_out = b; sv[q]->s->ResetOptions(o); } else { NodeScope ns(1 + q - S); RpcClientOptions o = cl[q - S]->GetOptions(); o.max_throughput_in = a; o.max_throughput_out = b; cl[q - S]->ResetOptions(o); }
            x.h.back().to = y.h.back().to = now(); last_change = now(); } } });
    for (int f : fs) join(f);
    wait_until([] { return all_done(); }, 1000 * SEC, 5 * MS); ns_t end = now(); join(op); over = true; join(watch);
    bool unlimited = true; for (auto& x : m) if (x.limit() >= 0) unlimited = false;
    if (unlimited && strict && !nreset && end > last_change) { probe("unlimited"); ns_t lim = 3 * SEC + (seq_calls + 2) * (M / 16384 + 4) * 4 * net.lat_max; if (end - last_change > lim) fail("throttled", "no limit was in force, but the traffic took %.3f s instead of %.3f s at most", (end - last_change) / 1e9, lim / 1e9); }
    (void)base; finish_calls(SEC); if (!resets) expect_all_ok();
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); for (auto x : ch[i]) delete x; delete cl[i]; } std::vector<int> nodes; for (int i = 0; i < C; i++) nodes.push_back(1 + i); for (int i = 0; i < S; i++) { nodes.push_back(11 + i); sv[i]->destroy(); } teardown_check(nodes);
}
SCENARIO(c08_edge, "single calls against a limit they exhaust, while threads are stalled across the refills of the quota") {
    world_init(); random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 2 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); int where = W(4); uint32_t M = Wr(20000, W(2) ? 260000 : 900000); bool to_server = where == 0 || where == 3;
    RpcServerOptions so = small_server(); RpcClientOptions co = small_client(); (where == 0 ? co.max_throughput_out : where == 1 ? so.max_throughput_out : where == 2 ? co.max_throughput_in : so.max_throughput_in) = W(3) ? 1 : 2;
    Server s(11, 8000, so); s.start(); set_node(1); RpcClient* cl = new RpcClient(co); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
    sys.fiber_stall = Wlog(200, 6000); sys.fiber_stall_max = Wr(60, 250) * MS; int n = Wr(3, 25), width = W(3) ? 1 : Wr(2, 3);
    for (int i = 0; i < n; i += width) {
        CallCfg g; g.bad_pct = g.fail_pct = g.slow_pct = g.defer_pct = g.compress = g.default_tmo_pct = 0; g.tmo_lo = g.tmo_hi = 400000; g.max_size = g.max_resp = 10; g.async_pct = 100;
        for (int k = 0; k < width; k++) { Call* c = make_call(g); uint32_t z = M - W(M / 4); if (to_server) c->size = z, c->req->set_payload(gen(c->id, z, 0)); else c->resp_size = z, c->req->set_resp_size(z); issue(c, ch); probe("work"); }
        ns_t t = now(), st = stalled_total(); if (!wait_until([] { return all_done(); }, 300 * SEC, 2 * MS) || now() - t > 8 * SEC + (stalled_total() - st) * 2) fail("stalled", "%d calls against a limit of throughput (%s) are pending for %.1f s", width, where == 0 ? "the client's, out" : where == 1 ? "the server's, out" : where == 2 ? "the client's, in" : "the server's, in", (now() - t) / 1e9);
        if (W(3) == 0) sleep_ns(Wlog(MS, 300 * MS));
    }
    faults_off(); finish_calls(SEC); expect_all_ok(); delete ch; delete cl; set_node(0); s.destroy(); teardown_check({ 1, 11 });
}
