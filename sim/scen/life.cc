// C10 C11 C12: the life of connections: idle closes, the connection limit, failures to accept
#include "raw.h"
using namespace sc;
namespace {
// ---------------------------------------------------------------- C10
struct KeepAlive {
    struct Set { ns_t from, to; int k; };          // set by a call that lasted from..to
    std::vector<Set> h; ns_t lat;
    KeepAlive(int k) : lat(150 * MS) { Set s = { 0, 0, k }; h.push_back(s); }
    ns_t slack() const { return lat + stalled_total(); }
    // the smallest limit in force at some moment of [a, b]; -1: none
    int least(ns_t a, ns_t b) const { int r = -1; for (size_t i = 0; i < h.size(); i++) { ns_t end = i + 1 < h.size() ? h[i + 1].to : INT64_MAX; if (end < a || h[i].from > b) continue; if (h[i].k >= 0 && (r < 0 || h[i].k < r)) r = h[i].k; } return r; }
    // last activity at or after <act>, end seen at <tc>
    // <prev>: the use before that one; the close may have been decided before the last use was noticed
    void closed(const char* who, ns_t prev, ns_t act, ns_t tc, bool busy) const {
        if (tc - slack() <= act + slack()) act = prev;
        int k = least(tc - 300 * MS - slack(), tc);
        if (k < 0) fail("closed-without-keepalive", "%s: a connection was closed although keep-alive was off", who);
        if (busy) fail("closed-while-busy", "%s: a connection with a call in progress was closed", who);
        if (tc < act + k * SEC - slack()) fail("closed-early", "%s: a connection was closed %.3f s after its last use, the keep-alive time is %d s", who, (tc - act) / 1e9, k);
        probe("idle_close");
    }
    // the connection is open and has not been used since <act>
    void open(const char* who, ns_t act) const {
        const Set& s = h.back(); if (s.k < 0 || s.to < 0) return; ns_t from = std::max(act, s.to);
        if (now() > from + s.k * SEC + 300 * MS + slack()) fail("not-closed", "%s: a connection is still open %.3f s after its last use, the keep-alive time is %d s", who, (now() - act) / 1e9, s.k);
    }
};
int pick_k() { static const int k[] = { 1, 1, 2, 2, 3, 5, -1 }; return k[W(7)]; }
ns_t pick_gap(int k) {
    if (k < 0) k = 2; ns_t base = k * SEC;
    switch (W(5)) { case 0: return Wlog(MS, 300 * MS); case 1: return base - 400 * MS + (ns_t)W(300) * MS; case 2: return base - 50 * MS + (ns_t)W(400) * MS; case 3: return base + SEC; default: return Wlog(MS, base); }
}
void skew() {
    if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS);
    if (W(4) == 0) clock_skew(1, ((int64_t)W(2000) - 1000) * 100 * MS);
}
void ka_env() {
    random_latency();
    if (W(3) == 0) { net.short_read = Wr(20, 300); net.segment = Wr(20, 300); }
    if (W(2)) { sys.fiber_stall = Wr(20, 2000); sys.fiber_stall_max = Wlog(100 * US, 100 * MS); }
}
}
SCENARIO(c10_server, "a server closes connections that are idle for the keep-alive time, and only those") {
    world_init(); skew(); int k0 = pick_k(); KeepAlive ka(k0); RpcServerOptions o = small_server(); o.keep_alive_time = k0; Server s(11, 8000, o); s.start(); ka_env();
    int np = Wr(1, 4); std::vector<int> fs; bool stop = false;
    for (int p = 0; p < np; p++) { int n = Wr(1, 6); fs.push_back(spawn(1 + p, "peer", [&, n] {
        Peer q; ns_t act = 0, prev = 0;      // the server used the connection at this time or later
        auto see = [&] {
            if (!q.closed) return; 
            // a request may have met the close on its way; one that arrived well before it keeps the connection open
            bool busy = false; for (auto& x : q.sent) if (!q.answered.count(x.first) && q.closed_at > x.second + 300 * MS + 2 * ka.slack()) busy = true;
            ka.closed("server", prev, act, q.closed_at, busy);
        };
        for (int i = 0; i < n && !stop; i++) {
            if (q.fd < 0 || q.closed) { sleep_ns(Wlog(1, SEC)); if (!q.connect(11)) fail("connect", "cannot connect to an idle server"); act = q.connected_at - ka.lat; if (act < 0) act = 0; prev = act; }
            else {
                Call* c = raw_call(2000, 2000); ns_t dur = 0; int k = ka.h.back().k < 0 ? 1 : ka.h.back().k;
                if (W(3) == 0) { dur = W(2) ? Wlog(1, 100 * MS) : k * SEC - 100 * MS + (ns_t)W(600) * MS; set_mode(c, 1, dur / US); }
                q.request(c); bool ok = q.await(c->id, 60 * SEC + dur);
                if (ok) prev = act, act = std::max(q.sent[c->id], q.answered[c->id] - 2 * ka.lat - stalled_total()); else if (!q.closed) fail("not-answered", "request %lu was not answered", (unsigned long)c->id);
                see(); probe("work");
            }
            ns_t end = now() + pick_gap(ka.h.back().k);
            while (!q.closed && now() < end) { q.pump(std::min<ns_t>(end - now(), 50 * MS)); if (!q.closed) ka.open("server", std::max(q.last_rx, q.connected_at)); }
            see();
        } })); }
    if (W(2)) fs.push_back(spawn(11, "operator", [&] { int n = Wr(1, 3); for (int i = 0; i < n; i++) {
        sleep_ns(Wlog(10 * MS, 6 * SEC)); int k = pick_k(); KeepAlive::Set x = { now(), -1, k }; ka.h.push_back(x); RpcServerOptions oo = s.s->GetOptions(); oo.keep_alive_time = k; s.s->ResetOptions(oo); ka.h.back().to = now(); note("keep-alive time set to %d s", k); } }));
    for (int f : fs) join(f);
    std::vector<int> nodes(1, 11); s.destroy(); teardown_check(nodes);
}
SCENARIO(c10_slow, "messages that take longer than the keep-alive time to go out, in either direction, keep their connection open") {
    world_init(); skew(); int k = Wr(1, 3); KeepAlive ka(k); bool serve = W(2); random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 20 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    if (W(2)) { sys.fiber_stall = Wr(20, 1000); sys.fiber_stall_max = Wlog(100 * US, 50 * MS); }
    uint32_t big = Wr(20000, 80000), buf = Wr(1024, 6000); ns_t gap_lo = 10 * MS, gap_hi = k * SEC * 7 / 10; set_sndbuf(1, buf); set_sndbuf(11, buf); ns_t act = now(), end = 0; uint64_t moved = 0; bool over = false;
    // the node under test: when did bytes last go in or out of it?
    int node = serve ? 11 : 1; auto meter = [&] { while (!over) { uint64_t b = bytes_tx(node) + bytes_rx(node); if (b != moved) moved = b, act = now(); sleep_ns(MS); } };
    auto gone = [&](bool busy) { if (end) return; end = now(); ka.closed(serve ? "server" : "client", act, act, end, busy); };
    if (serve) {
        RpcServerOptions o = small_server(); o.keep_alive_time = k; o.write_buffer_base_block_factor = Wr(0, 9); Server s(11, 8000, o); s.start(); set_node(1); int f = spawn(0, "meter", meter);
        Peer q; if (!q.connect(11)) fail("connect", "cannot connect"); Call* c = raw_call(100, 100); c->method = 0; set_mode(c, 0, 0); c->resp_size = big; c->req->set_resp_size(big); q.request(c);
        ns_t t0 = now(); while (!q.answered.count(c->id) && !q.closed && now() < t0 + 300 * SEC) { bool any = q.pump(100 * MS, Wr(500, 5000)); if (q.closed) gone(false); if (!q.answered.count(c->id) && any) sleep_ns(Wlog(gap_lo, gap_hi)); }
        if (!q.answered.count(c->id) && !q.closed) fail("not-answered", "a response of %u bytes did not arrive", big);
        probe("work"); ns_t e = now() + k * SEC + SEC + stalled_total(); while (!q.closed && now() < e) { q.pump(20 * MS); if (q.closed) gone(false); else ka.open("server", std::max(act, q.last_rx)); }
        over = true; join(f); q.close(false); s.destroy(); teardown_check({ 11 });
    } else {
        RpcClientOptions co = small_client(); co.keep_alive_time = k; RpcClient* cl = NULL; RpcChannel* ch = NULL; int f = spawn(0, "meter", meter); bool read_all = false, cut = false;
        int srv = spawn(11, "slow-server", [&] { int l = raw_listen(8000), fd = -1; while (fd < 0 && !over) fd = raw_accept(l, 100 * MS); size_t got = 0; char tmp[6000]; while (fd >= 0 && !over) { int r = raw_recv(fd, tmp, Wr(500, 5000), 100 * MS); if (r > 0) { got += r; if (got >= big + 24) read_all = true; if (!read_all) sleep_ns(Wlog(gap_lo, gap_hi)); } else if (r == 0 || r == -1) { cut = true; break; } } if (fd >= 0) raw_close(fd); raw_close(l); });
        sleep_ns(10 * MS); { NodeScope ns(1); cl = new RpcClient(co); ch = new RpcChannel(cl, addr_of(11), RpcChannelOptions()); CallCfg g; g.tmo_lo = g.tmo_hi = W(2) ? 400000 : 2000; g.default_tmo_pct = 0; g.bad_pct = 0; g.compress = 0; g.max_size = 10; Call* c = make_call(g); c->async = true; c->any_result = true; c->size = big; c->req->set_payload(gen(c->id, big, 0)); issue(c, ch);
            // the request goes out as slowly as the server reads; a call that timed out meanwhile leaves its connection with the rest to write
            ns_t t0 = now(); while (!read_all && !cut && now() < t0 + 300 * SEC) { sleep_ns(5 * MS); if (cut) gone(!c->done); }
            if (!read_all && cut) gone(!c->done); else if (!read_all) { fail("not-sent", "a request of %u bytes did not arrive", big); }
            probe("work"); set_node(0); over = true; join(srv); join(f); { NodeScope n2(1); delete ch; delete cl; } finish_calls(SEC); }
        teardown_check({ 1 });
    }
}
SCENARIO(c10_client, "a client closes connections that are idle for the keep-alive time, and only those") {
    world_init(); skew(); int k0 = pick_k(); KeepAlive ka(k0); int ns = Wr(1, 3); std::vector<Server*> sv; for (int i = 0; i < ns; i++) { RpcServerOptions so = small_server(); so.keep_alive_time = -1; sv.push_back(new Server(11 + i, 8000, so)); sv[i]->start(); } set_node(1); 
    RpcClientOptions co = small_client(); co.keep_alive_time = k0; RpcClient* cl = new RpcClient(co); ka_env();
    std::vector<int> fs; bool over = false;
    for (int i = 0; i < ns; i++) { int n = Wr(2, 6); fs.push_back(spawn(1, "caller", [&, i, n] {
        RpcChannel* ch = new RpcChannel(cl, addr_of(11 + i), RpcChannelOptions()); ns_t act = 0, prev = 0, last = 0; bool open = false;
        auto watch = [&](bool busy) {
            bool is = client_conns(1, 11 + i, 8000) > 0;
            if (open && !is) ka.closed("client", prev, act, now(), busy);
            if (is && !busy) ka.open("client", last);
            open = is;
        };
        for (int j = 0; j < n; j++) {
            CallCfg k; k.tmo_lo = k.tmo_hi = 60000; k.default_tmo_pct = 0; k.bad_pct = k.fail_pct = k.slow_pct = k.defer_pct = 0; k.max_size = k.max_resp = 2000; Call* c = make_call(k); c->async = true; c->delete_early = false;
            int kk = ka.h.back().k < 0 ? 1 : ka.h.back().k; if (W(3) == 0) set_mode(c, 1, W(2) ? Wlog(1, 100000) : kk * 1000000 - 100000 + W(600) * 1000);
            ns_t t0 = now(); ns_t act0 = act; int conns0 = total_connects(1, 11 + i, 8000);
            issue(c, ch);
            while (!c->done) { sleep_ns(2 * MS); if (now() > t0 + 300 * MS + 2 * ka.slack() && !c->done) watch(true); if (now() > t0 + 62 * SEC + stalled_total()) fail("call-hangs", "a call does not end"); }
            if (!c->success) {
                // only if the call met the idle close
                int k = ka.least(t0 - 300 * MS - ka.slack(), now()); if (k < 0 || t0 < act0 + k * SEC - ka.slack() || now() > t0 + 500 * MS + 2 * ka.slack()) fail("spurious-failure", "call %lu failed (%s) %.3f s after the last use of the connection", (unsigned long)c->id, code_name(c->code), (t0 - act0) / 1e9);
                open = client_conns(1, 11 + i, 8000) > 0; prev = act = t0; last = now(); (void)conns0;
            } else { prev = act; act = std::max(t0, c->completed - ka.lat - stalled_total()); last = now(); open = client_conns(1, 11 + i, 8000) > 0; }
            probe("work");
            ns_t end = now() + pick_gap(ka.h.back().k); while (now() < end) { sleep_ns(2 * MS); watch(false); }
        }
        delete ch; })); }
    if (W(2)) fs.push_back(spawn(1, "operator", [&] { int n = Wr(1, 3); for (int i = 0; i < n && !over; i++) {
        sleep_ns(Wlog(10 * MS, 6 * SEC)); int k = pick_k(); KeepAlive::Set x = { now(), -1, k }; ka.h.push_back(x); RpcClientOptions oo = cl->GetOptions(); oo.keep_alive_time = k; cl->ResetOptions(oo); ka.h.back().to = now(); note("keep-alive time set to %d s", k); } }));
    for (int f : fs) join(f);
    finish_calls(SEC); delete cl; set_node(0); for (auto x : sv) x->destroy(); std::vector<int> nodes(1, 1); for (int i = 0; i < ns; i++) nodes.push_back(11 + i); teardown_check(nodes);
}
