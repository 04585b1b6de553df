#include "calls.h"
namespace sc {
CallsBed::CallsBed(const Mix& mix) : m(mix), crashed_any(false), stop_nemesis(false), nemesis(-1) {
    m.clients = Wr(1, m.clients); m.servers = Wr(1, m.servers); m.callers = Wr(1, m.callers);
    copt = small_client(); sopt = small_server();
    param("clients", m.clients); param("servers", m.servers); param("callers", m.callers);
}
void CallsBed::start() {
    if (m.nem_skew && W(3) == 0) for (int i = 0; i < m.servers; i++) clock_skew(snode(i), ((int64_t)W(2000) - 1000) * 100 * MS);
    for (int i = 0; i < m.servers; i++) { Server* s = new Server(snode(i), 8000, sopt); servers.push_back(s); if (!s->start()) fail("start", "Start() of a server failed without a fault"); }
    for (int i = 0; i < m.clients; i++) {
        NodeScope ns(cnode(i)); clients.push_back(new RpcClient(copt)); chans.push_back(std::vector<RpcChannel*>());
        for (int j = 0; j < m.servers; j++) chans[i].push_back(new RpcChannel(clients[i], addr_of(snode(j)), RpcChannelOptions()));
    }
    random_env(m.env);
    for (int i = 0; i < m.clients; i++) for (int k = 0; k < m.callers; k++) { int n = Wr(1, m.per_caller); callers.push_back(spawn(cnode(i), "caller", [this, i, n] { caller(i, n); })); }
    nemesis = spawn(0, "nemesis", [this] { nem(); });
}
void CallsBed::caller(int client, int n) {
    for (int i = 0; i < n; i++) {
        if (W(3) == 0) sleep_ns(Wlog(0, m.think_max));
        Call* c = make_call(m.call); int s = W(m.servers); c->chan = s;
        issue(c, chans[client][s]); probe("work");
    }
}
void CallsBed::nem() {
    std::vector<int> acts;
    if (m.nem_reset && W(2)) acts.push_back(0);
    if (m.nem_partition && W(3) == 0) acts.push_back(1);
    if (m.nem_crash && W(4) == 0) acts.push_back(2);
    if (m.nem_stop && W(3) == 0) acts.push_back(3);
    if (m.nem_pause && W(3) == 0) acts.push_back(4);
    if (acts.empty()) return;
    int n = Wr(1, 6);
    for (int i = 0; i < n && !stop_nemesis; i++) {
        sleep_ns(Wlog(m.nem_gap_lo, m.nem_gap_hi)); if (stop_nemesis) break;
        int si = W(m.servers), ci = W(m.clients); Server* s = servers[si];
        switch (acts[W(acts.size())]) {
        case 0: reset_conns(W(2) ? cnode(ci) : -1, W(2) ? snode(si) : -1); break;
        case 1: partition(cnode(ci), snode(si), true); sleep_ns(Wlog(MS, 4 * SEC)); partition(cnode(ci), snode(si), false); break;
        case 2: if (s->started) { crashed_any = true; s->crash(W(2)); sleep_ns(Wlog(MS, 2 * SEC)); s->restart_after_crash(); } break;
        case 3: if (s->started) { s->stop(); count_fault(F_PEER_CLOSE); sleep_ns(Wlog(1, SEC)); s->start(); count_fault(F_NODE_RESTART); } break;
        case 4: node_pause(W(2) ? cnode(ci) : snode(si), Wlog(MS, 2 * SEC)); break;
        }
    }
}
void CallsBed::wait_callers() {
    // a caller of synchronous calls ends at the latest when all its timeouts passed
    ns_t t0 = now(); ns_t worst = 0;
    for (;;) {
        bool done = true; for (int f : callers) if (!fiber_done(f)) done = false;
        if (done) break;
        sleep_ns(2 * MS);
        // a hanging synchronous call shows up here
        ns_t lim = 3 * SEC + stalled_total();
        for (auto& p : w->calls) { Call* c = p.second; if (c->started && !c->done && now() > c->issued + c->timeout_ms * MS + lim) fail("call-hangs", "call %lu (timeout %ld ms, %s, %zu executions) is not complete %.3f s after it was issued", (unsigned long)c->id, (long)c->timeout_ms, c->async ? "async" : "sync", c->execs.size(), (now() - c->issued) / 1e9); }
    }
    for (int f : callers) join(f);
    (void)t0; (void)worst;
}
void CallsBed::heal() {
    stop_nemesis = true;
    join(nemesis);
    faults_off();
    for (Server* s : servers) if (!s->started) { if (!s->s) s->restart_after_crash(); else s->start(); if (!s->started) fail("start", "a stopped server does not start again after the faults ended"); }
}
// a call ends soon after the connection it was made on, it does not wait for its timeout
void CallsBed::check_lost() {
    for (auto& p : w->calls) { Call* c = p.second; if (c->chan < 0 || !c->done) continue;
        ns_t t[256]; int n = conn_ends(c->caller_node, snode(c->chan), 8000, t, 256); ns_t slack = SEC + stalled_total();
        for (int i = 0; i < n; i++) if (c->async && c->returned_at >= 0 ? t[i] > c->returned_at : t[i] > c->issued + 20 * MS + stalled_total()) { probe("outlived"); if (c->completed > t[i] + slack) fail("call-outlives-connection", "call %lu (timeout %ld ms) completed (%s) %.3f s after the connection it was made on had ended", (unsigned long)c->id, (long)c->timeout_ms, code_name(c->code), (c->completed - t[i]) / 1e9); break; } }
}
void CallsBed::finish(ns_t slack) { finish_calls(slack); check_lost(); }
void CallsBed::expect_recovery(ns_t limit) {
    for (size_t i = 0; i < clients.size(); i++) for (size_t j = 0; j < servers.size(); j++) {
        ns_t end = now() + limit; bool ok = false; int tries = 0;
        NodeScope ns(cnode(i));
        while (!ok && now() < end) {
            CallCfg k; k.fail_pct = k.defer_pct = k.slow_pct = k.bad_pct = k.async_pct = 0; k.tmo_lo = k.tmo_hi = 2000; k.default_tmo_pct = 0;
            Call* c = make_call(k); issue(c, chans[i][j]); ok = c->success; tries++;
            if (!ok) sleep_ns(100 * MS);
        }
        if (!ok) { Call* c = w->calls.rbegin()->second; fail("no-recovery", "calls from client %zu to server %zu still fail %.1f s after all faults ended (%d tries, last: %s %s)", i, j, limit / 1e9, tries, code_name(c->code), c->text.c_str()); }
    }
}
void CallsBed::destroy() {
    for (size_t i = 0; i < clients.size(); i++) { NodeScope ns(cnode(i)); 
        bounded("destroying channels and client", 60 * SEC, [this, i] { for (auto c : chans[i]) delete c; delete clients[i]; }); }
    // answers still to come from handlers keep using the server: it is stopped now and destroyed when they are through
    for (Server* s : servers) if (W(2)) s->stop();
    for (Server* s : servers) s->destroy();
    std::vector<int> nodes; for (int i = 0; i < m.clients; i++) nodes.push_back(cnode(i)); for (int i = 0; i < m.servers; i++) nodes.push_back(snode(i));
    teardown_check(nodes);
}
}
using namespace sc;
SCENARIO(c01_calls, "clients and servers with every kind of disturbance; every call completes exactly once") {
    world_init(); Mix m; m.call.max_size = 20000; m.call.max_resp = 20000;
    CallsBed b(m); b.start(); b.wait_callers();
    b.finish(3 * SEC); b.heal(); b.finish(3 * SEC); b.expect_recovery(20 * SEC); b.destroy(); check_calls();
}

SCENARIO(c01_clean, "nothing is lost: every call to a server that answers completes with that answer, promptly") {
    world_init(); Mix m; m.nem_reset = m.nem_partition = m.nem_crash = m.nem_stop = m.nem_pause = false; m.env.conn = false; m.callers = 6; m.per_caller = 8; m.think_max = W(2) ? 2 * MS : 200 * MS;
    CallCfg& k = m.call; k.max_size = k.max_resp = W(2) ? 100 : 5000; k.compress = 0; k.default_tmo_pct = 0; k.tmo_lo = 100000; k.tmo_hi = 900000; k.bad_pct = 3; k.fail_pct = 5; k.slow_pct = 10; k.defer_pct = 20; k.async_pct = W(2) ? 90 : 20;
    CallsBed b(m); b.start(); b.wait_callers(); b.finish(3 * SEC); expect_all_ok();
    b.heal(); b.expect_recovery(20 * SEC); b.destroy(); check_calls();
}

// Connections die all the time while calls with long timeouts are handed over; whatever was handed to a dying one ends with it.
SCENARIO(c01_churn, "connections are reset at every moment while calls with long timeouts are issued; none of them is forgotten") {
    world_init(); RpcServerOptions so = small_server(); Server s(11, 8000, so); s.start(); int C = Wr(1, 2); std::vector<RpcClient*> cl; std::vector<RpcChannel*> ch; random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 5 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); cl.push_back(new RpcClient(small_client())); ch.push_back(new RpcChannel(cl[i], s.addr(), RpcChannelOptions())); }
    if (W(3)) { sys.fiber_stall = Wr(100, 4000); sys.fiber_stall_max = Wlog(20 * US, 5 * MS); } if (W(4) == 0) net.short_write = Wr(20, 300); if (W(4) == 0) net.refuse = Wr(20, 200);
    bool over = false; std::vector<int> fs; int per = Wr(1, 4); ns_t think = Wlog(1, 3 * MS), gap = Wlog(50 * US, 20 * MS); int n = Wr(5, 40);
    for (int i = 0; i < C; i++) for (int k = 0; k < per; k++) fs.push_back(spawn(1 + i, "caller", [&, i] { for (int j = 0; j < n; j++) { CallCfg g; g.async_pct = 90; g.bad_pct = g.fail_pct = g.slow_pct = g.defer_pct = g.default_tmo_pct = 0; g.compress = 0; g.tmo_lo = 600000; g.tmo_hi = 900000; g.max_size = g.max_resp = 300; Call* c = make_call(g); issue(c, ch[i]); probe("work"); if (W(2)) sleep_ns(Wlog(1, think)); } }));
    int killer = spawn(0, "nemesis", [&] { bool stops = W(4) == 0; while (!over) { sleep_ns(Wlog(gap / 20 + 1, gap)); if (over) break; if (stops && W(6) == 0) { s.stop(); count_fault(F_PEER_CLOSE); sleep_ns(Wlog(1, gap)); s.start(); } else reset_conns(W(2) ? 1 + (int)W(C) : -1, 11); } });
    ns_t t0 = now(); for (int f : fs) if (!wait_until([&] { return fiber_done(f); }, t0 + 120 * SEC + stalled_total() - now(), 5 * MS)) fail("call-hangs", "a synchronous call does not end though its connections are reset");
    sleep_ns(Wlog(1, 50 * MS)); faults_off(); if (W(2)) { reset_conns(-1, 11); probe("last_reset"); } over = true; join(killer);
    // nothing holds a call up any more: it was answered, or its connection is gone
    if (!wait_until([] { return all_done(); }, 5 * SEC + stalled_total(), 5 * MS)) for (auto& p : w->calls) { Call* c = p.second; if (c->started && !c->done) fail("call-hangs", "call %lu (timeout %ld ms, %zu executions) is still pending %.3f s after it was issued though every connection it can be on was reset or works", (unsigned long)c->id, (long)c->timeout_ms, c->execs.size(), (now() - c->issued) / 1e9); }
    finish_calls(3 * SEC); for (auto& p : w->calls) if (p.second->code) probe("lost"); else probe("answered");
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); bounded("destroying the client", 60 * SEC, [&] { delete ch[i]; delete cl[i]; }); } s.destroy(); std::vector<int> t(1, 11); for (int i = 0; i < C; i++) t.push_back(1 + i); teardown_check(t);
}
