// C13 C14: channels with several servers
#include "common.h"
using namespace sc;
namespace {
int node_of(const std::string& remote) { int a, b, c, d, p; return sscanf(remote.c_str(), "%d.%d.%d.%d:%d", &a, &b, &c, &d, &p) == 5 ? d : 0; }
CallCfg cfg(int tmo_lo, int tmo_hi) { CallCfg k; k.bad_pct = k.fail_pct = 0; k.default_tmo_pct = 0; k.tmo_lo = tmo_lo; k.tmo_hi = tmo_hi; k.max_size = k.max_resp = 3000; k.slow_pct = 5; k.defer_pct = 20; k.slow_us = 20000; return k; }
// 3 calls for every server, one after the other: all succeed, and every server gets its share
void check_spread(RpcChannel* ch, const std::set<int>& nodes, const char* when) {
    std::map<int, int> before = w->node_execs; int k = nodes.size();
    for (int i = 0; i < 3 * k; i++) {
        CallCfg g = cfg(5000, 5000); g.async_pct = 0; g.defer_pct = g.slow_pct = 0; Call* c = make_call(g); issue(c, ch);
        if (!c->success) fail("spurious-failure", "%s: all servers are reachable, but call %lu to %s fails: %s (%s)", when, (unsigned long)c->id, c->remote.c_str(), code_name(c->code), c->text.c_str());
    }
    for (int n : nodes) { int got = w->node_execs[n] - before[n]; if (got < 2 || got > 4) fail("uneven", "%s: of %d calls made one after the other to %d servers, server %d got %d", when, 3 * k, k, n, got); }
    probe("spread");
}
void check_configured(const std::set<int>& all) { for (auto& p : w->node_execs) if (p.second && !all.count(p.first)) fail("wrong-server", "a call was executed by server %d, which is not configured", p.first); for (int n = 11; n < 20; n++) if (!all.count(n) && total_connects(1, n, 8000)) fail("wrong-server", "a connection was made to server %d, which is not configured", n); }
struct Down { int node; ns_t begin, down, up, noticed; };    // begin: starts to fail; down: unreachable from here; up: end of the disturbance (-1 not yet); noticed: the first end of a call to it after that (a connection that the server forgot is found out then)
struct Watch {
    std::vector<Down> d; ns_t settle; std::set<int> always;
    Watch() : settle(3500 * MS) {}
    void done(Call* c) {
        int n = node_of(c->remote);
        if (c->success) { if (c->execs.back().node != n) fail("wrong-server", "call %lu reports the server %s, but it was executed by %d", (unsigned long)c->id, c->remote.c_str(), c->execs.back().node); }
        else {
            if (!n) fail("no-server", "call %lu failed although server 11 is reachable: %s (%s)", (unsigned long)c->id, code_name(c->code), c->text.c_str());
            bool ok = false;
            for (auto& x : d) if (x.node == n && x.begin <= c->completed && (x.up < 0 || c->issued <= x.up + 16 * SEC + stalled_total() || x.noticed < 0 || c->issued <= x.noticed)) ok = true;
            if (!ok) fail("spurious-failure", "call %lu to the healthy server %s failed: %s (%s)", (unsigned long)c->id, c->remote.c_str(), code_name(c->code), c->text.c_str());
        }
        for (auto& x : d) if (x.node == n && x.up >= 0 && x.noticed < 0) x.noticed = c->completed;
        // a server whose failure was noticed gets no calls while it is down
        for (auto& x : d) if (x.node == n && x.down >= 0 && c->issued > x.down && (x.up < 0 || c->issued < x.up)) {
            ns_t first = first_failure(x); if (first >= 0 && c->issued > first) fail("failure-not-detected", "call %lu was sent to server %d, which was down for %.3f s, and an earlier call to it had failed %.3f s before", (unsigned long)c->id, n, (c->issued - x.down) / 1e9, (c->issued - first) / 1e9);
            if (!c->success) probe("failed_on_down");
        }
        if (!c->success && c->completed > 0) fails.push_back(std::make_pair(n, c->completed));
    }
    std::vector<std::pair<int, ns_t> > fails;
    ns_t first_failure(const Down& x) const { for (auto& f : fails) if (f.first == x.node && f.second >= x.down + settle + stalled_total() && (x.up < 0 || f.second < x.up)) return f.second; return -1; }
};
}
SCENARIO(c13_failover, "servers fail and come back while clients call through a channel with all of them") {
    world_init(); int K = Wr(2, 4); std::vector<Server*> sv; std::vector<std::string> addrs; std::set<int> nodes; bool names = W(3) == 0, lost_name = false;
    for (int i = 0; i < K; i++) { sv.push_back(new Server(11 + i)); nodes.insert(11 + i); std::string nm = "server" + std::to_string(i); dns_add(nm, 11 + i); addrs.push_back(names ? nm + ":8000" : addr_of(11 + i)); sv[i]->start(); }
    Watch wt; random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 50 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(3) == 0) { net.short_read = Wr(20, 300); net.segment = Wr(20, 300); } if (W(2)) { sys.fiber_stall = Wr(10, 300); sys.fiber_stall_max = Wlog(100 * US, 10 * MS); }
    set_node(1); RpcClientOptions co = small_client(); if (W(2)) co.connect_timeout = Wr(100, 5000); RpcClient* cl = new RpcClient(co);
    if (names && W(2)) { lost_name = true; int i = Wr(1, K - 1); dns_fail("server" + std::to_string(i), true); Down x = { 11 + i, 0, 0, -1, -1 }; wt.d.push_back(x); }
    if (W(2)) { for (size_t i = addrs.size() - 1; i > 0; i--) std::swap(addrs[i], addrs[W(i + 1)]); }
    RpcChannel* ch = new RpcChannel(cl, addrs, RpcChannelOptions());
    w->on_done = [&](Call* c) { wt.done(c); }; bool over = false; std::vector<int> fs; int nc = Wr(1, 4); bool again = W(4) == 0;     // again: one server fails time after time, with long outages and long pauses
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { ns_t think = Wlog(again ? 100 * MS : 20 * MS, SEC); for (int j = 0; !over && j < (again ? 600 : 150); j++) { CallCfg k = cfg(1500, 4000); Call* c = make_call(k); issue(c, ch); probe("work"); sleep_ns(W(3) ? Wlog(MS, think) : think); } }));
    int events = Wr(1, 4); bool calm = again || W(2) == 0; int same = Wr(1, K - 1); if (again) events = Wr(2, 4);
    for (int e = 0; e < events; e++) {
        sleep_ns(again ? (ns_t)Wr(1, 12) * SEC : Wlog(MS, 8 * SEC)); if (K < 2) break; int i = again ? same : Wr(1, K - 1), n = 11 + i; Down x = { n, now(), -1, -1, -1 }; size_t id = wt.d.size();
        bool busy = false; for (auto& y : wt.d) if (y.node == n && y.up < 0) busy = true; if (busy) continue;
        int kind = W(4); bool silent = W(2); ns_t dur = again ? (ns_t)Wr(4, 20) * SEC : Wlog(10 * MS, 30 * SEC); wt.d.push_back(x);
        if (kind == 0) { count_fault(F_PARTITION); partition(1, n, true); note("server %d cut off", n); } else if (kind == 1) { sv[i]->stop(); } else sv[i]->crash(silent);
        wt.d[id].down = now();
        if (calm) sleep_ns(dur);
        auto back = [&, kind, i, n, id] {
            if (kind == 0) partition(1, n, false); else if (kind == 1) { if (!sv[i]->start()) fail("restart-fails", "a server does not start again"); } else if (!sv[i]->restart_after_crash()) fail("restart-fails", "a server does not start again");
            wt.d[id].up = now(); note("server %d is back", n); };
        if (calm) back(); else fs.push_back(spawn(0, "repair", [&, dur, back] { sleep_ns(dur); back(); }));
    }
    if (lost_name) { sleep_ns(Wlog(MS, 10 * SEC)); for (int i = 0; i < K; i++) dns_fail("server" + std::to_string(i), false); wt.d[0].up = now(); }
    if (again || W(2)) over = true; else spawn(0, "end", [&] { sleep_ns(Wlog(MS, 20 * SEC)); over = true; });
    for (int f : fs) join(f);
    finish_calls(3 * SEC); faults_off();
    set_node(1); for (int i = 0; i < 2 * K; i++) { CallCfg g = cfg(3000, 3000); g.async_pct = 0; issue(make_call(g), ch); }
    sleep_ns(16 * SEC + stalled_total()); check_spread(ch, nodes, "after all servers came back");
    check_configured(nodes);
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); for (auto s : sv) s->destroy(); std::vector<int> t(1, 1); for (int n : nodes) t.push_back(n); w->on_done = nullptr; teardown_check(t);
}
SCENARIO(c13_blackout, "all servers of a channel fail, some come back, then the others") {
    world_init(); int K = Wr(2, 5); std::vector<Server*> sv; std::vector<std::string> addrs; std::set<int> nodes;
    for (int i = 0; i < K; i++) { sv.push_back(new Server(11 + i)); nodes.insert(11 + i); addrs.push_back(addr_of(11 + i)); sv[i]->start(); }
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 50 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(2)) { sys.fiber_stall = Wr(10, 300); sys.fiber_stall_max = Wlog(100 * US, 10 * MS); }
    set_node(1); RpcClientOptions co = small_client(); if (W(2)) co.connect_timeout = Wr(100, 5000); RpcClient* cl = new RpcClient(co); RpcChannel* ch = new RpcChannel(cl, addrs, RpcChannelOptions());
    bool over = false; std::vector<int> fs; int nc = Wr(1, 4); ns_t think = Wlog(300 * MS, 3 * SEC);
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { while (!over) { CallCfg k = cfg(500, 4000); Call* c = make_call(k); issue(c, ch); probe("work"); sleep_ns(W(3) ? think : Wlog(MS, think)); } }));
    sleep_ns(Wlog(MS, 3 * SEC)); int rounds = Wr(1, 2);
    for (int r = 0; r < rounds; r++) {
        std::vector<int> order, kind(K); for (int i = 0; i < K; i++) order.push_back(i); for (int i = K - 1; i > 0; i--) std::swap(order[i], order[W(i + 1)]);
        ns_t gap = W(2) ? 0 : Wlog(MS, 5 * SEC); std::map<int, ns_t> down;
        for (int i : order) { kind[i] = W(3); int n = 11 + i; if (kind[i] == 0) { count_fault(F_PARTITION); partition(1, n, true); } else if (kind[i] == 1) sv[i]->stop(); else sv[i]->crash(W(2)); down[n] = now(); note("server %d is down", n); if (gap) sleep_ns(Wlog(1, gap)); }
        sleep_ns(Wlog(10 * MS, 20 * SEC));
        auto back = [&](int i) { if (kind[i] == 0) partition(1, 11 + i, false); else if (!(kind[i] == 1 ? sv[i]->start() : sv[i]->restart_after_crash())) fail("restart-fails", "a server does not start again"); down.erase(11 + i); note("server %d is back", 11 + i); };
        for (int i = K - 1; i > 0; i--) std::swap(order[i], order[W(i + 1)]);
        int up = Wr(1, K - 1); for (int j = 0; j < up; j++) { back(order[j]); if (W(2)) sleep_ns(Wlog(1, 5 * SEC)); }
        sleep_ns(16 * SEC + stalled_total());    // the callers go on: a stale connection is found out
        { CallCfg g = cfg(3000, 3000); g.async_pct = 0; for (int i = 0; i < 2 * K; i++) issue(make_call(g), ch); } sleep_ns(16 * SEC + stalled_total());
        std::set<int> failed; ns_t from = now() - stalled_total();
        for (int i = 0; i < 4 * K; i++) {
            CallCfg g = cfg(3000, 3000); g.async_pct = 0; g.defer_pct = g.slow_pct = 0; Call* c = make_call(g); issue(c, ch); if (c->success) { probe("some_up"); continue; }
            int n = node_of(c->remote); if (!n) fail("no-server", "call %lu failed although %d of %d servers have been up for %.3f s: %s (%s)", (unsigned long)c->id, up, K, (now() - from) / 1e9 + 16, code_name(c->code), c->text.c_str());
            if (!down.count(n)) fail("spurious-failure", "call %lu to server %d, which has been up for a while, failed: %s (%s)", (unsigned long)c->id, n, code_name(c->code), c->text.c_str());
            if (!failed.insert(n).second) fail("failure-not-detected", "call %lu was sent to server %d, which has been down for %.3f s, and an earlier call to it had failed", (unsigned long)c->id, n, (now() - down[n]) / 1e9);
            probe("failed_on_down"); }
        for (int j = up; j < K; j++) { back(order[j]); if (W(2)) sleep_ns(Wlog(1, 5 * SEC)); }
        if (r + 1 < rounds) { sleep_ns(Wlog(MS, 20 * SEC)); }
    }
    sleep_ns(16 * SEC + stalled_total()); over = true; for (int f : fs) join(f); finish_calls(3 * SEC); faults_off();
    set_node(1); for (int i = 0; i < 2 * K; i++) { CallCfg g = cfg(3000, 3000); g.async_pct = 0; issue(make_call(g), ch); }
    sleep_ns(16 * SEC + stalled_total()); check_spread(ch, nodes, "after all servers came back"); check_configured(nodes);
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); for (auto s : sv) s->destroy(); std::vector<int> t(1, 1); for (int n : nodes) t.push_back(n); teardown_check(t);
}
SCENARIO(c13_spread, "all servers are healthy: the calls of many callers succeed and are spread") {
    world_init(); int K = Wr(1, 5); std::vector<Server*> sv; std::vector<std::string> addrs; std::set<int> nodes;
    for (int i = 0; i < K; i++) { sv.push_back(new Server(11 + i)); nodes.insert(11 + i); addrs.push_back(addr_of(11 + i)); sv[i]->start(); }
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 50 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(2)) { sys.fiber_stall = Wr(10, 300); sys.fiber_stall_max = Wlog(100 * US, 5 * MS); }
    set_node(1); RpcClient* cl = new RpcClient(small_client()); RpcChannelOptions ho; bool late = W(4) == 0; ho.create_with_init = !late;
    if (W(3) == 0) { addrs.push_back(addrs[0]); addrs.push_back(""); }
    if (W(8) == 0) { RpcChannelOptions h2; h2.create_with_init = false; delete new RpcChannel(cl, addrs, h2); }
    RpcChannel* ch = new RpcChannel(cl, addrs, ho); if (late && !ch->Init()) fail("init-fails", "Init() of a channel with several servers returned false");
    int nc = Wr(1, 5), per = Wr(4, 30), fail_pct = W(3) == 0 ? 10 : 0; std::vector<int> fs;
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { ns_t think = Wlog(1, 100 * MS); for (int j = 0; j < per; j++) { CallCfg k = cfg(20000, 20000); k.fail_pct = fail_pct; Call* c = make_call(k); issue(c, ch); probe("work"); sleep_ns(Wlog(1, think)); } }));
    for (int f : fs) join(f);
    finish_calls(3 * SEC); expect_all_ok(); check_configured(nodes);
    if (!fail_pct && nc * per >= 12 * K) for (int n : nodes) if (!w->node_execs[n]) fail("starved", "%d calls were made, none was sent to the healthy server %d", nc * per, n);
    faults_off(); if (fail_pct) sleep_ns(10 * SEC + stalled_total()); check_spread(ch, nodes, "at the end");
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); for (auto s : sv) s->destroy(); std::vector<int> t(1, 1); for (int n : nodes) t.push_back(n); teardown_check(t);
}
SCENARIO(c13_load, "servers of different speed: a call goes to a live server with the fewest calls pending, up to the load capacity") {
    world_init(); int K = Wr(1, 4); uint32_t cap = W(2) ? Wr(1, 5) : 0; std::vector<Server*> sv; std::vector<std::string> addrs; std::set<int> nodes;
    for (int i = 0; i < K; i++) { sv.push_back(new Server(11 + i)); nodes.insert(11 + i); addrs.push_back(addr_of(11 + i)); sv[i]->start(); }
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 20 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(2)) { sys.fiber_stall = Wr(10, 300); sys.fiber_stall_max = Wlog(100 * US, 5 * MS); }
    set_node(1); RpcClient* cl = new RpcClient(small_client()); RpcChannelOptions ho; ho.server_load_capacity = cap; RpcChannel* ch = new RpcChannel(cl, addrs, ho);
    std::map<uint64_t, int> at; int n = Wr(10, 60); ns_t longest = Wlog(50 * MS, 20 * SEC);
    for (int i = 0; i < n; i++) {
        CallCfg k = cfg(300000, 300000); k.defer_pct = 100; k.slow_pct = 0; k.async_pct = 100; Call* c = make_call(k); c->mode = 1; c->delay_us = (W(3) ? Wlog(1, longest) : longest) / US; c->req->set_mode(1); c->req->set_delay_us(c->delay_us); c->delete_early = W(2);
        std::map<int, int> hi; for (auto& p : at) if (!w->calls[p.first]->done) hi[p.second]++;   // at most that many are pending
        issue(c, ch); ns_t back = now(); probe("work");
        std::map<int, int> lo; for (auto& p : at) { Call* o = w->calls[p.first]; if (!o->done && back < o->execs[0].at + o->delay_us * US) lo[p.second]++; }   // these had not been answered
        int most_hi = INT_MAX; for (int x : nodes) most_hi = std::min(most_hi, hi[x]);
        int most_lo = INT_MAX; for (int x : nodes) most_lo = std::min(most_lo, lo[x]);
        if (!wait_until([c] { return c->done || !c->execs.empty(); }, 30 * SEC + stalled_total())) fail("call-hangs", "call %lu is neither executed nor complete", (unsigned long)c->id);
        if (c->execs.empty()) {
            if (!cap || c->code != sofa::pbrpc::RPC_ERROR_SERVER_BUSY) fail("spurious-failure", "all servers are up, but call %lu ends with %s", (unsigned long)c->id, code_name(c->code));
            if (most_hi < (int)cap) fail("busy-below-capacity", "call %lu was refused as all servers are busy, but one had only %d calls pending, the capacity is %u", (unsigned long)c->id, most_hi, cap); probe("busy"); continue; }
        int s = c->execs[0].node; at[c->id] = s;
        if (cap && lo[s] >= (int)cap) fail("beyond-capacity", "call %lu was sent to server %d, on which %d calls were pending; the capacity is %u", (unsigned long)c->id, s, lo[s], cap);
        for (int x : nodes) if (back == c->issued || back - c->issued < 700 * MS) if (lo[s] > hi[x]) fail("uneven", "call %lu was sent to server %d with at least %d calls pending, server %d had at most %d", (unsigned long)c->id, s, lo[s], x, hi[x]);
        if (cap && most_lo + 1 >= (int)cap) probe("nearly_full"); if (lo[s]) probe("loaded");
        sleep_ns(W(2) ? 0 : Wlog(1, longest / 4 + 1)); }
    if (!wait_until([] { return all_done(); }, 60 * SEC + stalled_total())) fail("call-hangs", "calls are not complete"); finish_calls(3 * SEC); check_configured(nodes);
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); for (auto s : sv) s->destroy(); std::vector<int> t(1, 1); for (int x : nodes) t.push_back(x); teardown_check(t);
}
// ---------------------------------------------------------------- C14
namespace {
struct Provider : public RpcChannel::AddressProvider {
    std::vector<std::string> init; RpcChannel::EventHandler* h; Provider() : h(NULL) {} ~Provider() { delete h; }
    virtual void GetInitAddress(std::vector<std::string>* l) { *l = init; }
    virtual bool RegisterEventHandler(RpcChannel::EventHandler* e) { h = e; return true; }
};
// what is known about one address: every operation with its begin and end
struct Addr {
    struct Op { ns_t begin, end; bool add; }; std::vector<Op> ops; bool shared;        // shared: operations of several threads overlap
    // certainly not in the set during [a, b]
    bool absent(ns_t a, ns_t b) const { return state(a, b, false); }
    bool present(ns_t a, ns_t b) const { return state(a, b, true); }
    bool state(ns_t a, ns_t b, bool want) const {
        ns_t latest = -1; for (auto& o : ops) if (o.end >= 0 && o.end <= a) latest = std::max(latest, o.begin);
        if (latest < 0 && want) return false;          // initially absent
        for (auto& o : ops) {
            if (o.begin > b) continue;
            if (o.end >= 0 && o.end <= a && o.end <= latest && o.begin < latest) continue;     // undone by one that came after it
            if (o.add != want) return false;
        }
        return true;
    }
};
}
SCENARIO(c14_change, "servers are added to and removed from a channel while clients call") {
    world_init(); int K = Wr(2, 5); std::vector<Server*> sv; std::map<int, Addr> ad; bool dead = W(3) == 0; int deadnode = -1; if (dead) deadnode = 11 + Wr(0, K - 1);
    for (int i = 0; i < K; i++) { sv.push_back(11 + i == deadnode ? NULL : new Server(11 + i)); if (sv[i]) sv[i]->start(); ad[11 + i].shared = W(4) == 0; }
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 50 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); if (W(2)) { sys.fiber_stall = Wr(10, 600); sys.fiber_stall_max = Wlog(100 * US, 10 * MS); }
    set_node(1); RpcClient* cl = new RpcClient(small_client()); Provider pv; std::set<int> now_set;
    for (int i = 0; i < K; i++) if (W(2)) { pv.init.push_back(addr_of(11 + i)); Addr::Op o = { 0, 0, true }; ad[11 + i].ops.push_back(o); }
    RpcChannel* ch = new RpcChannel(cl, &pv, RpcChannelOptions()); if (!pv.h) fail("no-handler", "the channel does not register an event handler");
    w->on_exec = [&](Call* c) { int n = c->execs.back().node; if (!ad.count(n)) fail("wrong-server", "a call was sent to server %d, which was never added", n); if (ad[n].absent(c->issued, now())) fail("sent-to-removed", "call %lu was sent to server %d, which was not in the set since before the call was made", (unsigned long)c->id, n); };
    bool failing = W(4) == 0; int fail_pct = failing ? 20 : 0;
    w->on_done = [&](Call* c) {
        if (c->success || c->mode == 2) return; int n = node_of(c->remote);
        if (n && n == deadnode) { probe("dead_called"); return; }
        if (n) fail("call-lost", "call %lu to the healthy server %d failed while addresses change: %s (%s)", (unsigned long)c->id, n, code_name(c->code), c->text.c_str());
        if (c->code != sofa::pbrpc::RPC_ERROR_SERVER_UNAVAILABLE) fail("wrong-error", "a call for which there is no server failed with %s", code_name(c->code));
        for (auto& a : ad) if (a.second.present(c->issued, std::max(c->completed, c->issued + 2400 * MS))) fail("server-not-used", "call %lu failed for lack of a server although server %d was in the set all the time", (unsigned long)c->id, a.first);
        probe("no_server");
    };
    bool over = false; std::vector<int> fs; int nc = Wr(1, 4);
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { ns_t think = Wlog(20 * MS, 300 * MS); for (int j = 0; !over && j < 150; j++) { CallCfg k = cfg(10000, 10000); k.fail_pct = fail_pct; Call* c = make_call(k); issue(c, ch); probe("work"); sleep_ns(W(3) ? Wlog(MS, think) : think); } }));
    auto op = [&](std::vector<int> list, bool add) {
        std::vector<std::string> l; std::vector<size_t> idx; std::vector<int> ns;
        for (int n : list) { l.push_back(addr_of(n)); Addr::Op o = { now(), -1, add }; ad[n].ops.push_back(o); idx.push_back(ad[n].ops.size() - 1); ns.push_back(n); }
        if (W(8) == 0) l.push_back(""); if (W(8) == 0 && l.size()) l.push_back(l[0]);
        note("%s begins", add ? "add" : "remove"); for (auto& x : l) note("  %s", x.c_str());
        if (add) pv.h->OnAddressAdded(l); else pv.h->OnAddressRemoved(l);
        for (size_t i = 0; i < ns.size(); i++) ad[ns[i]].ops[idx[i]].end = now();
        note("%s ends", add ? "add" : "remove"); };
    int ops = Wr(1, 3); for (int t = 0; t < ops; t++) fs.push_back(spawn(1, "operator", [&, t] { int n = Wr(1, 10); ns_t gap = Wlog(MS, 6 * SEC); for (int i = 0; i < n && !over; i++) {
        sleep_ns(Wlog(1, gap)); std::vector<int> l; for (int j = 0; j < K; j++) if ((ad[11 + j].shared || j % ops == t) && W(2)) l.push_back(11 + j); if (l.empty()) continue; op(l, W(2)); } }));
    sleep_ns(Wlog(10 * MS, 20 * SEC)); over = true; for (int f : fs) join(f);
    finish_calls(3 * SEC + 2400 * MS); check_calls(); if (!failing) for (auto& p : w->calls) if (p.second->mode == 2) fail("internal", "unexpected failing call");
    // everything is added again, or what is in the set now is called
    faults_off(); set_node(1); std::set<int> cur; if (W(2)) { std::vector<int> all; for (auto& a : ad) if (a.first != deadnode) all.push_back(a.first); op(all, true); }
    bool sure = true; for (auto& a : ad) { if (a.second.present(now(), now())) cur.insert(a.first); else if (!a.second.absent(now(), now())) sure = false; }
    if (sure && cur.size() && !cur.count(deadnode)) { sleep_ns(16 * SEC + stalled_total()); check_spread(ch, cur, "after the last change"); }
    // calls under way while the channel goes away, and changes after it has gone
    if (W(2)) { int n = Wr(1, 4); for (int i = 0; i < n && cur.size() && sure && !cur.count(deadnode); i++) { CallCfg k = cfg(10000, 10000); k.async_pct = 100; k.defer_pct = 80; Call* c = make_call(k); issue(c, ch); } }
    if (W(2)) { bounded("destroying the channel", 20 * SEC + stalled_total(), [&] { delete ch; }); ch = NULL; for (int i = Wr(0, 3); i > 0; i--) { std::vector<int> l; for (auto& a : ad) if (W(2)) l.push_back(a.first); if (l.size()) op(l, W(2)); sleep_ns(Wlog(1, 20 * MS)); } finish_calls(6 * SEC); }
    else finish_calls(6 * SEC);
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); w->on_exec = nullptr; w->on_done = nullptr; for (auto s : sv) if (s) s->destroy(); std::vector<int> t(1, 1); for (auto& a : ad) t.push_back(a.first); teardown_check(t);
}
SCENARIO(c14_probe, "addresses are removed and added while the servers behind them fail and are found to be up again") {
    world_init(); int K = Wr(2, 4); std::vector<Server*> sv; std::map<int, Addr> ad; for (int i = 0; i < K; i++) { sv.push_back(new Server(11 + i)); sv[i]->start(); ad[11 + i].shared = false; }
    net.lat_min = Wr(1, 400) * MS; net.lat_max = net.lat_min + Wlog(MS, 600 * MS); if (W(2)) { sys.fiber_stall = Wr(10, 600); sys.fiber_stall_max = Wlog(100 * US, 300 * MS); }
    set_node(1); RpcClient* cl = new RpcClient(small_client()); Provider pv; for (int i = 0; i < K; i++) { pv.init.push_back(addr_of(11 + i)); Addr::Op o = { 0, 0, true }; ad[11 + i].ops.push_back(o); }
    RpcChannel* ch = new RpcChannel(cl, &pv, RpcChannelOptions()); if (!pv.h) fail("no-handler", "the channel does not register an event handler");
    w->on_exec = [&](Call* c) { int n = c->execs.back().node; if (!ad.count(n)) fail("wrong-server", "a call was sent to server %d, which was never added", n); if (ad[n].absent(c->issued, now())) fail("sent-to-removed", "call %lu was sent to server %d, which was not in the set since before the call was made", (unsigned long)c->id, n); };
    bool over = false; std::vector<int> fs; int nc = Wr(1, 2);
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { ns_t think = Wlog(50 * MS, 300 * MS); while (!over) { CallCfg k = cfg(6000, 6000); k.async_pct = 100; issue(make_call(k), ch); probe("work"); sleep_ns(Wlog(think / 4, think)); } }));
    auto op = [&](int n, bool add) { std::vector<std::string> l(1, addr_of(n)); Addr::Op o = { now(), -1, add }; ad[n].ops.push_back(o); size_t i = ad[n].ops.size() - 1; note("%s %d begins", add ? "add" : "remove", n); { ApiScope api; if (add) pv.h->OnAddressAdded(l); else pv.h->OnAddressRemoved(l); } ad[n].ops[i].end = now(); note("%s %d ends", add ? "add" : "remove", n); };
    int rounds = Wr(1, 3); for (int r = 0; r < rounds; r++) {
        int x = Wr(0, K - 1); sleep_ns(Wlog(10 * MS, 2 * SEC)); sv[x]->stop(); sleep_ns(Wlog(100 * MS, 4 * SEC)); if (!sv[x]->start()) fail("start", "a stopped server cannot be started again"); sleep_ns(Wr(1, 4000) * MS);
        op(11 + x, false); if (W(3) == 0) { sleep_ns(Wlog(1, 2 * SEC)); op(11 + x, true); if (W(2)) { sleep_ns(Wlog(1, 2 * SEC)); op(11 + x, false); } } sleep_ns(Wlog(100 * MS, 6 * SEC)); }
    over = true; for (int f : fs) join(f); finish_calls(3 * SEC + 4 * net.lat_max); check_calls(); faults_off(); net.lat_max = net.lat_min = MS; set_node(1); std::set<int> cur;
    if (W(2)) for (int i = 0; i < K; i++) if (ad[11 + i].absent(now(), now())) op(11 + i, true);
    for (auto& a : ad) if (a.second.present(now(), now())) cur.insert(a.first);
    if (cur.size()) { sleep_ns(16 * SEC + stalled_total()); check_spread(ch, cur, "after the last change"); }
    bounded("destroying the channel and the client", 20 * SEC + stalled_total(), [&] { delete ch; delete cl; }); set_node(0); w->on_exec = nullptr; for (auto s : sv) s->destroy(); std::vector<int> t(1, 1); for (auto& a : ad) t.push_back(a.first); teardown_check(t);
}
