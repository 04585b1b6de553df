// C11 C12: the connection limit of a server, and failures to accept or to listen
#include "raw.h"
#include <errno.h>
using namespace sc;
namespace {
// ---------------------------------------------------------------- C11
struct Limit {
    struct Set { ns_t from, to; int n; };
    std::vector<Set> h;
    struct Conn { ns_t begin, served, end; bool reset; };          // begin: connect started; served: first answer; end: peer closed or saw the end; -1: not yet
    std::vector<Conn> c; int highest; ns_t lat; std::map<int, int> dummy;
    Limit(int n) : highest(n), lat(150 * MS) { Set s = { 0, 0, n }; h.push_back(s); }
    static int inf(int n) { return n < 0 ? INT_MAX : n; }
    ns_t slack() const { return 300 * MS + 2 * lat + stalled_total(); }
    int most(ns_t a, ns_t b) const { int r = -1; for (size_t i = 0; i < h.size(); i++) if (hit(i, a, b)) r = std::max(r, inf(h[i].n)); return r; }
    int least(ns_t a, ns_t b) const { int r = INT_MAX; for (size_t i = 0; i < h.size(); i++) if (hit(i, a, b)) r = std::min(r, inf(h[i].n)); return r; }
    bool hit(size_t i, ns_t a, ns_t b) const { ns_t end = i + 1 < h.size() ? (h[i + 1].to < 0 ? INT64_MAX : h[i + 1].to) : INT64_MAX; return end >= a && h[i].from <= b; }
    int open(ns_t begin) { Conn x = { begin, -1, -1, false }; c.push_back(x); return c.size() - 1; }
    void served(int id) {
        if (c[id].served >= 0) return;
        c[id].served = now();
        // all connections served by now and not left are accepted; the last of them was accepted after the last of them began to connect
        int n = 0; ns_t last = 0; for (auto& x : c) if (x.served >= 0 && x.end < 0) { n++; last = std::max(last, x.begin); }
        int m = most(last, now()); probe("served");
        if (n > m) fail("over-limit", "%d connections are served at a time, the limit is %d", n, m);
        if (n == m) probe("at_limit");
    }
    void refused(int id) {
        ns_t t0 = c[id].begin - lat - stalled_total(); c[id].end = now(); int n = 0;
        for (size_t i = 0; i < c.size(); i++) if ((int)i != id) { ns_t end = c[i].end < 0 ? INT64_MAX : c[i].end + slack(); if (end >= t0 && c[i].begin <= now()) n++; }
        int m = least(t0, now()); probe("refused");
        if (n < m) fail("refused-below-limit", "a connection was not served although there were at most %d others and the limit is %d", n, m);
    }
};
int pick_n() { static const int n[] = { 0, 1, 1, 2, 2, 3, 4, 6, -1 }; return n[W(9)]; }
}
SCENARIO(c11_limit, "a server with a connection limit; peers come and go") {
    world_init(); if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS);
    int n0 = pick_n(); Limit lim(n0); RpcServerOptions o = small_server(); o.keep_alive_time = -1; o.max_connection_count = n0; Server s(11, 8000, o); s.start();
    random_latency(); if (W(3) == 0) { net.short_read = Wr(20, 300); net.segment = Wr(20, 300); } if (W(2)) { sys.fiber_stall = Wr(20, 2000); sys.fiber_stall_max = Wlog(100 * US, 100 * MS); }
    int np = Wr(1, 8); std::vector<int> fs; bool quick = W(2), over = false;
    for (int p = 0; p < np; p++) { int n = Wr(1, 8); fs.push_back(spawn(1 + p, "peer", [&, n] {
        for (int i = 0; i < n; i++) {
            sleep_ns(quick ? Wlog(1, 20 * MS) : Wlog(1, 2 * SEC));
            Peer q; int id = lim.open(now());
            if (!q.connect(11)) fail("connect", "cannot connect to the port of a live server");
            auto lost = [&] {
                if (lim.c[id].served >= 0) fail("served-closed", "a connection that was being served was closed by the server");
                lim.refused(id); };
            if (W(6) == 0) { ns_t e = now() + Wlog(1, 100 * MS); while (now() < e && !q.closed) q.pump(e - now()); if (q.closed) { lost(); continue; } lim.c[id].end = now(); q.close(W(2)); continue; }     // leaves without a request
            int k = Wr(1, 4); bool gone = false;
            for (int j = 0; j < k && !gone; j++) {
                int batch = Wr(1, 3); bool leave = W(8) == 0; std::vector<Call*> cs;
                for (int b = 0; b < batch; b++) { Call* c = raw_call(1000, 1000); if (W(3) == 0) set_mode(c, 1, Wlog(1, 200000)); q.request(c); cs.push_back(c); }
                if (leave) { sleep_ns(Wlog(1, 100 * MS)); q.pump(1); if (q.closed) { lost(); gone = true; break; } lim.c[id].end = now(); q.close(W(2)); gone = true; break; }
                ns_t t0 = now();
                while (q.pending() && !q.closed) { if (now() > t0 + 600 * MS + lim.slack()) fail(lim.c[id].served >= 0 ? "served-disturbed" : "neither-served-nor-closed", "a connection was neither served nor closed"); q.pump(50 * MS); if (q.answered.size()) lim.served(id); }
                if (q.closed) { lost(); gone = true; break; }
                probe("work");
                ns_t e = now() + (quick ? Wlog(1, 50 * MS) : Wlog(1, 2 * SEC)); while (now() < e && !q.closed) q.pump(e - now());
                if (q.closed) { lost(); gone = true; }
            }
            if (!gone) { lim.c[id].end = now(); q.close(W(3) == 0); }
        } })); }
    if (W(2)) fs.push_back(spawn(11, "operator", [&] { int n = Wr(1, 4); for (int i = 0; i < n; i++) {
        sleep_ns(Wlog(MS, quick ? 200 * MS : 4 * SEC)); int k = pick_n(); Limit::Set x = { now(), -1, k }; lim.h.push_back(x); if (k < 0 || lim.highest < 0) lim.highest = -1; else lim.highest = std::max(lim.highest, k);
        RpcServerOptions oo = s.s->GetOptions(); oo.max_connection_count = k; s.s->ResetOptions(oo); lim.h.back().to = now(); note("connection limit set to %d", k); } }));
    int watch = spawn(11, "watch", [&] { while (!over) { int c = s.s->ConnectionCount(); if (lim.highest >= 0 && c > lim.highest) fail("count-over-limit", "the server counts %d connections, the limit is %d", c, lim.highest); sleep_ns(Wlog(MS, 300 * MS)); } });
    for (int f : fs) join(f);
    over = true; join(watch);
    // everybody has left: the limit is available in full again
    sleep_ns(lim.slack() + 300 * MS); int c = s.s->ConnectionCount(); if (c) fail("count-not-zero", "all peers have left, but the server counts %d connections", c);
    int left = (lim.h.back().n < 0 ? 5 : lim.h.back().n); std::vector<Peer*> q; for (int i = 0; i < left; i++) { lim.open(now()); q.push_back(new Peer); if (!q[i]->connect(11)) fail("connect", "cannot connect"); Call* x = raw_call(); q[i]->request(x); if (!q[i]->await(x->id, 2 * SEC + lim.slack())) fail("refused-below-limit", "connection %d of %d was not served after all others had left", i + 1, left); lim.served(lim.c.size() - 1); }
    if (lim.h.back().n >= 0) { Peer x; if (x.connect(11)) { Call* k = raw_call(); x.request(k); if (x.await(k->id, 2 * SEC + lim.slack())) fail("over-limit", "a connection beyond the limit of %d was served", lim.h.back().n); if (!x.closed) fail("neither-served-nor-closed", "a connection beyond the limit is neither served nor closed"); } for (auto p : q) { Call* k2 = raw_call(); p->request(k2); if (!p->await(k2->id, 2 * SEC + lim.slack())) fail("served-disturbed", "a connection within the limit was not answered"); } }
    if ((int)q.size() != s.s->ConnectionCount()) fail("count-wrong", "%d connections are open, the server counts %d", (int)q.size(), s.s->ConnectionCount());
    for (auto p : q) delete p;
    std::vector<int> nodes(1, 11); s.destroy(); teardown_check(nodes);
}
// ---------------------------------------------------------------- C12
namespace { int pick_errno() { static const int e[] = { EMFILE, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM }; return e[W(6)]; } }
SCENARIO(c12_accept, "accepting fails for a while; the server recovers") {
    world_init(); if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS);
    RpcServerOptions o = small_server(); o.keep_alive_time = -1; Server s(11, 8000, o); s.start();
    random_latency(); if (W(3) == 0) { net.short_read = Wr(20, 300); net.segment = Wr(20, 300); } if (W(2)) { sys.fiber_stall = Wr(20, 2000); sys.fiber_stall_max = Wlog(100 * US, 100 * MS); }
    if (W(4) == 0) net.accept_abort = Wr(20, 500);
    ns_t lat = 150 * MS; auto slack = [&] { return 300 * MS + 4 * lat + stalled_total(); };
    bool over = false; std::vector<int> fs;
    int np = Wr(1, 3); for (int p = 0; p < np; p++) fs.push_back(spawn(1 + p, "established", [&] {
        Peer q; if (!q.connect(11)) fail("connect", "cannot connect"); bool first = true;
        while (!over || first) { Call* c = raw_call(1000, 1000); q.request(c); if (!q.await(c->id, SEC + slack())) { if (first && q.closed) { q.connect(11); continue; } fail("established-disturbed", "an established connection was %s while accepting failed", q.closed ? "closed" : "not answered"); } first = false; probe("work"); sleep_ns(Wlog(MS, SEC)); } }));
    wait_until([&] { return s.s->ConnectionCount() == np; }, 5 * SEC);
    ns_t healthy = now(); bool bad = false;          // since when no failure is in force
    int storms = Wr(1, 4), nodes_used = 10; bool stop_early = W(4) == 0, stopped = false;
    auto fresh = [&](bool must) {                     // a new connection is served within a bounded time, or at once if the server was not disturbed
        ns_t t0 = now(); ns_t limit = 3 * SEC + 100 * MS + 600 * MS + slack();
        int tries = 0;
        for (;;) { Peer q; tries++; if (q.connect(11, 8000, 500 * MS + 2 * lat)) { Call* c = raw_call(); q.request(c); if (q.await(c->id, SEC + slack())) { probe("fresh_served"); return true; } }
            if (!must || stopped) return false;
            if (now() > t0 + 3 * SEC + 100 * MS + 600 * MS + slack() && !bad) { (void)limit; fail("not-recovered", "%.3f s after the last failure to accept new connections are still not served (%d tries)", (now() - healthy) / 1e9, tries); }
            sleep_ns(Wlog(MS, 200 * MS)); } };
    int comers = spawn(nodes_used, "newcomers", [&] { while (!over) { sleep_ns(Wlog(MS, SEC)); if (over) break; fresh(false); } });
    for (int i = 0; i < storms && !stopped; i++) {
        sleep_ns(Wlog(MS, 5 * SEC)); int err = pick_errno(); int ev0 = s.evh->notified; uint64_t f0 = fault_count(F_ACCEPT_EMFILE); int mode = W(4); bad = true;
        if (mode < 2) force_accept_fail(11, err, Wr(1, 4)); else force_accept_fail(11, err, -1);
        if (W(3) == 0) force_bind_fail(11, W(2) ? EADDRINUSE : EACCES, W(2) ? (int)Wr(1, 3) : -1);
        if (W(3) == 0) force_listen_fail(11, W(2) ? EADDRINUSE : ENOBUFS, W(2) ? (int)Wr(1, 3) : -1);
        if (W(3) == 0) force_socket_fail(11, EMFILE, W(2) ? (int)Wr(1, 3) : -1);
        note("accepting fails from now on (errno %d)", err);
        sleep_ns(Wlog(MS, 12 * SEC));
        if (stop_early && i == storms - 1) { stopped = true; break; }
        force_accept_fail(11, 0, 0); force_bind_fail(11, 0, 0); force_listen_fail(11, 0, 0); force_socket_fail(11, 0, 0); healthy = now(); bad = false; note("accepting works again");
        set_node(20 + i); fresh(true); set_node(0);
        uint64_t failures = fault_count(F_ACCEPT_EMFILE) - f0; int ev = s.evh->notified - ev0;
        if (failures && !ev) fail("not-notified", "%lu accepts failed, but the event handler was not notified", (unsigned long)failures);
        if (ev > (int)failures) fail("notified-falsely", "%lu accepts failed, but the event handler was notified %d times", (unsigned long)failures, ev);
        if (ev && s.evh->last != (err == EMFILE ? sofa::pbrpc::RPC_ERROR_TOO_MANY_OPEN_FILES : sofa::pbrpc::RPC_ERROR_UNKNOWN)) fail("notified-falsely", "the event handler was told the error %d for errno %d", s.evh->last, err);
        if (ev) probe("accept_failed");
        if (!s.s->IsListening()) fail("not-listening", "new connections are served, but IsListening() is false");
    }
    if (stopped) {
        over = true; for (int f : fs) join(f); join(comers);
        bounded("stopping the server while it cannot accept", 5 * SEC + slack(), [&] { s.stop(); }); probe("stop_in_recovery");
        if (listening(11, 8000)) fail("still-listening", "the server listens after it was stopped");
        sleep_ns(4 * SEC); if (listening(11, 8000)) fail("still-listening", "the server listens again after it was stopped");
        force_accept_fail(11, 0, 0); force_bind_fail(11, 0, 0); force_listen_fail(11, 0, 0); force_socket_fail(11, 0, 0);
        if (W(2)) { if (!s.start()) fail("restart-fails", "the server does not start again"); stopped = false; bad = false; healthy = now(); set_node(30); fresh(true); set_node(0); }
    } else { over = true; for (int f : fs) join(f); join(comers); }
    std::vector<int> nodes(1, 11); s.destroy(); teardown_check(nodes);
}
SCENARIO(c12_start, "starting a server fails; nothing is left, and it can start later") {
    world_init(); if (W(2)) { sys.fiber_stall = Wr(20, 2000); sys.fiber_stall_max = Wlog(100 * US, 20 * MS); }
    RpcServerOptions o = small_server(); Server s(11, 8000, o); set_node(11); int fds = open_fds(11), threads = live_threads(11);
    int rounds = Wr(1, 5); bool running = false;
    for (int i = 0; i < rounds; i++) {
        int lfd = -1; int m = W(6); bool expect = false; std::string addr = "0.0.0.0:8000"; 
        switch (m) {
        case 0: force_bind_fail(11, W(2) ? EADDRINUSE : EACCES, 1); break;
        case 1: force_listen_fail(11, W(2) ? EADDRINUSE : ENOBUFS, 1); break;
        case 2: force_socket_fail(11, W(2) ? EMFILE : ENOBUFS, -1); break;
        case 3: lfd = raw_listen(8000); break;
        case 4: addr = "nowhere.example:8000"; break;
        default: expect = true; break;
        }
        bool r = false; bounded("RpcServer::Start", 10 * SEC + 2 * stalled_total(), [&] { r = s.s->Start(addr); });
        force_bind_fail(11, 0, 0); force_listen_fail(11, 0, 0); force_socket_fail(11, 0, 0); if (lfd >= 0) raw_close(lfd);
        if (r != expect) fail(expect ? "start-fails" : "start-falsely-succeeds", expect ? "the server does not start" : "Start() returned true although the server cannot listen");
        probe("work");
        if (!r) {
            probe("start_failed");
            if (live_threads(11) != threads) fail("thread-left", "%d threads run after a failed start, %d before", live_threads(11), threads);
            if (open_fds(11) != fds) fail("fd-left", "%d descriptors are open after a failed start, %d before", open_fds(11), fds);
            if (s.s->IsListening()) fail("listening", "IsListening() is true after a failed start"); if (listening(11, 8000)) fail("listening", "the port is open after a failed start");
        } else {
            running = true; NodeScope sc(1); Peer q; if (!q.connect(11)) fail("connect", "cannot connect to a started server"); Call* c = raw_call(); q.request(c); if (!q.await(c->id, SEC + 2 * stalled_total())) fail("not-served", "a started server does not serve");
            q.close(); { NodeScope b(11); bounded("RpcServer::Stop", 10 * SEC + 2 * stalled_total(), [&] { s.s->Stop(); }); } running = false;
        }
    }
    (void)running; set_node(0);
    s.destroy(); std::vector<int> nodes(1, 11); teardown_check(nodes);
}
