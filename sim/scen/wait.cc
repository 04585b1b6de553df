// C04: what the client tells the server, and connect timeouts
#include "calls.h"
using namespace sc;

// One thread serves the server, so what arrived together waits behind the slow handlers before it. last_rx() is when the
// requests being handled were taken up: the server tries to read on at once, and not again until they are all through.
SCENARIO(c04_wait, "requests of a client wait behind slow handlers on the server; those that expire there are not executed, the others are") {
    world_init(); random_latency(); RpcServerOptions o; o.work_thread_num = 1; if (W(3) == 0) o.read_buffer_base_block_factor = Wr(0, 9);
    if (W(3) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS);
    if (W(3) == 0) clock_skew(1, ((int64_t)W(2000) - 1000) * 100 * MS);
    Server s(11, 8000, o); s.start(); set_node(1);
    RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
    CallCfg k; k.bad_pct = k.fail_pct = k.defer_pct = k.slow_pct = 0; k.compress = W(2); k.max_size = k.max_resp = 100; k.async_pct = 100; k.default_tmo_pct = 0;
    w->on_exec = [&](Call* c) {
        ns_t waited = now() - last_rx(11);
        if (waited > 5 * MS) probe("waited");
        if (waited > c->timeout_ms * MS + 2 * MS) fail("executed-after-timeout", "request %lu with a timeout of %ld ms is executed after waiting at least %.3f s on the server", (unsigned long)c->id, (long)c->timeout_ms, waited / 1e9);
    };
    std::vector<Call*> cs; ns_t work = 0;     // work: what the handlers of all calls of the round can take
    auto one = [&](bool slow, int64_t tmo) { Call* c = make_call(k); c->method = W(2); c->mode = 0; c->req->set_mode(0); c->timeout_ms = tmo; c->cntl->SetTimeout(tmo);
        c->delay_us = 0; c->req->set_delay_us(0); if (slow) { c->mode = 3; c->req->set_mode(3); c->delay_us = Wlog(20000, 2000000); c->req->set_delay_us(c->delay_us); }
        cs.push_back(c); work += c->delay_us * 1000LL + 5 * MS; issue(c, ch); };
    int rounds = Wr(1, 3);
    for (int r = 0; r < rounds; r++) {
        size_t from = cs.size(); work = 0; one(true, 60000); sleep_ns(Wlog(100 * US, 150 * MS));   // the rest arrives while this one is handled
        int n = Wr(2, 8); for (int i = 0; i < n; i++) { one(W(3) == 0, W(5) == 0 ? 60000 : Wlog(5, 5000)); }
        for (size_t i = from; i < cs.size(); i++) wait_until([&, i] { return cs[i]->done; }, 70 * SEC, MS);
        sleep_ns(100 * MS); wait_until([] { return w->executing == 0; }, 60 * SEC, MS);
        for (size_t i = from; i < cs.size(); i++) { Call* c = cs[i]; ns_t m = work;   // an answer too may wait for the handlers behind it
            if (c->done && c->code != 0 && c->code != sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT) fail("spurious-failure", "call %lu ends with %s: %s", (unsigned long)c->id, code_name(c->code), c->text.c_str());
            if (c->timeout_ms * MS > m + 500 * MS + stalled_total() && c->code != 0) fail("not-executed", "call %lu (timeout %ld ms) ends with %s though all that was asked for takes %.3f s", (unsigned long)c->id, (long)c->timeout_ms, code_name(c->code), m / 1e9);
            if (c->execs.empty()) probe("expired_on_server"); }
        probe("work"); sleep_ns(Wlog(MS, 3 * SEC)); wait_until([] { return w->executing == 0; }, 60 * SEC, MS);
    }
    finish_calls(250 * MS); delete ch; delete cl; s.destroy(); check_calls(); teardown_check({ 1, 11 });
}

SCENARIO(c04_connect, "connections are established late or never; calls waiting for one fail at the connect timeout, and only then") {
    world_init(); random_latency(); Server s(11); s.start(); set_node(1);
    RpcClientOptions co = small_client(); int64_t T = co.connect_timeout = W(6) == 0 ? -1 : (int)Wlog(150, 4000); RpcClient* cl = new RpcClient(co); std::vector<RpcChannel*> chs; int nch = Wr(1, 2); for (int i = 0; i < nch; i++) chs.push_back(new RpcChannel(cl, s.addr(), RpcChannelOptions()));
    CallCfg k; k.bad_pct = k.fail_pct = k.slow_pct = 0; k.defer_pct = 30; k.slow_us = 3000000; k.max_size = k.max_resp = 2000; k.async_pct = 60; k.tmo_lo = 60000; k.tmo_hi = 90000; k.default_tmo_pct = 0;
    int rounds = Wr(1, 3);
    for (int r = 0; r < rounds; r++) {
        ns_t t0 = now(); ns_t tmo = T > 0 ? T * MS : 3 * SEC; ns_t heal = W(3) == 0 ? tmo + Wlog(100 * MS, 3 * SEC) : W(2) ? tmo / 2 : tmo - Wlog(MS, 50 * MS); bool cut = W(4) != 0; if (!cut) heal = 0;
        bool fresh = client_conns(1, 11, 8000) == 0; int made = total_connects(1, 11, 8000); ns_t stall0 = stalled_total();
        if (cut) { partition(1, 11, true); spawn(0, "heal", [heal] { sleep_ns(heal); partition(1, 11, false); }); }
        std::vector<int> f; std::vector<Call*> cs; int n = Wr(1, 5);
        for (int i = 0; i < n; i++) { Call* c = make_call(k); cs.push_back(c); RpcChannel* ch = chs[W(nch)]; ns_t at = i == 0 ? 0 : Wlog(0, tmo * 2 / 3); f.push_back(spawn(1, "caller", [c, ch, at] { sleep_ns(at); issue(c, ch); })); }
        for (int x : f) join(x);
        for (Call* c : cs) wait_until([c] { return c->done; }, 100 * SEC, MS);
        ns_t first = cs[0]->issued, st = stalled_total() - stall0; bool late = fresh && heal > tmo + 20 * MS, early = !fresh || !cut || T <= 0 || heal + 130 * MS + st < tmo;
        if (late) probe("connect_timeout");
        for (Call* c : cs) {
            if (!c->done) fail("never-done", "call %lu is not complete after 100 s", (unsigned long)c->id);
            if (c->code != 0) {
                if (T <= 0) fail("spurious-failure", "call %lu ends with %s: %s though there is no connect timeout and nothing was lost", (unsigned long)c->id, code_name(c->code), c->text.c_str());
                if (c->completed < first + tmo - MS) fail("connect-timeout-early", "call %lu ends with %s after %.3f s though the connect timeout is %ld ms", (unsigned long)c->id, code_name(c->code), (c->completed - first) / 1e9, (long)T);
                if (early) fail("connect-timeout-early", "call %lu ends with %s: %s though the connection was possible after %.3f s and the connect timeout is %ld ms", (unsigned long)c->id, code_name(c->code), c->text.c_str(), heal / 1e9, (long)T);
                if (c->code == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT || c->completed > c->issued + tmo + 50 * MS + st) fail("connect-timeout-late", "call %lu ends with %s %.3f s after it was made, the connect timeout is %ld ms", (unsigned long)c->id, code_name(c->code), (c->completed - c->issued) / 1e9, (long)T);
                if (late && st < 15 * MS && !c->execs.empty()) fail("executed-though-refused", "call %lu failed for want of a connection, but it was executed", (unsigned long)c->id);
            } else if (late && T > 0 && c->issued < first + tmo - MS) fail("connect-timeout-missed", "call %lu succeeds after %.3f s though no connection was possible for %.3f s and the connect timeout is %ld ms", (unsigned long)c->id, (c->completed - c->issued) / 1e9, heal / 1e9, (long)T);
        }
        if (now() < t0 + heal) sleep_ns(t0 + heal - now());
        sleep_ns(Wlog(MS, 2 * SEC));
        // it can be used now, and is never given up once it is established
        Call* c = make_call(k); if (W(2)) { c->mode = 1; c->req->set_mode(1); c->delay_us = tmo / 1000 * 2; c->req->set_delay_us(c->delay_us); } else { c->mode = 0; c->req->set_mode(0); }
        issue(c, chs[0]); wait_until([c] { return c->done; }, 100 * SEC, MS); if (c->code != 0) fail("no-recovery", "call %lu fails with %s: %s though the server is reachable", (unsigned long)c->id, code_name(c->code), c->text.c_str());
        int total = total_connects(1, 11, 8000) - made; if (total > (fresh && !early ? 2 : fresh)) fail("connection-lost", "%d connections were made though nothing was lost", total);
        probe("work");
        if (W(3)) { NodeScope ns(11); s.stop(); sleep_ns(Wlog(MS, SEC)); if (!s.start()) fail("start-failed", "the server cannot be started again"); sleep_ns(200 * MS); }   // the next round connects again
    }
    finish_calls(250 * MS);
    if (W(3) == 0) {   // nothing stays of a connection that is being made
        s.stop(); partition(1, 11, true); std::vector<Call*> cs; for (int i = 0; i < 2; i++) { Call* c = make_call(k); c->async = true; cs.push_back(c); issue(c, chs[0]); } sleep_ns(Wlog(MS, 300 * MS)); for (auto ch : chs) delete ch; chs.clear(); delete cl; cl = NULL;
        for (Call* c : cs) if (!c->done) fail("never-done", "call %lu is not complete though the client was destroyed", (unsigned long)c->id); partition(1, 11, false); probe("destroyed_connecting"); }
    for (auto ch : chs) delete ch; delete cl; wait_until([] { return w->deferred_pending == 0; }, 100 * SEC, 100 * MS); s.destroy(); check_calls(); teardown_check({ 1, 11 });
}
