// C02 C03 C04 C05 C15 C16: calls over simple channels
#include "calls.h"
#include <sofa/pbrpc/rpc_meta.pb.h>
using namespace sc;

// ---------------------------------------------------------------- C02
SCENARIO(c02_clean, "no loss of connections: every call has exactly its handler's result, however the bytes are cut") {
    world_init(); Mix m; m.nem_reset = m.nem_partition = m.nem_crash = m.nem_stop = m.nem_pause = false; m.nem_skew = true;
    m.env.conn = false; m.callers = 5; m.per_caller = 6; m.think_max = 20 * MS;
    CallCfg& k = m.call; k.compress = 60; k.fail_pct = 12; k.defer_pct = 35; k.slow_pct = 10; k.async_pct = 75; k.bad_pct = 6; k.default_tmo_pct = 0; k.tmo_lo = 400000; k.tmo_hi = 900000;
    CallsBed b(m); b.sopt.read_buffer_base_block_factor = Wr(0, 9); b.sopt.write_buffer_base_block_factor = Wr(0, 9);
    uint32_t lim = W(3) == 0 ? 300000 : W(2) ? 60000 : 3000; b.m.call.max_size = lim; b.m.call.max_resp = W(2) ? lim : lim / 8;
    b.start(); if (net.sndbuf_min && lim > 60000) { net.sndbuf_min = 8192; net.sndbuf_max = 65536; }
    b.wait_callers(); b.finish(3 * SEC); expect_all_ok();
    b.heal(); b.expect_recovery(20 * SEC); b.destroy();
}
SCENARIO(c02_lossy, "connections are lost in the middle of messages; what succeeds is still exactly right") {
    world_init(); Mix m; m.callers = 5; m.per_caller = 8; m.think_max = 20 * MS; m.nem_crash = m.nem_stop = W(3) == 0; m.nem_partition = W(3) == 0; m.nem_gap_lo = 100 * US; m.nem_gap_hi = 100 * MS;
    CallCfg& k = m.call; k.compress = 50; k.fail_pct = 12; k.defer_pct = 35; k.async_pct = 75; k.default_tmo_pct = 5; k.tmo_lo = 200; k.tmo_hi = 20000;
    uint32_t lim = W(3) == 0 ? 200000 : W(2) ? 30000 : 3000; k.max_size = lim; k.max_resp = W(2) ? lim : lim / 8;
    CallsBed b(m); b.sopt.read_buffer_base_block_factor = Wr(0, 9); b.sopt.write_buffer_base_block_factor = Wr(0, 9);
    b.start(); if (net.sndbuf_min && lim > 20000) { net.sndbuf_min = 8192; net.sndbuf_max = 65536; }
    b.wait_callers(); b.finish(3 * SEC); b.heal(); b.finish(3 * SEC); b.expect_recovery(20 * SEC); b.destroy(); check_calls();
}

// ---------------------------------------------------------------- C03
SCENARIO(c03_once, "connections break around sending; nothing is executed twice") {
    world_init(); Mix m; m.callers = 6; m.per_caller = 10; m.think_max = 5 * MS; m.nem_partition = W(3) == 0; m.nem_gap_lo = 20 * US; m.nem_gap_hi = 30 * MS;
    CallCfg& k = m.call; k.async_pct = 85; k.tmo_lo = 50; k.tmo_hi = 4000; k.max_size = W(2) ? 300 : 20000; k.max_resp = 1000;
    CallsBed b(m); b.start(); b.wait_callers(); b.finish(3 * SEC); b.heal(); b.finish(3 * SEC); b.expect_recovery(20 * SEC); b.destroy(); check_calls();
}
SCENARIO(c03_queued, "requests time out while they wait unsent behind a blocked connection; they are never executed") {
    world_init(); Server s(11); if (!s.start()) fail("start", "Start() failed");
    random_latency(); if (W(2)) { net.short_write = Wr(20, 400); net.short_read = Wr(20, 400); } if (W(2)) net.segment = Wr(20, 400);
    set_node(1); set_sndbuf(11, Wr(512, 4096));
    RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
    CallCfg k; k.bad_pct = 0; k.async_pct = 100; k.default_tmo_pct = 0; k.tmo_lo = 3000; k.tmo_hi = 6000; k.max_size = 300; k.defer_pct = k.slow_pct = 0; k.compress = 0; k.fail_pct = 0;
    for (int i = 0; i < (int)Wr(0, 3); i++) { Call* c = make_call(k); issue(c, ch); }
    sleep_ns(Wlog(0, 500 * MS));
    bool via_partition = W(2);
    if (via_partition) partition(1, 11, true); else node_pause(11, 60 * SEC);
    // these fill the socket buffer; everything issued later waits in the client
    CallCfg big = k; big.max_size = 9000; int nbig = Wr(2, 6); uint64_t first = w->next_id;
    for (int i = 0; i < nbig; i++) { Call* c = make_call(big); issue(c, ch); }
    uint64_t queued_from = w->next_id; int nq = Wr(2, 10);
    for (int i = 0; i < nq; i++) { CallCfg q = k; q.tmo_lo = 100; q.tmo_hi = 3000; q.async_pct = 60; Call* c = make_call(q); if (c->async) issue(c, ch); else spawn(1, "caller", [c, ch] { issue(c, ch); }); if (W(3) == 0) sleep_ns(Wlog(0, 50 * MS)); }
    sleep_ns(10 * MS);
    finish_calls(3 * SEC);
    sleep_ns(Wlog(0, SEC));
    if (via_partition) partition(1, 11, false); else wait_until([] { return now() > 70 * SEC; }, 80 * SEC, 100 * MS);
    sleep_ns(5 * SEC);
    // a message of which bytes had already gone out when its call ended is the one exception per connection
    int late = 0; for (auto& p : w->calls) if (p.first >= first && !p.second->request_sent && !p.second->execs.empty()) late++;
    if (late > 1) fail("executed-after-giving-up", "%d calls that had timed out while their requests were still unsent were executed when the connection moved again", late);
    uint64_t unsent = 0; for (auto& p : w->calls) if (p.first >= queued_from && !p.second->request_sent) unsent++;
    if (unsent) probe("timed_out_unsent"); probe("work");
    // the connection still works
    CallCfg f = k; f.max_size = 1000; Call* c = make_call(f); c->async = false; issue(c, ch); (void)c;
    finish_calls(5 * SEC); 
    delete ch; bounded("~RpcClient", 60 * SEC, [cl] { delete cl; }); s.destroy(); teardown_check({ 1, 11 });
}

// ---------------------------------------------------------------- C04
SCENARIO(c04_client, "timeouts of calls are neither early nor late, whatever the server and the network do") {
    world_init(); Mix m; m.env.stalls = false; m.env.net = W(2); m.env.conn = W(2); m.nem_pause = false; m.nem_crash = W(4) == 0; m.nem_stop = W(4) == 0; m.nem_reset = W(2); m.nem_partition = true; m.callers = 6; m.per_caller = 5;
    CallCfg& k = m.call; k.default_tmo_pct = 35; k.tmo_lo = 1; k.tmo_hi = 20000; k.slow_pct = 25; k.defer_pct = 40; k.slow_us = 15000000; k.async_pct = 60; k.max_size = 600; k.max_resp = 600; k.bad_pct = 2;
    CallsBed b(m); b.start(); net.stall = 0;
    if (b.m.nem_partition && W(2)) for (int i = 0; i < b.m.clients; i++) if (W(2)) { int c = b.cnode(i); spawn(0, "hold", [c] { sleep_ns(Wlog(MS, 2 * SEC)); partition(c, 11, true); sleep_ns(Wlog(SEC, 12 * SEC)); partition(c, 11, false); }); }
    // complete at most one timer period (100 ms) plus scheduling after the timeout
    b.wait_callers(); b.finish(250 * MS);
    for (auto& p : w->calls) if (p.second->code == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT) probe("timed_out");
    b.heal(); b.destroy(); check_calls();
}
SCENARIO(c04_precedence, "the timeout of the controller goes before that of the method, the service and the default") {
    world_init(); random_latency(); Server s(11); s.start(); set_node(1);
    RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
    CallCfg k; k.bad_pct = 0; k.fail_pct = 0; k.defer_pct = 100; k.slow_pct = 0; k.max_size = k.max_resp = 100; k.tmo_lo = 1; k.tmo_hi = 30000; k.default_tmo_pct = 60; k.async_pct = 70;
    int n = Wr(3, 12); std::vector<int> f;
    for (int i = 0; i < n; i++) f.push_back(spawn(1, "caller", [&k, ch] { sleep_ns(Wlog(0, SEC));
        Call* c = make_call(k); bool never = W(2);   // answers well after or well before the timeout
        c->delay_us = never ? c->timeout_ms * 1000 + 1000000 : c->timeout_ms * 400; c->req->set_delay_us(c->delay_us); c->mode = 1; c->req->set_mode(1); issue(c, ch);
        wait_until([c] { return c->done; }, 60 * SEC); probe("work");
        if (never && c->code != sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT) fail("timeout-missed", "call %lu (timeout %ld ms) ends with %s though its handler took %u ms", (unsigned long)c->id, (long)c->timeout_ms, code_name(c->code), c->delay_us / 1000);
        if (!never && c->timeout_ms > 700 && c->code != 0) fail("spurious-failure", "call %lu (timeout %ld ms) ends with %s: %s though its handler took only %u ms", (unsigned long)c->id, (long)c->timeout_ms, code_name(c->code), c->text.c_str(), c->delay_us / 1000);
    }));
    for (int x : f) join(x);
    finish_calls(250 * MS); wait_until([] { return w->deferred_pending == 0; }, 100 * SEC, 100 * MS);
    delete ch; delete cl; s.destroy(); teardown_check({ 1, 11 });
}
// A scripted client sends a batch of requests in one piece to a server with one thread; the first handler blocks.
SCENARIO(c04_server, "a request whose timeout expired while it waited on the server is not executed, any other one is") {
    world_init(); random_latency(); RpcServerOptions o; o.work_thread_num = 1;
    if (W(3) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS);
    Server s(11, 8000, o); s.start(); set_node(1);
    int fd = raw_connect(11, 8000); if (fd < 0) fail("connect", "cannot connect to an idle server");
    int n = Wr(2, 8); std::string all; std::vector<Call*> cs; CallCfg k; k.bad_pct = k.fail_pct = k.compress = 0; k.defer_pct = k.slow_pct = 0; k.default_tmo_pct = 0; k.max_size = k.max_resp = 200;
    ns_t first_start = -1;
    for (int i = 0; i < n; i++) {
        Call* c = make_call(k); c->method = 0; bool slow = i == 0 || W(3) == 0; c->timeout_ms = W(4) == 0 ? 0 : Wlog(1, 3000); if (i == 0) c->timeout_ms = 0;
        if (slow) { c->mode = 3; c->delay_us = Wlog(1000, 2000000); c->req->set_mode(3); c->req->set_delay_us(c->delay_us); }
        sofa::pbrpc::RpcMeta m; m.set_type(sofa::pbrpc::RpcMeta::REQUEST); m.set_sequence_id(c->id); m.set_method("simtest.EchoService.Echo"); if (c->timeout_ms) m.set_server_timeout(c->timeout_ms);
        std::string ms, ds; m.SerializeToString(&ms); c->req->SerializeToString(&ds); all += frame(ms, ds); cs.push_back(c);
    }
    w->on_exec = [&](Call* c) {
        if (first_start < 0) first_start = now();     // every request of the batch had been received by then
        else if (c->timeout_ms && now() - first_start > c->timeout_ms * MS + 2 * MS) fail("executed-after-timeout", "request %lu with a timeout of %ld ms is executed after waiting at least %.3f s on the server", (unsigned long)c->id, (long)c->timeout_ms, (now() - first_start) / 1e9);
    };
    ns_t sent = now(); raw_send(fd, all.data(), all.size());
    ns_t total = 0; for (Call* c : cs) total += c->delay_us * 1000LL;
    // answers: everything that was executed within its timeout
    std::string in; char buf[4096]; ns_t end = now() + total + 2 * SEC; size_t pos = 0; std::set<uint64_t> answered;
    while (now() < end) {
        int r = raw_recv(fd, buf, sizeof buf, std::max<ns_t>(1, std::min<ns_t>(end - now(), 200 * MS))); if (r == 0 || r == -1) fail("connection-lost", "the server closed a connection with valid requests"); if (r > 0) in.append(buf, r);
        while (in.size() - pos >= 24) { int32_t ml; int64_t dl; memcpy(&ml, &in[pos + 4], 4); memcpy(&dl, &in[pos + 8], 8); if (in.size() - pos < 24 + ml + dl) break;
            sofa::pbrpc::RpcMeta m; if (!m.ParseFromString(in.substr(pos + 24, ml))) fail("wrong-response", "unreadable answer"); if (m.failed()) fail("wrong-response", "answer with an error: %s", m.reason().c_str());
            if (!answered.insert(m.sequence_id()).second) fail("answered-twice", "two answers to request %lu", (unsigned long)m.sequence_id());
            simtest::Resp rp; if (!rp.ParseFromString(in.substr(pos + 24 + ml, dl)) || rp.id() != m.sequence_id() || rp.payload() != gen(rp.id(), w->calls[rp.id()]->resp_size, 1)) fail("wrong-response", "answer %lu with a wrong body", (unsigned long)m.sequence_id());
            pos += 24 + ml + dl; }
    }
    ns_t acc = 0; bool skipped = false;
    for (Call* c : cs) {
        ns_t waited = c->execs.empty() ? -1 : c->execs[0].at - sent;
        if (c->execs.empty()) {
            skipped = true;
            // it can only have been dropped for its timeout: it had waited at most since it was sent
            ns_t most = acc + 300 * MS + stalled_total();
            if (!c->timeout_ms || most < c->timeout_ms * MS) fail("not-executed", "request %lu (timeout %ld ms) was never executed though it waited at most %.3f s", (unsigned long)c->id, (long)c->timeout_ms, most / 1e9);
        } else {
            acc += c->delay_us * 1000LL + MS;
            if ((!c->timeout_ms || waited + c->delay_us * 1000LL + 20 * MS < c->timeout_ms * MS) && !answered.count(c->id)) fail("not-answered", "request %lu (timeout %ld ms) was executed in time and never answered", (unsigned long)c->id, (long)c->timeout_ms);
        }
    }
    if (skipped) probe("expired_on_server"); probe("work");
    raw_close(fd); s.destroy(); teardown_check({ 11 });
}

// ---------------------------------------------------------------- C05
static void conn_bed(bool faulty) {
    world_init(); Mix m; m.servers = 3; m.clients = 2; m.callers = 6; m.per_caller = 6; m.think_max = 300 * MS; m.env.conn = faulty; if (!faulty) m.nem_reset = m.nem_partition = m.nem_crash = m.nem_stop = m.nem_pause = false; else { m.nem_gap_lo = 10 * MS; m.nem_gap_hi = 2 * SEC; }
    m.call.default_tmo_pct = 0; if (!faulty) { m.call.tmo_lo = 60000; m.call.tmo_hi = 90000; m.call.defer_pct = 20; m.call.fail_pct = 5; }
    CallsBed b(m); b.start();
    // more channels to the same addresses, written in other ways
    for (int i = 0; i < b.m.clients; i++) { NodeScope ns(b.cnode(i)); int extra = Wr(1, 3);
        for (int e = 0; e < extra; e++) b.callers.push_back(spawn(b.cnode(i), "other-channel", [&b, i] {
            sleep_ns(Wlog(0, 20 * MS)); int s = W(b.m.servers); RpcChannelOptions o; RpcChannel* ch = W(2) ? new RpcChannel(b.clients[i], node_ip(b.snode(s)), 8000, o) : new RpcChannel(b.clients[i], addr_of(b.snode(s)), o);
            for (int k = 0; k < 4; k++) { Call* c = make_call(b.m.call); c->async = false; issue(c, ch); probe("work"); sleep_ns(Wlog(0, 100 * MS)); }
            delete ch; })); }
    b.wait_callers(); b.finish(3 * SEC); b.heal(); b.finish(3 * SEC);
    b.expect_recovery(20 * SEC);
    if (!faulty) { expect_all_ok(); }
    sleep_ns(Wlog(MS, 2 * SEC));
    for (int i = 0; i < b.m.clients; i++) {
        int want = 0;
        for (int j = 0; j < b.m.servers; j++) {
            int n = client_conns(b.cnode(i), b.snode(j), 8000); want += n;
            if (n != 1) fail("connection-count", "client %d has %d connections to server %d when all is quiet", i, n, j);
            if (!faulty) {
                int t = total_connects(b.cnode(i), b.snode(j), 8000);
                if (t != 1) fail("connection-count", "client %d made %d connections to server %d though none was ever lost", i, t, j);
            }
        }
        NodeScope ns(b.cnode(i));
        if (b.clients[i]->ConnectionCount() != want) fail("connection-count", "ConnectionCount() of client %d is %d with %d connections open", i, b.clients[i]->ConnectionCount(), want);
    }
    for (int j = 0; j < b.m.servers; j++) { NodeScope ns(b.snode(j)); 
        int n = 0; bool ok = wait_until([&] { n = b.servers[j]->s->ConnectionCount(); return n == b.m.clients; }, 5 * SEC, 10 * MS);
        if (!ok && !faulty) fail("connection-count", "ConnectionCount() of server %d is %d with %d clients connected", j, n, b.m.clients); }
    b.destroy(); check_calls();
}
SCENARIO(c05_clean, "concurrent first calls over several channels share one connection per address") { conn_bed(false); }
SCENARIO(c05_lossy, "after losses of any kind connections are re-established, one per address") { conn_bed(true); }

// ---------------------------------------------------------------- C15
SCENARIO(c15_shutdown, "a client is shut down or destroyed at any moment") {
    world_init(); Mix m; m.clients = 2; m.servers = 2; m.callers = 5; m.per_caller = 8; m.think_max = 50 * MS; m.call.tmo_lo = 50; m.call.slow_us = 3000000; m.call.max_size = W(4) == 0 ? 100000 : 2000;
    CallsBed b(m); std::vector<bool> shut(b.m.clients, false); if (W(3) == 0) b.copt.connect_timeout = Wlog(50, 900000);
    // a call issued and handed over before Shutdown() returned has had its callback by then
    w->on_done = [&](Call* c) { int i = c->caller_node - 1; if (i >= 0 && i < (int)shut.size() && shut[i] && c->async && c->chan == -2) fail("callback-after-shutdown", "callback of call %lu runs after Shutdown() returned", (unsigned long)c->id); };
    b.start();
    std::vector<int> closers;
    for (int i = 0; i < b.m.clients; i++) closers.push_back(spawn(b.cnode(i), "closer", [&, i] {
        sleep_ns(Wlog(100 * US, 3 * SEC));
        int twice = W(4) == 0; int other = -1;
        if (twice) other = spawn(b.cnode(i), "closer2", [&, i] { bounded("RpcClient::Shutdown (second thread)", 60 * SEC, [&] { b.clients[i]->Shutdown(); }); });
        bounded("RpcClient::Shutdown", 60 * SEC, [&] { b.clients[i]->Shutdown(); });
        if (other >= 0) join(other);
        shut[i] = true; probe("work"); 
        // whatever was issued before has completed
        for (auto& p : w->calls) { Call* c = p.second; if (c->started && c->caller_node == b.cnode(i) && c->async && c->returned && !c->done) fail("call-incomplete-after-shutdown", "call %lu is still not complete when Shutdown() has returned", (unsigned long)c->id); }
    }));
    b.wait_callers(); for (int f : closers) join(f);
    // every call completes: those racing with the shutdown too
    b.finish(5 * SEC);
    // calls made later fail at once
    for (int i = 0; i < b.m.clients; i++) { NodeScope ns(b.cnode(i)); CallCfg k; k.tmo_lo = k.tmo_hi = 5000; k.default_tmo_pct = 0;
        for (int t = 0; t < 2; t++) { Call* c = make_call(k); c->async = t; issue(c, b.chans[i][W(b.m.servers)]); 
            wait_until([c] { return c->done; }, 8 * SEC); if (!c->done) fail("call-hangs", "a call made after Shutdown() never completes"); if (c->success) fail("call-after-shutdown", "a call made after Shutdown() succeeds"); } }
    b.heal(); b.destroy(); check_calls();
}

// ---------------------------------------------------------------- C16
SCENARIO(c16_stop, "a server is stopped and started again at any moment") {
    world_init(); Mix m; m.clients = 2; m.servers = 1; m.callers = 5; m.per_caller = 10; m.think_max = 300 * MS; m.nem_crash = m.nem_stop = false; m.call.slow_us = 500000;
    CallsBed b(m); b.start(); Server* s = b.servers[0]; bool end = false; int other = -1;
    if (W(3) == 0) other = spawn(11, "observer", [&] { while (!end) { sleep_ns(Wlog(10 * US, 100 * MS)); if (!s->s || !s->started) continue; switch (W(4)) { case 0: s->s->ConnectionCount(); break; case 1: s->s->IsListening(); break; case 2: s->s->ServiceCount(); break; case 3: s->s->GetOptions(); break; } } });
    bool accept_faults = W(3) == 0;
    int ctl = spawn(0, "operator", [&] {
        int n = Wr(1, 5);
        for (int i = 0; i < n; i++) {
            sleep_ns(Wlog(50 * US, 3 * SEC));
            if (accept_faults && W(2)) { force_accept_fail(11, EMFILE, Wr(1, 3)); sleep_ns(Wlog(MS, 500 * MS)); }
            int est0 = established(-1, 11, 8000);
            int second = -1; if (W(4) == 0) second = spawn(11, "stop2", [&] { bounded("RpcServer::Stop (second thread)", 60 * SEC, [&] { s->s->Stop(); }); });
            s->stop(); if (second >= 0) join(second);
            if (est0) probe("stopped_with_connections"); probe("work");
            w->stopped[11] = true; int before = live_threads(11);
            if (before) { bool ok = wait_until([] { return live_threads(11) == 0; }, 5 * SEC); if (!ok) fail("threads-after-stop", "%d threads of the server still run 5 s after Stop()", live_threads(11)); }
            { NodeScope ns(11); if (s->s->IsListening()) fail("state-after-stop", "IsListening() after Stop()"); if (s->s->ConnectionCount() != 0) fail("state-after-stop", "ConnectionCount() is %d after Stop()", s->s->ConnectionCount()); }
            if (listening(11, 8000)) fail("state-after-stop", "the port still listens after Stop()");
            wait_until([] { return w->deferred_pending == 0; }, 20 * SEC, 10 * MS);
            ns_t t = now() + 5 * SEC + stalled_total(); while (open_fds(11) && now() < t) sleep_ns(10 * MS);
            if (open_fds(11)) fail("connections-after-stop", "%d descriptors of the server still open 5 s after Stop()", open_fds(11));
            sleep_ns(Wlog(1, SEC));
            if (!s->start()) fail("start", "a stopped server cannot be started again on the same port");
        }
    });
    b.wait_callers(); join(ctl); end = true; if (other >= 0) join(other);
    b.finish(3 * SEC); b.heal(); b.finish(3 * SEC); b.expect_recovery(20 * SEC); b.destroy(); check_calls();
}
