// C09: pending send buffers
#include "raw.h"
using namespace sc;
namespace {
const int64_t MB = 1 << 20;
int64_t footprint(int64_t n) { n += 200; return std::min(2 * n + 4096, n + 40000); }          // at most this much buffer for a message of n bytes
// a limit over time
struct Lim {
    struct Set { ns_t from, to; int64_t n; }; std::vector<Set> h; Lim(int64_t n) { Set s = { 0, 0, n }; h.push_back(s); }
    template <class F> void each(ns_t a, ns_t b, F f) const { for (size_t i = 0; i < h.size(); i++) { ns_t end = i + 1 < h.size() ? (h[i + 1].to < 0 ? INT64_MAX : h[i + 1].to) : INT64_MAX; if (end >= a && h[i].from <= b) f(h[i].n); } }
    int64_t most(ns_t a, ns_t b) const { int64_t r = -1; each(a, b, [&](int64_t n) { r = std::max(r, n); }); return r; }
    int64_t least(ns_t a, ns_t b) const { int64_t r = INT64_MAX; each(a, b, [&](int64_t n) { r = std::min(r, n); }); return r; }
    int64_t cur() const { return h.back().n; }
};
struct Acct { Call* c; int64_t bytes; ns_t issued, returned, arrived; uint64_t tx; };
}
SCENARIO(c09_client, "a client whose connection drains slowly or not at all; calls beyond the limit are refused, the others kept") {
    world_init(); int64_t L0 = W(4) ? Wr(1, 3) : 0; Lim lim(L0 * MB); bool tmo = W(4) == 0, resets = W(5) == 0, change = W(3) == 0; uint32_t cap = Wlog(10000, 200000);
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 10 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); set_sndbuf(11, cap);
    if (W(2)) { net.short_read = Wr(20, 300); net.short_write = Wr(20, 300); net.segment = Wr(20, 300); } if (W(2)) { sys.fiber_stall = Wr(10, 500); sys.fiber_stall_max = Wlog(100 * US, 50 * MS); }
    std::map<uint64_t, Acct> acct; bool reading = false, stop = false; int slow = 0; std::vector<int> conns, fs; std::vector<int> fds;
    // the server: takes requests only while <reading>, answers every one
    auto serve = [&](int fd) {
        std::string in; char buf[65536];
        while (!stop) {
            if (!reading) { sleep_ns(5 * MS); continue; }
            int r = raw_recv(fd, buf, slow ? std::min<size_t>(slow, sizeof buf) : sizeof buf, 50 * MS); if (slow) sleep_ns(Wlog(100 * US, 10 * MS));
            if (r == -2) continue; if (r <= 0) break;
            in.append(buf, r); size_t pos = 0;
            while (in.size() - pos >= 24) {
                int32_t ml; int64_t dl; memcpy(&ml, &in[pos + 4], 4); memcpy(&dl, &in[pos + 8], 8); if (memcmp(&in[pos], "SOFA", 4) || ml < 0 || dl < 0) fail("garbled", "the requests on the wire are garbled");
                if (in.size() - pos < (size_t)(24 + ml + dl)) break;
                sofa::pbrpc::RpcMeta m; simtest::Req q; if (!m.ParseFromString(in.substr(pos + 24, ml)) || !q.ParseFromString(in.substr(pos + 24 + ml, dl))) fail("garbled", "the client sent an unreadable request"); pos += 24 + ml + dl;
                auto i = acct.find(q.id()); if (i == acct.end()) fail("garbled", "a request that nobody issued"); Call* c = i->second.c;
                if (i->second.arrived >= 0) fail("sent-twice", "request %lu was sent twice", (unsigned long)q.id()); if (q.payload() != gen(c->id, c->size, 0)) fail("garbled", "request %lu was changed on its way", (unsigned long)q.id());
                if (c->done && c->code == sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL) fail("refused-but-sent", "call %lu was refused, but its request was sent", (unsigned long)c->id);
                i->second.arrived = now(); Exec e = { 11, now(), event_seq() }; c->execs.push_back(e);
                simtest::Resp rp; rp.set_id(c->id); rp.set_node(11); rp.set_text(c->req_text); rp.set_payload(gen(c->id, c->resp_size, 1)); int64_t sum = 0; for (int k = 0; k < (int)(c->id % 5); k++) sum += c->id * 3 + k; rp.set_sum(sum);
                sofa::pbrpc::RpcMeta o; o.set_type(sofa::pbrpc::RpcMeta::RESPONSE); o.set_sequence_id(m.sequence_id()); o.set_failed(false); std::string b = frame(o.SerializeAsString(), rp.SerializeAsString()); if (!raw_send(fd, b.data(), b.size())) break;
            }
            in.erase(0, pos);
        }
        raw_close(fd); };
    int acc = spawn(11, "server", [&] { int lfd = raw_listen(8000); while (!stop) { int fd = raw_accept(lfd, 50 * MS); if (fd >= 0) conns.push_back(spawn(11, "conn", [&serve, fd] { serve(fd); })); } raw_close(lfd); });
    Server other(12); other.start(); sleep_ns(5 * MS);
    set_node(1); RpcClientOptions o = small_client(); o.max_pending_buffer_size = L0; RpcClient* cl = new RpcClient(o); RpcChannel* ch = new RpcChannel(cl, addr_of(11), RpcChannelOptions()); RpcChannel* ok = new RpcChannel(cl, addr_of(12), RpcChannelOptions());
    uint32_t M = Wlog(500, 300000); int nc = Wr(1, 3); bool over = false; uint64_t other_tx = 0; int refused = 0;
    auto one = [&](int64_t t) { CallCfg g; g.bad_pct = g.fail_pct = g.defer_pct = g.slow_pct = g.compress = 0; g.default_tmo_pct = 0; g.tmo_lo = g.tmo_hi = t; g.async_pct = 100; g.max_size = M; g.max_resp = 50;
        Call* c = make_call(g); c->method = 0; c->delete_early = false; if (W(3) == 0) { c->size = M; c->req->set_payload(gen(c->id, M, 0)); } Acct a = { c, (int64_t)c->req->ByteSizeLong() + 24, now(), INT64_MAX, -1, 0 }; acct[c->id] = a; issue(c, ch); acct[c->id].returned = now(); acct[c->id].tx = bytes_tx(1); probe("work"); return c; };
    for (int i = 0; i < nc; i++) fs.push_back(spawn(1, "caller", [&] { int n = 0, ref = 0; int64_t sent = 0; while (!over && n++ < 300 && ref < 12 && sent < 12 * MB) {
        Call* c = one(tmo && W(2) ? Wlog(100, 3000) : 900000); sent += c->size; if (c->done && c->code == sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL) ref++; if (W(6) == 0 || M < 20000) sleep_ns(Wlog(1, M < 20000 ? 2 * MS : 300 * MS)); } }));
    fs.push_back(spawn(1, "elsewhere", [&] { while (!over) { CallCfg g; g.bad_pct = 0; g.fail_pct = 0; g.default_tmo_pct = 0; g.tmo_lo = g.tmo_hi = 20000; g.max_size = g.max_resp = 100; g.slow_pct = 0; Call* c = make_call(g); c->async = false; other_tx += c->size + 500; issue(c, ok); if (!c->success) fail("other-server-affected", "a call to another server failed: %s", code_name(c->code)); sleep_ns(Wlog(10 * MS, SEC)); } }));
    int rounds = Wr(1, 4); for (int r = 0; r < rounds; r++) { reading = false; sleep_ns(Wlog(10 * MS, 3 * SEC)); if (resets && W(2)) reset_conns(1, 11);
        if (change && W(2)) { int64_t n = Wr(0, 4); Lim::Set s = { now(), -1, n * MB }; lim.h.push_back(s); RpcClientOptions x = cl->GetOptions(); x.max_pending_buffer_size = n; cl->ResetOptions(x); lim.h.back().to = now(); note("limit set to %ld MB", (long)n); }
        if (r + 1 < rounds) { slow = W(2) ? Wlog(100, 20000) : 0; reading = true; sleep_ns(Wlog(MS, SEC)); } }
    over = true; for (int f : fs) join(f);
    slow = 0; reading = true; faults_off(); ns_t t0 = now(), st0 = stalled_total();
    int64_t total = 0; for (auto& p : acct) total += p.second.bytes;
    if (!wait_until([] { return all_done(); }, 30 * SEC + (total / cap + 10) * 20 * net.lat_max, 5 * MS)) { for (auto& p : acct) if (!p.second.c->done) fail("lost", "the server reads again since %.1f s, but call %lu is not complete (its request %s)", (now() - t0) / 1e9, (unsigned long)p.first, p.second.arrived >= 0 ? "arrived" : "did not arrive"); } (void)st0;
    // judge
    std::vector<Acct*> v; for (auto& p : acct) v.push_back(&p.second);
    for (Acct* a : v) {
        Call* c = a->c; bool full = c->code == sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL;
        if (full) {
            refused++; probe("refused"); int64_t up = 0; for (Acct* b : v) if (b != a && b->c->code != sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL && b->issued <= a->returned && (b->arrived < 0 || b->arrived >= a->issued)) up += footprint(b->bytes);
            int64_t l = lim.least(a->issued, a->returned); if (up <= l) fail("refused-below-limit", "call %lu was refused although at most %ld bytes were queued; the limit is %ld", (unsigned long)c->id, (long)up, (long)l);
        } else {
            if (!c->success && !(tmo && c->code == sofa::pbrpc::RPC_ERROR_REQUEST_TIMEOUT && c->timeout_ms < 900000) && !resets) fail("lost", "call %lu was accepted, but failed: %s %s", (unsigned long)c->id, code_name(c->code), c->text.c_str());
            int64_t low = 0; for (Acct* b : v) if (b != a && b->c->code != sofa::pbrpc::RPC_ERROR_SEND_BUFFER_FULL && b->returned < a->issued && !(b->c->completed >= 0 && b->c->completed <= a->returned && !b->c->success)) low += b->bytes;
            low -= (int64_t)a->tx + M + 400; int64_t l = lim.most(a->issued, a->returned);
            if (low > l && !resets) fail("accepted-beyond-limit", "call %lu was accepted although at least %ld bytes were queued; the limit is %ld", (unsigned long)c->id, (long)low, (long)l);
            if (low > l / 2 && l) probe("half_full");
        }
    }
    // the queue is empty: calls are accepted again
    if (tmo) { ns_t e = now() + 30 * SEC + (total / cap + 10) * 20 * net.lat_max; for (;;) { Call* c = one(20000); wait_until([c] { return c->done != 0; }, 25 * SEC, MS); if (c->success) break; if (now() > e) fail("refused-below-limit", "everything is complete since %.1f s, but calls still fail: %s", (now() - t0) / 1e9, code_name(c->code)); sleep_ns(100 * MS); } }   // requests that timed out leave the queue
    for (int i = 0; i < 3; i++) { Call* c = one(20000); if (!wait_until([c] { return c->done != 0; }, 25 * SEC, MS)) fail("call-hangs", "call %lu hangs", (unsigned long)c->id); if (!c->success) fail("refused-below-limit", "nothing is queued, but call %lu fails: %s", (unsigned long)c->id, code_name(c->code)); }
    delete ch; delete ok; delete cl; stop = true; join(acc); for (int f : conns) join(f); other.destroy(); teardown_check({ 1, 12 });
}
SCENARIO(c09_server, "peers that do not read their responses; the server stops taking their requests and resumes") {
    world_init(); int64_t L0 = W(4) ? Wr(1, 2) : 0; Lim lim(L0 * MB); uint32_t cap = Wlog(10000, 200000); int np = Wr(1, 3);
    random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 10 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    for (int i = 0; i < np; i++) set_sndbuf(1 + i, cap);
    if (W(2)) { net.short_read = Wr(20, 300); net.short_write = Wr(20, 300); net.segment = Wr(20, 300); } if (W(2)) { sys.fiber_stall = Wr(10, 500); sys.fiber_stall_max = Wlog(100 * US, 50 * MS); }
    RpcServerOptions o = small_server(); o.keep_alive_time = -1; o.max_pending_buffer_size = L0; Server s(11, 8000, o); s.start();
    struct P { Peer q; std::vector<Call*> calls; int64_t consumed, frozen; ns_t since; bool reading, all_sent; int slow; P() : consumed(0), frozen(-1), since(-1), reading(false), all_sent(false), slow(0) {} }; std::vector<P*> ps; std::vector<int> fs; bool over = false, stopw = false;
    uint32_t R = Wlog(20000, 300000); int n = Wr(20, 80); bool raise = W(3) == 0, paced = W(2); int executed_dummy = 0; (void)executed_dummy;
    for (int i = 0; i < np; i++) { P* p = new P; ps.push_back(p); set_node(1 + i); if (!p->q.connect(11)) fail("connect", "cannot connect"); set_node(0);
        fs.push_back(spawn(1 + i, "sender", [&, p] { for (int k = 0; k < n && !p->q.closed; k++) { Call* c = raw_call(W(4) ? 100 : 3000, 10); c->resp_size = W(3) ? R : Wlog(1, R); c->req->set_resp_size(c->resp_size); p->calls.push_back(c); p->q.request(c); probe("work"); if (paced || W(4) == 0) sleep_ns(Wlog(paced ? 30 * MS : MS, 400 * MS)); } p->all_sent = true; })); }
    auto taken = [](P* p) { int k = 0; for (Call* c : p->calls) if (!c->execs.empty()) k++; return k; };
    std::vector<int> rd; for (int i = 0; i < np; i++) { P* p = ps[i]; rd.push_back(spawn(1 + i, "reader", [&, p] { while (!over) { if (!p->reading) { sleep_ns(5 * MS); continue; } size_t before = p->q.in.size(); (void)before; p->q.pump(50 * MS, p->slow ? p->slow : 65536); if (p->slow) sleep_ns(Wlog(100 * US, 10 * MS)); if (p->q.closed) fail("closed", "the server closed the connection of a slow reader"); } })); }
    RpcClient* cl; RpcChannel* ch; { NodeScope ns(9); cl = new RpcClient(small_client()); ch = new RpcChannel(cl, s.addr(), RpcChannelOptions()); }
    int good = spawn(9, "good", [&] { while (!stopw) { CallCfg g; g.bad_pct = 0; g.fail_pct = 0; g.default_tmo_pct = 0; g.tmo_lo = g.tmo_hi = 20000; g.max_size = g.max_resp = 1000; g.slow_pct = 0; g.slow_us = 2000; Call* c = make_call(g); c->async = false; issue(c, ch); if (!c->success) fail("other-client-affected", "a call of a well-behaved client failed: %s", code_name(c->code)); sleep_ns(Wlog(10 * MS, SEC)); } });
    // while the responses queued for a peer surely exceed the limit, no more of its requests are taken
    int watch = spawn(0, "watch", [&] { while (!stopw) { for (P* p : ps) {
            ns_t lag = 300 * MS + 2 * stalled_total(), t = now(); int64_t q = 0; for (Call* c : p->calls) if (!c->execs.empty() && !p->q.answered.count(c->id) && c->execs[0].at < t - lag) q += c->resp_size;
            q -= (int64_t)p->q.in.size() + raw_unread(p->q.fd) + cap + R + 100; int64_t l = lim.most(t - lag, t);
            if (q <= l) { p->since = -1; p->frozen = -1; continue; }
            probe("over"); if (p->since < 0) p->since = t;
            if (t - p->since > lag + SEC) { int k = taken(p); if (p->frozen < 0) p->frozen = k; probe("suspended"); if (k < (int)p->calls.size()) probe("held_back"); if (k > p->frozen) fail("not-suspended", "%ld bytes of responses are queued for a peer that does not read, the limit is %ld, and the server still takes its requests", (long)q, (long)l); } }
        sleep_ns(50 * MS); } });
    int rounds = Wr(1, 3); for (int r = 0; r < rounds; r++) { sleep_ns(Wlog(100 * MS, 6 * SEC)); for (P* p : ps) { p->slow = W(2) ? Wlog(100, 30000) : 0; p->reading = W(3) == 0; } if (W(4) == 0) { int64_t m = Wr(0, 4); Lim::Set x = { now(), -1, m * MB }; lim.h.push_back(x); RpcServerOptions oo = s.s->GetOptions(); oo.max_pending_buffer_size = m; s.s->ResetOptions(oo); lim.h.back().to = now(); note("limit set to %ld MB", (long)m); } }
    for (int i = 0; i < np; i++) { if (raise) { ps[i]->reading = false; } else { ps[i]->reading = true; ps[i]->slow = 0; } }
    if (raise) {   // nobody reads; the limit is raised beyond all responses: every request is taken
        Lim::Set x = { now(), -1, 100 * MB }; lim.h.push_back(x); RpcServerOptions oo = s.s->GetOptions(); oo.max_pending_buffer_size = 100; s.s->ResetOptions(oo); lim.h.back().to = now();
        for (int f : fs) join(f); sleep_ns(2 * SEC + 2 * stalled_total()); for (P* p : ps) if (taken(p) < (int)p->calls.size()) fail("not-resumed", "the limit was raised beyond everything queued, but only %d of %d requests of a peer were taken", taken(p), (int)p->calls.size());
        for (P* p : ps) { p->reading = true; p->slow = 0; } probe("raised"); }
    for (int f : fs) join(f);
    ns_t t0 = now(); faults_off(); int64_t total = 0; for (P* p : ps) for (Call* c : p->calls) total += c->resp_size; ns_t need = 20 * SEC + (total / cap + 100) * 20 * (net.lat_max + 10 * MS) + stalled_total();
    for (P* p : ps) if (!wait_until([p] { return p->q.pending() == 0; }, need, 10 * MS)) fail("not-resumed", "a peer reads again since %.1f s, but only %d of its %d requests were taken and %d answered", (now() - t0) / 1e9, taken(p), (int)p->calls.size(), (int)p->q.answered.size());
    for (P* p : ps) { for (Call* c : p->calls) if (p->q.failed.count(c->id)) fail("lost", "request %lu was answered with a failure", (unsigned long)c->id); }
    stopw = true; join(watch); join(good); over = true; for (int f : rd) join(f); finish_calls(SEC);
    for (P* p : ps) p->q.close(); { NodeScope ns(9); delete ch; delete cl; } s.destroy(); teardown_check({ 9, 11 }); for (P* p : ps) delete p;
}
