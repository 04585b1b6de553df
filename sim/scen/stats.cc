// C19: statistics and status
#include "raw.h"
#include <sofa/pbrpc/builtin_service.pb.h>
using namespace sc;
namespace bi = sofa::pbrpc::builtin;
namespace {
struct Cnt { uint64_t ok[5], bad[5]; Cnt() { for (int i = 0; i < 5; i++) { ok[i] = w->srv_ok[i]; bad[i] = w->srv_fail[i]; } } };
struct Admin {
    RpcClient* cl; RpcChannel* ch; Admin(const std::string& a) { NodeScope n(8); cl = new RpcClient(small_client()); ch = new RpcChannel(cl, a, RpcChannelOptions()); }
    ~Admin() { NodeScope n(8); delete ch; delete cl; }
    template <class Q, class P> void call(const char* name, const Q& q, P* p, void (bi::BuiltinService_Stub::*m)(gp::RpcController*, const Q*, P*, gp::Closure*)) {
        NodeScope n(8); bi::BuiltinService_Stub st(ch); RpcController c; c.SetTimeout(20000); (st.*m)(&c, &q, p, NULL); if (c.Failed()) fail("builtin-fails", "%s fails: %s", name, c.ErrorText().c_str()); }
    void stat(const std::string& svc, int period, const Cnt& a, const Cnt& b, const char* when) {
        bi::StatRequest q; q.set_service_name(svc); q.set_period_seconds(period); bi::StatResponse p; call("Stat", q, &p, &bi::BuiltinService_Stub::Stat); int seen = 0; int64_t so = 0, sb = 0;
        static const char* const names[] = { "simtest.EchoService.Echo", "simtest.EchoService.Work", "simtest.EchoService.Quick", "simtest.ShortService.Plain", "simtest.ShortService.Own" };
        for (int i = 0; i < p.service_stats_size(); i++) { const bi::ServiceStat& s = p.service_stats(i); if (s.service_name().compare(0, 8, "simtest.")) continue; int64_t to = 0, tb = 0;
            for (int j = 0; j < s.method_stats_size(); j++) { const bi::MethodStat& m = s.method_stats(j); to += m.succeed_count(); tb += m.failed_count();
                for (int k = 0; k < 5; k++) if (m.method_name() == names[k]) { seen++; int64_t wo = b.ok[k] - a.ok[k], wb = b.bad[k] - a.bad[k]; so += m.succeed_count(); sb += m.failed_count();
                    if (m.succeed_count() != wo || m.failed_count() != wb) fail("wrong-count", "%s (%d s): %s succeeded %ld times and failed %ld times, the statistics say %ld and %ld", when, period, names[k], (long)wo, (long)wb, (long)m.succeed_count(), (long)m.failed_count()); } }
            if (s.succeed_count() != to || s.failed_count() != tb) fail("wrong-count", "%s: the counts of service %s are not the sums of its methods", when, s.service_name().c_str()); }
        int want = svc == "all" ? 5 : svc == "simtest.EchoService" ? 3 : 2; if (seen != want) fail("wrong-count", "statistics of \"%s\" cover %d of %d methods", svc.c_str(), seen, want); if (so || sb) probe("counted"); }
};
}
SCENARIO(c19_stats, "calls by many threads, then the built-in statistics and status are compared with what happened") {
    world_init(); if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS); int C = Wr(1, 3), per = Wr(1, 4); bool resets = W(3) == 0, stalls = W(2); RpcServerOptions o = small_server(); o.work_thread_num = Wr(1, 5); if (W(2)) o.keep_alive_time = -1;
    Server s(11, 8000, o); s.start(); std::vector<RpcClient*> cl; std::vector<RpcChannel*> ch; random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 50 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); cl.push_back(new RpcClient(small_client())); ch.push_back(new RpcChannel(cl[i], s.addr(), RpcChannelOptions())); }
    Admin ad(s.addr()); if (stalls) { sys.fiber_stall = Wr(10, 1000); sys.fiber_stall_max = Wlog(10 * US, 30 * MS); } if (W(3) == 0) { net.short_read = Wr(20, 300); net.segment = Wr(20, 300); }
    auto phase = [&](ns_t most) { std::vector<int> fs; ns_t end = now() + most; bool dense = W(3) != 0; for (int i = 0; i < C; i++) for (int k = 0; k < per; k++) { int n = Wr(1, 25); fs.push_back(spawn(1 + i, "caller", [&, i, n] { for (int j = 0; j < n && now() < end; j++) {
            CallCfg g; g.bad_pct = 2; g.fail_pct = 30; g.default_tmo_pct = 0; g.tmo_lo = 500; g.tmo_hi = 5000; g.max_size = g.max_resp = 500; g.slow_pct = 10; g.defer_pct = 25; g.slow_us = dense ? 3000 : 300000; Call* c = make_call(g); issue(c, ch[i]); probe("work"); if (!dense || W(8) == 0) sleep_ns(Wlog(1, 500 * MS)); } })); }
        if (resets) fs.push_back(spawn(0, "nemesis", [&] { int n = Wr(1, 3); for (int i = 0; i < n; i++) { sleep_ns(Wlog(MS, SEC)); reset_conns(-1, 11); } }));
        for (int f : fs) join(f); finish_calls(3 * SEC); if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 60 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not finish"); };
    auto status = [&](bool strict) { bi::ServerStatusRequest q; bi::ServerStatusResponse p; ad.call("ServerStatus", q, &p, &bi::BuiltinService_Stub::ServerStatus); int live = 0; for (int i = 1; i < 10; i++) live += established(i, 11, 8000);
        if (!p.is_listening()) fail("wrong-status", "the server does not report that it listens"); if (p.pending_message_count() || p.pending_buffer_size() || p.pending_data_size()) fail("wrong-status", "nothing is pending, but the server reports %ld messages, %ld and %ld bytes", (long)p.pending_message_count(), (long)p.pending_buffer_size(), (long)p.pending_data_size());
        if (p.service_count() != 3) fail("wrong-status", "%d services registered (one of them built in), the server reports %d", 3, (int)p.service_count()); if (strict && p.connection_count() != live) fail("wrong-status", "%d connections are open, the server reports %d", live, (int)p.connection_count()); if ((int)s.s->ConnectionCount() != live) fail("wrong-status", "%d connections are open, ConnectionCount() is %d", live, s.s->ConnectionCount()); };
    int fstall = sys.fiber_stall; auto settle = [&] { net.short_read = net.segment = 0; sys.fiber_stall = 0; sleep_ns(2500 * MS + 2 * (fstall ? 100 * MS : 0)); };
    Cnt c0; ns_t st0 = stalled_total(); phase(10 * SEC); ns_t e1 = now(); settle(); Cnt c1; ad.stat(W(2) ? "all" : W(2) ? "simtest.EchoService" : "simtest.ShortService", 600, c0, c1, "all calls"); status(true);
    if (W(2)) { // restart: the counts stay
        if (W(2)) { s.stop(); sleep_ns(Wlog(1, SEC)); s.start(); probe("restarted"); for (int i = 0; i < C; i++) { NodeScope ns(1 + i); CallCfg g; g.bad_pct = g.fail_pct = g.defer_pct = g.slow_pct = 0; g.tmo_lo = g.tmo_hi = 5000; g.async_pct = 0; issue(make_call(g), ch[i]); } }
        finish_calls(3 * SEC); sleep_ns(Wr(1, 20) * SEC); Cnt c1b; ns_t b2 = now(); sys.fiber_stall = fstall; phase(6 * SEC); settle(); Cnt c2; ns_t q = now(); int P = (q - b2) / SEC + 2;
        ad.stat("all", 600, c0, c2, "all calls of two phases");
        if (b2 - e1 > 4 * SEC + P * SEC / 5 + 4 * (stalled_total() - st0) && c1b.ok[0] == c1.ok[0] && c1b.ok[1] == c1.ok[1] && c1b.ok[2] == c1.ok[2] && c1b.ok[3] == c1.ok[3] && c1b.ok[4] == c1.ok[4]) { ad.stat("all", P, c1b, c2, "the calls of the last phase"); probe("window"); }
        status(true); }
    auto client_counts = [&](bool up, const char* when) { ns_t st = stalled_total(); for (int i = 0; i < C; i++) { NodeScope ns(1 + i); int want = 0; if (!wait_until([&] { want = up ? established(1 + i, 11, 8000) : 0; return cl[i]->ConnectionCount() == want; }, 3 * SEC + (stalled_total() - st)) && cl[i]->ConnectionCount() != want) fail("wrong-status", "%s client %d has %d connections, ConnectionCount() is %d", when, i, want, cl[i]->ConnectionCount()); } };
    client_counts(true, "at the end"); bool down = W(2); if (down) { s.stop(); client_counts(false, "after the server stopped"); probe("counted_down"); }
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); delete ch[i]; delete cl[i]; } sleep_ns(SEC + 2 * (stalled_total() - st0 > 0 ? 500 * MS : 0)); if (!down) status(true);
    { Admin* x = &ad; (void)x; } s.stop(); s.destroy();
}

namespace {
// counts and times over the last R seconds, asked for while calls may go on: which of them are in is known up to the length of a time slot
void window(Admin& ad, int P, bool exact, const char* when) {
    bi::StatRequest q; q.set_service_name("all"); q.set_period_seconds(P); bi::StatResponse p; ns_t q0 = now(); ad.call("Stat", q, &p, &bi::BuiltinService_Stub::Stat); ns_t q1 = now(); ns_t sl = 20 * MS + stalled_total(); int seen = 0;
    static const char* const names[] = { "simtest.EchoService.Echo", "simtest.EchoService.Work", "simtest.EchoService.Quick", "simtest.ShortService.Plain", "simtest.ShortService.Own" };
    for (int i = 0; i < p.service_stats_size(); i++) { const bi::ServiceStat& s = p.service_stats(i); if (s.service_name().compare(0, 8, "simtest.")) continue; int64_t R = s.period_seconds();
        if (R < std::min(P, 600) || R > std::max(P, 1)) fail("wrong-period", "statistics over %d s were asked for, %ld s are reported", P, (long)R);
        for (int j = 0; j < s.method_stats_size(); j++) for (int k = 0; k < 5; k++) if (s.method_stats(j).method_name() == names[k]) { const bi::MethodStat& m = s.method_stats(j); seen++;
            for (int ok = 0; ok < 2; ok++) {
                int64_t n = ok ? m.succeed_count() : m.failed_count(), mx = ok ? m.succeed_max_time_us() : m.failed_max_time_us(); double avg = ok ? m.succeed_avg_time_us() : m.failed_avg_time_us(); int64_t lo = 0, hi = 0; double tlo = 0, thi = 0; int64_t mxlo = 0, mxhi = 0;
                for (auto& f : w->fins) if (f.method == k && f.ok == (ok != 0)) { int64_t us = (f.end - f.begin) / 1000;
                    bool may = f.end <= q1 && f.end > q0 - (R + 1) * 1120 * MS - sl, must = exact ? may : f.end < q0 - 1200 * MS - sl && f.end > q1 - R * SEC + sl;
                    if (may) { hi++; thi += us; mxhi = std::max(mxhi, us); } if (must) { lo++; tlo += us; mxlo = std::max(mxlo, us); } }
                if (n < lo || n > hi) fail("wrong-count", "%s: %s %s %ld to %ld times in the last %ld s, the statistics say %ld", when, names[k], ok ? "succeeded" : "failed", (long)lo, (long)hi, (long)R, (long)n);
                if (mx < mxlo - 2 || mx > mxhi + sl / 1000) fail("wrong-time", "%s: %s took at most %ld us, the statistics say %ld", when, names[k], (long)mxhi, (long)mx);
                if (avg > mx + 1 + mx * 1e-5 || (exact && n && (avg < tlo / n - 2 - avg * 1e-5 || avg > thi / n + sl / 1000))) fail("wrong-time", "%s: %s took %.1f us in the mean, the statistics say %.1f (at most %ld)", when, names[k], n ? tlo / n : 0, avg, (long)mx);
                if (n) probe(exact ? "exact" : "bounded"); if (lo) probe("certain"); if (hi < (int64_t)w->fins.size()) probe("some_out"); } } }
    if (seen != 5) fail("wrong-count", "statistics cover %d of 5 methods", seen);
}
}
SCENARIO(c19_window, "statistics over periods of any length, also of a server that runs for long and while calls go on") {
    world_init(); if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS); RpcServerOptions o = small_server(); o.work_thread_num = Wr(1, 5); o.keep_alive_time = -1; Server s(11, 8000, o); s.start(); ns_t born = now();
    bool wrap = false; switch (W(8)) { case 0: case 1: case 2: break; case 6: case 7: wrap = true; sleep_ns(Wr(592, 601) * SEC); break; case 3: sleep_ns(Wr(588, 604) * SEC); break; case 4: sleep_ns(Wr(1185, 1208) * SEC); break; case 5: sleep_ns(Wlog(SEC, 1500 * SEC)); break; }
    int C = Wr(1, 2), per = Wr(1, 4); std::vector<RpcClient*> cl; std::vector<RpcChannel*> ch; random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 20 * MS); net.lat_min = std::min(net.lat_min, net.lat_max);
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); cl.push_back(new RpcClient(small_client())); ch.push_back(new RpcChannel(cl[i], s.addr(), RpcChannelOptions())); }
    Admin ad(s.addr()); int kind = W(3); if (kind == 1) { sys.fiber_stall = Wr(10, 1000); sys.fiber_stall_max = Wlog(10 * US, 10 * MS); } if (kind == 2) { sys.fiber_stall = Wr(3000, 30000); sys.fiber_stall_max = Wlog(50 * US, 3 * MS); }
    ns_t span = wrap ? Wr(10, 20) * SEC : Wlog(500 * MS, 20 * SEC), t0 = now(), end = t0 + span; bool rush = !wrap && (kind == 2 || W(2)); std::vector<int> fs; if (now() - born > 602 * SEC) probe("wrapped");
    for (int i = 0; i < C; i++) for (int k = 0; k < per; k++) fs.push_back(spawn(1 + i, "caller", [&, i] { for (int j = 0; j < 150 && now() < end; j++) { CallCfg g; g.bad_pct = 2; g.fail_pct = 30; g.default_tmo_pct = g.compress = 0; g.tmo_lo = g.tmo_hi = 30000; g.max_size = g.max_resp = 200; g.slow_pct = 10; g.defer_pct = 25; g.slow_us = rush ? 2000 : 300000; issue(make_call(g), ch[i]); probe("work");
        if (rush && W(4)) sleep_ns(Wlog(1, 3 * MS)); else sleep_ns(Wlog(1, span / 20)); } }));
    bool over = false; int asker = spawn(8, "asker", [&] { while (!over) { sleep_ns(wrap ? Wr(100, 500) * MS : Wlog(50 * MS, 3 * SEC)); if (over) break; window(ad, W(3) ? Wr(1, 20) : W(2) ? Wr(0, 2000) - 2 : Wr(590, 610), false, "while calls go on"); } });
    for (int f : fs) join(f); finish_calls(3 * SEC); if (!wait_until([] { return w->deferred_pending == 0 && w->executing == 0; }, 60 * SEC, 5 * MS)) fail("handlers-hang", "handlers do not finish");
    over = true; join(asker); ns_t smax = sys.fiber_stall ? sys.fiber_stall_max : 0; sys.fiber_stall = 0; sleep_ns(2500 * MS + 20 * smax);
    int need = (now() - t0) / SEC + 2; if (need < 590) { window(ad, need + W(600 - need), true, "all calls"); }
    for (int i = Wr(0, 3); i > 0; i--) { sleep_ns(W(3) ? Wr(1, 30) * SEC : Wlog(SEC, 700 * SEC)); window(ad, W(2) ? Wr(1, 40) : Wr(1, 700), false, "later"); }
    for (int i = 0; i < C; i++) { NodeScope ns(1 + i); delete ch[i]; delete cl[i]; } s.stop(); s.destroy();
}
namespace {
int pick_accept_errno() { static const int e[] = { EMFILE, ENFILE, ENOBUFS, ENOMEM }; return e[W(4)]; }
struct Opt { int64_t conns, keep, pending, in, out; };
std::string str(const Opt& o) { char b[200]; snprintf(b, sizeof b, "max_connection_count %ld, keep_alive_time %ld, max_pending_buffer_size %ld, max_throughput_in %ld, max_throughput_out %ld", (long)o.conns, (long)o.keep, (long)o.pending, (long)o.in, (long)o.out); return b; }
Opt opt_of(const bi::ServerOptions& p) { Opt o = { p.max_connection_count(), p.keep_alive_time(), p.max_pending_buffer_size(), p.max_throughput_in(), p.max_throughput_out() }; return o; }
Opt opt_of(const RpcServerOptions& p) { Opt o = { p.max_connection_count, p.keep_alive_time, p.max_pending_buffer_size, p.max_throughput_in, p.max_throughput_out }; return o; }
void same(const Opt& a, const Opt& b, const char* who) { if (str(a) != str(b)) fail("wrong-options", "%s: %s, but set were: %s", who, str(a).c_str(), str(b).c_str()); }
}
SCENARIO(c19_status, "health, status and options, read and changed over the built-in service, while the server can or cannot accept") {
    world_init(); if (W(4) == 0) clock_skew(11, ((int64_t)W(2000) - 1000) * 100 * MS); RpcServerOptions o = small_server(); o.work_thread_num = Wr(1, 5); o.keep_alive_time = -1; o.disable_list_service = W(3) == 0; o.max_connection_count = -1;
    Server s(11, 8000, o); if (!s.start()) fail("start", "Start() failed"); random_latency(); net.lat_max = std::min<ns_t>(net.lat_max, 20 * MS); net.lat_min = std::min(net.lat_min, net.lat_max); Admin ad(s.addr()); if (W(2)) { sys.fiber_stall = Wr(10, 2000); sys.fiber_stall_max = Wlog(10 * US, 20 * MS); }
    auto rd = [&] { RpcServerOptions x = s.s->GetOptions(); return opt_of(x); }; Opt m = rd(); bool up = true;
    auto ask = [&](const char* when) {
        bi::HealthRequest hq; bi::HealthResponse hp; ad.call("Health", hq, &hp, &bi::BuiltinService_Stub::Health); if (hp.health() != (up ? "OK" : "NotOK")) fail("wrong-health", "%s the server %s, its health is \"%s\"", when, up ? "accepts connections" : "does not listen", hp.health().c_str()); if (hp.version().empty() || hp.start_time().empty()) fail("wrong-health", "no version or start time is reported");
        bi::ServerStatusRequest sq; bi::ServerStatusResponse sp; ad.call("ServerStatus", sq, &sp, &bi::BuiltinService_Stub::ServerStatus); if (sp.is_listening() != up || s.s->IsListening() != up) fail("wrong-status", "%s the server %s, is_listening is %d and IsListening() is %d", when, up ? "listens" : "does not listen", sp.is_listening(), s.s->IsListening());
        bi::ServerOptionsRequest oq; bi::ServerOptionsResponse op; ad.call("ServerOptions", oq, &op, &bi::BuiltinService_Stub::ServerOptions); same(opt_of(op.options()), m, "ServerOptions"); same(rd(), m, "GetOptions()");
        if (op.options().work_thread_num() != o.work_thread_num || op.options().disable_list_service() != o.disable_list_service || op.options().disable_builtin_services()) fail("wrong-options", "options fixed at the start are reported with other values"); probe("work"); };
    ask("at first,"); int steps = Wr(3, 12); std::vector<int> callers;
    for (int i = 0; i < steps; i++) {
        sleep_ns(Wlog(1, SEC));
        switch (W(6)) {
        case 0: case 1: { bi::UpdateOptionsRequest q; bi::UpdateOptionsResponse p; bi::ServerOptions* x = q.mutable_options(); Opt n = m; uint32_t mask = Wr(1, 31);
            if (mask & 1) x->set_max_connection_count(n.conns = W(4) ? (int)Wr(2, 50) : -1); if (mask & 2) x->set_keep_alive_time(n.keep = W(4) ? (int)Wr(100, 5000) : -1); if (mask & 4) x->set_max_pending_buffer_size(n.pending = Wr(1, 200)); if (mask & 8) x->set_max_throughput_in(n.in = W(4) ? (int)Wr(1, 500) : -1); if (mask & 16) x->set_max_throughput_out(n.out = W(4) ? (int)Wr(1, 500) : -1);
            if (W(4) == 0) { x->set_work_thread_num(99); x->set_disable_list_service(!o.disable_list_service); }
            ad.call("UpdateOptions", q, &p, &bi::BuiltinService_Stub::UpdateOptions); m = n; same(opt_of(p.options()), m, "the answer of UpdateOptions"); probe("updated"); break; }
        case 2: { RpcServerOptions x = s.s->GetOptions(); if (W(2)) x.max_connection_count = m.conns = Wr(2, 50); if (W(2)) x.keep_alive_time = m.keep = Wr(100, 5000); if (W(2)) x.max_pending_buffer_size = m.pending = Wr(1, 200); if (W(2)) x.max_throughput_in = m.in = Wr(1, 500); if (W(2)) x.max_throughput_out = m.out = Wr(1, 500); NodeScope ns(11); s.s->ResetOptions(x); break; }
        case 3: { NodeScope ns(8); bi::UpdateOptionsRequest q; if (W(2)) q.mutable_options()->set_work_thread_num(3); bi::UpdateOptionsResponse p; RpcController c; c.SetTimeout(20000); bi::BuiltinService_Stub st(ad.ch); st.UpdateOptions(&c, &q, &p, NULL); if (!c.Failed() || c.ErrorCode() != sofa::pbrpc::RPC_ERROR_FROM_USER) fail("wrong-options", "an update of no option is not refused: %s", c.ErrorText().c_str()); break; }
        case 4: { NodeScope ns(8); bi::ListServiceRequest q; bi::ListServiceResponse p; RpcController c; c.SetTimeout(20000); bi::BuiltinService_Stub st(ad.ch); st.ListService(&c, &q, &p, NULL);
            if (o.disable_list_service) { if (!c.Failed()) fail("wrong-services", "the services are listed although that is disabled"); break; } if (c.Failed()) fail("builtin-fails", "ListService fails: %s", c.ErrorText().c_str());
            std::multiset<std::string> g(p.services().begin(), p.services().end()); if (g.size() != 3 || !g.count("simtest.EchoService") || !g.count("simtest.ShortService") || !g.count("sofa.pbrpc.builtin.BuiltinService")) fail("wrong-services", "%zu services are listed, the first is %s", g.size(), g.empty() ? "-" : g.begin()->c_str()); if (!p.files_size()) fail("wrong-services", "no descriptors"); probe("listed"); break; }
        default: { // no connection can be accepted, nor can the server listen again
            force_accept_fail(11, pick_accept_errno(), -1); force_bind_fail(11, EADDRINUSE, -1); { NodeScope ns(20); Peer q; q.connect(11, 8000, 100 * MS); } if (!wait_until([] { return !listening(11, 8000); }, 5 * SEC + 2 * stalled_total())) break; sleep_ns(Wlog(1, 10 * SEC)); up = false; probe("deaf"); ask("after a failure to accept"); sleep_ns(Wlog(1, 5 * SEC)); if (W(2)) ask("later");
            force_accept_fail(11, 0, 0); force_bind_fail(11, 0, 0); if (!wait_until([&] { return listening(11, 8000) && s.s->IsListening(); }, 4 * SEC + 4 * stalled_total())) fail("not-recovered", "the server does not listen again"); up = true; break; }
        }
        if (up) { force_accept_fail(11, 0, 0); force_bind_fail(11, 0, 0); } ask("now");
    }
    s.stop(); s.destroy();
}
