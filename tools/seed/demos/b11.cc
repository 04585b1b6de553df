#include "demo_util.h"
#include <sofa/pbrpc/builtin_service.pb.h>
// handlers that ran are counted, also when their connection is gone
struct Late : demo::Echo { std::atomic<int> total; Late() : total(0) {}
    void Call(gp::RpcController*, const demo::Req* q, demo::Resp* r, gp::Closure* d) { total++; int t = q->delay_ms(); r->set_id(q->id()); if (t) std::thread([=] { ms(t); d->Run(); }).detach(); else d->Run(); }
    void Other(gp::RpcController*, const demo::Req*, demo::Resp*, gp::Closure* d) { d->Run(); } };
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 4; RpcServer s(o); Late* e = new Late; s.RegisterService(e, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch);
    for (int i = 0; i < 10; i++) { RpcController c; demo::Req q; demo::Resp r; q.set_id(i); st.Call(&c, &q, &r, NULL); EXPECT(!c.Failed(), "call"); }
    for (int i = 0; i < 6; i++) { int fd = connect_to(port); demo::Req q; q.set_id(100 + i); q.set_delay_ms(150); send_all(fd, request_frame(1, q)); EXPECT(within(2000, [&] { return e->total == 11 + i; }), "not executed"); close(fd); ms(300); }
    ms(2500); builtin::BuiltinService::Stub bs(&ch); RpcController c; builtin::StatRequest q; builtin::StatResponse r; q.set_service_name("demo.Echo"); q.set_period_seconds(600); bs.Stat(&c, &q, &r, NULL); EXPECT(!c.Failed(), "Stat: %s", c.ErrorText().c_str());
    int64_t n = -1; for (int i = 0; i < r.service_stats_size(); i++) for (int j = 0; j < r.service_stats(i).method_stats_size(); j++) if (r.service_stats(i).method_stats(j).method_name() == "demo.Echo.Call") n = r.service_stats(i).method_stats(j).succeed_count();
    EXPECT(n == e->total, "%d calls were handled, the statistics say %ld", (int)e->total, (long)n); _exit(0);
}
