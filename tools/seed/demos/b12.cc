#include "demo_util.h"
#include <malloc.h>
// what belongs to calls whose timeout expired while the handler worked is released
struct Late : demo::Echo { std::atomic<int> begun, ended; Late() : begun(0), ended(0) {}
    void Call(gp::RpcController*, const demo::Req* q, demo::Resp* r, gp::Closure* d) { begun++; int t = q->delay_ms(); r->set_id(q->id()); std::thread([=] { ms(t); d->Run(); ended++; }).detach(); }
    void Other(gp::RpcController*, const demo::Req*, demo::Resp*, gp::Closure* d) { d->Run(); } };
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); mallopt(M_ARENA_MAX, 1); RpcServerOptions o; o.work_thread_num = 4; RpcServer s(o); Late* e = new Late; s.RegisterService(e, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); long first = 0, last = 0;
    for (int round = 0; round < 6; round++) {
        for (int i = 0; i < 25; i++) { RpcController c; c.SetTimeout(60); demo::Req q; q.set_id(1); q.set_delay_ms(100); q.set_payload(std::string(200000, 'x')); demo::Resp r; st.Call(&c, &q, &r, NULL); EXPECT(c.Failed(), "a call that takes too long succeeds"); }
        EXPECT(within(4000, [&] { return e->ended == e->begun; }), "handlers hang"); ms(300); struct mallinfo2 mi = mallinfo2(); long u = mi.uordblks + mi.hblkhd; if (round == 1) first = u; last = u; fprintf(stderr, "round %d: %ld bytes, %d handlers\n", round, u, (int)e->begun);
    }
    EXPECT(e->begun > 100, "too few requests were executed"); EXPECT(last < first + 6 * 1000 * 1000, "memory in use grew from %ld to %ld bytes over %d calls that took too long", first, last, (int)e->begun); _exit(0);
}
