#include "demo_util.h"
// after Stop() returned no connection of the server is open
struct Keep : demo::Echo { std::mutex mu; std::vector<std::pair<demo::Resp*, gp::Closure*> > k; std::atomic<int> n; Keep() : n(0) {}
    void Call(gp::RpcController*, const demo::Req* q, demo::Resp* r, gp::Closure* d) { if (q->delay_ms()) { std::lock_guard<std::mutex> l(mu); k.push_back(std::make_pair(r, d)); n++; } else d->Run(); }
    void Other(gp::RpcController*, const demo::Req*, demo::Resp*, gp::Closure* d) { d->Run(); } };
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 2; RpcServer s(o); Keep* e = new Keep; s.RegisterService(e, true); int port = free_port();
    for (int round = 0; round < 2; round++) {
        EXPECT(s.Start(addr(port)), "start"); int f1 = connect_to(port), f2 = connect_to(port); demo::Req q; q.set_delay_ms(1); send_all(f1, request_frame(1, q)); EXPECT(within(3000, [&] { return e->n == round + 1; }), "not executed"); ms(50);
        s.Stop(); std::string in; EXPECT(recv_some(f2, &in, 3000) == 0, "an idle connection is open after Stop()"); EXPECT(recv_some(f1, &in, 3000) == 0, "a connection with a request in progress is open after Stop()");
        close(f1); close(f2); std::lock_guard<std::mutex> l(e->mu); for (auto& p : e->k) p.second->Run(); e->k.clear();
    }
    _exit(0);
}
