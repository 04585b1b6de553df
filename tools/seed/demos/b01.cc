#include "demo_util.h"
// many threads call concurrently over one connection; every call has to get its own answer
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int port = free_port(); RpcServerOptions so; so.work_thread_num = 4; RpcServer s(so); s.RegisterService(new EchoImpl); EXPECT(s.Start(addr(port)), "Start failed");
    RpcClientOptions co; co.work_thread_num = 4; co.callback_thread_num = 4; RpcClient cl(co); RpcChannel ch(&cl, addr(port), RpcChannelOptions());
    std::atomic<int> left(0); const int T = 8, N = 8000; std::vector<std::thread> ts; std::atomic<long> next(1);
    for (int t = 0; t < T; t++) ts.emplace_back([&] {
        for (int i = 0; i < N; i++) {
            while (left > 400) usleep(100);
            long id = next++; left++; auto* q = new demo::Req; auto* r = new demo::Resp; auto* c = new RpcController; q->set_id(id); c->SetTimeout(30000);
            demo::Echo::Stub st(&ch);
            st.Call(c, q, r, new Done([=, &left] { EXPECT(!c->Failed(), "call %ld failed: %s", id, c->ErrorText().c_str()); EXPECT(r->id() == id, "call %ld has the answer of %ld", id, (long)r->id()); delete q; delete r; delete c; left--; }));
        } });
    for (auto& t : ts) t.join();
    EXPECT(within(20000, [&] { return left == 0; }), "%d calls never completed", (int)left);
    return 0;
}
