#include "demo_util.h"
// a call that is never answered has to time out, also when a later call is answered at once
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int port; int l = listen_any(&port);
    std::thread srv([&] { int fd = accept(l, 0, 0); std::string in, m, d; while (recv_some(fd, &in, 60000) > 0) while (take_frame(&in, &m, &d)) { demo::Req q; q.ParseFromString(d); RpcMeta mm; mm.ParseFromString(m); if (q.id() % 2) { demo::Resp r; r.set_id(q.id()); send_all(fd, response_frame(mm.sequence_id(), r)); } } });
    srv.detach();
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); std::atomic<int> done(0);
    const int N = 60;
    for (int i = 0; i < N; i++) {
        auto* c = new RpcController; auto* q = new demo::Req; auto* r = new demo::Resp; q->set_id(2 * i); c->SetTimeout(600); double t0 = now_s();
        st.Call(c, q, r, new Done([=, &done] { EXPECT(c->ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "call ends with %d", c->ErrorCode()); EXPECT(now_s() - t0 > 0.55, "early"); done++; }));
        RpcController c2; c2.SetTimeout(5000); demo::Req q2; demo::Resp r2; q2.set_id(2 * i + 1); st.Call(&c2, &q2, &r2, NULL); EXPECT(!c2.Failed(), "odd call failed: %s", c2.ErrorText().c_str()); ms(7);
    }
    EXPECT(within(5000, [&] { return done == N; }), "%d of %d calls with a timeout of 600 ms still pending after 5 s", N - (int)done, N);
    _exit(0);
}
