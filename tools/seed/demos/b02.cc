#include "demo_util.h"
// calls time out while their requests wait behind a connection nobody reads; then it is read
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int port; int l = listen_any(&port, 4096);
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch);
    { demo::Req q; demo::Resp r; q.set_id(1); q.set_payload(std::string(16 << 20, 'x')); RpcController* c = new RpcController; c->SetTimeout(60000); static demo::Req sq; sq = q; st.Call(c, &sq, new demo::Resp, new Done([] {})); }
    int fd = accept(l, 0, 0); ms(300);
    for (int i = 0; i < 20; i++) { RpcController c; c.SetTimeout(200); demo::Req q; demo::Resp r; q.set_id(100 + i); st.Call(&c, &q, &r, NULL); EXPECT(c.ErrorCode() == RPC_ERROR_REQUEST_TIMEOUT, "call: %s", c.ErrorText().c_str()); EXPECT(!c.IsRequestSent(), "sent?"); }
    std::string in, m, d; int late = 0; bool big = false; double e = now_s() + 15;
    while (now_s() < e) { int r = recv_some(fd, &in, 2000); if (r == -2 && big) break; if (r == 0) break; while (take_frame(&in, &m, &d)) { demo::Req q; q.ParseFromString(d); if (q.id() >= 100) late++; else big = true; } }
    EXPECT(big, "big request missing"); EXPECT(late == 0, "%d requests were sent after their calls had timed out unsent", late);
    _exit(0);
}
