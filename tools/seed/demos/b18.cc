#include "demo_util.h"
// a header with an impossible size: the connection is closed, nothing else happens
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServer s; EchoImpl* e = new EchoImpl; s.RegisterService(e, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch);
    static const struct { int32_t m; int64_t d; } bad[] = { { -5, 1 }, { 10, -30 }, { -2000000000, 0 }, { 100, 1ll << 40 } };
    for (auto& b : bad) { int tail = 1;
        int fd = connect_to(port); std::string h(24, 0); memcpy(&h[0], "SOFA", 4); int64_t t = b.m + b.d; memcpy(&h[4], &b.m, 4); memcpy(&h[8], &b.d, 8); memcpy(&h[16], &t, 8); if (tail) h += std::string(200, 'z'); send_all(fd, h);
        std::string in; double until = now_s() + 3; int r = 1; while (now_s() < until && (r = recv_some(fd, &in, 3000)) > 0) {} EXPECT(r == 0, "a header with meta size %d and data size %ld leaves the connection open", b.m, (long)b.d); close(fd);
        RpcController c; c.SetTimeout(3000); demo::Req q; demo::Resp rp; st.Call(&c, &q, &rp, NULL); EXPECT(!c.Failed(), "a call of another client fails: %s", c.ErrorText().c_str());
    }
    _exit(0);
}
