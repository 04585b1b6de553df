#include "demo_util.h"
// Shutdown() completes calls that wait for a connection
int main() {
    alarm(60); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int port; int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(s, (sockaddr*)&a, sizeof a); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); port = ntohs(a.sin_port); listen(s, 0);
    std::vector<int> fill; for (int i = 0; i < 4; i++) { int f = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); connect(f, (sockaddr*)&a, sizeof a); fill.push_back(f); ms(20); }   // the queue is full: connecting takes for ever
    RpcClient* cl = new RpcClient; RpcChannel* ch = new RpcChannel(cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(ch); std::atomic<int> done(0);
    for (int i = 0; i < 5; i++) { auto* c = new RpcController; c->SetTimeout(100000); auto* q = new demo::Req; auto* r = new demo::Resp; st.Call(c, q, r, new Done([=, &done] { EXPECT(c->Failed(), "a call succeeds without a server"); done++; })); }
    ms(400); EXPECT(done == 0, "calls end early"); alarm(20); cl->Shutdown(); EXPECT(within(4000, [&] { return done == 5; }), "%d of 5 calls that waited for a connection are not complete after Shutdown()", 5 - (int)done); _exit(0);
}
