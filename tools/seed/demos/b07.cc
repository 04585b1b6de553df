#include "demo_util.h"
// a server that failed back takes part in failover again when it fails a second time
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int pa = free_port(), pb = free_port(); EchoImpl* ea = new EchoImpl; EchoImpl* eb = new EchoImpl;
    RpcServer a, b; a.RegisterService(ea, true); b.RegisterService(eb, true); EXPECT(a.Start(addr(pa)) && b.Start(addr(pb)), "start");
    RpcClient cl; std::vector<std::string> l; l.push_back(addr(pa)); l.push_back(addr(pb)); RpcChannel ch(&cl, l, RpcChannelOptions()); demo::Echo::Stub st(&ch);
    auto call = [&] { RpcController c; c.SetTimeout(2000); demo::Req q; demo::Resp r; st.Call(&c, &q, &r, NULL); return !c.Failed(); };
    for (int i = 0; i < 20; i++) EXPECT(call(), "both servers run, but a call fails"); EXPECT(ea->total && eb->total, "only one server is used");
    for (int round = 0; round < 2; round++) {
        b.Stop(); int bad = 0; for (int i = 0; i < 40; i++) { if (!call()) bad++; ms(20); }
        EXPECT(bad <= 4, "server B is down (time %d) and %d of 40 calls fail", round + 1, bad);
        EXPECT(b.Start(addr(pb)), "restart"); int n = eb->total; EXPECT(within(20000, [&] { call(); ms(50); return eb->total > n; }), "B is not used again");
    }
    _exit(0);
}
