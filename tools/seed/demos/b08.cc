#include "demo_util.h"
// a server that is removed while it is down is not used when it comes up
int main() {
    alarm(120); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int pa = free_port(), pb = free_port(); EchoImpl* ea = new EchoImpl; EchoImpl* eb = new EchoImpl;
    struct Provider : RpcChannel::AddressProvider { RpcChannel::EventHandler* h; std::vector<std::string> l; Provider() : h(0) {} void GetInitAddress(std::vector<std::string>* o) { *o = l; } bool RegisterEventHandler(RpcChannel::EventHandler* x) { h = x; return true; } } pr;
    RpcServer a, b; a.RegisterService(ea, true); b.RegisterService(eb, true); EXPECT(a.Start(addr(pa)), "start");
    RpcClient cl; pr.l.push_back(addr(pa)); pr.l.push_back(addr(pb)); RpcChannel ch(&cl, &pr, RpcChannelOptions()); demo::Echo::Stub st(&ch);
    auto call = [&] { RpcController c; c.SetTimeout(2000); demo::Req q; demo::Resp r; st.Call(&c, &q, &r, NULL); return !c.Failed(); };
    for (int i = 0; i < 12; i++) { call(); ms(20); } ms(1500);
    std::vector<std::string> rm(1, addr(pb)); pr.h->OnAddressRemoved(rm); EXPECT(b.Start(addr(pb)), "start B");
    double e = now_s() + 14; while (now_s() < e) { EXPECT(call(), "call fails although A runs"); EXPECT(eb->total == 0, "a removed server is used"); ms(30); }
    _exit(0);
}
