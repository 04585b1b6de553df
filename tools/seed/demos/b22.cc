#include "demo_util.h"
// a lower limit for pending data holds for connections that exist already
int main() {
    alarm(100); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int port; int l = listen_any(&port, 4096); std::thread([&] { accept(l, NULL, NULL); ms(1000000); }).detach();   // never reads
    RpcClientOptions o; o.max_pending_buffer_size = 40; RpcClient* cl = new RpcClient(o); RpcChannel* ch = new RpcChannel(cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(ch);
    std::atomic<int> full(0); std::string big(1 << 20, 'x'); int n = 0;
    auto call = [&] { auto* c = new RpcController; c->SetTimeout(90000); auto* q = new demo::Req; q->set_id(++n); q->set_payload(big); auto* r = new demo::Resp;
        st.Call(c, q, r, new Done([=, &full] { if (c->ErrorCode() == RPC_ERROR_SEND_BUFFER_FULL) full++; })); };
    for (int i = 0; i < 16; i++) call();
    ms(500); EXPECT(full == 0, "refused below the limit");
    o.max_pending_buffer_size = 4; cl->ResetOptions(o);   // about 10 MB are pending
    for (int i = 0; i < 5; i++) call();
    EXPECT(within(5000, [&] { return full == 5; }), "%d of 5 calls were accepted although far more data is pending than allowed", 5 - (int)full); _exit(0);
}
