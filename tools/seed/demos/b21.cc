#include "demo_util.h"
// a response that does not say whether the call failed is not a success
int main() {
    alarm(60); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int port; int l = listen_any(&port);
    std::thread t([&] { int f = accept(l, NULL, NULL); std::string in; for (int n = 0; n < 6;) {
        std::string meta, data; if (!take_frame(&in, &meta, &data)) { if (recv_some(f, &in, 30000) <= 0) return; continue; }
        RpcMeta m, o; m.ParseFromString(meta); demo::Req q; q.ParseFromString(data); demo::Resp r; r.set_id(q.id()); r.set_payload(q.payload());
        o.set_type(RpcMeta::RESPONSE); o.set_sequence_id(m.sequence_id()); if (n % 2 == 0) o.set_failed(false); send_all(f, frame(o.SerializeAsString(), r.SerializeAsString())); n++; } ms(100000); });
    t.detach(); RpcClient* cl = new RpcClient; RpcChannel* ch = new RpcChannel(cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(ch);
    for (int i = 0; i < 6; i++) {
        auto* c = new RpcController; c->SetTimeout(10000); auto* q = new demo::Req; q->set_id(i + 1); q->set_payload("x"); auto* r = new demo::Resp; st.Call(c, q, r, NULL);
        if (i % 2 == 0) EXPECT(!c->Failed() && r->id() == i + 1, "a good response is not accepted: %s", c->ErrorText().c_str());
        else EXPECT(c->Failed(), "a response that is not well formed makes a call succeed");
    }
    _exit(0);
}
