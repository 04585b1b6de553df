#include "demo_util.h"
// a connection on which an answer arrived is in use, no matter when the request was sent
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int port; int l = listen_any(&port); std::atomic<int> conns(0);
    std::thread srv([&] { for (;;) { int fd = accept(l, 0, 0); conns++; std::thread([=] { std::string in, m, d; while (recv_some(fd, &in, 60000) > 0) while (take_frame(&in, &m, &d)) { demo::Req q; q.ParseFromString(d); RpcMeta mm; mm.ParseFromString(m); ms(q.delay_ms()); demo::Resp r; r.set_id(q.id()); send_all(fd, response_frame(mm.sequence_id(), r)); } close(fd); }).detach(); } });
    srv.detach(); RpcClientOptions o; o.keep_alive_time = 3; RpcClient cl(o); RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch);
    for (int i = 0; i < 3; i++) { RpcController c; c.SetTimeout(20000); demo::Req q; demo::Resp r; q.set_delay_ms(2600); st.Call(&c, &q, &r, NULL); EXPECT(!c.Failed(), "%s", c.ErrorText().c_str()); ms(1500); EXPECT(conns == 1 && cl.ConnectionCount() == 1, "the connection was closed 1.5 s after it was used, the keep-alive time is 3 s"); }
    _exit(0);
}
