#include "demo_util.h"
// connections that end while a handler works on one of their requests must not count against the limit for ever
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.max_connection_count = 3; o.work_thread_num = 4; o.keep_alive_time = -1; RpcServer s(o); EchoImpl* e = new EchoImpl; s.RegisterService(e, true);
    int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    for (int round = 0; round < 2; round++) {
        int fd[3]; for (int i = 0; i < 3; i++) { fd[i] = connect_to(port); demo::Req q; q.set_id(i); q.set_delay_ms(400); send_all(fd[i], request_frame(i + 1, q)); }
        EXPECT(within(3000, [&] { return e->total >= 3 * (round + 1); }), "requests not executed"); for (int i = 0; i < 3; i++) close(fd[i]);
        EXPECT(within(5000, [&] { return s.ConnectionCount() == 0; }), "all connections are closed, the server counts %d", s.ConnectionCount());
    }
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); RpcController c; c.SetTimeout(3000); demo::Req q; demo::Resp r; q.set_id(7); st.Call(&c, &q, &r, NULL); EXPECT(!c.Failed(), "call fails: %s", c.ErrorText().c_str());
    _exit(0);
}
