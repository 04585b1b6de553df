#include "demo_util.h"
// 1 MB/s means 1 MB/s, also for messages that are larger than the amount of one time slice
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 2; o.max_throughput_out = 1; RpcServer s(o); EchoImpl* e = new EchoImpl; s.RegisterService(e, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); double t0 = now_s(); std::atomic<int> n(0); std::vector<std::thread> v;
    std::vector<RpcClient*> cs; for (int t = 0; t < 16; t++) v.push_back(std::thread([&, t] { RpcClient c2; RpcChannel h2(&c2, addr(port), RpcChannelOptions()); demo::Echo::Stub s2(&h2); for (int i = 0; i < 2; i++) { RpcController c; c.SetTimeout(90000); demo::Req q; demo::Resp r; q.set_payload(std::string(400000, 'p')); s2.Other(&c, &q, &r, NULL); EXPECT(!c.Failed(), "%s", c.ErrorText().c_str()); n++; } }));
    for (auto& x : v) x.join(); double t = now_s() - t0; fprintf(stderr, "%d in %.1f s\n", (int)n, t); EXPECT(t > 8.5, "12.8 MB came out of a server with a limit of 1 MB/s within %.1f s", t); _exit(0);
}
