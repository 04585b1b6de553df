#include "demo_util.h"
#include <sofa/pbrpc/builtin_service.pb.h>
#include <dlfcn.h>
// the server can neither accept nor listen again for a while: its health has to say so over an established connection
static std::atomic<int> failing(0), failed(0);
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) { static auto f = (int (*)(int, sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept"); if (failing) { failed++; errno = EMFILE; return -1; } return f(fd, a, l); }
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) { static auto f = (int (*)(int, const sockaddr*, socklen_t))dlsym(RTLD_NEXT, "bind"); if (failing) { errno = EADDRINUSE; return -1; } return f(fd, a, l); }
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 2; RpcServer s(o); s.RegisterService(new EchoImpl, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); builtin::BuiltinService_Stub st(&ch);
    auto health = [&] { RpcController c; c.SetTimeout(3000); builtin::HealthRequest q; builtin::HealthResponse r; st.Health(&c, &q, &r, NULL); EXPECT(!c.Failed(), "Health fails"); return r.health(); };
    EXPECT(health() == "OK", "a healthy server reports another health");
    failing = 1; int fd = connect_to(port); EXPECT(within(5000, [&] { return failed > 0 && !s.IsListening(); }), "the failure to accept is not noticed"); close(fd);
    EXPECT(health() == "NotOK", "the server does not listen, yet reports that it is healthy");
    failing = 0; EXPECT(within(20000, [&] { return s.IsListening(); }), "the server does not listen again"); EXPECT(health() == "OK", "recovered, but not healthy");
    _exit(0);
}
