#include "demo_util.h"
#include <dlfcn.h>
// accept() fails for a moment (no buffers, system table of files full): the server accepts again afterwards
static std::atomic<int> failing(0), failed(0);
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) { static auto f = (int (*)(int, sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept"); if (failing) { failed++; errno = failing; return -1; } return f(fd, a, l); }
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 2; RpcServer s(o); s.RegisterService(new EchoImpl, true); int port = free_port(); EXPECT(s.Start(addr(port)), "start");
    static const int errs[] = { EMFILE, ENFILE, ENOBUFS };
    for (int k = 0; k < 3; k++) {
        failing = errs[k]; failed = 0; int fd = connect_to(port); within(2000, [&] { return failed > 0; }); ms(300); failing = 0; close(fd); bool ok = false;
        for (int i = 0; i < 12 && !ok; i++) { RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); RpcController c; c.SetTimeout(1000); demo::Req q; demo::Resp r; st.Call(&c, &q, &r, NULL); ok = !c.Failed(); if (!ok) ms(300); }
        EXPECT(ok, "accept() failed once with %s and the server never accepts again", strerror(errs[k]));
    }
    _exit(0);
}
