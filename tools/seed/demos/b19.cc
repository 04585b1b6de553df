#include "demo_util.h"
#include <dlfcn.h>
#include <pthread.h>
// a thread cannot be created: Start() fails cleanly and works when threads can be created again
static std::atomic<int> nth(0), made(0), live(0);
typedef int (*pc)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) { static pc real = (pc)dlsym(RTLD_NEXT, "pthread_create"); made++; if (nth && --nth == 0) return EAGAIN; return real(t, a, f, p); }
static int threads() { int n = 0; FILE* f = fopen("/proc/self/status", "r"); char b[256]; while (fgets(b, sizeof b, f)) if (!strncmp(b, "Threads:", 8)) n = atoi(b + 8); fclose(f); return n; }
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 4; int t0 = threads();
    for (int k = 1; k <= 5; k++) {
        RpcServer* s = new RpcServer(o); s->RegisterService(new EchoImpl, true); int port = free_port(); nth = k; made = 0; bool ok = s->Start(addr(port)); nth = 0;
        EXPECT(!ok, "Start() succeeds although thread %d could not be created", k); EXPECT(within(3000, [&] { return threads() == t0; }), "%d threads left", threads() - t0);
        EXPECT(s->Start(addr(port)), "Start() fails although threads can be created again"); RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); demo::Echo::Stub st(&ch); RpcController c; c.SetTimeout(5000); demo::Req q; demo::Resp r; st.Call(&c, &q, &r, NULL); EXPECT(!c.Failed(), "%s", c.ErrorText().c_str()); cl.Shutdown(); delete s;
    }
    _exit(0);
}
