#include "demo_util.h"
#include <pthread.h>
// A synchronous call returns only when the call is over, also when pthread_cond_wait() wakes up for no reason, as POSIX allows
static std::atomic<int> wakeups(0);
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (wakeups++ % 2 == 0) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
    timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 3600; return pthread_cond_timedwait(c, m, &t);
}
int main() {
    alarm(100); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); int port = free_port();
    RpcServerOptions so; RpcServer* s = new RpcServer(so); EchoImpl* e = new EchoImpl; s->RegisterService(e); EXPECT(s->Start(addr(port)), "no server");
    RpcClient* cl = new RpcClient; RpcChannel* ch = new RpcChannel(cl, addr(port), RpcChannelOptions()); demo::Echo::Stub* st = new demo::Echo::Stub(ch);
    for (int i = 0; i < 20; i++) {
        auto* c = new RpcController; c->SetTimeout(20000); auto* q = new demo::Req; q->set_id(100 + i); q->set_delay_ms(30); q->set_payload("x"); auto* r = new demo::Resp; double t0 = now_s();
        st->Call(c, q, r, NULL);
        EXPECT(!c->Failed() && r->id() == 100 + i, "call %d returned after %.3f s without its result: failed=%d id=%ld", i, now_s() - t0, c->Failed(), (long)r->id());
    }
    _exit(0);
}
