#include "demo_util.h"
// threads start calling an address at the same time: only one connection may be made
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int port; int l = listen_any(&port); fcntl(l, F_SETFL, O_NONBLOCK);
    for (int round = 0; round < 400; round++) {
        RpcClient cl; RpcChannel ch(&cl, addr(port), RpcChannelOptions()); std::atomic<int> ready(0); std::atomic<bool> go(false); std::vector<std::thread> ts; const int T = 8;
        for (int t = 0; t < T; t++) ts.emplace_back([&] { RpcController c; c.SetTimeout(100); demo::Req q; demo::Resp r; q.set_id(1); demo::Echo::Stub st(&ch); ready++; while (!go); st.Call(&c, &q, &r, NULL); });
        while (ready < T); go = true; ms(30);
        int n = 0; std::vector<int> fds; int fd; while ((fd = accept(l, 0, 0)) >= 0) { n++; fds.push_back(fd); }
        for (int f : fds) close(f);
        for (auto& t : ts) t.join();
        while ((fd = accept(l, 0, 0)) >= 0) close(fd);
        EXPECT(n <= 1, "%d connections to one address in round %d", n, round);
    }
    return 0;
}
