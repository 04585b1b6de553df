#include "demo_util.h"
#include <sofa/pbrpc/timeout_manager.h>
// every timer ends exactly once, also when timers are added while the manager is cleared
static std::atomic<long> ended(0);
static void cb(uint64 id, TimeoutManager::Type t) { ended++; }
int main() {
    alarm(150); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); TimeoutManager* m = new TimeoutManager; std::atomic<bool> stop(false); std::atomic<long> added(0); std::vector<std::thread> v;
    for (int t = 0; t < 6; t++) v.push_back(std::thread([&] { while (!stop) { m->add(100000, NewExtClosure(&cb)); added++; } }));
    double e = now_s() + 8; while (now_s() < e) m->clear(); stop = true; for (auto& x : v) x.join(); delete m;
    fprintf(stderr, "%ld timers\n", (long)added); EXPECT(ended == added, "%ld timers were added, %ld ended", (long)added, (long)ended); _exit(0);
}
