#include "demo_util.h"
#include <sofa/pbrpc/thread_group.h>
// post() never runs the task inside the call, also in a thread of the group
static std::atomic<int> ran(0), inside(0); static ThreadGroup* g; static thread_local int depth = 0;
static void task(int n) { if (depth) inside++; ran++; if (n) { depth++; g->post(NewClosure(&task, n - 1)); depth--; } }
int main() {
    alarm(60); g = new ThreadGroup(2); for (int i = 0; i < 10; i++) g->post(NewClosure(&task, 5));
    EXPECT(within(5000, [&] { return ran == 60; }), "%d of 60 tasks ran", (int)ran); EXPECT(inside == 0, "post() ran %d tasks inside the call", (int)inside); delete g; _exit(0);
}
