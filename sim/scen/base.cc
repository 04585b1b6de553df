// The building blocks that applications use on their own: timers (C17) and thread groups (C18).
#include "common.h"
#include <deque>
#include <sofa/pbrpc/timeout_manager.h>
#include <sofa/pbrpc/thread_group.h>
using namespace sc;
using sofa::pbrpc::TimeoutManager;
using sofa::pbrpc::ThreadGroup;
namespace {
// ---------------------------------------------------------------- C17
struct Tm {
    int n; bool rep; ns_t add0, add1, iv; TimeoutManager::Id id; bool known;     // added between add0 and add1; known: add() has returned
    int timeouts, ends, end_type; ns_t last, ended; int running, run_fiber; int plan; bool busy_long;
    int removers; bool erase_true; ns_t remove0; // calls of erase/clear that may concern it; start of the first
    int copies;                                // live copies of the bound argument
};
struct Bed {
    TimeoutManager* tm; std::deque<Tm> t; bool closing; ns_t closing_at; int node; ns_t busy; int clears, active;
    Bed() : tm(NULL), closing(false), closing_at(0), node(1), busy(0), clears(0), active(0) {}
};
Bed* B;
// bound to every callback: its copies die with the closure
struct Tok { int n; Tok(int i) : n(i) { B->t[n].copies++; } Tok(const Tok& o) : n(o.n) { B->t[n].copies++; } ~Tok() { B->t[n].copies--; } Tok& operator=(const Tok& o) { B->t[n].copies--; n = o.n; B->t[n].copies++; return *this; } };
int add_timer(int depth);
void erase_timer(int i);
const ns_t kGran = 10 * MS, kTol = 2 * US;
void on_timer(Tok tok, TimeoutManager::Id id, TimeoutManager::Type type) {
    Tm& e = B->t[tok.n];
    note("timer %d id=%lu type=%d", tok.n, (unsigned long)id, (int)type);
    if (e.known && e.id != id) fail("timer-id", "timer %d has the id %lu, its callback got %lu", tok.n, (unsigned long)e.id, (unsigned long)id);
    if (!e.known) e.id = id;
    if (e.running && e.run_fiber != cur_fiber()) fail("timer-concurrent", "two callbacks of timer %d run at the same time", tok.n);
    if (e.ends) fail("timer-after-end", "timer %d runs again (type %d) after its end (type %d)", tok.n, (int)type, e.end_type);
    if (type != TimeoutManager::TIMEOUTED && type != TimeoutManager::ERASED && type != TimeoutManager::CLEARED) fail("timer-type", "callback with type %d", (int)type);
    if (type == TimeoutManager::TIMEOUTED) {
        e.timeouts++; e.last = now(); probe("fired");
        int64_t k = e.timeouts;
        if (now() < e.add0 + k * e.iv - kTol) fail("timer-early", "%s timer %d of %.3f ms runs for the %ld. time after %.3f ms", e.rep ? "repeating" : "one-shot", tok.n, e.iv / 1e6, (long)k, (now() - e.add0) / 1e6);
        if (B->closing && now() > B->closing_at + 60 * SEC) fail("timer-after-destroy", "timer %d runs after the manager was destroyed", tok.n);
        if (!e.rep) { e.ends = 1; e.end_type = type; e.ended = now(); }
    } else {
        e.ends = 1; e.end_type = type; e.ended = now(); probe(type == TimeoutManager::ERASED ? "erased" : "cleared");
        if (!e.removers && !(type == TimeoutManager::CLEARED && (B->closing || B->clears))) fail("timer-type", "timer %d ended with type %d although nobody removed it", tok.n, (int)type);
    }
    e.running++; int of = e.run_fiber; e.run_fiber = cur_fiber();
    if (!B->closing) switch (e.plan) {
    case 1: { ns_t d = Wlog(1, 30 * MS); B->busy += d; sleep_ns(d); break; }
    case 2: if (type == TimeoutManager::TIMEOUTED && e.timeouts >= 2 && e.rep) erase_timer(tok.n); break;
    case 3: if (type == TimeoutManager::TIMEOUTED && B->t.size() < 60) add_timer(1); break;
    case 4: if (type == TimeoutManager::TIMEOUTED) erase_timer(W(B->t.size())); break;
    case 5: if (type == TimeoutManager::TIMEOUTED && W(4) == 0) { B->clears++; for (auto& x : B->t) { if (!x.removers) x.remove0 = now(); x.removers++; } B->active++; B->tm->clear(); B->active--; } break;
    }
    Tm& e2 = B->t[tok.n]; e2.running--; e2.run_fiber = of;
}
int add_timer(int depth) {
    int i = B->t.size(); Tm e; memset(&e, 0, sizeof e); e.n = i; e.rep = W(3) == 0; e.plan = W(10); if (e.plan > 5 || (depth && e.plan == 3)) e.plan = 0;
    int64_t ms = W(8) == 0 ? 0 : W(6) == 0 ? Wr(0, 3) * 10 : Wlog(1, 2000); if (e.rep && ms < 5 && W(2)) ms = 5;
    e.iv = ms * MS; e.add0 = now(); e.run_fiber = -1; B->t.push_back(e);
    TimeoutManager::Id id;
    if (e.rep) id = B->tm->add_repeating(ms, sofa::pbrpc::NewPermanentExtClosure(&on_timer, Tok(i)));
    else id = B->tm->add(ms, sofa::pbrpc::NewExtClosure(&on_timer, Tok(i)));
    Tm& x = B->t[i];
    if (x.id && x.id != id) fail("timer-id", "add() returned the id %lu, the callback got %lu", (unsigned long)id, (unsigned long)x.id);
    for (auto& y : B->t) if (y.n != i && y.known && y.id == id) fail("timer-id", "two timers have the id %lu", (unsigned long)id);
    x.id = id; x.add1 = now(); x.known = true; return i;
}
void erase_timer(int i) {
    if (!B->t[i].known) { if (B->tm->erase(1000000 + i)) fail("erase", "erase() of an unknown id returned true"); return; }
    Tm& e = B->t[i]; bool first = e.removers == 0 && !B->clears; int clears0 = B->clears; bool ended0 = e.ends && !e.running; ns_t t0 = now();
    e.removers++; if (first) e.remove0 = t0;
    bool r = B->tm->erase(e.id); ns_t t1 = now(); Tm& x = B->t[i]; bool alone = first && x.removers == 1 && B->clears == clears0;
    note("erase timer %d: %d", i, r);
    if (r && x.erase_true) fail("erase", "erase() of timer %d returned true twice", i);
    if (r && ended0) fail("erase", "erase() of timer %d returned true after its end", i);
    if (r) { x.erase_true = true; if (!x.ends || x.end_type != TimeoutManager::ERASED) fail("erase", "erase() of timer %d returned true but its callback was not told", i); }
    else if (alone && (x.rep || t1 < x.add0 + x.iv - kTol)) fail("erase", "erase() of timer %d, which was still pending, returned false", i);
}
}
SCENARIO(c17_timers, "timers added, removed and cleared by several threads and from callbacks") {
    world_init(); NodeScope ns(1); Bed bed; B = &bed; 
    if (W(2)) { sys.fiber_stall = Wr(20, 6000); sys.fiber_stall_max = Wlog(100 * US, 200 * MS); }
    if (W(3) == 0) sys.spurious_wake = Wr(10, 2000);
    if (W(4) == 0) clock_skew(1, ((int64_t)W(2000) - 1000) * 100 * MS);
    bed.tm = new TimeoutManager();
    int nf = Wr(1, 4); std::vector<int> fs; bool clears = W(3) == 0;
    for (int f = 0; f < nf; f++) { int n = Wr(1, 10); fs.push_back(spawn(1, "user", [&, n, clears] {
        for (int k = 0; k < n; k++) {
            switch (W(8)) {
            case 0: case 1: case 2: case 3: add_timer(0); break;
            case 4: case 5: if (!bed.t.empty()) erase_timer(W(bed.t.size())); break;
            case 6: if (clears) { bool sole = bed.active++ == 0; int c0 = ++bed.clears; std::vector<int> must; for (auto& x : bed.t) { if (x.known && !x.ends) must.push_back(x.n); if (!x.removers) x.remove0 = now(); x.removers++; }
                        bed.tm->clear(); bed.active--; sole = sole && bed.clears == c0;
                        if (sole) for (int i : must) if (bed.t[i].rep && !bed.t[i].ends && bed.t[i].removers == 1) fail("clear", "repeating timer %d is still pending after clear()", i); } break;
            case 7: { // a timer removed around the time it is due
                int i = add_timer(0); ns_t d = bed.t[i].iv + 10 * MS + ((int64_t)W(20) - 10) * MS; if (d > 0) sleep_ns(d); erase_timer(i); break; }
            }
            if (W(2)) sleep_ns(Wlog(1, 200 * MS));
        } })); }
    for (int f : fs) join(f);
    probe("work");
    // let some of it run
    sleep_ns(Wlog(1, 3 * SEC));
    bool early = W(2);
    if (!early) {
        // every one-shot timer that was not removed has run soon after it was due
        ns_t lim = 0; for (auto& x : bed.t) if (!x.rep) lim = std::max(lim, x.add1 + x.iv);
        ns_t end = lim + 2 * kGran + 10 * MS; if (now() < end) sleep_ns(end - now());
        ns_t e2 = now() + stalled_total() + bed.busy + 10 * MS;
        wait_until([&] { for (auto& x : bed.t) if (!x.rep && !x.ends) return false; return true; }, e2 - now(), MS);
    }
    for (auto& x : bed.t) if (x.known && !x.rep && !x.ends && x.add1 + x.iv + 3 * kGran + stalled_total() + bed.busy < now()) fail("timer-lost", "one-shot timer %d of %.3f ms has not run %.3f ms after it was added", x.n, x.iv / 1e6, (now() - x.add1) / 1e6);
    for (auto& x : bed.t) if (x.known && x.rep && !x.ends) {
        // each round takes at most the interval and two ticks, not counting stalls and slow callbacks
        ns_t life = now() - x.add1 - stalled_total() - bed.busy; int64_t least = life > 0 ? life / (x.iv + 3 * kGran) - 1 : 0;
        if (x.timeouts < least) fail("timer-lost", "repeating timer %d of %.3f ms ran %d times in %.3f ms", x.n, x.iv / 1e6, x.timeouts, (now() - x.add1) / 1e6);
    }
    bed.closing = true; bed.closing_at = now();
    bounded("~TimeoutManager", 5 * SEC, [&] { delete bed.tm; });
    for (auto& x : bed.t) {
        if (!x.ends) fail("timer-lost", "timer %d never got its final callback", x.n);
        if (x.running) fail("timer-concurrent", "callback of timer %d still runs after the manager was destroyed", x.n);
        if (x.copies) fail("timer-leak", "the closure of timer %d still exists (%d copies) after its end", x.n, x.copies);
    }
    teardown_check({ 1 });
}

// ---------------------------------------------------------------- C18
namespace {
struct Task { int n, by, fiber; int runs; bool dispatched; ns_t posted; };
struct Grp { ThreadGroup* g; int threads; std::deque<Task> t; std::vector<int> last_of; int running, max_running; std::set<int> fibers; bool destroyed; std::map<int, int> poster_of_fiber; bool tasks_post; ns_t slow; int depth; int left; };
Grp* G;
void post_task(int by, bool dispatch, bool ext, int level);
void run_task(int n, int level) {
    Task& t = G->t[n];
    if (G->destroyed) fail("task-after-destroy", "task %d runs after the group was destroyed", n);
    if (t.runs++) fail("task-twice", "task %d runs %d times", n, t.runs);
    t.fiber = cur_fiber();
    G->fibers.insert(cur_fiber());
    if ((int)G->fibers.size() > G->threads) fail("task-thread", "tasks ran on %zu threads, the group has %d", G->fibers.size(), G->threads);
    if (G->threads == 1 && !t.dispatched) { int& l = G->last_of[t.by]; if (n < l) fail("task-order", "task %d ran after task %d, both posted by the same caller to a group with one thread", n, l); l = n; }
    G->running++; G->max_running = std::max(G->max_running, G->running);
    if (G->slow && W(3) == 0) sleep_ns(Wlog(1, G->slow));
    if (G->tasks_post && level < 3 && W(3) == 0) { int k = Wr(1, 2); for (int i = 0; i < k; i++) post_task(8 + cur_fiber() % 8, W(3) == 0, W(2), level + 1); }
    G->running--; G->left--;
}
void post_task(int by, bool dispatch, bool ext, int level) {
    int n = G->t.size(); Task t = { n, by, -1, 0, dispatch, now() }; G->t.push_back(t); G->left++;
    int me = cur_fiber();
    if (ext) { auto* c = sofa::pbrpc::NewExtClosure(&run_task, n, level); dispatch ? G->g->dispatch(c) : G->g->post(c); }
    else { gp::Closure* c = sofa::pbrpc::NewClosure(&run_task, n, level); dispatch ? G->g->dispatch(c) : G->g->post(c); }
    if (!dispatch && G->t[n].runs && G->t[n].fiber == me) fail("task-inside-post", "post() ran task %d in the calling thread", n);
    if (level == 0 && G->t[n].fiber == me) fail("task-thread", "task %d ran on the thread that handed it over, which is not one of the group", n);
}
}
SCENARIO(c18_group, "tasks posted and dispatched to a thread group by several threads and by tasks") {
    world_init(); NodeScope ns(1); Grp g = Grp(); G = &g; g.last_of.assign(16, -1); g.destroyed = false;
    if (W(2)) { sys.fiber_stall = Wr(20, 6000); sys.fiber_stall_max = Wlog(10 * US, 50 * MS); }
    if (W(3) == 0) sys.spurious_wake = Wr(10, 2000);
    g.threads = W(3) == 0 ? 1 : Wr(1, 5); g.tasks_post = W(2); g.slow = W(2) ? Wlog(US, 20 * MS) : 0;
    int asked = W(8) == 0 && g.threads == 1 ? 0 : g.threads;     // 0 is raised to 1
    bounded("ThreadGroup()", 5 * SEC, [&] { g.g = new ThreadGroup(asked); });
    if (g.g->thread_num() != g.threads) fail("thread-num", "thread_num() is %d in a group made for %d", g.g->thread_num(), asked);
    if (live_threads(1) != g.threads) fail("thread-num", "%d threads run in a group made for %d", live_threads(1), asked);
    int np = Wr(1, 4); std::vector<int> fs; 
    for (int p = 0; p < np; p++) { int n = Wr(1, 12); fs.push_back(spawn(1, "poster", [&, p, n] { for (int k = 0; k < n; k++) { post_task(p, W(3) == 0, W(2), 0); if (W(3) == 0) sleep_ns(Wlog(1, 10 * MS)); } })); }
    for (int f : fs) join(f);
    probe("work");
    bool early = W(2);
    if (!early) {
        ns_t lim = now() + SEC + g.slow * 300; 
        while (g.left) { if (now() > lim + stalled_total()) fail("task-lost", "%d tasks have not run after %.1f s", g.left, (now() - lim) / 1e9 + 1); sleep_ns(MS); }
        // as many tasks as threads can wait for each other
        int want = g.threads, here = 0; ns_t t0 = now();
        for (int i = 0; i < want; i++) g.g->post(sofa::pbrpc::NewClosure(+[](int* h, int n) { ++*h; while (*h < n) sleep_ns(100 * US); }, &here, want));
        while (here < want) { if (now() > t0 + SEC + stalled_total()) fail("task-concurrency", "only %d of %d tasks run concurrently on %d threads", here, want, g.threads); sleep_ns(MS); }
        sleep_ns(10 * MS);
    }
    bounded("~ThreadGroup", 5 * SEC + 300 * g.slow, [&] { delete g.g; });
    g.destroyed = true;
    if (g.left) fail("task-lost", "%d tasks were never run although the group was destroyed", g.left);
    if (g.running) fail("task-after-destroy", "%d tasks still run after the group was destroyed", g.running);
    for (auto& t : g.t) if (t.runs != 1) fail("task-lost", "task %d ran %d times", t.n, t.runs);
    if (live_threads(1)) fail("leak", "%d threads of the group still run after it was destroyed", live_threads(1));
    sleep_ns(100 * MS); if (open_fds(1)) fail("leak", "%d descriptors still open after the group was destroyed", open_fds(1));
}
SCENARIO(c18_fail, "a thread of a group cannot be created") {
    world_init(); NodeScope ns(1); int n = Wr(1, 5); force_thread_fail(1, Wr(1, n)); ThreadGroup* g = NULL;
    bounded("ThreadGroup()", 5 * SEC, [&] { g = new ThreadGroup(n); });
    sleep_ns(Wlog(1, SEC));
    if (live_threads(1)) fail("thread-num", "%d threads run in a group that could not be started", live_threads(1));
    bounded("~ThreadGroup", 5 * SEC, [&] { delete g; }); probe("work");
    sleep_ns(SEC); if (live_threads(1) || open_fds(1)) fail("leak", "%d threads and %d descriptors left of a group that could not be started", live_threads(1), open_fds(1));
}
// per-thread initialisation and finalisation of the server's work threads
namespace {
struct Inits { std::map<int, int> state; int inits, dests, fail_at, bad; } *I;   // state of a thread: 1 initialised 2 finalised
bool th_init() { int f = cur_fiber(); if (I->state[f]) fail("thread-init", "a thread is initialised twice"); sleep_ns(Wlog(1, 20 * MS)); I->inits++; if (I->fail_at && I->inits == I->fail_at) { I->state[f] = 3; return false; } I->state[f] = 1; return true; }
void th_dest() { int f = cur_fiber(); if (I->state[f] != 1 && I->state[f] != 3) fail("thread-init", "a thread is finalised in state %d", I->state[f]); I->state[f] = 2; I->dests++; }
}
SCENARIO(c18_server, "per-thread initialisation and finalisation of a server's work threads") {
    world_init(); Inits in = Inits(); I = &in; 
    RpcServerOptions so = small_server(); so.work_thread_num = Wr(1, 5); int threads = so.work_thread_num * so.io_service_pool_size;
    so.work_thread_init_func = sofa::pbrpc::NewPermanentExtClosure(&th_init); so.work_thread_dest_func = sofa::pbrpc::NewPermanentExtClosure(&th_dest);
    if (W(3) == 0) in.fail_at = Wr(1, threads);
    if (W(2)) { sys.fiber_stall = Wr(20, 3000); sys.fiber_stall_max = Wlog(10 * US, 50 * MS); }
    w->on_exec = [&](Call* c) { if (in.state[cur_fiber()] != 1) fail("thread-init", "a handler runs on a thread in state %d (0: not initialised, 2: finalised)", in.state[cur_fiber()]); };
    Server s(11, 8000, so); bool want = !in.fail_at; bool ok = s.start(); probe("work");
    if (ok != want) fail("start", ok ? "Start() succeeded although the initialisation of a work thread failed" : "Start() failed without a fault");
    if (!ok) {
        if (!wait_until([] { return live_threads(11) == 0; }, 5 * SEC)) fail("leak", "%d threads still run after Start() failed", live_threads(11));
        if (listening(11, 8000)) fail("start", "the port listens after Start() failed");
        in.fail_at = 0; in.state.clear(); in.inits = in.dests = 0;
        if (!s.start()) fail("start", "Start() fails after an earlier Start() had failed and its cause is gone");
    }
    if (in.inits != threads) fail("thread-init", "%d threads initialised when Start() returned, %d wanted", in.inits, threads);
    int rounds = Wr(1, 2);
    for (int r = 0; r < rounds; r++) {
        { NodeScope ns(1); RpcClient* cl = new RpcClient(small_client()); RpcChannel* ch = new RpcChannel(cl, s.addr(), RpcChannelOptions());
          CallCfg k; k.tmo_lo = k.tmo_hi = 20000; k.default_tmo_pct = 0; k.bad_pct = 0; k.slow_us = 20000; k.defer_pct = 0; int n = Wr(1, 12);
          for (int i = 0; i < n; i++) issue(make_call(k), ch);
          finish_calls(3 * SEC); delete ch; delete cl; }
        s.stop();
        if (in.dests != in.inits) fail("thread-init", "%d threads initialised and %d finalised when Stop() has returned", in.inits, in.dests);
        if (r + 1 < rounds) { in.state.clear(); in.inits = in.dests = 0; if (!s.start()) fail("start", "Start() after Stop() failed"); }
    }
    expect_all_ok(); s.destroy(); teardown_check({ 1, 11 });
    delete so.work_thread_init_func; delete so.work_thread_dest_func;
}
