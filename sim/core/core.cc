// Fibers, seeded scheduler, choices, simulated time, pthread replacement.
#include "core.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>
#include <algorithm>
#include <queue>
#include <dlfcn.h>

extern "C" void* __cxa_get_globals(void);

namespace sim {

Result* R = NULL;
Fiber* g_cur = NULL;
std::vector<Fiber*>* g_fibers = NULL;
extern int64_t* g_budget; extern int64_t g_rmw_cost;
bool g_trace = false;
NetCfg net; SysCfg sys;

static uint64_t g_seed;
static ns_t g_now;
static uint64_t g_seq;
static uint64_t g_steps, g_switches, g_ops_total;
static const ns_t STEP_COST = 100;
static uint64_t g_step_cap = 12000000;
static std::vector<Fiber*>* g_runq;
static bool g_faults_off;
static ns_t g_wall_offset; static ns_t g_skew[256]; ns_t g_stalled;

struct Event { ns_t t; uint64_t seq; std::function<void()>* fn; };
struct EvCmp { bool operator()(const Event& a, const Event& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Event, std::vector<Event>, EvCmp>* g_events;
static ns_t g_next_event = INT64_MAX;
static uint64_t g_evseq;

// ------------------------------------------------------------------ choices
static inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
uint64_t raw_hash(uint32_t kind, uint32_t id, uint32_t idx) {
    return mix(mix(g_seed ^ ((uint64_t)kind << 56)) + ((uint64_t)id << 32) + idx);
}
struct ReplayTab { Choice* t; uint32_t cap; };
static ReplayTab g_replay; static bool g_replaying;
bool replaying() { return g_replaying; }
static uint32_t replay_get(uint32_t kind, uint32_t id, uint32_t idx) {
    if (!g_replay.cap) return 0;
    uint32_t m = g_replay.cap - 1, i = (uint32_t)mix(((uint64_t)kind << 58) ^ ((uint64_t)id << 32) ^ idx) & m;
    while (g_replay.t[i].val) {
        if (g_replay.t[i].kind == kind && g_replay.t[i].id == id && g_replay.t[i].idx == idx) return g_replay.t[i].val;
        i = (i + 1) & m;
    }
    return 0;
}
static inline void record(uint32_t kind, uint32_t id, uint32_t idx, uint32_t v) {
    if (!v) return;
    uint32_t n = R->nchoices;
    if (n < MAX_CHOICES) { Choice c = { kind, id, idx, v }; R->choices[n] = c; R->nchoices = n + 1; } else R->choice_overflow++;
}
static std::unordered_map<uint64_t, uint32_t>* g_ctr;
static uint32_t next_idx(uint32_t kind, uint32_t id) { return (*g_ctr)[((uint64_t)kind << 32) | id]++; }
uint32_t choice_fn(uint32_t kind, uint32_t id, uint32_t idx, uint32_t (*f)(uint64_t, void*), void* c) {
    uint32_t v = g_replaying ? replay_get(kind, id, idx) : f(raw_hash(kind, id, idx), c);
    record(kind, id, idx, v);
    return v;
}
uint32_t choice(uint32_t kind, uint32_t id, uint32_t n) {
    Core k; if (n <= 1) return 0;
    uint32_t v = choice_fn(kind, id, next_idx(kind, id), [](uint64_t h, void* c) -> uint32_t { return (h >> 11) % *(uint32_t*)c; }, &n);
    return v % n;
}
bool chance(uint32_t kind, uint32_t id, uint32_t num, uint32_t den) {
    Core k; if (!num) return false;
    uint32_t a[2] = { num, den };
    return choice_fn(kind, id, next_idx(kind, id), [](uint64_t h, void* c) -> uint32_t { uint32_t* a = (uint32_t*)c; return (h >> 11) % a[1] < a[0]; }, a) != 0;
}
uint64_t choice_log(uint32_t kind, uint32_t id, uint64_t lo, uint64_t hi) {
    Core k; if (hi <= lo) return lo;
    uint64_t range = hi - lo;
    uint32_t v = choice_fn(kind, id, next_idx(kind, id), [](uint64_t h, void*) -> uint32_t { return (uint32_t)(h >> 20); }, NULL);
    if (!v) return lo;
    int bits = 64 - __builtin_clzll(range);
    int b = (v & 0x3f) * bits / 63;                 // which magnitude
    uint64_t span = b >= 63 ? range : ((1ULL << b) - 1);
    if (span > range) span = range;
    uint64_t x = span ? mix(v) % (span + 1) : 0;
    return lo + x;
}
uint32_t W(uint32_t n) { return choice(ST_WORK, g_cur->id, n); }
bool Wp(uint32_t num, uint32_t den) { return chance(ST_WORK, g_cur->id, num, den); }
uint64_t Wlog(uint64_t lo, uint64_t hi) { return choice_log(ST_WORK, g_cur->id, lo, hi); }

// ------------------------------------------------------------------ log, verdict
void ev(uint32_t what, uint64_t a, uint64_t b) {
    R->hash = mix(R->hash ^ mix(what ^ (a << 8)) ^ mix(b + 0x1234) ^ (uint64_t)g_now);
}
void hash_mix(uint64_t v) { R->hash = mix(R->hash ^ v); }
void trace(const char* fmt, ...) {
    if (!g_trace) return;
    Core k; char buf[1200]; int n = snprintf(buf, sizeof buf, "%12.6f [%s/n%d] ", g_now / 1e9, g_cur ? g_cur->name : "-", g_cur ? g_cur->node : 0);
    va_list ap; va_start(ap, fmt); n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    uint32_t t = R->ntrace; if (t + n < TRACE_BYTES) { memcpy(R->trace + t, buf, n); R->ntrace = t + n; }
}
void note(const char* fmt, ...) {
    if (!g_trace) return;
    Core k; char buf[1000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    trace("%s", buf);
}
static void finish_stats() {
    R->steps = g_steps; R->switches = g_switches; R->sim_ns = g_now; R->fibers = g_fibers ? g_fibers->size() : 0;
    R->ops = g_ops_total;
}
void die(const char* cls, const char* msg, bool bt) {
    g_core += 1000;
    if (!g_run || !R) { fprintf(stderr, "sim: %s: %s (outside a run)\n", cls, msg); _exit(98); }
    if (R->status == 0) {
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        snprintf(R->msg, sizeof R->msg, "%s [t=%.6f fiber=%s node=%d]", msg, g_now / 1e9, g_cur ? g_cur->name : "-", g_cur ? g_cur->node : 0);
        if (bt) R->nbt = backtrace(R->bt, 40);
        trace("VIOLATION %s: %s", cls, msg);
        finish_stats();
        R->status = strcmp(cls, "internal") ? 2 : 3;
    }
    _exit(0);
}
void fail(const char* cls, const char* fmt, ...) {
    ++g_core; char buf[2500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    die(cls, buf, false);
}
void probe(const char* name) {
    Core k;
    for (int i = 0; i < R->nprobes; i++) if (!strcmp(R->probes[i].name, name)) { R->probes[i].n++; return; }
    if (R->nprobes < MAX_PROBES) { snprintf(R->probes[R->nprobes].name, 48, "%s", name); R->probes[R->nprobes++].n = 1; }
}
void param(const char* name, int64_t v) {
    Core k; trace("param %s=%ld", name, (long)v);
    for (int i = 0; i < R->nparams; i++) if (!strcmp(R->params[i].name, name)) { R->params[i].v = v; return; }
    if (R->nparams < MAX_PARAMS) { snprintf(R->params[R->nparams].name, 32, "%s", name); R->params[R->nparams++].v = v; }
}
const char* const kFaultNames[F_KINDS] = { "short_read","short_write","segmentation","delay","link_stall","conn_reset","connect_refused",
 "connect_blackhole","conn_reset_in_backlog","accept_emfile","accept_aborted","socket_emfile","bind_failure","listen_failure","spurious_eagain",
 "small_send_buffer","partition","node_crash","node_pause","thread_stall","alloc_failure","thread_create_failure","spurious_condvar_wakeup",
 "dns_failure","clock_jump","clock_skew","eintr","setsockopt_failure","peer_close","hostile_bytes","slow_handler","node_restart","spurious_epoll_event","link_reset" };
void count_fault(int k) { R->faults[k]++; }
uint64_t fault_count(int k) { return R->faults[k]; }

// ------------------------------------------------------------------ policy
static struct Policy { int type; uint32_t num, den; bool next_random; int mem_gap; uint64_t cps[8]; int ncp; } pol;
static void policy_init() {
    memset(&pol, 0, sizeof pol);
    uint64_t h = raw_hash(ST_POLICY, 0, 0), h2 = raw_hash(ST_POLICY, 0, 1), h3 = raw_hash(ST_POLICY, 0, 2);
    static const uint32_t dens[] = { 2, 8, 32, 128, 512 };
    switch (h % 16) {
    case 0: pol.type = 0; break;
    case 1: case 2: case 3: pol.type = 2; pol.next_random = true; break;
    case 4: case 5: case 6: case 7: case 8: case 9: case 10: pol.type = 1; pol.num = 1; pol.den = dens[(h >> 8) % 5]; pol.next_random = (h >> 16) & 1; break;
    default: pol.type = 3; pol.ncp = 1 + (h >> 8) % 6;
        for (int i = 0; i < pol.ncp; i++) { uint64_t span = 1ULL << (10 + (raw_hash(ST_POLICY, 1, i) >> 40) % 8); pol.cps[i] = raw_hash(ST_POLICY, 1, i) % span; }
    }
    if (h2 % 5 < 2 && pol.type) { static const int gaps[] = { 40, 400, 4000, 30000 }; pol.mem_gap = gaps[h3 % 4]; }
    if (pol.type == 0) pol.mem_gap = 0;
    g_rmw_cost = pol.mem_gap ? (h3 >> 8) % 2 * 24 : 0;
}
static uint64_t new_prio(Fiber* f) { return 1000 + (raw_hash(ST_POLICY, 2, f->id) >> 20); }
static int best_prio() { int b = -1; for (size_t i = 0; i < g_runq->size(); i++) if (b < 0 || (*g_runq)[i]->prio > (*g_runq)[b]->prio) b = i; return b; }

// ------------------------------------------------------------------ fibers
static const uintptr_t STK = 0x100000000000ULL; static const size_t STK_SIZE = 256 << 10; static const int STK_MAX = 1500;
static std::vector<int>* g_free_stacks; static int g_next_stack;
static void* stack_at(int slot) { return (void*)(STK + (uintptr_t)slot * (STK_SIZE + 65536) + 65536); }
static char* stack_alloc(int* slot) {
    if (!g_free_stacks->empty()) { *slot = g_free_stacks->back(); g_free_stacks->pop_back(); return (char*)stack_at(*slot); }
    if (g_next_stack >= STK_MAX) die("internal", "too many fibers");
    *slot = g_next_stack++;
    char* p = (char*)stack_at(*slot);
    void* q = (void*)syscall(SYS_mmap, p, STK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (q != p) die("internal", "cannot map stack");
    return p;
}
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
extern "C" void sim_switch(void** save, void* to);

static void fiber_main();
static void fiber_prepare(Fiber* f) {
    uintptr_t top = (uintptr_t)f->stack + STK_SIZE - 64;
    top &= ~15ULL;
    uint64_t* s = (uint64_t*)top;
    *--s = 0;                       // fake return address of fiber_main: terminates backtraces; alignment
    *--s = (uint64_t)fiber_main;    // ret target
    for (int i = 0; i < 6; i++) *--s = 0;
    --s; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)s)[0] = mx; ((uint32_t*)s)[1] = cw;
    f->sp = s;
}
static int64_t draw_gap(Fiber* f) {
    uint32_t v = choice_fn(ST_MEM, f->id, f->mems++, [](uint64_t h, void*) -> uint32_t {
        if (!pol.mem_gap) return 0;
        double u = ((h >> 11) + 1) * (1.0 / 9007199254740993.0);
        double g = -__builtin_log(u) * pol.mem_gap; return g < 1 ? 1 : (uint32_t)g; }, NULL);
    f->gap_real = v != 0;
    return v ? v : (1 << 22);
}
Fiber* new_fiber(int node, const char* name) {
    Fiber* f = new Fiber(); memset((void*)f, 0, sizeof *f);
    f->id = g_fibers->size(); f->node = node; f->state = Fiber::RUNNABLE;
    snprintf(f->name, sizeof f->name, "%s#%d", name, f->id);
    g_fibers->push_back(f);
    f->joiners = new std::vector<Fiber*>();
    f->prio = new_prio(f);
    f->mem_budget = draw_gap(f);
    if (f->id) { f->stack = stack_alloc(&f->stack_slot); fiber_prepare(f); }
    return f;
}
void make_runnable(Fiber* f) {
    if (f->frozen || f->state == Fiber::DONE) return;
    f->state = Fiber::RUNNABLE; f->wkey = NULL; f->wgen++;
    g_runq->push_back(f);
}
static std::map<int, ns_t>* g_paused;
static std::vector<Fiber*>* g_parked;
static bool node_is_paused(int n) { if (g_paused->empty()) return false; auto it = g_paused->find(n); return it != g_paused->end() && it->second > g_now; }

static void run_due_events() {
    while (g_next_event <= g_now) {
        Event e = g_events->top(); g_events->pop();
        g_next_event = g_events->empty() ? INT64_MAX : g_events->top().t;
        (*e.fn)(); delete e.fn;
    }
}
void at(ns_t t, std::function<void()> fn) {
    if (t < g_now) t = g_now;
    Event e = { t, ++g_evseq, new std::function<void()>(fn) };
    g_events->push(e); g_next_event = g_events->top().t;
}
static void switch_to(Fiber* f) {
    if (f == g_cur) { f->state = Fiber::RUNNING; return; }
    Fiber* o = g_cur;
    o->err = errno; memcpy(o->eh, __cxa_get_globals(), 16);
    g_cur = f; f->state = Fiber::RUNNING; g_budget = &f->mem_budget; f->ops = 0;
    g_switches++;
    R->sched_hash = mix(R->sched_hash ^ ((uint64_t)f->id << 1 | 1));
    int core = g_core; 
    sim_switch(&o->sp, f->sp);
    // running as o again
    g_core = core;
    errno = o->err; memcpy(__cxa_get_globals(), o->eh, 16);
}
static void dump_fibers(char* buf, size_t n) {
    size_t k = 0; int shown = 0;
    for (Fiber* f : *g_fibers) if (f->state == Fiber::BLOCKED && !f->frozen && shown < 40 && k + 60 < n) { k += snprintf(buf + k, n - k, " %s(n%d)", f->name, f->node); shown++; }
}
static void pick_and_switch() {
    for (;;) {
        run_due_events();
        // drop fibers of crashed nodes, park fibers of paused nodes
        for (size_t i = 0; i < g_runq->size();) {
            Fiber* f = (*g_runq)[i];
            if (f->frozen) { g_runq->erase(g_runq->begin() + i); continue; }
            if (!f->harness && node_is_paused(f->node)) { g_runq->erase(g_runq->begin() + i); g_parked->push_back(f); continue; }
            ++i;
        }
        if (!g_runq->empty()) break;
        if (g_events->empty()) { char b[2400]; int k = snprintf(b, sizeof b, "no runnable thread and no pending event; blocked:"); dump_fibers(b + k, sizeof b - k); die("deadlock", b, false); }
        g_now = std::max(g_now, g_events->top().t);
    }
    uint32_t n = g_runq->size();
    uint32_t v = 0;
    if (n > 1) v = choice_fn(ST_NEXT, g_cur->id, g_cur->nexts, [](uint64_t h, void* c) -> uint32_t {
        if (pol.type == 3) return best_prio();
        if (pol.next_random) return (h >> 11) % *(uint32_t*)c;
        return 0; }, &n);
    g_cur->nexts++;
    v %= n;
    Fiber* f = (*g_runq)[v];
    g_runq->erase(g_runq->begin() + v);
    switch_to(f);
}
static void cap_check() {
    if (++g_steps > g_step_cap) { char b[2400]; int k = snprintf(b, sizeof b, "step cap of %lu scheduling points reached at t=%.3fs;", (unsigned long)g_step_cap, g_now / 1e9); dump_fibers(b + k, sizeof b - k); die("livelock", b); }
}
static void yield_to(uint32_t v) {
    Fiber* me = g_cur;
    me->state = Fiber::RUNNABLE;
    // switch to the (v-1)-th runnable
    run_due_events();
    std::vector<Fiber*>& q = *g_runq;
    for (size_t i = 0; i < q.size();) {
        Fiber* f = q[i];
        if (f->frozen) { q.erase(q.begin() + i); continue; }
        if (!f->harness && node_is_paused(f->node)) { q.erase(q.begin() + i); g_parked->push_back(f); continue; }
        ++i;
    }
    if (q.empty()) { me->state = Fiber::RUNNING; return; }
    uint32_t i = (v - 1) % q.size();
    Fiber* f = q[i]; q.erase(q.begin() + i); q.push_back(me);
    switch_to(f);
}
static void park_if_needed() {
    Fiber* me = g_cur;
    if (me->frozen) { me->state = Fiber::BLOCKED; pick_and_switch(); die("internal", "frozen fiber resumed"); }
    if (!me->harness && node_is_paused(me->node)) { me->state = Fiber::RUNNABLE; g_parked->push_back(me); pick_and_switch(); }
}
void api_scope(int d) { if (g_cur) g_cur->api += d; }
static bool stallable(Fiber* f) { return !f->harness || f->api; }
static void stall_now(uint32_t v) {
    R->faults[F_FIBER_STALL]++; Fiber* me = g_cur;
    ns_t d = (ns_t)(v & 0x7fffffff) * 1000;
    trace("thread stalled for %.3f ms", d / 1e6); g_stalled += d;
    me->state = Fiber::BLOCKED; uint32_t gen = me->wgen;
    at(g_now + d, [me, gen] { if (me->state == Fiber::BLOCKED && me->wgen == gen) make_runnable(me); });
    pick_and_switch();
}
static void point_slow() {
    Core k;
    cap_check();
    g_now += STEP_COST;
    if (g_next_event <= g_now) run_due_events();
    Fiber* me = g_cur;
    if (me->frozen || !g_paused->empty()) park_if_needed();
    uint32_t v = choice_fn(ST_SCHED, me->id, me->pts++, [](uint64_t h, void*) -> uint32_t {
        if (sys.fiber_stall && !g_faults_off && (h >> 40) % 1000000 < (uint64_t)sys.fiber_stall && stallable(g_cur))
            return 0x80000000u | (uint32_t)(mix(h) % (sys.fiber_stall_max / 1000 + 1));
        if (g_runq->empty() || !pol.type || pol.type == 2) return 0;
        if (pol.type == 1) return (h >> 11) % pol.den < pol.num ? 1 + (h >> 30) % g_runq->size() : 0;
        for (int i = 0; i < pol.ncp; i++) if (pol.cps[i] == g_steps) g_cur->prio = 1 + i;
        int b = best_prio();
        return (*g_runq)[b]->prio > g_cur->prio ? 1 + b : 0; }, NULL);
    if (!v) return;
    if (v & 0x80000000u) {
        stall_now(v);
        return;
    }
    if (!g_runq->empty()) yield_to(v);
}
void point() { if (g_run && !g_core) point_slow(); }
void mem_point() {
    Core k;
    if (!g_run || !g_cur) { *g_budget = 1 << 22; return; }
    Fiber* f = g_cur;
    bool real = f->gap_real;
    f->ops++;
    f->mem_budget = draw_gap(f);
    if (!real) { g_ops_total += 1 << 22; if (f->ops > 400) die("livelock", "runaway computation: more than 1.6e9 memory accesses without a scheduling point"); return; }
    bool may_stall = sys.fiber_stall && !g_faults_off && stallable(f);
    if (g_runq->empty() && !may_stall && g_next_event > g_now + STEP_COST) { return; }
    cap_check(); g_now += STEP_COST;
    if (g_next_event <= g_now) run_due_events();
    if (f->frozen || !g_paused->empty()) park_if_needed();
    if (g_runq->empty() && !may_stall) return;
    uint32_t v = choice_fn(ST_SCHED, f->id, f->pts++, [](uint64_t h, void*) -> uint32_t {
        if (sys.fiber_stall && !g_faults_off && (h >> 40) % 1000000 < (uint64_t)sys.fiber_stall && stallable(g_cur)) return 0x80000000u | (uint32_t)(mix(h) % (sys.fiber_stall_max / 1000 + 1));
        return g_runq->empty() ? 0 : 1 + (h >> 11) % g_runq->size(); }, NULL);
    if (v & 0x80000000u) stall_now(v);
    else if (v && !g_runq->empty()) yield_to(v);
}

// wait queues keyed by address
struct WQ { std::deque<Fiber*> q; };
static std::unordered_map<void*, WQ>* g_wq;
static void wq_remove(void* key, Fiber* f) {
    auto it = g_wq->find(key); if (it == g_wq->end()) return;
    auto& q = it->second.q; for (auto i = q.begin(); i != q.end(); ++i) if (*i == f) { q.erase(i); break; }
    if (q.empty()) g_wq->erase(it);
}
int block_on(void* key, ns_t deadline) {
    Core k; Fiber* me = g_cur;
    if (key) (*g_wq)[key].q.push_back(me);
    me->state = Fiber::BLOCKED; me->wkey = key; me->wresult = WOKEN; me->wgen++;
    cap_check(); g_now += STEP_COST;
    if (deadline >= 0) {
        uint32_t gen = me->wgen;
        at(deadline, [me, gen] {
            if (me->state == Fiber::BLOCKED && me->wgen == gen) { if (me->wkey) wq_remove(me->wkey, me); me->wresult = TIMEDOUT; make_runnable(me); }
        });
    }
    pick_and_switch();
    if (me->frozen) park_if_needed();
    return me->wresult;
}
int wake(void* key, int n, bool pick) {
    Core k; int done = 0;
    while (n < 0 || done < n) {
        auto it = g_wq->find(key); if (it == g_wq->end()) break;
        auto& q = it->second.q;
        size_t i = 0;
        // waiters of crashed nodes never run again
        while (!q.empty() && q.front()->frozen) q.pop_front();
        if (q.empty()) { g_wq->erase(it); break; }
        if (pick && q.size() > 1) i = choice(ST_WAKE, g_cur ? g_cur->id : 0, q.size());
        Fiber* f = q[i]; q.erase(q.begin() + i);
        if (q.empty()) g_wq->erase(it);
        f->wresult = WOKEN; make_runnable(f); done++;
    }
    return done;
}
bool has_waiter(void* key) { return g_wq->count(key) != 0; }

static void fiber_exit() {
    Fiber* f = g_cur;
    { Core k;
      f->state = Fiber::DONE;
      ev(3, f->id);
      for (Fiber* j : *f->joiners) make_runnable(j);
      f->joiners->clear();
      static int pending_free = -1;    // the stack just left must not be reused before we switched away
      if (pending_free >= 0) g_free_stacks->push_back(pending_free);
      pending_free = f->stack_slot;
      pick_and_switch();
    }
    die("internal", "finished fiber resumed");
}
static void run_key_dtors();
static void fiber_main() {
    g_core = 0;
    errno = 0; memset(__cxa_get_globals(), 0, 16);
    Fiber* f = g_cur;
    if (f->fn) { (*f->fn)(); { Core k; delete f->fn; f->fn = NULL; } }
    else f->ret = f->start(f->arg);
    run_key_dtors();
    fiber_exit();
}

// ------------------------------------------------------------------ public helpers
ns_t now() { return g_now; }
ns_t wall_now() { return 1600000000LL * SEC + g_now + g_wall_offset + g_skew[cur_node() & 255]; }
void clock_skew(int n, ns_t d) { g_skew[n & 255] = d; if (d) R->faults[F_CLOCK_SKEW]++; trace("clock of node %d is off by %.3f s", n, d / 1e9); }
void dense(int gap) { if (pol.type) pol.mem_gap = gap; }
ns_t stalled_total() { return g_stalled; }
void wall_clock_jump(ns_t d) { g_wall_offset += d; R->faults[F_CLOCK_JUMP]++; trace("wall clock jumps by %.3f s", d / 1e9); }
uint64_t event_seq() { return ++g_seq; }
void sleep_ns(ns_t d) { block_on(NULL, g_now + (d < 0 ? 0 : d)); }
int cur_fiber() { return g_cur ? g_cur->id : 0; }
int cur_node() { return g_cur ? g_cur->node : 0; }
void set_node(int n) { g_cur->node = n; }
int spawn(int node, const char* name, std::function<void()> fn) {
    Core k; Fiber* f = new_fiber(node, name); f->harness = true;
    f->fn = new std::function<void()>(fn); ev(1, f->id);
    make_runnable(f); return f->id;
}
bool fiber_done(int id) { return (*g_fibers)[id]->state == Fiber::DONE; }
void join(int id) {
    Core k; Fiber* f = (*g_fibers)[id];
    while (f->state != Fiber::DONE) { f->joiners->push_back(g_cur); g_cur->state = Fiber::BLOCKED; g_cur->wgen++; g_cur->wkey = NULL; pick_and_switch(); }
}
bool wait_until(const std::function<bool()>& pred, ns_t timeout, ns_t step) {
    ns_t end = g_now + timeout;
    for (;;) { if (pred()) return true; if (g_now >= end) return false; sleep_ns(std::min(step, end - g_now + 1)); }
}
int live_threads(int node) {
    int n = 0; for (Fiber* f : *g_fibers) if (!f->harness && f->id && f->node == node && f->state != Fiber::DONE && !f->frozen) n++;
    return n;
}
void freeze_node(int node) { for (Fiber* f : *g_fibers) if (f->node == node && f->state != Fiber::DONE) f->frozen = true; }
void node_pause(int node, ns_t d) {
    Core k; R->faults[F_NODE_PAUSE]++; g_stalled += d; trace("node %d paused for %.3f ms", node, d / 1e6);
    (*g_paused)[node] = g_now + d;
    at(g_now + d, [node] {
        if (node_is_paused(node)) return;
        g_paused->erase(node);
        std::vector<Fiber*> p; p.swap(*g_parked);
        for (Fiber* f : p) { if (f->node == node) g_runq->push_back(f); else g_parked->push_back(f); }
    });
}
std::string node_ip(int n) { char b[32]; snprintf(b, sizeof b, "10.0.0.%d", n); return b; }

// ---- memory and thread-creation faults
static int g_oom_node, g_oom_count; static int g_tf_node, g_tf_nth;
extern "C" char __executable_start, etext;
bool oom_now(void* ra) {
    if (!g_cur) return false;
    bool forced = g_oom_count && g_cur->node == g_oom_node && !g_cur->harness;
    if (!forced && (!sys.oom || g_faults_off || g_cur->harness)) return false;
    if ((char*)ra < &__executable_start || (char*)ra >= &etext) return false;   // only the code under test, not its libraries
    Core k;
    if (forced) { if (g_oom_count > 0) g_oom_count--; R->faults[F_OOM]++; trace("malloc fails"); return true; }
    if (chance(ST_FAULT, 900, sys.oom, 10000)) { R->faults[F_OOM]++; trace("malloc fails"); return true; }
    return false;
}
void force_oom(int node, int count) { g_oom_node = node; g_oom_count = count; }
void force_thread_fail(int node, int nth) { g_tf_node = node; g_tf_nth = nth; }
bool thread_fail_now(int node) {
    if (g_tf_nth && node == g_tf_node && --g_tf_nth == 0) { R->faults[F_THREAD_FAIL]++; return true; }
    if (sys.thread_fail && !g_faults_off && chance(ST_FAULT, 901, sys.thread_fail, 1000)) { R->faults[F_THREAD_FAIL]++; return true; }
    return false;
}
void kernel_faults_on();
void kernel_faults_off();
void faults_on() { g_faults_off = false; kernel_faults_on(); }
void faults_off() {
    Core k; g_faults_off = true; memset(&sys, 0, sizeof sys); g_oom_count = 0; g_tf_nth = 0;
    kernel_faults_off(); trace("faults off");
}

// ------------------------------------------------------------------ run control
static std::vector<Scenario>& reg() { static std::vector<Scenario>* v = new std::vector<Scenario>(); return *v; }
void register_scenario(const Scenario& s) { reg().push_back(s); }
const std::vector<Scenario>& scenarios() { return reg(); }
static void (*g_warm)();
void set_warmup(void (*fn)()) { g_warm = fn; }
void warmup() { if (g_warm) g_warm(); void* b[4]; backtrace(b, 4); }

static void on_signal(int sig, siginfo_t* si, void*) {
    g_core += 1000;
    char m[200];
    snprintf(m, sizeof m, "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV, invalid memory access" : sig == SIGABRT ? "SIGABRT, abort" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "fatal");
    (void)si;
    die("crash", m);
}
void run_begin(uint64_t seed, const Choice* rep, uint32_t n, bool trace_on) {
    ++g_core;
    g_seed = seed; g_trace = trace_on;
    R->status = 0; R->hash = mix(seed * 0); R->sched_hash = 1;
    g_replaying = rep != NULL || n;
    if (rep) {
        uint32_t cap = 64; while (cap < n * 2 + 2) cap *= 2;
        g_replay.t = (Choice*)calloc(cap, sizeof(Choice)); g_replay.cap = cap;
        for (uint32_t i = 0; i < n; i++) {
            uint32_t m = cap - 1, k = (uint32_t)mix(((uint64_t)rep[i].kind << 58) ^ ((uint64_t)rep[i].id << 32) ^ rep[i].idx) & m;
            while (g_replay.t[k].val) k = (k + 1) & m;
            g_replay.t[k] = rep[i];
        }
        g_replaying = true;
    }
    g_ctr = new std::unordered_map<uint64_t, uint32_t>();
    g_fibers = new std::vector<Fiber*>(); g_runq = new std::vector<Fiber*>(); g_events = new std::priority_queue<Event, std::vector<Event>, EvCmp>();
    g_wq = new std::unordered_map<void*, WQ>(); g_free_stacks = new std::vector<int>(); g_paused = new std::map<int, ns_t>(); g_parked = new std::vector<Fiber*>();
    memset(&net, 0, sizeof net); memset(&sys, 0, sizeof sys);
    net.lat_min = 50 * US; net.lat_max = 500 * US; net.sndbuf_min = net.sndbuf_max = 256 << 10; net.stall_max = 200 * MS;
    policy_init();
    static char alt[64 << 10]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }; for (int s : sigs) sigaction(s, &sa, NULL);
    kernel_reset();
    --g_core;
}
void run_scenario(void (*fn)()) {
    ++g_core;
    Fiber* f0 = new_fiber(0, "boot"); f0->harness = true; f0->state = Fiber::RUNNING;
    g_cur = f0; g_budget = &f0->mem_budget;
    g_run = true;
    --g_core;
    int id = spawn(1, "main", fn);
    join(id);
    ++g_core;
    finish_stats(); R->status = 1;
    _exit(0);
}
} // namespace sim

// =================================================================== libc/pthread replacement
using namespace sim;
namespace {
struct Mtx { int owner; int count; int dead; int pad; int kind; };      // inside pthread_mutex_t (kind at glibc's offset 16)
struct Cnd { int monotonic; int dead; };
struct Rw { int writer; int readers; };
enum { DEADMARK = 0x0dead };
inline Mtx* M(pthread_mutex_t* m) { return (Mtx*)m; }
int me_id() { return g_cur ? g_cur->id + 1 : 1; }
bool simmode() { return g_run && g_core == 0; }
void ck(const void* p, size_t n, const char* w) { if (g_run) check_mem(p, n, false, w); }
bool fiber_frozen(int owner) { return g_run && owner > 0 && owner - 1 < (int)g_fibers->size() && (*g_fibers)[owner - 1]->frozen; }
int lock_mutex(pthread_mutex_t* pm, ns_t deadline, bool pt = true) {
    Mtx* m = M(pm);
    if (!simmode()) { m->owner = me_id(); m->count++; return 0; }
    if (pt) point();
    ck(m, 24, "pthread_mutex_lock");
    if (m->owner == me_id() && m->count) {
        if (m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if (m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        die("deadlock", "a thread locks a mutex it already holds");
    }
    while (m->count) {
        if (fiber_frozen(m->owner)) { m->count = 0; break; }   // held by a crashed node: only process-wide library locks get here
        if (block_on(m, deadline) == TIMEDOUT && m->count) return ETIMEDOUT;
    }
    m->owner = me_id(); m->count = 1;
    return 0;
}
int unlock_mutex(pthread_mutex_t* pm) {
    Mtx* m = M(pm);
    if (!simmode()) { if (m->count) m->count--; if (!m->count) m->owner = 0; return 0; }
    ck(m, 24, "pthread_mutex_unlock");
    if (!m->count || m->owner != me_id()) die("lock-misuse", "a thread unlocks a mutex it does not hold");
    if (--m->count) return 0;
    m->owner = 0;
    wake(m, 1, true);
    return 0;
}
ns_t abs_to_sim(const struct timespec* ts, clockid_t c) {
    ns_t t = ts->tv_sec * SEC + ts->tv_nsec;
    ns_t base = (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME) ? now() + 1000 * SEC : wall_now();
    ns_t d = t - base; return now() + (d < 0 ? 0 : d);
}
int cond_wait(pthread_cond_t* pc, pthread_mutex_t* pm, ns_t deadline) {
    if (!simmode()) { if (g_run) die("internal", "cond_wait inside core"); return 0; }
    point();
    ck(pc, 8, "pthread_cond_wait");
    Mtx* m = M(pm);
    if (!m->count || m->owner != me_id()) die("lock-misuse", "pthread_cond_wait without holding the mutex");
    int saved = m->count; m->count = 0; m->owner = 0; 
    wake(m, 1, true);
    int r;
    if (sys.spurious_wake && chance(ST_FAULT, 902, sys.spurious_wake, 10000)) {
        count_fault(F_SPURIOUS_WAKE); r = WOKEN; block_on(NULL, now() + 1000);
    } else r = block_on(pc, deadline);
    while (m->count) { if (fiber_frozen(m->owner)) { m->count = 0; break; } block_on(m, -1); }
    m->owner = me_id(); m->count = saved;
    return r == TIMEDOUT ? ETIMEDOUT : 0;
}
}
#define P extern "C" __attribute__((visibility("default")))
P int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset((void*)m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); M(m)->kind = k; return 0;
}
P int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (simmode()) { point(); ck(m, 24, "pthread_mutex_destroy"); if (M(m)->count && !fiber_frozen(M(m)->owner)) die("lock-misuse", "a locked mutex is destroyed"); if (has_waiter(m)) die("lock-misuse", "a mutex is destroyed while threads wait for it"); }
    return 0;
}
P int pthread_mutex_lock(pthread_mutex_t* m) { return lock_mutex(m, -1); }
P int pthread_mutex_trylock(pthread_mutex_t* pm) {
    Mtx* m = M(pm);
    if (!simmode()) { m->count++; m->owner = me_id(); return 0; }
    point(); ck(m, 24, "pthread_mutex_trylock");
    if (m->count) { if (m->owner == me_id() && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } return EBUSY; }
    m->owner = me_id(); m->count = 1; return 0;
}
P int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { return lock_mutex(m, abs_to_sim(t, CLOCK_REALTIME)); }
P int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { return lock_mutex(m, abs_to_sim(t, c)); }
P int pthread_mutex_unlock(pthread_mutex_t* m) { int r = unlock_mutex(m); point(); return r; }
P int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    memset((void*)c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((Cnd*)c)->monotonic = k == CLOCK_MONOTONIC; return 0;
}
P int pthread_cond_destroy(pthread_cond_t* c) {
    if (simmode()) { point(); ck(c, 8, "pthread_cond_destroy"); if (has_waiter(c)) { bool all = true; (void)all; die("lock-misuse", "a condition variable is destroyed while threads wait on it"); } }
    return 0;
}
P int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, -1); }
P int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, abs_to_sim(t, ((Cnd*)c)->monotonic ? CLOCK_MONOTONIC : CLOCK_REALTIME)); }
P int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cond_wait(c, m, abs_to_sim(t, k)); }
P int pthread_cond_signal(pthread_cond_t* c) { if (!simmode()) return 0; point(); ck(c, 8, "pthread_cond_signal"); wake(c, 1, true); return 0; }
P int pthread_cond_broadcast(pthread_cond_t* c) { if (!simmode()) return 0; point(); ck(c, 8, "pthread_cond_broadcast"); wake(c, -1); return 0; }
P int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset((void*)l, 0, sizeof *l); return 0; }
P int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (simmode()) { ck(l, 8, "pthread_rwlock_destroy"); if (((Rw*)l)->writer || ((Rw*)l)->readers) die("lock-misuse", "a locked rwlock is destroyed"); } return 0; }
P int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    Rw* r = (Rw*)l; if (!simmode()) { r->readers++; return 0; }
    point(); ck(l, 8, "pthread_rwlock_rdlock");
    while (r->writer) { if (fiber_frozen(r->writer)) { r->writer = 0; break; } if (r->writer == me_id()) die("deadlock", "rdlock while holding the write lock"); block_on(l, -1); }
    r->readers++; return 0;
}
P int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    Rw* r = (Rw*)l; if (!simmode()) { r->writer = me_id(); return 0; }
    point(); ck(l, 8, "pthread_rwlock_wrlock");
    while (r->writer || r->readers) { if (r->writer == me_id()) die("deadlock", "wrlock while holding the write lock"); if (fiber_frozen(r->writer)) { r->writer = 0; continue; } block_on(l, -1); }
    r->writer = me_id(); return 0;
}
P int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { Rw* r = (Rw*)l; point(); if (r->writer) return EBUSY; r->readers++; return 0; }
P int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { Rw* r = (Rw*)l; point(); if (r->writer || r->readers) return EBUSY; r->writer = me_id(); return 0; }
P int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    Rw* r = (Rw*)l; if (simmode()) ck(l, 8, "pthread_rwlock_unlock");
    if (r->writer == me_id()) r->writer = 0; else if (r->readers) r->readers--; else if (simmode()) die("lock-misuse", "unlock of an unlocked rwlock"); else r->writer = 0;
    if (simmode()) { wake(l, -1); point(); }
    return 0;
}
P int pthread_spin_init(pthread_spinlock_t* l, int) { *(int*)l = 0; return 0; }
P int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
P int pthread_spin_lock(pthread_spinlock_t* l) {
    if (!simmode()) { *(int*)l = me_id(); return 0; }
    point(); ck((void*)l, 4, "pthread_spin_lock");
    while (*l) { if (*l == me_id()) die("deadlock", "a thread locks a spin lock it already holds"); block_on((void*)l, -1); }
    *l = me_id(); return 0;
}
P int pthread_spin_trylock(pthread_spinlock_t* l) { point(); if (*l) return EBUSY; *l = me_id(); return 0; }
P int pthread_spin_unlock(pthread_spinlock_t* l) { *l = 0; if (simmode()) { wake((void*)l, 1, true); point(); } return 0; }
P int pthread_once(pthread_once_t* o, void (*fn)()) {
    volatile int* s = (volatile int*)o;
    if (*s == 2) return 0;
    while (*s == 1 && simmode()) block_on((void*)o, -1);
    if (*s == 2) return 0;
    *s = 1; fn(); *s = 2; if (simmode()) wake((void*)o, -1); return 0;
}
extern "C" int sim_guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
extern "C" int sim_guard_acquire(uint64_t* g) {
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (b[0]) return 0;
    while (b[1] && simmode()) { block_on(g, -1); if (b[0]) return 0; }
    b[1] = 1; return 1;
}
extern "C" void sim_guard_release(uint64_t* g) asm("__cxa_guard_release");
extern "C" void sim_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[0] = 1; b[1] = 0; if (simmode()) wake(g, -1); }
extern "C" void sim_guard_abort(uint64_t* g) asm("__cxa_guard_abort");
extern "C" void sim_guard_abort(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; b[1] = 0; if (simmode()) wake(g, -1); }
// thread-specific data
static void (*g_key_dtor[64])(void*); static int g_nkeys; static void* g_boot_tss[64];
static void** tssv() { return g_cur ? g_cur->tss : g_boot_tss; }
P int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    for (int i = 0; i < g_nkeys; i++) if (g_key_dtor[i] == (void (*)(void*))-1) { g_key_dtor[i] = d; *k = i; return 0; }
    if (g_nkeys >= 64) return EAGAIN; g_key_dtor[g_nkeys] = d; *k = g_nkeys++; return 0;
}
P int pthread_key_delete(pthread_key_t k) { 
    // values become inaccessible; the slot is reused only with cleared values
    if (g_fibers) for (Fiber* f : *g_fibers) f->tss[k] = NULL;
    g_boot_tss[k] = NULL; g_key_dtor[k] = (void (*)(void*))-1; return 0; }
P void* pthread_getspecific(pthread_key_t k) { return k < 64 ? tssv()[k] : NULL; }
P int pthread_setspecific(pthread_key_t k, const void* v) { if (k >= 64) return EINVAL; tssv()[k] = (void*)v; return 0; }
namespace sim { static void run_key_dtors() {
    for (int round = 0; round < 4; round++) { bool any = false;
        for (int i = 0; i < g_nkeys; i++) { void* v = g_cur->tss[i]; if (v && g_key_dtor[i] && g_key_dtor[i] != (void (*)(void*))-1) { g_cur->tss[i] = NULL; g_key_dtor[i](v); any = true; } }
        if (!any) break; }
} }
// threads
P int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!g_run) { fprintf(stderr, "sim: thread created outside a run\n"); _exit(98); }
    point();
    { Core k; if (thread_fail_now(g_cur->node)) { trace("pthread_create fails"); return EAGAIN; } }
    { Core k; Fiber* f = new_fiber(g_cur->node, "thr"); f->start = fn; f->arg = arg; *t = (pthread_t)(f->id + 1); ev(2, f->id); trace("thread %s created", f->name); make_runnable(f); }
    point();
    return 0;
}
P int pthread_join(pthread_t t, void** ret) {
    point();
    size_t id = (size_t)t - 1;
    if (id >= g_fibers->size() || (*g_fibers)[id]->joined) die("lock-misuse", "pthread_join of an invalid thread");
    if (id == (size_t)g_cur->id) return EDEADLK;
    Fiber* f = (*g_fibers)[id];
    sim::join(id); f->joined = true; if (ret) *ret = f->ret; return 0;
}
P int pthread_detach(pthread_t t) { size_t id = (size_t)t - 1; if (id < g_fibers->size()) (*g_fibers)[id]->detached = true; return 0; }
P pthread_t pthread_self(void) { return (pthread_t)me_id(); }
P int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
P int pthread_setname_np(pthread_t, const char*) { return 0; }
P int pthread_sigmask(int, const sigset_t*, sigset_t* o) { if (o) sigemptyset(o); return 0; }
P int sched_yield(void) { point(); return 0; }
// time
P int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!g_run) return syscall(SYS_clock_gettime, c, ts);
    ns_t t = (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE) ? now() + 1000 * SEC : wall_now();
    ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0;
}
P int gettimeofday(struct timeval* tv, void*) noexcept {
    if (!g_run) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    ns_t t = wall_now(); tv->tv_sec = t / SEC; tv->tv_usec = t % SEC / 1000; return 0;
}
P time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(ns_t d) { if (!g_run) return 0; block_on(NULL, now() + d); return 0; }
P int usleep(useconds_t u) { return do_sleep(u * 1000LL); }
P unsigned sleep(unsigned s) { return do_sleep(s * SEC); }
P int nanosleep(const struct timespec* r, struct timespec*) { return do_sleep(r->tv_sec * SEC + r->tv_nsec); }
P int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec*) {
    if (flags & TIMER_ABSTIME) { if (g_run) block_on(NULL, abs_to_sim(r, c)); return 0; }
    return do_sleep(r->tv_sec * SEC + r->tv_nsec);
}
// randomness in the code under test
static uint32_t g_rand_ctr;
P int rand(void) noexcept { Core k; return g_run ? (int)(raw_hash(ST_WORK, 0xfffffff0u, g_rand_ctr++) & 0x7fffffff) : 4; }
P long random(void) noexcept { return rand(); }
P void srand(unsigned) noexcept {}
P void srandom(unsigned) noexcept {}
P int rand_r(unsigned* s) noexcept { *s = *s * 1103515245 + 12345; return (*s >> 1) & 0x7fffffff; }
