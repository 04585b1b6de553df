// Internal interface between the parts of the simulator core.
#pragma once
#include "sim.h"
#include <deque>
#include <map>
#include <unordered_map>
#include <string.h>
#include <errno.h>

namespace sim {

extern int g_core;            // >0: inside the simulator; allocations go to the private arena
extern bool g_run;            // a simulated run is in progress
struct Core { Core() { ++g_core; } ~Core() { --g_core; } };

struct Fiber {
    int id, node; bool harness; int api = 0;
    void* sp; char* stack; int stack_slot;
    void* (*start)(void*); void* arg; void* ret;
    std::function<void()>* fn;
    enum State { RUNNABLE, RUNNING, BLOCKED, DONE } state;
    uint32_t pts, nexts, mems; int64_t mem_budget; bool gap_real;
    uint64_t ops;             // instrumented accesses since it last blocked
    int err; void* eh[2];
    void* tss[64];
    uint32_t wgen; void* wkey; int wresult; ns_t wseq;
    bool detached, joined; std::vector<Fiber*>* joiners;
    uint64_t prio; bool frozen; bool parked;
    char name[32];
};
extern Fiber* g_cur;
extern std::vector<Fiber*>* g_fibers;

void point();                          // scheduling point
enum { WOKEN = 0, TIMEDOUT = 1 };
int block_on(void* key, ns_t deadline /* -1: none */);
int wake(void* key, int n /* -1 all */, bool pick = false);   // returns number woken
bool has_waiter(void* key);
void at(ns_t t, std::function<void()> fn);
void make_runnable(Fiber* f);
Fiber* new_fiber(int node, const char* name);
void freeze_node(int node);

uint64_t raw_hash(uint32_t kind, uint32_t id, uint32_t idx);
uint32_t choice_fn(uint32_t kind, uint32_t id, uint32_t idx, uint32_t (*f)(uint64_t h, void* c), void* c);
bool replaying();
void ev(uint32_t what, uint64_t a, uint64_t b = 0);      // event-log hash
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace;
void kernel_reset();
void kernel_node_crash(int node, bool silent);
void check_mem(const void* p, size_t n, bool write, const char* what);
void die(const char* cls, const char* msg, bool with_bt = true) __attribute__((noreturn));
bool oom_now(void* caller);
bool thread_fail_now(int node);
int main_driver(int argc, char** argv);
ns_t wall_now();              // CLOCK_REALTIME of the simulation

struct Choice { uint32_t kind, id, idx, val; };
enum { MAX_CHOICES = 1 << 20, MAX_PROBES = 128, MAX_PARAMS = 48, TRACE_BYTES = 4 << 20 };
struct Result {
    volatile int status;      // 0 running 1 ok 2 violation 3 internal error
    char cls[64]; char msg[3072];
    int nbt; void* bt[40];
    uint64_t hash, sched_hash, steps, switches, ops; int64_t sim_ns;
    uint64_t faults[F_KINDS];
    int nprobes; struct { char name[48]; uint64_t n; } probes[MAX_PROBES];
    int nparams; struct { char name[32]; int64_t v; } params[MAX_PARAMS];
    uint32_t fibers;
    volatile uint32_t nchoices; uint32_t choice_overflow;
    volatile uint32_t ntrace;
    Choice choices[MAX_CHOICES];
    char trace[TRACE_BYTES];
};
extern Result* R;

void run_begin(uint64_t seed, const Choice* replay, uint32_t n, bool trace_on);
void run_scenario(void (*fn)());       // never returns: exits the process
}
