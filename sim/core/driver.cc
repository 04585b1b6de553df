// Runs scenarios: one forked child per simulated run; verification, minimisation, replay files.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <set>

namespace sim {
const std::vector<Scenario>& scenarios();
void warmup();
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static void on_alarm(int) {}
struct Spec { const Scenario* sc; uint64_t seed; const Choice* rep; uint32_t n; bool trace; };
// returns R->status; 4: wall timeout, 5: died without a verdict
static int run_one(const Spec& s, int wall_limit = 120) {
    memset((void*)R, 0, offsetof(Result, choices)); R->nchoices = 0; R->ntrace = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        run_begin(s.seed, s.rep, s.n, s.trace);
        g_core = 0;
        run_scenario(s.sc->fn);
        _exit(0);
    }
    struct itimerval it = { { 1, 0 }, { wall_limit, 0 } }; setitimer(ITIMER_REAL, &it, NULL);
    int st; double end = wall() + wall_limit; bool killed = false;
    while (waitpid(p, &st, 0) < 0) if (wall() >= end - 0.01 && !killed) { kill(p, SIGKILL); killed = true; }
    struct itimerval z = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_REAL, &z, NULL);
    if (killed) { R->status = 4; snprintf(R->cls, 64, "wall-timeout"); snprintf(R->msg, 200, "run exceeded %d s of real time", wall_limit); return 4; }
    if (R->status == 0) { R->status = 5; snprintf(R->cls, 64, "died"); snprintf(R->msg, 200, "process ended with status %x", st); }
    return R->status;
}
static const Scenario* find(const char* n) { for (auto& s : scenarios()) if (!strcmp(s.name, n)) return &s; return NULL; }
static bool is_viol() { return R->status == 2 || R->status == 5; }

static std::vector<Choice> snapshot() { return std::vector<Choice>(R->choices, R->choices + R->nchoices); }
static bool still(const Scenario* sc, uint64_t seed, const std::vector<Choice>& c, const std::string& cls) {
    static Choice dummy; Spec s = { sc, seed, c.empty() ? &dummy : c.data(), (uint32_t)c.size(), false };
    run_one(s, 60);
    return is_viol() && cls == R->cls;
}
static std::vector<Choice> minimise(const Scenario* sc, uint64_t seed, std::vector<Choice> c, const std::string& cls, double budget, int* tests) {
    double end = wall() + budget;
    // whole categories first
    uint32_t kinds[] = { ST_MEM, ST_SCHED, ST_NEXT, ST_WAKE, ST_NET, ST_FAULT, ST_WORK };
    for (uint32_t k : kinds) {
        std::vector<Choice> d; for (auto& x : c) if (x.kind != k) d.push_back(x);
        if (d.size() == c.size()) continue;
        ++*tests; if (still(sc, seed, d, cls)) { std::vector<Choice> used = snapshot(); c = used.size() < d.size() ? used : d; }
        if (wall() > end) return c;
    }
    size_t n = 2;
    while (c.size() >= 1 && wall() < end) {
        size_t chunk = (c.size() + n - 1) / n; bool reduced = false;
        for (size_t i = 0; i < c.size() && wall() < end; i += chunk) {
            std::vector<Choice> d(c.begin(), c.begin() + i); d.insert(d.end(), c.begin() + std::min(c.size(), i + chunk), c.end());
            ++*tests;
            if (still(sc, seed, d, cls)) { std::vector<Choice> used = snapshot(); c = used.size() < d.size() ? used : d; reduced = true; i -= std::min(i, chunk); n = n > 2 ? n - 1 : 2; break; }
        }
        if (!reduced) { if (chunk <= 1) break; n = std::min(c.size(), n * 2); }
    }
    return c;
}
static void write_replay(const char* path, const Scenario* sc, uint64_t seed, const std::vector<Choice>& c, const char* cls, const char* msg, uint64_t hash) {
    FILE* f = fopen(path, "w"); if (!f) return;
    fprintf(f, "simreplay 1\nscenario %s\nseed %lu\nclass %s\nhash %016lx\nmessage %s\nchoices %zu\n", sc->name, (unsigned long)seed, cls, (unsigned long)hash, msg, c.size());
    for (auto& x : c) fprintf(f, "%u %u %u %u\n", x.kind, x.id, x.idx, x.val);
    fclose(f);
}
static std::string esc(const char* s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if (*s == '\n') o += "\\n"; else if ((unsigned char)*s < 32) o += ' '; else o += *s; } return o; }
static void print_bt() { for (int i = 0; i < R->nbt; i++) printf("  bt %p\n", R->bt[i]); }

int main_driver(int argc, char** argv) {
    g_core = 1;      // the driver itself never allocates from the application arena
    R = (Result*)syscall(SYS_mmap, NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { if (!strncmp(argv[i], "--", 2)) { const char* e = strchr(argv[i], '='); if (e) a[std::string(argv[i] + 2, e - argv[i] - 2)] = e + 1; else a[argv[i] + 2] = "1"; } else pos.push_back(argv[i]); }
    auto num = [&](const char* k, long d) { return a.count(k) ? atol(a[k].c_str()) : d; };
    if (mode == "list") { for (auto& s : scenarios()) printf("%s: %s\n", s.name, s.what); return 0; }
    g_core = 0; warmup(); g_core = 1;
    if (mode == "replay") {
        FILE* f = fopen(pos.at(0).c_str(), "r"); if (!f) { printf("cannot open replay file\n"); return 2; }
        char name[128], cls[128]; unsigned long seed, hash; size_t n; char msg[4096];
        if (fscanf(f, "simreplay 1\nscenario %127s\nseed %lu\nclass %127s\nhash %lx\nmessage %4095[^\n]\nchoices %zu\n", name, &seed, cls, &hash, msg, &n) != 6) { printf("bad replay file\n"); return 2; }
        std::vector<Choice> c(n); for (auto& x : c) if (fscanf(f, "%u %u %u %u\n", &x.kind, &x.id, &x.idx, &x.val) != 4) { printf("bad replay file\n"); return 2; }
        fclose(f);
        const Scenario* sc = find(name); if (!sc) { printf("no scenario %s\n", name); return 2; }
        static Choice dummy; Spec s = { sc, seed, c.empty() ? &dummy : c.data(), (uint32_t)c.size(), a.count("trace") != 0 };
        run_one(s);
        if (a.count("trace")) fwrite(R->trace, 1, R->ntrace, stdout);
        bool same = is_viol() && !strcmp(cls, R->cls) && R->hash == hash;
        printf("REPLAY scenario=%s seed=%lu status=%d class=%s hash=%016lx %s\n", name, seed, R->status, R->cls, (unsigned long)R->hash, same ? "REPRODUCED" : "NOT-REPRODUCED");
        printf("  %s\n", R->msg); print_bt();
        return same ? 1 : is_viol() ? 3 : 0;
    }
    if (mode == "one") {     // one seed, verbose
        const Scenario* sc = find(a["scenario"].c_str()); if (!sc) { printf("no such scenario\n"); return 2; }
        Spec s = { sc, (uint64_t)num("seed", 1), NULL, 0, a.count("trace") != 0 };
        double t = wall(); run_one(s);
        if (a.count("trace")) fwrite(R->trace, 1, R->ntrace, stdout);
        printf("status=%d class=%s hash=%016lx sched=%016lx steps=%lu switches=%lu sim=%.3fs wall=%.3fs choices=%u fibers=%u mem_ops~%lu\n", R->status, R->cls, (unsigned long)R->hash, (unsigned long)R->sched_hash, (unsigned long)R->steps, (unsigned long)R->switches, R->sim_ns / 1e9, wall() - t, R->nchoices, R->fibers, (unsigned long)R->ops);
        if (R->status != 1) { printf("  %s\n", R->msg); print_bt(); }
        for (int i = 0; i < R->nparams; i++) printf("  param %s=%ld\n", R->params[i].name, (long)R->params[i].v);
        for (int i = 0; i < R->nprobes; i++) printf("  probe %s=%lu\n", R->probes[i].name, (unsigned long)R->probes[i].n);
        for (int i = 0; i < F_KINDS; i++) if (R->faults[i]) printf("  fault %s=%lu\n", kFaultNames[i], (unsigned long)R->faults[i]);
        return is_viol() ? 1 : 0;
    }
    if (mode == "hash") {    // determinism check: print the hash of every seed
        const Scenario* sc = find(a["scenario"].c_str()); if (!sc) return 2;
        for (long i = num("start", 0); i < num("start", 0) + num("count", 10); i++) { Spec s = { sc, (uint64_t)num("base", 1) * 1000000000ULL + i, NULL, 0, false }; run_one(s);
            uint64_t h = R->hash, sh = R->sched_hash; int st = R->status;
            std::string again;
            if (a.count("replay")) { std::vector<Choice> c = snapshot(); static Choice dummy; Spec r = { sc, s.seed, c.empty() ? &dummy : c.data(), (uint32_t)c.size(), a.count("trace") != 0 }; run_one(r); again = R->hash == h && R->sched_hash == sh && R->status == st ? " replay-same" : " REPLAY-DIFFERS"; }
            printf("%ld %d %016lx %016lx%s\n", i, st, (unsigned long)h, (unsigned long)sh, again.c_str()); }
        return 0;
    }
    if (mode != "run") { fprintf(stderr, "usage: simrun list|run|one|replay|hash\n"); return 2; }
    // ---- run: a worker over its share of the seeds
    const char* scn = a["scenario"].c_str();
    const Scenario* sc = find(scn); if (!sc) { fprintf(stderr, "no scenario %s\n", scn); return 2; }
    long start = num("start", 0), count = num("count", 100), stride = num("stride", 1); uint64_t base = num("base", 1);
    double end = wall() + num("wall", 30);
    struct Known { std::string scen, cls, sub; uint64_t hits; }; std::vector<Known> known;
    if (a.count("known")) { FILE* f = fopen(a["known"].c_str(), "r"); char l[2000]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; char* p1 = strchr(l, '|'); if (!p1) continue; *p1++ = 0; char* p2 = strchr(p1, '|'); if (!p2) continue; *p2++ = 0; Known k = { l, p1, p2, 0 }; known.push_back(k); } if (f) fclose(f); }
    std::set<std::string> ignore; { std::string l = a["ignore"], t; for (size_t i = 0; i <= l.size(); i++) if (i == l.size() || l[i] == ',') { if (!t.empty()) ignore.insert(t); t.clear(); } else t += l[i]; }
    std::string stopfile = a["stopfile"]; std::map<std::string, uint64_t> ignored; std::map<std::string, std::string> ignored_ex;
    FILE* out = fopen(a["out"].c_str(), "w"); if (!out) return 2;
    uint64_t runs = 0, steps = 0, sw = 0, faults[F_KINDS] = { 0 }, nontrivial = 0, overflow = 0, choices = 0; double sim_s = 0, maxw = 0; uint64_t runs_with[F_KINDS] = { 0 };
    std::map<std::string, uint64_t> probes, probe_runs; std::vector<std::string> samples; std::set<uint64_t> scheds, hashes;
    int rc = 0; std::string viol; double t0 = wall();
    for (long i = start; i < count; i += stride) {
        if (wall() >= end) break;
        if (!stopfile.empty() && access(stopfile.c_str(), F_OK) == 0) break;
        uint64_t seed = base * 1000000000ULL + i;
        Spec s = { sc, seed, NULL, 0, false };
        double w0 = wall(); int st = run_one(s); double w1 = wall() - w0; if (w1 > maxw) maxw = w1;
        runs++; steps += R->steps; sw += R->switches; sim_s += R->sim_ns / 1e9; overflow += R->choice_overflow != 0; choices += R->nchoices;
        uint64_t fsum = 0; for (int k = 0; k < F_KINDS; k++) { faults[k] += R->faults[k]; fsum += R->faults[k]; runs_with[k] += R->faults[k] != 0; }
        bool work = false;
        for (int k = 0; k < R->nprobes; k++) { probes[R->probes[k].name] += R->probes[k].n; probe_runs[R->probes[k].name]++; if (!strcmp(R->probes[k].name, "work")) work = true; }
        if (scheds.insert(R->sched_hash).second && work && R->nchoices > 0) nontrivial++;
        hashes.insert(R->hash);
        if (samples.size() < 2) {
            std::string t = "{\"scenario\":\"" + std::string(sc->name) + "\",\"seed\":" + std::to_string(seed) + ",\"steps\":" + std::to_string(R->steps) + ",\"switches\":" + std::to_string(R->switches) + ",\"threads\":" + std::to_string(R->fibers) + ",\"sim_ms\":" + std::to_string(R->sim_ns / 1000000) + ",\"event_log_hash\":\"" + std::to_string(R->hash) + "\",\"params\":{";
            for (int k = 0; k < R->nparams; k++) t += std::string(k ? "," : "") + "\"" + R->params[k].name + "\":" + std::to_string(R->params[k].v);
            t += "},\"faults\":{"; bool first = true; for (int k = 0; k < F_KINDS; k++) if (R->faults[k]) { t += std::string(first ? "" : ",") + "\"" + kFaultNames[k] + "\":" + std::to_string(R->faults[k]); first = false; }
            t += "}}"; samples.push_back(t);
        }
        if (st == 1) continue;
        std::string cls = R->cls, msg = R->msg; uint64_t h = R->hash;
        if (st == 3 || st == 4) { fprintf(out, "internal %s: %s (seed %lu)\n", cls.c_str(), esc(msg.c_str()).c_str(), (unsigned long)seed); rc = 2; break; }
        if (ignore.count(cls)) { ignored[cls]++; ignored_ex[cls] = "seed " + std::to_string(seed) + ": " + msg; continue; }
        bool is_known = false;
        for (auto& k : known) if ((k.scen == sc->name || k.scen == "*") && (k.cls == cls || k.cls == "*") && msg.find(k.sub) != std::string::npos) { k.hits++; is_known = true; break; }
        if (is_known) continue;
        // gate: the same seed again must give the same event log and verdict
        std::vector<Choice> c = snapshot(); bool ovf = R->choice_overflow;
        run_one(s);
        if (!is_viol() || R->hash != h || cls != R->cls) { fprintf(out, "internal violation of seed %lu does not repeat (%s / %s): %s\n", (unsigned long)seed, cls.c_str(), R->cls, esc(msg.c_str()).c_str()); rc = 2; break; }
        int tests = 0;
        if (!ovf && still(sc, seed, c, cls)) { h = R->hash; msg = R->msg; c = minimise(sc, seed, c, cls, num("minimise", 25), &tests); }
        else { fprintf(out, "internal violation of seed %lu does not replay from its choices (%s): %s\n", (unsigned long)seed, cls.c_str(), esc(msg.c_str()).c_str()); rc = 2; break; }
        if (!still(sc, seed, c, cls)) { fprintf(out, "internal minimised run of seed %lu does not repeat\n", (unsigned long)seed); rc = 2; break; }
        h = R->hash; msg = R->msg;
        std::string path = a["replaydir"] + "/" + sc->name + "-" + std::to_string(seed) + ".replay";
        write_replay(path.c_str(), sc, seed, c, cls.c_str(), msg.c_str(), h);
        viol = path; fprintf(out, "violation %s|%s|%s|%d choices after %d minimisation runs\n", path.c_str(), cls.c_str(), esc(msg.c_str()).c_str(), (int)c.size(), tests);
        for (int k = 0; k < R->nbt; k++) fprintf(out, "bt %p\n", R->bt[k]);
        rc = 1; break;
    }
    fprintf(out, "runs %lu\nsteps %lu\nswitches %lu\nsim_s %.3f\nnontrivial %lu\nscheds %zu\nlogs %zu\noverflow %lu\nchoices %lu\nmaxwall %.3f\nwall %.3f\n", (unsigned long)runs, (unsigned long)steps, (unsigned long)sw, sim_s, (unsigned long)nontrivial, scheds.size(), hashes.size(), (unsigned long)overflow, (unsigned long)choices, maxw, wall() - t0);
    for (int k = 0; k < F_KINDS; k++) if (faults[k]) fprintf(out, "fault %s %lu %lu\n", kFaultNames[k], (unsigned long)faults[k], (unsigned long)runs_with[k]);
    for (auto& p : probes) fprintf(out, "probe %s %lu %lu\n", p.first.c_str(), (unsigned long)p.second, (unsigned long)probe_runs[p.first]);
    for (auto& s : samples) fprintf(out, "sample %s\n", s.c_str());
    for (auto& k : known) if (k.hits) fprintf(out, "known %s|%s|%s|%lu\n", k.scen.c_str(), k.cls.c_str(), k.sub.c_str(), (unsigned long)k.hits);
    for (auto& p : ignored) fprintf(out, "ignored %s|%lu|%s\n", p.first.c_str(), (unsigned long)p.second, esc(ignored_ex[p.first].c_str()).c_str());
    fclose(out);
    return rc;
}
} // namespace sim
int main(int argc, char** argv) { return sim::main_driver(argc, argv); }
