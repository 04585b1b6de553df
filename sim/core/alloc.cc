// Deterministic heap: fixed addresses, quarantine, shadow for use-after-free detection.
#include "core.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdlib.h>
#include <stdio.h>
#include <new>

namespace sim {
int g_core = 0;
bool g_run = false;

static const uintptr_t APP = 0x200000000000ULL, APP_SIZE = 3ULL << 30;
static const uintptr_t PRIV = 0x300000000000ULL, PRIV_SIZE = 3ULL << 30;
static uint8_t* const SHADOW = (uint8_t*)0x280000000000ULL;
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2 };

struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; uint64_t seq; uint32_t off; uint32_t freed_by; };
static_assert(sizeof(Hdr) == 32, "hdr");
enum { LIVE_MAGIC = 0x51a11a11, DEAD_MAGIC = 0x51dddddd };

struct Node { Node* next; };
struct Arena {
    uintptr_t base, size, top; Node* freel[208];
    uint64_t live_blocks, live_bytes, seq;
};
static Arena A[2];
static bool g_init;
// quarantine ring for the application arena
enum { QN = 8192 };
static Hdr* q_ring[QN]; static unsigned q_head, q_cnt; static uint64_t q_bytes;

static void* raw_mmap(uintptr_t at, size_t n) {
    void* p = (void*)syscall(SYS_mmap, at, n, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p != (void*)at) { static const char m[] = "sim: cannot map heap\n"; (void)!write(2, m, sizeof m - 1); _exit(99); }
    return p;
}
static void init() {
    g_init = true;
    raw_mmap(APP, APP_SIZE); raw_mmap(PRIV, PRIV_SIZE); raw_mmap((uintptr_t)SHADOW, APP_SIZE >> 4);
    A[0].base = A[0].top = APP; A[0].size = APP_SIZE;
    A[1].base = A[1].top = PRIV; A[1].size = PRIV_SIZE;
}
// size classes: multiples of 16 up to 512 (class 1..32), then 8 steps per doubling
static unsigned cls_of(size_t n, size_t* rounded) {
    if (n == 0) n = 1;
    if (n <= 512) { unsigned c = (n + 15) / 16; *rounded = c * 16; return c; }
    unsigned sh = 63 - __builtin_clzll(n - 1);         // 2^sh <= n-1
    size_t step = (size_t)1 << (sh - 3);
    size_t r = (n + step - 1) & ~(step - 1);
    unsigned k = (r - ((size_t)1 << sh)) / step;       // 1..8
    *rounded = r; return 32 + (sh - 9) * 8 + k;
}
static void shadow_set(uintptr_t p, size_t n, int v) { memset(SHADOW + ((p - APP) >> 4), v, n >> 4); }

static void* alloc(int which, size_t n, size_t align) {
    if (!g_init) init();
    if (n > (1ULL << 30)) { errno = ENOMEM; return NULL; }
    Arena& a = A[which];
    size_t r; unsigned c;
    size_t extra = align > 16 ? align : 0;
    c = cls_of(n + extra, &r);
    Hdr* h;
    if (c < 208 && a.freel[c] && !extra) {
        Node* f = a.freel[c]; a.freel[c] = f->next;
        h = (Hdr*)((char*)f - sizeof(Hdr));
        h->off = 0;
    } else {
        uintptr_t p = a.top;
        if (p + sizeof(Hdr) + r > a.base + a.size) { errno = ENOMEM; return NULL; }
        a.top = p + sizeof(Hdr) + r;
        uintptr_t pay = p + sizeof(Hdr);
        uint32_t off = 0;
        if (extra) { uintptr_t al = (pay + align - 1) & ~(align - 1); off = al - pay; pay = al; }
        h = (Hdr*)(pay - sizeof(Hdr));
        h->off = off; h->cls = extra ? 0 : c;
    }
    h->size = n; h->magic = LIVE_MAGIC; h->seq = ++a.seq; h->freed_by = 0;
    a.live_blocks++; a.live_bytes += n;
    char* pay = (char*)(h + 1);
    if (which == 0) {
        shadow_set((uintptr_t)pay, (n + 15) & ~15ULL ? (n + 15) & ~15ULL : 16, SH_LIVE);
        if (g_run) memset(pay, 0xCD, n);
    }
    return pay;
}
static void really_free(Arena& a, Hdr* h) {
    if (h->cls == 0 || h->cls >= 208) return;   // over-aligned blocks are not reused
    Node* f = (Node*)(h + 1); f->next = a.freel[h->cls]; a.freel[h->cls] = f;
}
static void bad_free(void* p, const char* what) {
    char m[200]; snprintf(m, sizeof m, "%s of heap block", what);
    (void)p; die("memory-error", m);
}
static void dealloc(void* p) {
    if (!p) return;
    uintptr_t x = (uintptr_t)p;
    if (x - PRIV < PRIV_SIZE) {
        Hdr* h = (Hdr*)p - 1;
        if (h->magic != LIVE_MAGIC) die("internal", "simulator heap corrupted");
        h->magic = DEAD_MAGIC; A[1].live_blocks--; A[1].live_bytes -= h->size;
        really_free(A[1], h); return;
    }
    if (x - APP >= APP_SIZE) bad_free(p, "free of a non-heap pointer: invalid free");
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD_MAGIC) bad_free(p, "double free");
    if (h->magic != LIVE_MAGIC || (x & 15)) bad_free(p, "invalid free");
    h->magic = DEAD_MAGIC; h->freed_by = g_cur ? g_cur->id : 0;
    A[0].live_blocks--; A[0].live_bytes -= h->size;
    size_t r = (h->size + 15) & ~15ULL; if (!r) r = 16;
    shadow_set(x, r, SH_FREED);
    if (!g_run) { really_free(A[0], h); return; }
    memset(p, 0xDD, h->size);
    if (q_cnt == QN || q_bytes > (24u << 20)) {
        while (q_cnt && (q_cnt == QN || q_bytes > (16u << 20))) {
            Hdr* o = q_ring[q_head]; q_head = (q_head + 1) % QN; q_cnt--; q_bytes -= o->size;
            const unsigned char* c = (const unsigned char*)(o + 1);
            size_t k = o->size < 64 ? o->size : 64;
            for (size_t i = 0; i < k; i++) if (c[i] != 0xDD) { char m[160]; snprintf(m, sizeof m, "a freed heap block of %u bytes was written to at offset %zu", (unsigned)o->size, i); if (getenv("SIM_WATCH")) fprintf(stderr, "watch %p\n", (void*)(c + i)); die("memory-error", m); }
            really_free(A[0], o);
        }
    }
    q_ring[(q_head + q_cnt) % QN] = h; q_cnt++; q_bytes += h->size;
}
static inline int which() { return g_core > 0 ? 1 : 0; }

MemStat mem_stat() { MemStat m = { A[0].live_blocks, A[0].live_bytes, A[0].seq }; return m; }
template <class F> static void each_live(uint64_t seq, F f) {
    // walk the shadow: headers precede live runs, so walk blocks linearly instead
    uintptr_t p = APP;
    while (p < A[0].top) {
        // every block starts with a header unless it was over-aligned; those are skipped via shadow scan
        Hdr* h = (Hdr*)p;
        if (h->magic != LIVE_MAGIC && h->magic != DEAD_MAGIC) { p += 16; continue; }
        size_t r; if (h->cls == 0) r = (h->size + 15) & ~15ULL; else cls_of(h->size, &r);
        if (h->cls) { size_t rr; cls_of(h->size, &rr); r = rr; }
        if (h->magic == LIVE_MAGIC && h->seq > seq) f(h);
        p += sizeof(Hdr) + (h->cls ? r : ((h->size + 15) & ~15ULL));
    }
}
uint64_t mem_live_since(uint64_t seq, uint64_t* bytes, size_t least) {
    uint64_t n = 0, b = 0; each_live(seq, [&](Hdr* h) { if (h->size >= least) { n++; b += h->size; } });
    if (bytes) *bytes = b; return n;
}
void mem_dump_since(uint64_t seq, int max) {
    Core c; int k = 0;
    each_live(seq, [&](Hdr* h) {
        if (k++ < max) {
            char hex[100]; int n = 0; const unsigned char* d = (const unsigned char*)(h + 1);
            for (int i = 0; i < 24 && i < (int)h->size; i++) n += snprintf(hex + n, sizeof hex - n, "%02x", d[i]);
            void* vp = h->size >= 8 ? *(void**)(h + 1) : NULL;
            note("live block seq=%lu size=%lu first=%p data=%s", (unsigned long)h->seq, (unsigned long)h->size, vp, n ? hex : "");
        }
    });
}
static void bad_access(uintptr_t a, unsigned n, bool w) {
    g_core++;
    int s = SHADOW[(a - APP) >> 4];
    char m[256];
    snprintf(m, sizeof m, "%s of %u bytes %s", w ? "write" : "read", n,
        s == SH_FREED ? "in a freed heap block (use after free)" : "outside any live heap block (overflow)");
    die("memory-error", m);
}
void check_mem(const void* p, size_t n, bool w, const char* what) {
    uintptr_t a = (uintptr_t)p;
    if (a - APP >= APP_SIZE || n == 0) return;
    for (uintptr_t x = a & ~15ULL; x < a + n; x += 16)
        if (SHADOW[(x - APP) >> 4] != SH_LIVE) {
            g_core++;
            char m[256]; snprintf(m, sizeof m, "%s %s a buffer of %zu bytes that is not live", what, w ? "writes" : "reads", n);
            die("memory-error", m);
        }
}
static int64_t g_budget_sink;
int64_t* g_budget = &g_budget_sink;
static uintptr_t g_last_read; int64_t g_rmw_cost;
void mem_point();
static inline __attribute__((always_inline)) void acc(void* p, unsigned n, bool w) {
    if (__builtin_expect(g_core != 0, 0)) return;
    uintptr_t a = (uintptr_t)p;
    if (a - APP < APP_SIZE) {
        if (__builtin_expect(SHADOW[(a - APP) >> 4] != SH_LIVE || SHADOW[(a + n - 1 - APP) >> 4] != SH_LIVE, 0) && g_run)
            bad_access(a, n, w);
    }
    // a value that is read, changed and written back is where updates get lost: more likely interrupted there
    int64_t cost = 1; if (w) { if (a == g_last_read) cost += g_rmw_cost; } else g_last_read = a;
    if (__builtin_expect((*g_budget -= cost) < 0, 0)) mem_point();
}
static inline __attribute__((always_inline)) void vol(void* p, unsigned n, bool w) { if (g_run) { point(); acc(p, n, w); } }
} // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) {
    if (g_run && !g_core && oom_now(__builtin_return_address(0))) { errno = ENOMEM; return NULL; }
    return alloc(which(), n, 0);
}
void* sim_malloc_nofail(size_t n) { return alloc(which(), n, 0); }
void free(void* p) { dealloc(p); }
void* calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void* p = alloc(which(), n, 0); if (p) memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return alloc(which(), n, 0);
    if (!n) { dealloc(p); return NULL; }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != LIVE_MAGIC) bad_free(p, "realloc of a dead block");
    void* q = alloc((uintptr_t)p - PRIV < PRIV_SIZE ? 1 : which(), n, 0);
    if (!q) return NULL;
    memcpy(q, p, h->size < n ? h->size : n); dealloc(p); return q;
}
void* memalign(size_t al, size_t n) { return alloc(which(), n, al); }
void* aligned_alloc(size_t al, size_t n) { return alloc(which(), n, al); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = alloc(which(), n, al); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return alloc(which(), n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false); } void __tsan_write##n(void* p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { vol(p, n, false); } void __tsan_volatile_write##n(void* p) { vol(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { vol(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { vol(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) { if (g_run) check_mem(p, n, false, "code"); acc(p, 1, false); } }
void __tsan_write_range(void* p, unsigned long n) { if (n) { if (g_run) check_mem(p, n, true, "code"); acc(p, 1, true); } }
// the block functions as the code under test calls them (the Makefile redirects its objects here)
static inline void block(const void* p, size_t n, bool w) { if (n && g_run && !g_core) { check_mem(p, n, w, "code"); if (w) g_last_read = (uintptr_t)p; acc((void*)p, 1, w); } }
void* sim_memset(void* p, int c, size_t n) { block(p, n, true); return memset(p, c, n); }
void* sim_memcpy(void* d, const void* s, size_t n) { block(s, n, false); block(d, n, true); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { block(s, n, false); block(d, n, true); return memmove(d, s, n); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { vol((void*)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { vol((void*)p, sizeof(T), true); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { vol((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { vol((void*)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { vol((void*)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (g_run) point(); }
void __tsan_atomic_signal_fence(int) {}
// the hook in /repo (atomic.h, smart_ptr): an inline-assembly atomic is about to touch *p
void sofa_pbrpc_sim_atomic(const volatile void* p) { vol((void*)p, 4, true); }
}
void* operator new(size_t n) { void* p = alloc(which(), n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(which(), n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(which(), n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(which(), n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = alloc(which(), n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = alloc(which(), n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p); }
