// Memory of the simulated process: heap with redzones, access hooks,
// happens-before race detector.
#include "internal.hpp"
#include <cxxabi.h>
#include <deque>
#include <errno.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void* __real_malloc(size_t);
}

namespace sim {

bool mod_ok(uintptr_t a, size_t n, bool w);
bool exc_ok(uintptr_t a, size_t n);
void note_exception(void* p, size_t n);
extern uintptr_t tgt_base;

static unsigned char* shadow; // one byte per heap byte: 1 live, 2 freed, 0 never allocated
static uintptr_t heap_next, heap_hi;
static std::unordered_map<uintptr_t, std::pair<size_t, const char*>> blocks;
static uint64_t live_bytes, live_count;
// freed blocks stay unusable, until half of the heap is used up: then the one
// that has been free for longest of those with the same size is used again
static std::unordered_map<size_t, std::deque<uintptr_t>> freed;
static Rng fillr(1);
static unsigned last_acc[4096]; // conflict policy: last thread to touch a granule

void mem_init() {
    void* p = mmap((void*)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)HEAP_BASE) { perror("heap map"); exit(3); }
    p = mmap((void*)SHADOW_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)SHADOW_BASE) { perror("shadow map"); exit(3); }
    shadow = (unsigned char*)SHADOW_BASE;
    heap_next = heap_hi = HEAP_BASE + 4096;
}

void heap_reset() {
    size_t used = heap_hi - HEAP_BASE;
    if (used > (4u << 20)) {
        madvise((void*)SHADOW_BASE, used, MADV_DONTNEED);
        madvise((void*)HEAP_BASE, used, MADV_DONTNEED);
    } else
        memset(shadow, 0, used);
    heap_next = heap_hi = HEAP_BASE + 4096;
    blocks.clear(); freed.clear();
    live_bytes = live_count = 0;
    fillr = Rng(cfg.fill_seed);
    memset(last_acc, 0, sizeof last_acc);
}

bool in_heap(const void* p) { return (uintptr_t)p - HEAP_BASE < HEAP_SIZE; }
uint64_t heap_live() { return live_count; }
uint64_t count_live_allocs(size_t above) {
    if (!above) return live_count;
    uint64_t n = 0;
    for (auto& b : blocks) if (shadow[b.first - HEAP_BASE] == 1 && b.second.first > above) ++n;
    return n;
}

void* heap_alloc(size_t n, size_t align, bool zero, const char* kind) {
    // returns nullptr when memory is exhausted or a fault is injected
    Off off;
    sync_point(0x80);
    int err;
    if (fault_hit("alloc", &err)) return nullptr;
    if (n > cfg.heap_limit || live_bytes + n > cfg.heap_limit) return nullptr;
    if (align < 16) align = 16;
    uintptr_t a = (heap_next + 32 + align - 1) & ~(uintptr_t)(align - 1);
    std::deque<uintptr_t>* fl = nullptr;
    if (heap_next - HEAP_BASE > HEAP_SIZE / 2 && align == 16) {
        auto f = freed.find(n);
        if (f != freed.end() && f->second.size() > 4) fl = &f->second;
    }
    if (fl) { a = fl->front(); fl->pop_front(); race_clear(a, n); }
    else if (a + n + 64 > HEAP_BASE + HEAP_SIZE) {
        abort_run(O_VIOLATION, "SIMLIMIT", "simulated heap exhausted");
    }
    if (!fl) {
        heap_next = a + n + 32;
        heap_hi = heap_next + 4096;
        if (heap_hi > HEAP_BASE + HEAP_SIZE) heap_hi = HEAP_BASE + HEAP_SIZE;
    }
    memset(shadow + (a - HEAP_BASE), 1, n);
    if (zero) memset((void*)a, 0, n);
    else {
        char* p = (char*)a; size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v = fillr.next(); memcpy(p + i, &v, 8); }
        if (i < n) { uint64_t v = fillr.next(); memcpy(p + i, &v, n - i); }
    }
    blocks[a] = {n, kind};
    live_bytes += n; ++live_count;
    mix(0xA110C ^ n);
    return (void*)a;
}

void heap_free(void* p, void* pc) {
    Off off;
    if (off.s) sync_point(0x81);
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end()) {
        if (g_active && cur) abort_run(O_VIOLATION, "BADFREE", "free of an address that is not a live allocation, in " + where(pc));
        return;
    }
    size_t n = it->second.first;
    memset(shadow + ((uintptr_t)p - HEAP_BASE), 2, n);
    memset(p, 0xDD, n);
    live_bytes -= n; --live_count;
    if (n >= 1024) freed[n].push_back((uintptr_t)p);
    blocks.erase(it);
}
void* obj_alloc(size_t n) {
    Off off;
    uintptr_t a = (heap_next + 32 + 15) & ~(uintptr_t)15;
    if (a + n + 64 > HEAP_BASE + HEAP_SIZE) abort_run(O_VIOLATION, "SIMLIMIT", "simulated heap exhausted");
    heap_next = a + n + 32;
    heap_hi = heap_next + 4096;
    if (heap_hi > HEAP_BASE + HEAP_SIZE) heap_hi = HEAP_BASE + HEAP_SIZE;
    memset(shadow + (a - HEAP_BASE), 1, n);
    memset((void*)a, 0xA7, n);
    return (void*)a;
}
void obj_free(void* p) { (void)p; } // stays readable until the phase ends
size_t heap_size_of(void* p) {
    auto it = blocks.find((uintptr_t)p);
    return it == blocks.end() ? 0 : it->second.first;
}

bool heap_ok(uintptr_t a, size_t n) {
    if (n == 0) return true;
    uintptr_t o = a - HEAP_BASE;
    if (o + n > HEAP_SIZE) return false;
    for (size_t i = 0; i < n; ++i) if (shadow[o + i] != 1) return false;
    return true;
}

bool range_ok(const void* p, size_t n) {
    if (n == 0) return true;
    uintptr_t a = (uintptr_t)p;
    if (a - HEAP_BASE < HEAP_SIZE) return heap_ok(a, n);
    if (a - MAPS_BASE < MAPS_SIZE) return maps_ok(a, n);
    return a - STACK_BASE < STACK_TOTAL || mod_ok(a, n, false) || exc_ok(a, n);
}

static void heap_bad(uintptr_t a, size_t n, bool w, void* pc) {
    Off off;
    // describe
    std::string s = std::string(w ? "write" : "read") + " of " + std::to_string(n) + " byte(s) in " + where(pc);
    unsigned char st = shadow[a - HEAP_BASE];
    if (st == 1) { // starts inside
        size_t i = 0;
        while (i < n && shadow[a + i - HEAP_BASE] == 1) ++i;
        st = shadow[a + i - HEAP_BASE];
    }
    if (st == 2) abort_run(O_VIOLATION, "USE-AFTER-FREE", s);
    // find a near block
    std::string near;
    for (auto& b : blocks) {
        uintptr_t lo = b.first, hi = b.first + b.second.first;
        if (a >= hi && a < hi + 64) { near = ", " + std::to_string(a - hi) + " byte(s) past the end of a block of " + std::to_string(b.second.first); break; }
        if (a < hi && a + n > hi && a >= lo) { near = ", across the end of a block of " + std::to_string(b.second.first); break; }
        if (a < lo && a + 64 >= lo) near = ", " + std::to_string(lo - a) + " byte(s) before a block of " + std::to_string(b.second.first);
    }
    abort_run(O_VIOLATION, "HEAP-OOB", s + near);
}

void check_access(uintptr_t a, size_t n, bool w, void* pc) {
    uintptr_t o = a - HEAP_BASE;
    if (o < HEAP_SIZE) {
        if (__builtin_expect(shadow[o] == 1 && shadow[o + n - 1] == 1, 1)) {
            if (n > 16) {
                const void* z = memchr(shadow + o, 0, n);
                const void* t = memchr(shadow + o, 2, n);
                if (z || t) heap_bad(a, n, w, pc);
            }
            return;
        }
        heap_bad(a, n, w, pc);
    } else if (a - MAPS_BASE < MAPS_SIZE)
        maps_check(a, n, w, pc);
    else if (a - STACK_BASE < STACK_TOTAL)
        return;
    else if (!mod_ok(a, n, w) && !exc_ok(a, n)) {
        g_on = 0;
        abort_run(O_VIOLATION, "WILD", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at a wild address in " + where(pc));
    }
}

// ------------------------------------------------------------ race detector
struct Cell {
    uint32_t gen;
    uint16_t wt, rt;      // thread+1 of last write / read (0 none)
    uint32_t wc, rc;
    uint8_t wat, rat;     // last write / read was atomic
    uint16_t nread;       // >0: index+1 into shared read table
    uint32_t wpc, rpc;
};
static std::unordered_map<uintptr_t, Cell*> pages;
static uint32_t rgen = 1;
struct SharedReads { std::vector<std::pair<uint16_t, uint32_t>> v; std::vector<std::pair<bool, uint32_t>> meta; };
static std::vector<SharedReads> shared;
static uintptr_t last_page = ~0ull; static Cell* last_cells;
static std::vector<void*> pctab; static std::unordered_map<void*, uint32_t> pcidx;

static const size_t CELLS = 4096 * sizeof(Cell);
static Cell* cells_new() {
    void* p = (void*)syscall(SYS_mmap, nullptr, CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("cells"); exit(3); }
    return (Cell*)p;
}
static void cells_drop() {
    for (auto& p : pages) syscall(SYS_munmap, p.second, CELLS);
    pages.clear();
    last_page = ~0ull;
}
void race_reset() {
    ++rgen;
    shared.clear();
    pctab.assign(1, nullptr); pcidx.clear();
    if (pages.size() > 4096) cells_drop();
}
// a new mapping: earlier accesses at these addresses went to other memory
void race_clear(uintptr_t a, size_t len) {
    if (!cfg.race) return;
    for (uintptr_t pg = a >> 12; len && pg <= (a + len - 1) >> 12; ++pg) {
        auto it = pages.find(pg);
        if (it == pages.end()) continue;
        uintptr_t lo = std::max(a, pg << 12), hi = std::min(a + len, (pg + 1) << 12);
        for (uintptr_t b = lo; b < hi; ++b) it->second[b & 4095].gen = 0;
    }
}
static uint32_t pc_index(void* pc) {
    auto it = pcidx.find(pc);
    if (it != pcidx.end()) return it->second;
    pctab.push_back(pc);
    pcidx[pc] = (uint32_t)pctab.size() - 1;
    return (uint32_t)pctab.size() - 1;
}
static inline uint32_t vcget(const VC& v, uint32_t i) { return i < v.size() ? v[i] : 0; }

static void report_race(uintptr_t a, void* pc, bool w, bool at, uint32_t opc, bool ow, bool oat, uint16_t ot) {
    std::string s = std::string("unordered ") + (at ? "atomic " : "") + (w ? "write" : "read") + " in " + where(pc) +
        " and " + (oat ? "atomic " : "") + (ow ? "write" : "read") + " in " + where(pctab[opc]) + " by thread " + std::to_string(ot - 1);
    (void)a;
    abort_run(O_VIOLATION, "RACE", s);
}

void race_access(uintptr_t a, size_t n, bool w, bool at, void* pc) {
    // exception objects live in the C++ runtime's memory, which is reused
    if (a - HEAP_BASE >= HEAP_SIZE && a - MAPS_BASE >= MAPS_SIZE && a - STACK_BASE >= STACK_TOTAL && exc_ok(a, n)) return;
    uint32_t me = cur->id;
    uint32_t mc = cur->vc[me];
    uint32_t pi = pc_index(pc);
    for (size_t i = 0; i < n; ++i) {
        uintptr_t b = a + i, pg = b >> 12;
        if (pg != last_page) {
            Cell*& c = pages[pg];
            if (!c) {
                if (pages.size() > 8192) { // 1 GB: forget what was accessed (this can only miss a race)
                    cells_drop();
                    pages[pg] = last_cells = cells_new();
                } else last_cells = c = cells_new();
            }
            else last_cells = c;
            last_page = pg;
        }
        Cell& c = last_cells[b & 4095];
        if (c.gen != rgen) { memset(&c, 0, sizeof c); c.gen = rgen; }
        // against the last write
        if (c.wt && c.wt != me + 1 && !(at && c.wat) && vcget(cur->vc, c.wt - 1) < c.wc)
            report_race(b, pc, w, at, c.wpc, true, c.wat, c.wt);
        if (w) {
            if (c.nread) {
                SharedReads& s = shared[c.nread - 1];
                for (size_t k = 0; k < s.v.size(); ++k)
                    if (s.v[k].first != me && !(at && s.meta[k].first) && vcget(cur->vc, s.v[k].first) < s.v[k].second)
                        report_race(b, pc, w, at, s.meta[k].second, false, s.meta[k].first, s.v[k].first + 1);
                c.nread = 0;
            } else if (c.rt && c.rt != me + 1 && !(at && c.rat) && vcget(cur->vc, c.rt - 1) < c.rc)
                report_race(b, pc, w, at, c.rpc, false, c.rat, c.rt);
            c.rt = 0;
            c.wt = (uint16_t)(me + 1); c.wc = mc; c.wat = at; c.wpc = pi;
        } else {
            if (c.nread) {
                SharedReads& s = shared[c.nread - 1];
                bool f = false;
                for (size_t k = 0; k < s.v.size(); ++k) if (s.v[k].first == me) { s.v[k].second = mc; s.meta[k] = {at, pi}; f = true; break; }
                if (!f) { s.v.push_back({(uint16_t)me, mc}); s.meta.push_back({at, pi}); }
            } else if (!c.rt || c.rt == me + 1 || vcget(cur->vc, c.rt - 1) >= c.rc) {
                c.rt = (uint16_t)(me + 1); c.rc = mc; c.rat = at; c.rpc = pi;
            } else if (shared.size() < 65000) {
                shared.emplace_back();
                SharedReads& s = shared.back();
                s.v.push_back({(uint16_t)(c.rt - 1), c.rc}); s.meta.push_back({(bool)c.rat, c.rpc});
                s.v.push_back({(uint16_t)me, mc}); s.meta.push_back({at, pi});
                c.nread = (uint16_t)shared.size();
            }
        }
    }
}

static void extra(uintptr_t a, size_t n, bool w, bool at, void* pc) {
    Off off;
    if (g_flags & 2) { // conflict policy: preempt when touching what another thread touched last
        // addresses of the module are taken relative to its base: they must not
        // depend on where the loader put it
        uintptr_t k = a - HEAP_BASE < HEAP_SIZE || a - MAPS_BASE < MAPS_SIZE ? a : a - tgt_base < (64u << 20) ? a - tgt_base : 0;
        if (k) {
            unsigned& l = last_acc[(k >> 3) & 4095];
            unsigned me = cur->id + 1;
            if (l && l != me) {
                l = me;
                sync_point(0x90);
            } else l = me;
        }
    }
    if (g_flags & 1) race_access(a, n, w, at, pc);
}

static inline void acc(void* p, size_t n, bool w, void* pc) {
    if (!g_on) return;
    if (__builtin_expect(--g_left < 0, 0)) slow_point();
    check_access((uintptr_t)p, n, w, pc);
    if (__builtin_expect(g_flags, 0)) extra((uintptr_t)p, n, w, false, pc);
}
static inline void acc_atomic(void* p, size_t n, bool w, void* pc) {
    if (!g_on) return;
    sync_point(0x91);
    check_access((uintptr_t)p, n, w, pc);
    if (g_flags & 1) { Off off; race_access((uintptr_t)p, n, w, true, pc); }
}
// ranges: in pieces, so that other threads can run in between
static void acc_piece(const void* p, size_t n, bool w, void* pc) { acc((void*)p, n, w, pc); }

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { (void)pc; if (cur) { if (cur->npcs < 128) cur->pcs[cur->npcs] = PC; ++cur->npcs; } }
void __tsan_func_exit() { if (cur && cur->npcs) --cur->npcs; }
#define RW(N) \
void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } \
void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) acc(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) acc(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }

static inline bool acqm(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool relm(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { acc_atomic((void*)a, sizeof(T), false, PC); if (g_on && acqm(mo)) acquire((void*)a); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on && relm(mo)) release((void*)a); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on) { if (acqm(mo)) acquire((void*)a); if (relm(mo)) release((void*)a); } T o = *a; *a = v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on) { if (acqm(mo)) acquire((void*)a); } if (*a == *c) { if (g_on && relm(mo)) release((void*)a); *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on) { if (acqm(mo)) acquire((void*)a); } if (*a == *c) { if (g_on && relm(mo)) release((void*)a); *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on) { if (acqm(mo)) acquire((void*)a); if (relm(mo)) release((void*)a); } T o = *a; if (o == c) *a = v; return o; }
#define RMW(B, T, NAME, EXPR) \
T __tsan_atomic##B##_fetch_##NAME(volatile T* a, T v, int mo) { acc_atomic((void*)a, sizeof(T), true, PC); if (g_on) { if (acqm(mo)) acquire((void*)a); if (relm(mo)) release((void*)a); } T o = *a; *a = (T)(EXPR); return o; }
#define ALLRMW(B, T) ATOMICS(B, T) RMW(B, T, add, o + v) RMW(B, T, sub, o - v) RMW(B, T, and, o & v) RMW(B, T, or, o | v) RMW(B, T, xor, o ^ v) RMW(B, T, nand, ~(o & v))
ALLRMW(8, unsigned char) ALLRMW(16, unsigned short) ALLRMW(32, unsigned int) ALLRMW(64, unsigned long) ALLRMW(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- allocation
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) {
    if (!g_on) return malloc(n);
    void* p = heap_alloc(n, 16, false, "malloc");
    if (!p) errno = ENOMEM;
    return p;
}
void __wrap_free(void* p) {
    if (!p) return;
    if (in_heap(p)) { heap_free(p, PC); return; }
    if (g_on && cur && ((uintptr_t)p - MAPS_BASE < MAPS_SIZE || (uintptr_t)p - STACK_BASE < STACK_TOTAL || !p))
        g_on = 0, abort_run(O_VIOLATION, "BADFREE", "free of a non-heap address in " + where(PC));
    if (g_on) { g_on = 0; abort_run(O_VIOLATION, "BADFREE", "free of a wild pointer in " + where(PC)); }
    free(p);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (!g_on) return calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = heap_alloc(n, 16, true, "malloc");
    if (!p) errno = ENOMEM;
    return p;
}
void* __wrap_realloc(void* o, size_t n) {
    if (!g_on && !in_heap(o)) return realloc(o, n);
    void* p = heap_alloc(n, 16, false, "malloc");
    if (!p) { errno = ENOMEM; return nullptr; }
    if (o) { size_t s = heap_size_of(o); memcpy(p, o, s < n ? s : n); heap_free(o, PC); }
    return p;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
    if (!g_on) return aligned_alloc(al, n);
    void* p = heap_alloc(n, al, false, "malloc");
    if (!p) errno = ENOMEM;
    return p;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (!g_on) return posix_memalign(out, al, n);
    void* p = heap_alloc(n, al, false, "malloc");
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* __wrap___cxa_allocate_exception(size_t n) {
    void* p = abi::__cxa_allocate_exception(n);
    if (g_on) note_exception(p, n);
    return p;
}

// ---- bulk memory operations, in pieces with scheduling points between them
static size_t piece(size_t n) { return n < 64 ? n : (n / 4 < 64 ? 64 : n / 4); }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (!g_on || !n) return memcpy(d, s, n);
    void* pc = PC;
    for (size_t o = 0, k = piece(n); o < n; o += k) {
        size_t c = n - o < k ? n - o : k;
        acc_piece((const char*)s + o, c, false, pc);
        acc_piece((char*)d + o, c, true, pc);
        memcpy((char*)d + o, (const char*)s + o, c);
    }
    return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (!g_on || !n) return memmove(d, s, n);
    acc_piece(s, n, false, PC);
    acc_piece(d, n, true, PC);
    return memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n) {
    if (!g_on || !n) return memset(d, v, n);
    void* pc = PC;
    for (size_t o = 0, k = piece(n); o < n; o += k) {
        size_t c = n - o < k ? n - o : k;
        acc_piece((char*)d + o, c, true, pc);
        memset((char*)d + o, v, c);
    }
    return d;
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (g_on && n) { acc_piece(a, n, false, PC); acc_piece(b, n, false, PC); }
    return memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n) {
    // reads up to the match only
    if (g_on && n) {
        const char* p = (const char*)a;
        for (size_t i = 0; i < n; ++i) { acc_piece(p + i, 1, false, PC); if (p[i] == (char)c) return (void*)(p + i); }
        return nullptr;
    }
    return (void*)memchr(a, c, n);
}
size_t __wrap_strlen(const char* s) {
    if (g_on && ((uintptr_t)s - MAPS_BASE < MAPS_SIZE || in_heap(s))) {
        size_t i = 0;
        for (;; ++i) { acc_piece(s + i, 1, false, PC); if (!s[i]) return i; }
    }
    return strlen(s);
}
int __wrap_strncmp(const char* a, const char* b, size_t n) {
    if (g_on) {
        for (size_t i = 0; i < n; ++i) {
            acc_piece(a + i, 1, false, PC); acc_piece(b + i, 1, false, PC);
            if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
            if (!a[i]) return 0;
        }
        return 0;
    }
    return strncmp(a, b, n);
}
void __wrap_abort() {
    if (g_active && cur) abort_run(O_VIOLATION, "ABORT", "abort() called");
    abort();
}
void __wrap_exit(int c) {
    if (g_active && cur) abort_run(O_VIOLATION, "ABORT", "exit() called");
    exit(c);
}
void __wrap__exit(int c) { __wrap_exit(c); }
void __wrap___assert_fail(const char* e, const char*, unsigned, const char*) {
    if (g_active && cur) abort_run(O_VIOLATION, "ABORT", std::string("assertion failed: ") + e);
    abort();
}
// string to number conversions read up to their terminator
long __wrap_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
} // extern "C"

// operator new/delete: target allocations come from the simulated heap
static void* op_new(size_t n, size_t al) {
    if (g_on) {
        void* p = heap_alloc(n, al, false, "new");
        if (!p) throw std::bad_alloc();
        return p;
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void op_delete(void* p, void* pc) {
    if (!p) return;
    if (in_heap(p)) { heap_free(p, pc); return; }
    free(p);
}
void* operator new(size_t n) { return op_new(n, 16); }
void* operator new[](size_t n) { return op_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void operator delete(void* p) noexcept { op_delete(p, PC); }
void operator delete[](void* p) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
