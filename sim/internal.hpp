#pragma once
#include "sim.hpp"
#include <csetjmp>
#include <cstring>
#include <deque>
#include <vector>
#include <set>

namespace sim {

constexpr uintptr_t HEAP_BASE = 0x100000000000ull, HEAP_SIZE = 256ull << 20;
constexpr uintptr_t MAPS_BASE = 0x110000000000ull, MAPS_SIZE = 48ull << 30;
constexpr uintptr_t STACK_BASE = 0x120000000000ull, STACK_SZ = 1ull << 20, STACK_N = 1200;
constexpr uintptr_t STACK_TOTAL = STACK_SZ * STACK_N;
constexpr uintptr_t SHADOW_BASE = 0x130000000000ull;
constexpr uintptr_t DISK_BASE = 0x140000000000ull, EXTENT = 32ull << 20, NINODES = 48;
constexpr size_t PAGE = 4096;

typedef std::vector<uint32_t> VC;

struct WorkShare {
    bool init = false, ull = false, up = true;
    long next = 0, end = 0, incr = 1, chunk = 1;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    int kind = 1; // 1 dynamic, 2 guided, 0 static-like
    unsigned scount = 0, snext = 1;
    bool taken = false;      // single
    void* copy = nullptr;    // copyprivate
    bool copy_ready = false;
    int left = 0;
    void* mem = nullptr; // GOMP 5 work-share memory
    bool ordered = false;
    std::vector<uint32_t> line; // ordered loops: the fibers holding a chunk, in iteration order
};

struct Team {
    int size = 1;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    int arrived = 0;
    uint64_t bargen = 0;
    int finished = 0;
    int level = 0, active = 0;
    VC barvc, barvc_out;
    std::map<uint64_t, WorkShare> ws;
    uint32_t master = 0;
    Team* parent = nullptr;
    int parent_tid = 0;
};

struct Icv {
    int nthreads = 4;
    bool dyn = false;
    int max_levels = 1;
    int sched_kind = 1, sched_chunk = 0;
};

enum FState { F_FREE = 0, F_RUN, F_BLOCK, F_IDLE, F_DONE };

struct Fiber {
    uint32_t id = 0;
    void* sp = nullptr;
    FState st = F_FREE;
    bool on = false; // running target code
    const void* wait_obj = nullptr;
    uint64_t local = 0;
    Team* team = nullptr;
    int tid = 0;
    uint64_t wscount = 0; // work-share counter inside the team
    uint64_t curws = 0;
    Icv icv;
    std::function<void()> entry;
    void* caught = nullptr; unsigned uncaught = 0;
    int err = 0;
    std::vector<char> tls;
    VC vc;
    uint64_t prio = 0;
    bool stalled = false;
    void* pcs[128]; unsigned npcs = 0;
    std::deque<Switch> plan;
    std::map<std::pair<int,int>, uint32_t> pool; // (level,tid) -> fiber
};

extern int g_on;
extern int64_t g_left, g_quota;
extern unsigned g_flags; // 1 race, 2 hot
extern Fiber* cur;
extern Config cfg;
extern PhaseResult* res;
extern bool g_active, g_armed;
extern uint64_t g_hash;
extern uint64_t g_cp;

// simulator code running on a fiber: its own allocations and accesses are not the target's
struct Off {
    int s;
    Off() : s(g_on) { g_on = 0; }
    ~Off() { g_on = s; }
};

inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }

[[noreturn]] void abort_run(Outcome o, const std::string& cls, const std::string& detail);
void slow_point();
void sync_point(uint64_t tag); // a scheduling point at a synchronisation or system call
void block_on(const void* obj);
void wake(const void* obj);
void crash_point();
bool fault_hit(const char* fn, int* err);
void count_call(const char* fn);
void check_access(uintptr_t a, size_t n, bool w, void* pc);
void race_access(uintptr_t a, size_t n, bool w, bool atomic, void* pc);
void race_reset();
void race_clear(uintptr_t a, size_t len);
void vc_join(VC& a, const VC& b);
void vc_tick(Fiber* f);
void acquire(const void* obj);
void release(const void* obj);
std::string where(void* pc);

// fs / maps
void maps_check(uintptr_t a, size_t n, bool w, void* pc);
bool maps_ok(uintptr_t a, size_t n);
void fs_phase_begin();
void fs_phase_end(Outcome o);
uint64_t fs_hash();
// heap
void heap_reset();
void* heap_alloc(size_t n, size_t align, bool zero, const char* kind);
void heap_free(void* p, void* pc);
bool in_heap(const void* p);
size_t heap_size_of(void* p);
bool heap_ok(uintptr_t a, size_t n);
uint64_t heap_live();

extern "C" void sim_ctx_switch(void** old_sp, void* new_sp);

} // namespace sim
