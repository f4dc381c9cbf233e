// The OpenMP runtime of the simulator: the libgomp ABI on fibers.
#include "internal.hpp"
#include <stdlib.h>
#include <algorithm>

namespace sim {
Fiber* make_fiber(std::function<void()> entry, bool on);
Fiber* fiber_by_id(uint32_t id);
void restart_fiber(Fiber* f, std::function<void()> entry);
uint64_t rnd_below(uint64_t n);
uint32_t fiber_count();

struct Lock { Fiber* owner = nullptr; int depth = 0; };
static std::map<const void*, Lock> locks;
static std::vector<Team*> dead_teams;
static double vtime = 0;

void gomp_reset() {
    locks.clear();
    for (Team* t : dead_teams) delete t;
    dead_teams.clear();
    vtime = 0;
}

static void lock(const void* l, bool nest = false) {
    Off off;
    sync_point(0x10);
    for (;;) {
        Lock& k = locks[l];
        if (!k.owner) { k.owner = cur; k.depth = 1; break; }
        if (nest && k.owner == cur) { ++k.depth; return; }
        block_on(l);
    }
    acquire(l);
}
static bool trylock(const void* l) {
    Off off;
    sync_point(0x11);
    Lock& k = locks[l];
    if (k.owner) return false;
    k.owner = cur; k.depth = 1;
    acquire(l);
    return true;
}
static void unlock(const void* l) {
    Off off;
    Lock& k = locks[l];
    if (k.owner != cur) fail("TERMINATE", "unlock of a lock that is not held");
    if (--k.depth > 0) return;
    release(l);
    k.owner = nullptr;
    wake(l);
    sync_point(0x12);
}

static void barrier(Team* t) {
    Off off;
    sync_point(0x20);
    if (!t || t->size == 1) return;
    if (g_flags & 1) { vc_join(t->barvc, cur->vc); vc_tick(cur); }
    uint64_t gen = t->bargen;
    if (++t->arrived == t->size) {
        t->arrived = 0;
        ++t->bargen;
        if (g_flags & 1) { t->barvc_out = t->barvc; t->barvc.clear(); }
        mix(0xBA44 + t->bargen);
        wake(&t->bargen);
    } else {
        while (t->bargen == gen) block_on(&t->bargen);
    }
    if (g_flags & 1) vc_join(cur->vc, t->barvc_out);
    sync_point(0x21);
}

static int decide_team(unsigned want) {
    Icv& icv = cur->icv;
    int active = cur->team ? cur->team->active : 0;
    if (active >= icv.max_levels) return 1;
    int n = want ? (int)want : icv.nthreads;
    if (n < 1) n = 1;
    if (icv.dyn && n > 1) n = 1 + (int)rnd_below((uint64_t)n);
    // when the threads run out the runtime gives a smaller team
    uint64_t left = STACK_N - fiber_count();
    if ((uint64_t)n > left + 1) n = (int)(left + 1);
    return n;
}

static void parallel(void (*fn)(void*), void* data, unsigned want) {
    Off off;
    sync_point(0x30);
    int n = decide_team(want);
    ++res->regions;
    if ((uint64_t)n > res->max_team) res->max_team = n;
    mix(0x9A0 + n);
    Fiber* m = cur;
    Team* t = new Team();
    t->size = n; t->fn = fn; t->data = data; t->master = m->id;
    t->parent = m->team; t->parent_tid = m->tid;
    t->level = (m->team ? m->team->level : 0) + 1;
    t->active = (m->team ? m->team->active : 0) + (n > 1 ? 1 : 0);
    for (int i = 1; i < n; ++i) {
        auto key = std::make_pair(t->level, i);
        auto run = [t, i]() {
            Fiber* f = cur;
            f->team = t; f->tid = i; f->wscount = 0;
            f->on = true; g_on = 1;
            t->fn(t->data);
            // region end
            g_on = 0; f->on = false;
            sync_point(0x31);
            f->team = nullptr;
            ++t->finished;
            if (g_flags & 1) { vc_join(t->barvc, f->vc); vc_tick(f); }
            f->st = F_IDLE;
            wake(&t->finished);
        };
        auto it = m->pool.find(key);
        Fiber* f;
        if (it == m->pool.end()) {
            f = make_fiber(run, true);
            m->pool[key] = f->id;
        } else {
            f = fiber_by_id(it->second);
            restart_fiber(f, run);
        }
        f->on = true;
        f->icv = m->icv;
        if (g_flags & 1) vc_join(f->vc, m->vc);
    }
    if (g_flags & 1) vc_tick(m);
    Team* sp = m->team; int stid = m->tid; uint64_t sws = m->wscount, scw = m->curws;
    Icv sicv = m->icv;
    m->team = t; m->tid = 0; m->wscount = 0;
    sync_point(0x32);
    g_on = 1;
    fn(data);
    g_on = 0;
    sync_point(0x33);
    while (t->finished < n - 1) block_on(&t->finished);
    if (g_flags & 1) vc_join(m->vc, t->barvc);
    m->team = sp; m->tid = stid; m->wscount = sws; m->curws = scw;
    if (sp) m->icv = sicv; else { sicv.dyn = m->icv.dyn; m->icv = sicv; }
    if (!t->ws.empty()) t->ws.clear();
    dead_teams.push_back(t);
    mix(0x9AF + n);
}

static Team* solo_team() { // orphaned work-sharing outside a region: a team of one
    Off off;
    Fiber* f = cur;
    if (f->team) return f->team;
    Team* t = new Team();
    dead_teams.push_back(t);
    t->size = 1;
    f->team = t; f->tid = 0; f->wscount = 0;
    return t;
}
static void ordered_done(WorkShare& w);
static WorkShare& ws_enter() {
    Off off;
    sync_point(0x40);
    Team* t = solo_team();
    cur->curws = ++cur->wscount;
    return t->ws[cur->curws];
}
static void ws_leave(bool bar) {
    Off off;
    Team* t = solo_team();
    auto it = t->ws.find(cur->curws);
    if (it != t->ws.end() && it->second.ordered) ordered_done(it->second);
    if (it != t->ws.end() && ++it->second.left == t->size) t->ws.erase(it);
    if (bar) barrier(t);
}
static bool next_chunk(WorkShare& w, long* s, long* e) {
    long n = w.next;
    if (w.incr > 0 ? n >= w.end : n <= w.end) return false;
    long total = w.incr > 0 ? (w.end - n + w.incr - 1) / w.incr : (n - w.end - w.incr - 1) / -w.incr;
    long c = w.chunk;
    if (w.kind == 2) { long q = (total + cur->team->size - 1) / cur->team->size; c = std::max(c, q); }
    if (c > total) c = total;
    *s = n; *e = n + c * w.incr;
    w.next = *e;
    return true;
}
static bool next_chunk_u(WorkShare& w, unsigned long long* s, unsigned long long* e) {
    unsigned long long n = w.unext, total;
    if (w.up) { if (n >= w.uend) return false; total = (w.uend - n + w.uincr - 1) / w.uincr; }
    else { if (n <= w.uend) return false; total = (n - w.uend + (-w.uincr) - 1) / (-w.uincr); }
    unsigned long long c = w.uchunk;
    if (w.kind == 2) c = std::max(c, (total + cur->team->size - 1) / cur->team->size);
    if (c > total) c = total;
    *s = n; *e = n + c * w.uincr;
    w.unext = *e;
    return true;
}
static void init_ws(WorkShare& w, long s, long e, long inc, long ch, int kind) {
    if (w.init) return;
    w.init = true; w.ull = false;
    w.next = s; w.end = e; w.incr = inc; w.kind = kind;
    w.chunk = ch < 1 ? 1 : ch;
    if (cfg.chunk > 0 && w.chunk > cfg.chunk) w.chunk = cfg.chunk;
    if (kind == 0 && ch <= 0) {
        long total = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc;
        if (total < 0) total = 0;
        w.chunk = std::max<long>(1, (total + cur->team->size - 1) / cur->team->size);
    }
}
// Ordered loops: a fiber's ordered region waits until its chunk is the first
// one that is not finished; a chunk is finished when its fiber asks for the next.
static void ordered_wait(WorkShare& w) {
    while (!w.line.empty() && w.line[0] != cur->id) block_on(&w.line);
    acquire(&w.line);
}
static void ordered_done(WorkShare& w) {
    Off off;
    if (std::find(w.line.begin(), w.line.end(), cur->id) == w.line.end()) return;
    ordered_wait(w);
    w.line.erase(w.line.begin());
    release(&w.line);
    wake(&w.line);
}
static bool loop_start(long s, long e, long inc, long ch, long* is, long* ie, int kind) {
    WorkShare& w = ws_enter();
    init_ws(w, s, e, inc, ch, kind);
    return next_chunk(w, is, ie);
}
static bool loop_next(long* is, long* ie) {
    Off off;
    sync_point(0x41);
    return next_chunk(cur->team->ws[cur->curws], is, ie);
}
static void init_ws_u(WorkShare& w, bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, int kind) {
    if (w.init) return;
    w.init = true; w.ull = true; w.up = up;
    w.unext = s; w.uend = e; w.uincr = inc; w.kind = kind;
    w.uchunk = ch < 1 ? 1 : ch;
    if (cfg.chunk > 0 && w.uchunk > (unsigned long long)cfg.chunk) w.uchunk = cfg.chunk;
    if (kind == 0 && ch == 0) {
        unsigned long long total = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (-inc) - 1) / (-inc) : 0);
        w.uchunk = std::max<unsigned long long>(1, (total + cur->team->size - 1) / cur->team->size);
    }
}
static bool loop_start_u(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch,
                         unsigned long long* is, unsigned long long* ie, int kind) {
    WorkShare& w = ws_enter();
    init_ws_u(w, up, s, e, inc, ch, kind);
    return next_chunk_u(w, is, ie);
}
static bool loop_next_u(unsigned long long* is, unsigned long long* ie) {
    Off off;
    sync_point(0x41);
    return next_chunk_u(cur->team->ws[cur->curws], is, ie);
}

static WorkShare& ordered_enter() {
    WorkShare& w = ws_enter();
    w.ordered = true;
    return w;
}
static bool ordered_got(WorkShare& w, bool got) {
    Off off;
    if (got) w.line.push_back(cur->id);
    return got;
}
static bool ordered_start(long s, long e, long inc, long ch, long* is, long* ie, int kind) {
    WorkShare& w = ordered_enter();
    init_ws(w, s, e, inc, ch, kind);
    return ordered_got(w, next_chunk(w, is, ie));
}
static bool ordered_start_u(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch,
                            unsigned long long* is, unsigned long long* ie, int kind) {
    WorkShare& w = ordered_enter();
    init_ws_u(w, up, s, e, inc, ch, kind);
    return ordered_got(w, next_chunk_u(w, is, ie));
}
static WorkShare& ordered_turn() {
    Off off;
    sync_point(0x48);
    WorkShare& w = cur->team->ws[cur->curws];
    ordered_done(w);
    return w;
}
static bool ordered_next(long* is, long* ie) {
    WorkShare& w = ordered_turn();
    return ordered_got(w, next_chunk(w, is, ie));
}
static bool ordered_next_u(unsigned long long* is, unsigned long long* ie) {
    WorkShare& w = ordered_turn();
    return ordered_got(w, next_chunk_u(w, is, ie));
}
// taskloop: the parts run undeferred, in an order of the simulator's choice
template<class T>
static void taskloop(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, T parts, T s, T n, T step) {
    if (n == 0) return;
    if (parts < 1 || parts > n) parts = n;
    std::vector<std::pair<T, T>> part;
    {
        Off off;
        sync_point(0x49);
        for (T i = 0; i < parts; ++i) {
            T from = n / parts * i + std::min<T>(i, n % parts), to = n / parts * (i + 1) + std::min<T>(i + 1, n % parts);
            part.push_back({s + from * step, s + to * step});
        }
        for (size_t i = part.size(); i > 1; --i) std::swap(part[i - 1], part[rnd_below(i)]);
    }
    char* p = (char*)alloca(size + align);
    if (align > 1) p = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
    for (auto& r : part) {
        bool on = g_on; g_on = 0;
        if (!cpyfn) memcpy(p, data, size);
        g_on = on;
        if (cpyfn) cpyfn(p, data);
        ((T*)p)[0] = r.first; ((T*)p)[1] = r.second;
        fn(p);
    }
}

struct LoopPar { void (*fn)(void*); void* data; };

static void parallel_loop(void (*fn)(void*), void* data, unsigned nt, long s, long e, long inc, long ch, int kind) {
    // The combined construct: the first work share of every thread is preset.
    struct Ctx { void (*fn)(void*); void* data; long s, e, inc, ch; int kind; } c{fn, data, s, e, inc, ch, kind};
    parallel([](void* p) {
        Ctx* c = (Ctx*)p;
        WorkShare& w = ws_enter();
        init_ws(w, c->s, c->e, c->inc, c->ch, c->kind);
        c->fn(c->data);
    }, &c, nt);
}
} // namespace sim

using namespace sim;
typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt); return nt; }
void GOMP_barrier() { barrier(cur->team); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { barrier(cur->team); return false; }
bool GOMP_single_start() {
    Off off;
    WorkShare& w = ws_enter();
    bool won = !w.taken;
    w.taken = true;
    mix(won);
    Team* t = cur->team;
    if (++w.left == t->size) t->ws.erase(cur->curws);
    sync_point(0x42);
    return won;
}
void* GOMP_single_copy_start() {
    Off off;
    WorkShare& w = ws_enter();
    if (!w.taken) { w.taken = true; return nullptr; }
    Team* t = cur->team;
    uint64_t id = cur->curws;
    while (!t->ws[id].copy_ready) block_on(&t->ws[id]);
    acquire(&t->ws[id]);
    return t->ws[id].copy;
}
void GOMP_single_copy_end(void* p) {
    Off off;
    WorkShare& w = cur->team->ws[cur->curws];
    w.copy = p; w.copy_ready = true;
    release(&w);
    wake(&w);
}
#define LOOPS(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b, KIND); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start_u(up, s, e, i, c, a, b, KIND); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return loop_next_u(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parallel_loop(fn, d, nt, s, e, i, c, KIND); }
LOOPS(dynamic, 1) LOOPS(nonmonotonic_dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_guided, 2) LOOPS(static, 0)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b, 1); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return loop_start_u(up, s, e, i, 1, a, b, 1); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return loop_next_u(a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { parallel_loop(fn, d, nt, s, e, i, 1, 1); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPO(NAME, KIND) \
bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return ordered_start(s, e, i, c, a, b, KIND); } \
bool GOMP_loop_ordered_##NAME##_next(long* a, long* b) { return ordered_next(a, b); } \
bool GOMP_loop_ull_ordered_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ordered_start_u(up, s, e, i, c, a, b, KIND); } \
bool GOMP_loop_ull_ordered_##NAME##_next(ull* a, ull* b) { return ordered_next_u(a, b); }
LOOPO(static, 0) LOOPO(dynamic, 1) LOOPO(guided, 2)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a, long* b) { return ordered_start(s, e, i, 1, a, b, 1); }
bool GOMP_loop_ordered_runtime_next(long* a, long* b) { return ordered_next(a, b); }
bool GOMP_loop_ull_ordered_runtime_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ordered_start_u(up, s, e, i, 1, a, b, 1); }
bool GOMP_loop_ull_ordered_runtime_next(ull* a, ull* b) { return ordered_next_u(a, b); }
bool GOMP_loop_ordered_start(long s, long e, long i, long, long c, long* a, long* b, uintptr_t*, void** mem) {
    WorkShare& w = ordered_enter();
    init_ws(w, s, e, i, c, 1);
    if (mem) { if (!w.mem) w.mem = calloc(1, (size_t)(uintptr_t)*mem); *mem = w.mem; }
    return a ? ordered_got(w, next_chunk(w, a, b)) : true;
}
bool GOMP_loop_ull_start(bool up, ull s, ull e, ull i, long, ull c, ull* a, ull* b, uintptr_t*, void** mem) {
    WorkShare& w = ws_enter();
    init_ws_u(w, up, s, e, i, c, 1);
    if (mem) { if (!w.mem) w.mem = calloc(1, (size_t)(uintptr_t)*mem); *mem = w.mem; }
    return a ? next_chunk_u(w, a, b) : true;
}
void GOMP_taskloop(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, unsigned flags, unsigned long parts, int, long s, long e, long step) {
    long n = step > 0 ? (e > s ? (e - s + step - 1) / step : 0) : (s > e ? (s - e - step - 1) / -step : 0);
    if (flags & (1 << 9)) parts = parts ? (n + parts - 1) / parts : 0; // a grain size, not a number of parts
    if (!parts) parts = cur && cur->team ? cur->team->size : 1;
    taskloop<long>(fn, d, cp, size, align, (long)std::min<unsigned long>(parts, 1 << 16), s, n, step);
}
void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*cp)(void*, void*), long size, long align, unsigned flags, unsigned long parts, int, ull s, ull e, ull step) {
    ull n = flags & (1 << 8) ? (e > s ? (e - s + step - 1) / step : 0) : (s > e ? (s - e - step - 1) / -step : 0);
    if (flags & (1 << 9)) parts = parts ? (n + parts - 1) / parts : 0;
    if (!parts) parts = cur && cur->team ? cur->team->size : 1;
    taskloop<ull>(fn, d, cp, size, align, std::min<ull>(parts, 1 << 16), s, n, step);
}
void GOMP_taskwait_depend(void**) { sync_point(0x44); }
bool GOMP_loop_start(long s, long e, long i, long, long c, long* a, long* b, uintptr_t*, void** mem) {
    WorkShare& w = ws_enter();
    init_ws(w, s, e, i, c, 1);
    if (mem) { if (!w.mem) w.mem = calloc(1, (size_t)(uintptr_t)*mem); *mem = w.mem; }
    return a ? next_chunk(w, a, b) : true;
}
void GOMP_loop_end() { ws_leave(true); }
void GOMP_loop_end_nowait() { ws_leave(false); }
bool GOMP_loop_end_cancel() { ws_leave(true); return false; }
static unsigned sec_next(WorkShare& w) { return w.snext <= w.scount ? w.snext++ : 0; }
unsigned GOMP_sections_start(unsigned n) {
    WorkShare& w = ws_enter();
    if (!w.init) { w.init = true; w.scount = n; w.snext = 1; }
    return sec_next(w);
}
unsigned GOMP_sections_next() { sync_point(0x43); return sec_next(cur->team->ws[cur->curws]); }
void GOMP_sections_end() { ws_leave(true); }
void GOMP_sections_end_nowait() { ws_leave(false); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned cnt, unsigned) {
    struct Ctx { void (*fn)(void*); void* d; unsigned cnt; } c{fn, d, cnt};
    parallel([](void* p) {
        Ctx* c = (Ctx*)p;
        WorkShare& w = ws_enter();
        if (!w.init) { w.init = true; w.scount = c->cnt; w.snext = 1; }
        c->fn(c->d);
    }, &c, nt);
}
static char crit_default, crit_atomic;
void GOMP_critical_start() { lock(&crit_default); }
void GOMP_critical_end() { unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&crit_atomic); }
void GOMP_atomic_end() { unlock(&crit_atomic); }
void GOMP_ordered_start() {
    Off off;
    sync_point(0x4A);
    if (cur->team && cur->team->ws.count(cur->curws)) ordered_wait(cur->team->ws[cur->curws]);
}
void GOMP_ordered_end() {
    Off off;
    if (cur->team && cur->team->ws.count(cur->curws)) release(&cur->team->ws[cur->curws].line);
    sync_point(0x4B);
}
void GOMP_taskwait() { sync_point(0x44); }
void GOMP_taskyield() { sync_point(0x45); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { sync_point(0x46); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    sync_point(0x47); // tasks run undeferred, at the point where they are created
    char* p = (char*)alloca(size + align);
    if (align > 1) p = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
    bool on = g_on; g_on = 0;
    if (!cpyfn) memcpy(p, data, size);
    g_on = on;
    if (cpyfn) cpyfn(p, data);
    fn(p);
}
int omp_get_num_threads() { return cur && cur->team ? cur->team->size : 1; }
int omp_get_thread_num() { return cur && cur->team ? cur->tid : 0; }
int omp_get_max_threads() { return cur ? cur->icv.nthreads : 1; }
int omp_get_num_procs() { return cfg.team; }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_num_threads(int n) { if (cur && n > 0) cur->icv.nthreads = n; }
int omp_in_parallel() { return cur && cur->team && cur->team->active > 0; }
void omp_set_dynamic(int d) { if (cur) { sync_point(0x60); cur->icv.dyn = d != 0; } }
int omp_get_dynamic() { return cur ? cur->icv.dyn : 0; }
void omp_set_nested(int d) { if (cur) cur->icv.max_levels = d ? 8 : 1; }
int omp_get_nested() { return cur ? cur->icv.max_levels > 1 : 0; }
void omp_set_max_active_levels(int l) { if (cur) cur->icv.max_levels = l; }
int omp_get_max_active_levels() { return cur ? cur->icv.max_levels : 1; }
int omp_get_level() { return cur && cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return cur && cur->team ? cur->team->active : 0; }
int omp_get_team_size(int level) {
    if (!cur || level < 0) return -1;
    Team* t = cur->team;
    while (t && t->level > level) t = t->parent;
    return t && t->level == level ? t->size : (level == 0 ? 1 : -1);
}
int omp_get_ancestor_thread_num(int level) {
    if (!cur || level < 0) return -1;
    if (level == 0) return 0;
    Team* t = cur->team; int id = cur->tid;
    while (t && t->level > level) { id = t->parent_tid; t = t->parent; }
    return t && t->level == level ? id : -1;
}
void omp_set_schedule(int k, int c) { if (cur) { cur->icv.sched_kind = k; cur->icv.sched_chunk = c; } }
void omp_get_schedule(int* k, int* c) { *k = cur ? cur->icv.sched_kind : 1; *c = cur ? cur->icv.sched_chunk : 0; }
double omp_get_wtime() { return now_steps() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { memset(l, 0, 4); }
void omp_destroy_lock(void* l) { Off off; locks.erase(l); }
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) { return trylock(l); }
void omp_init_nest_lock(void* l) { (void)l; }
void omp_destroy_nest_lock(void* l) { Off off; locks.erase(l); }
void omp_set_nest_lock(void* l) { lock(l, true); }
void omp_unset_nest_lock(void* l) { unlock(l); }
int omp_get_cancellation() { return 0; }
int omp_get_proc_bind() { return 0; }

// pthread mutexes, once and function-local statics, cooperatively
// destructors of the library's statics would run after the simulation
int __wrap___cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __wrap___cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int __real_pthread_mutex_lock(void*);
int __wrap_pthread_mutex_lock(void* m) { if (!g_on) return 0; lock(m); return 0; }
int __wrap_pthread_mutex_trylock(void* m) { if (!g_on) return 0; return trylock(m) ? 0 : 16; }
int __wrap_pthread_mutex_unlock(void* m) { if (!g_on) return 0; unlock(m); return 0; }
int __wrap_pthread_once(int* o, void (*fn)()) {
    if (!cur) { if (!*o) { *o = 2; fn(); } return 0; }
    lock(o);
    if (*o != 2) { fn(); *o = 2; }
    unlock(o);
    return 0;
}
// guard objects of function-local statics (8 bytes: done, busy)
int __wrap___cxa_guard_acquire(char* g) {
    if (g[0]) { if (cur) acquire(g); return 0; }
    if (!cur) { g[1] = 1; return 1; }
    sync_point(0x13);
    for (;;) {
        if (g[0]) { acquire(g); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        block_on(g);
    }
}
void __wrap___cxa_guard_release(char* g) {
    g[0] = 1; g[1] = 0;
    if (cur) { Off off; release(g); wake(g); }
}
void __wrap___cxa_guard_abort(char* g) {
    g[1] = 0;
    if (cur) wake(g);
}
}
