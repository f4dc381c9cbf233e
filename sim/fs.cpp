// File system, file descriptors, stdio streams and file mappings of the
// simulated process. Path and descriptor calls made by the code under test
// (and by libstdc++ on its behalf) land here; calls made by the harness go to
// the real system.
#include "internal.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

struct Inode {
    bool used = false, linked = false;
    size_t size = 0;
    size_t hiwater = 0;
    size_t hole = 0; // leading bytes that are not stored: a sparse file (only read)
    int refs = 0; // fds + maps
    std::vector<bool> alloc; // pages with storage
    std::set<size_t> dirty;  // pages modified since last durable
    std::string durable; bool durable_exists = false;
};
struct OpenFd { int ino; size_t pos; int flags; bool stream; };
struct SFile {
    int fd;
    bool rd, wr, append;
    std::string wbuf; size_t wpos; // pending write at wpos
    size_t pos;
    bool eof, err;
    int unget;
};
struct Map { bool used; int ino; uintptr_t base; size_t len; size_t off; bool r, w; bool shared; };

static Inode inodes[NINODES];
static std::map<std::string, int> names;
static std::map<std::string, int> denied;
static std::map<int, OpenFd> fds;
static std::set<SFile*> streams;
static std::vector<Map> maps;
static uint16_t* mappage; // page -> map index + 1
static const size_t MPAGES = MAPS_SIZE / PAGE;
static uintptr_t map_next; // for the no-reuse mode
static uint64_t n_bad_unmap;
static int diskfd = -1;
static char* disk() { return (char*)DISK_BASE; }
static char* idata(int i) { return disk() + (size_t)i * EXTENT; }
static size_t stored(int i) { return inodes[i].size - inodes[i].hole; }
static void iread(int i, size_t pos, char* out, size_t n) {
    size_t h = inodes[i].hole, z = pos < h ? std::min(n, h - pos) : 0;
    memset(out, 0, z);
    if (n > z) memcpy(out + z, idata(i) + (pos + z - h), n - z);
}
static uint64_t used_pages;
static size_t map_hi;

static size_t pgup(size_t n) { return (n + PAGE - 1) / PAGE * PAGE; }

void fs_init() {
    diskfd = (int)syscall(SYS_memfd_create, "simdisk", 0);
    if (diskfd < 0 || ftruncate(diskfd, (off_t)(EXTENT * NINODES)) != 0) { perror("simdisk"); exit(3); }
    void* p = (void*)syscall(SYS_mmap, DISK_BASE, EXTENT * NINODES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, diskfd, 0);
    if (p != (void*)DISK_BASE) { perror("disk map"); exit(3); }
    p = (void*)syscall(SYS_mmap, MAPS_BASE, MAPS_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)MAPS_BASE) { perror("maps"); exit(3); }
    mappage = (uint16_t*)calloc(MPAGES, sizeof(uint16_t));
}

static void zero_inode_storage(int i) {
    size_t h = inodes[i].hiwater;
    if (h > (1u << 20)) fallocate(diskfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, (off_t)((size_t)i * EXTENT), (off_t)pgup(h));
    else memset(idata(i), 0, h);
}

void fs_reset() {
    for (size_t i = 0; i < NINODES; ++i) if (inodes[i].used) { zero_inode_storage(i); inodes[i] = Inode(); }
    names.clear(); denied.clear();
    used_pages = 0;
}

static int new_inode() {
    for (size_t i = 0; i < NINODES; ++i) if (!inodes[i].used) {
        inodes[i] = Inode();
        inodes[i].used = true; inodes[i].linked = true;
        return (int)i;
    }
    return -1;
}
static void maybe_free(int i) {
    Inode& n = inodes[i];
    if (n.used && !n.linked && n.refs == 0) {
        for (bool b : n.alloc) if (b) --used_pages;
        zero_inode_storage(i);
        n = Inode();
    }
}
static bool page_alloc(Inode& n, size_t pg) { // false: no space left
    if (n.alloc.size() <= pg) n.alloc.resize(pg + 1, false);
    if (n.alloc[pg]) return true;
    if (cfg.disk_pages && used_pages >= cfg.disk_pages && g_active && g_armed) return false;
    n.alloc[pg] = true; ++used_pages;
    return true;
}
static void set_size(int i, size_t sz) {
    Inode& n = inodes[i];
    if (n.hole) { memset(idata(i), 0, n.hiwater); n.hole = n.size = 0; } // only replaced as a whole
    if (sz < n.size) {
        memset(idata(i) + sz, 0, n.hiwater > sz ? n.hiwater - sz : 0);
        size_t keep = (sz + PAGE - 1) / PAGE;
        for (size_t p = keep; p < n.alloc.size(); ++p) if (n.alloc[p]) { n.alloc[p] = false; --used_pages; }
        n.alloc.resize(std::min(keep, n.alloc.size()));
        while (!n.dirty.empty() && *n.dirty.rbegin() >= keep) n.dirty.erase(std::prev(n.dirty.end()));
    } else if (sz > n.size) {
        // bytes past the old end of the last page read as zeros after extension
        size_t tail = pgup(n.size);
        if (n.size < tail) memset(idata(i) + n.size, 0, std::min(tail, n.hiwater > n.size ? n.hiwater : n.size) - n.size);
    }
    n.size = sz;
    if (pgup(sz) > n.hiwater) n.hiwater = pgup(sz);
    if (n.hiwater > EXTENT) n.hiwater = EXTENT;
}
// returns bytes written; stops when the disk is full
static size_t iwrite(int i, size_t pos, const char* p, size_t len) {
    Inode& n = inodes[i];
    if (pos + len > EXTENT || pos + len < pos || n.hole) { errno = EFBIG; return 0; }
    size_t done = 0;
    while (done < len) {
        size_t pg = (pos + done) / PAGE;
        size_t c = std::min(len - done, (pg + 1) * PAGE - (pos + done));
        if (!page_alloc(n, pg)) {
            errno = ENOSPC;
            if (res) ++res->fired["disk-full"];
            break;
        }
        if (pos + done + c > n.size) set_size(i, pos + done + c);
        memcpy(idata(i) + pos + done, p + done, c);
        n.dirty.insert(pg);
        done += c;
    }
    return done;
}

void fs_put(const std::string& name, const std::string& content) {
    int i;
    auto it = names.find(name);
    if (it == names.end()) { i = new_inode(); names[name] = i; }
    else { i = it->second; set_size(i, 0); }
    iwrite(i, 0, content.data(), content.size());
    inodes[i].dirty.clear();
    inodes[i].durable = content;
    inodes[i].durable_exists = true;
}
// another program puts a new file of this name in the old one's place
void fs_renew(const std::string& name, const std::string& content) {
    auto it = names.find(name);
    if (it != names.end()) { int i = it->second; names.erase(it); inodes[i].linked = false; maybe_free(i); }
    fs_put(name, content);
    inodes[names[name]].durable = fs_get(name); // (the disk can be full)
}
bool fs_exists(const std::string& n) { return names.count(n) > 0; }
void fs_put_sparse(const std::string& name, uint64_t hole, const std::string& tail) {
    fs_put(name, tail);
    Inode& n = inodes[names[name]];
    n.hole = hole / PAGE * PAGE;
    n.size += n.hole;
}
size_t fs_capacity() { return EXTENT; }
std::string fs_get(const std::string& n) {
    auto it = names.find(n);
    if (it == names.end()) return "";
    return std::string(idata(it->second), stored(it->second));
}
std::vector<std::string> fs_list() {
    std::vector<std::string> v;
    for (auto& p : names) v.push_back(p.first);
    return v;
}
void fs_deny(const std::string& n, int err) { if (err) denied[n] = err; else denied.erase(n); }
void fs_mark_durable() {
    for (auto& p : names) {
        Inode& n = inodes[p.second];
        n.durable.assign(idata(p.second), stored(p.second));
        n.durable_exists = true;
        n.dirty.clear();
    }
}

void fs_phase_begin() {
    fds.clear();
    for (SFile* f : streams) delete f;
    streams.clear();
    maps.clear();
    map_next = MAPS_BASE;
    map_hi = 0;
    n_bad_unmap = 0;
    for (auto& n : inodes) n.refs = 0;
}

void fs_phase_end(Outcome o) {
    // the process ends: descriptors and mappings go away, the page cache stays
    if (map_hi) {
        syscall(SYS_mmap, MAPS_BASE, map_hi, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        memset(mappage, 0, map_hi / PAGE * sizeof(uint16_t));
    }
    maps.clear(); fds.clear();
    for (SFile* f : streams) delete f; // unflushed stdio data is lost
    streams.clear();
    map_hi = 0;
    for (auto& n : inodes) n.refs = 0;
    if (o == O_CRASHED && cfg.crash == CRASH_POWER) {
        // unsynced pages survive in an arbitrary subset; so may the file size
        Rng r(cfg.crash_at * 7919 + cfg.fill_seed);
        std::vector<std::string> gone;
        for (auto& p : names) {
            Inode& n = inodes[p.second];
            if (n.hole) continue;
            if (n.dirty.empty() && n.size == n.durable.size() && n.durable_exists) continue;
            int mode = (int)r.below(4); // 0: all lost, 1: all kept, 2,3: random pages
            if (mode == 0 && !n.durable_exists) { gone.push_back(p.first); continue; }
            bool keepsize = mode == 1 || (mode != 0 && r.chance(0.7));
            for (size_t pg : n.dirty) {
                bool keep = mode == 1 || (mode >= 2 && r.chance(0.5));
                if (keep) continue;
                char* d = idata(p.second) + pg * PAGE;
                memset(d, 0, PAGE);
                if (pg * PAGE < n.durable.size()) memcpy(d, n.durable.data() + pg * PAGE, std::min(PAGE, n.durable.size() - pg * PAGE));
            }
            if (!keepsize) {
                set_size(p.second, n.durable.size());
            } else if (n.size < n.durable.size()) {
                // truncation survived
            }
            memset(idata(p.second) + n.size, 0, pgup(n.size) - n.size);
            n.dirty.clear();
        }
        for (auto& g : gone) {
            int i = names[g];
            names.erase(g);
            inodes[i].linked = false;
            maybe_free(i);
        }
    }
    for (size_t i = 0; i < NINODES; ++i) if (inodes[i].used && !inodes[i].linked) maybe_free((int)i);
    for (auto& p : names) { // bytes past the end of file are not part of the file
        Inode& n = inodes[p.second];
        size_t z = stored(p.second), t = pgup(z);
        if (t > z) memset(idata(p.second) + z, 0, t - z);
    }
}

uint64_t fs_hash() {
    uint64_t h = 1469598103934665603ull;
    for (auto& p : names) {
        h = fnvs(p.first, h);
        h = fnv(idata(p.second), stored(p.second), h);
    }
    return h;
}

uint64_t count_open_fds() { return fds.size(); }
uint64_t count_live_maps() { uint64_t c = 0; for (auto& m : maps) if (m.used) ++c; return c; }
uint64_t bad_munmaps() { return n_bad_unmap; }

// ------------------------------------------------------------ mappings
bool maps_ok(uintptr_t a, size_t n) {
    for (uintptr_t p = a & ~(PAGE - 1); p < a + n; p += PAGE) {
        if (p - MAPS_BASE >= MAPS_SIZE) return false;
        uint16_t k = mappage[(p - MAPS_BASE) / PAGE];
        if (!k) return false;
        Map& m = maps[k - 1];
        size_t off = p - m.base + m.off;
        if (off >= pgup(inodes[m.ino].size)) return false;
    }
    return true;
}

void maps_check(uintptr_t a, size_t n, bool w, void* pc) {
    for (uintptr_t p = a & ~(PAGE - 1); p < a + n; p += PAGE) {
        uint16_t k = p - MAPS_BASE < MAPS_SIZE ? mappage[(p - MAPS_BASE) / PAGE] : 0;
        if (!k) {
            Off off;
            // next to a mapping?
            bool past = p > MAPS_BASE && mappage[(p - PAGE - MAPS_BASE) / PAGE];
            abort_run(O_VIOLATION, "MAP-OOB", std::string(w ? "write" : "read") + " of " + std::to_string(n) + " byte(s) " +
                (past ? "past the end of a file mapping" : "outside every file mapping") + " (SIGSEGV) in " + where(pc));
        }
        Map& m = maps[k - 1];
        Inode& in = inodes[m.ino];
        size_t off = p - m.base + m.off;
        if ((w && !m.w) || (!w && !m.r)) {
            Off o;
            abort_run(O_VIOLATION, "MAP-PROT", std::string(w ? "write to a read-only" : "read of an unreadable") + " file mapping (SIGSEGV) in " + where(pc));
        }
        if (off >= pgup(in.size)) {
            Off o;
            abort_run(O_VIOLATION, "MAP-EOF", std::string(w ? "write" : "read") + " beyond the end of the file (SIGBUS) in " + where(pc));
        }
        uintptr_t last = a + n - 1 < p + PAGE - 1 ? a + n - 1 : p + PAGE - 1; // last byte touched in this page
        if (cfg.exact_tail && last - m.base + m.off >= in.size) {
            Off o;
            abort_run(O_VIOLATION, "MAP-TAIL", std::string(w ? "write" : "read") + " behind the last byte of a mapped file in " + where(pc));
        }
        if (w && m.shared && in.hole) { Off o; abort_run(O_VIOLATION, "SIMLIMIT", "a store to a mapped sparse file"); }
        if (w && m.shared) {
            size_t pg = off / PAGE;
            if (in.alloc.size() <= pg || !in.alloc[pg]) {
                Off o;
                if (!page_alloc(in, pg)) {
                    ++res->fired["disk-full"];
                    abort_run(O_VIOLATION, "DISKFULL", std::string("store to a hole of a mapped file on a full disk (SIGBUS) in ") + where(pc));
                }
            }
            if (in.dirty.empty() || *in.dirty.rbegin() != pg) { Off o; in.dirty.insert(pg); }
            crash_point();
        }
    }
}

static uintptr_t find_space(size_t len) {
    size_t np = pgup(len) / PAGE + 1; // one guard page after each mapping
    if (!cfg.reuse_maps) {
        uintptr_t a = map_next;
        if (a + np * PAGE <= MAPS_BASE + MAPS_SIZE) {
            map_next = a + np * PAGE;
            return a;
        }
    }
    size_t run = 0;
    for (size_t i = 0; i < MPAGES; ++i) {
        if (mappage[i]) run = 0;
        else if (++run == np + (i + 1 == np ? 0 : 1)) { // keep a guard page before as well
            return MAPS_BASE + (i + 1 - np) * PAGE;
        }
    }
    return 0;
}

static void split_unmap(uintptr_t lo, uintptr_t hi) {
    // remove pages [lo,hi) from whatever maps them
    std::set<int> touched;
    for (uintptr_t p = lo; p < hi; p += PAGE) {
        if (p - MAPS_BASE >= MAPS_SIZE) continue;
        uint16_t& k = mappage[(p - MAPS_BASE) / PAGE];
        if (k) { touched.insert(k - 1); k = 0; }
    }
    syscall(SYS_mmap, lo, hi - lo, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    for (int t : touched) {
        Map& m = maps[t];
        bool any = false;
        for (uintptr_t p = m.base; p < m.base + m.len; p += PAGE)
            if (mappage[(p - MAPS_BASE) / PAGE] == t + 1) { any = true; break; }
        if (!any) { m.used = false; --inodes[m.ino].refs; maybe_free(m.ino); }
    }
}

static void* sim_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    Off o;
    sync_point(0xF0);
    crash_point();
    int e;
    if (fault_hit("mmap", &e)) { errno = e; return MAP_FAILED; }
    if (len == 0 || off % PAGE) { errno = EINVAL; return MAP_FAILED; }
    if (flags & MAP_ANONYMOUS) { errno = ENOMEM; return MAP_FAILED; }
    (void)addr;
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return MAP_FAILED; }
    int acc = it->second.flags & O_ACCMODE;
    if (acc == O_WRONLY || ((prot & PROT_WRITE) && (flags & MAP_SHARED) && acc != O_RDWR)) { errno = EACCES; return MAP_FAILED; }
    int ino = it->second.ino;
    size_t hole = inodes[ino].hole;
    if ((size_t)off + len > EXTENT + hole || (size_t)off + len < len || (hole && off)) { errno = ENOMEM; return MAP_FAILED; }
    uintptr_t a = find_space(len);
    if (!a) { errno = ENOMEM; return MAP_FAILED; }
    int share = (flags & MAP_SHARED) ? MAP_SHARED : MAP_PRIVATE;
    size_t z = std::min(hole, pgup(len)); // pages of the hole
    if (z && (void*)syscall(SYS_mmap, a, z, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != (void*)a) { errno = ENOMEM; return MAP_FAILED; }
    if (pgup(len) > z) {
        void* q = (void*)syscall(SYS_mmap, a + z, pgup(len) - z, prot, share | MAP_FIXED | MAP_NORESERVE, diskfd, (off_t)((size_t)ino * EXTENT + off));
        if (q != (void*)(a + z)) { errno = ENOMEM; return MAP_FAILED; }
    }
    void* p = (void*)a;
    int mi = -1;
    maps.push_back(Map{true, ino, a, pgup(len), (size_t)off, (prot & PROT_READ) != 0, (prot & PROT_WRITE) != 0, share == MAP_SHARED});
    mi = (int)maps.size() - 1;
    for (uintptr_t q = a; q < a + pgup(len); q += PAGE) mappage[(q - MAPS_BASE) / PAGE] = (uint16_t)(mi + 1);
    if (a + pgup(len) - MAPS_BASE > map_hi) map_hi = a + pgup(len) - MAPS_BASE;
    ++inodes[ino].refs;
    if (pgup(len) > z) race_clear(a + z, pgup(len) - z);
    mix(0x3A9 ^ len ^ (a << 8));
    return p;
}

static int sim_munmap(void* addr, size_t len) {
    Off o;
    sync_point(0xF1);
    crash_point();
    int e;
    if (fault_hit("munmap", &e)) { errno = e; return -1; }
    uintptr_t a = (uintptr_t)addr;
    if (len == 0 || a % PAGE) { errno = EINVAL; ++n_bad_unmap; return -1; }
    if (a - MAPS_BASE >= MAPS_SIZE || a + len - MAPS_BASE > MAPS_SIZE) {
        abort_run(O_VIOLATION, "BADUNMAP", "munmap of memory that is not a file mapping");
    }
    bool whole = true;
    for (uintptr_t p = a; p < a + pgup(len); p += PAGE) if (!mappage[(p - MAPS_BASE) / PAGE]) whole = false;
    if (!whole) ++n_bad_unmap;
    split_unmap(a, a + pgup(len));
    mix(0x3AA ^ len);
    return 0;
}

// ------------------------------------------------------------ descriptors
static int lookup(const char* path) {
    auto it = names.find(path);
    return it == names.end() ? -1 : it->second;
}
static bool bad_dir(const std::string& p) { return p.find("nodir/") != std::string::npos || p.empty(); }

static int do_open(const char* path, int flags) {
    std::string p(path);
    auto d = denied.find(p);
    if (d != denied.end()) { errno = d->second; return -1; }
    if (bad_dir(p)) { errno = ENOENT; return -1; }
    int i = lookup(path);
    if (i < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        i = new_inode();
        if (i < 0) { errno = ENOSPC; return -1; }
        names[p] = i;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) set_size(i, 0);
    int fd = 1000;
    while (fds.count(fd)) ++fd;
    fds[fd] = OpenFd{i, 0, flags, false};
    ++inodes[i].refs;
    return fd;
}
static int do_close(int fd) {
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; ++n_bad_unmap; return -1; }
    int i = it->second.ino;
    fds.erase(it);
    --inodes[i].refs;
    maybe_free(i);
    return 0;
}
static bool stdio_flush(SFile* f) {
    if (f->wbuf.empty()) return true;
    auto it = fds.find(f->fd);
    if (it == fds.end()) { errno = EBADF; f->wbuf.clear(); return false; }
    size_t n = iwrite(it->second.ino, f->wpos, f->wbuf.data(), f->wbuf.size());
    bool ok = n == f->wbuf.size();
    f->wbuf.clear();
    return ok;
}
static bool is_stream(FILE* f) { return streams.count((SFile*)f) > 0; }
static SFile* mk_stream(int fd, const char* mode) {
    SFile* s = new SFile();
    s->fd = fd; s->wpos = 0; s->pos = 0; s->eof = s->err = false; s->unget = -1;
    s->rd = mode[0] == 'r' || strchr(mode, '+'); s->wr = mode[0] != 'r' || strchr(mode, '+');
    s->append = mode[0] == 'a';
    streams.insert(s);
    fds[fd].stream = true;
    return s;
}
static SFile* need(FILE* f) {
    if (!is_stream(f)) abort_run(O_VIOLATION, "BADFILE", "use of a closed or invalid FILE");
    return (SFile*)f;
}
static size_t sread(SFile* f, char* out, size_t n) {
    stdio_flush(f);
    auto it = fds.find(f->fd);
    if (it == fds.end()) { errno = EBADF; f->err = true; return 0; }
    Inode& in = inodes[it->second.ino];
    size_t got = 0;
    if (f->unget >= 0 && n) { out[got++] = (char)f->unget; f->unget = -1; }
    size_t av = f->pos < in.size ? in.size - f->pos : 0;
    size_t c = std::min(n - got, av);
    iread(it->second.ino, f->pos, out + got, c);
    f->pos += c; got += c;
    if (got < n) f->eof = true;
    return got;
}
static size_t swrite(SFile* f, const char* p, size_t n) {
    if (!f->wr) { errno = EBADF; f->err = true; return 0; }
    auto it = fds.find(f->fd);
    if (f->append && it != fds.end() && f->wbuf.empty()) f->pos = inodes[it->second.ino].size;
    if (!f->wbuf.empty() && f->wpos + f->wbuf.size() != f->pos) if (!stdio_flush(f)) { f->err = true; return 0; }
    if (f->wbuf.empty()) f->wpos = f->pos;
    f->wbuf.append(p, n);
    f->pos += n;
    if (f->wbuf.size() > 4096) if (!stdio_flush(f)) { f->err = true; return 0; }
    return n;
}
static size_t fsize(int fd) { auto it = fds.find(fd); return it == fds.end() ? 0 : inodes[it->second.ino].size; }

#define ENTER(name, failval) \
    Off off_; sync_point(0xF2); crash_point(); \
    { int e_; if (fault_hit(name, &e_)) { errno = e_; return failval; } }

static FILE* sim_fopen(const char* path, const char* mode) {
    ENTER("fopen", nullptr)
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else { errno = EINVAL; return nullptr; }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = do_open(path, fl);
    if (fd < 0) return nullptr;
    return (FILE*)mk_stream(fd, mode);
}
static int sim_fseek(FILE* fp, off_t o, int wh) {
    ENTER("fseeko", -1)
    SFile* f = need(fp);
    stdio_flush(f);
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->pos : (off_t)fsize(f->fd);
    if (base + o < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)(base + o);
    f->eof = false; f->unget = -1;
    return 0;
}
static off_t sim_ftell(FILE* fp) {
    ENTER("ftello", -1)
    return (off_t)need(fp)->pos;
}
static int sim_fstat_ino(int i, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)inodes[i].size;
    st->st_mode = S_IFREG | 0644;
    st->st_blksize = 4096;
    st->st_nlink = 1;
    st->st_ino = (ino_t)i + 1;
    size_t b = 0;
    for (bool x : inodes[i].alloc) if (x) ++b;
    st->st_blocks = (blkcnt_t)(b * 8);
    return 0;
}

template <class F> static F realfn(const char* n) {
    static auto& cache = *new std::map<std::string, void*>; // used until the very end of the process
    void*& p = cache[n];
    if (!p) p = dlsym(RTLD_NEXT, n);
    return (F)p;
}
static bool simfd(int fd) { return fd >= 1000; }
} // namespace sim

using namespace sim;
#define REAL(name, type) (realfn<type>(#name))

extern "C" {
void* mmap(void* a, size_t l, int p, int f, int fd, off_t o) {
    if (!g_on) return (void*)syscall(SYS_mmap, a, l, p, f, fd, o);
    return sim_mmap(a, l, p, f, fd, o);
}
void* mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }
int munmap(void* a, size_t l) {
    if (!g_on) return (int)syscall(SYS_munmap, a, l);
    return sim_munmap(a, l);
}
int madvise(void* a, size_t l, int adv) {
    if (!g_on) return (int)syscall(SYS_madvise, a, l, adv);
    ENTER("madvise", -1)
    uintptr_t x = (uintptr_t)a;
    if (x % PAGE) { errno = EINVAL; return -1; }
    if (x - MAPS_BASE >= MAPS_SIZE || (l && !mappage[(x - MAPS_BASE) / PAGE])) { errno = ENOMEM; return -1; }
    return 0;
}
int posix_madvise(void* a, size_t l, int adv) {
    if (!g_on) return 0;
    int e = errno;
    int r = madvise(a, l, adv) == 0 ? 0 : errno;
    errno = e;
    return r;
}
int msync(void* a, size_t l, int fl) {
    if (!g_on) return (int)syscall(SYS_msync, a, l, fl);
    ENTER("msync", -1)
    for (uintptr_t p = (uintptr_t)a; p < (uintptr_t)a + pgup(l); p += PAGE) {
        if (p - MAPS_BASE >= MAPS_SIZE || !mappage[(p - MAPS_BASE) / PAGE]) { errno = ENOMEM; return -1; }
        Map& m = maps[mappage[(p - MAPS_BASE) / PAGE] - 1];
        if (fl & MS_SYNC) {
            Inode& n = inodes[m.ino];
            size_t pg = (p - m.base + m.off) / PAGE;
            if (n.dirty.erase(pg)) {
                size_t end = std::min(n.size, (pg + 1) * PAGE);
                if (n.durable.size() < end) n.durable.resize(end, 0);
                if (end > pg * PAGE) memcpy(&n.durable[pg * PAGE], idata(m.ino) + pg * PAGE, end - pg * PAGE);
            }
        }
    }
    return 0;
}
static int fsync_impl(int fd) {
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    Inode& n = inodes[it->second.ino];
    n.durable.assign(idata(it->second.ino), stored(it->second.ino));
    n.durable_exists = true;
    n.dirty.clear();
    return 0;
}
int fsync(int fd) { if (!simfd(fd)) return (int)syscall(SYS_fsync, fd); ENTER("fsync", -1) return fsync_impl(fd); }
int fdatasync(int fd) { if (!simfd(fd)) return (int)syscall(SYS_fdatasync, fd); ENTER("fsync", -1) return fsync_impl(fd); }

static int open_impl(const char* p, int fl) { ENTER("open", -1) return do_open(p, fl); }
int open(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!g_on) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    return open_impl(p, fl);
}
int open64(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!g_on) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
    return open_impl(p, fl);
}
int __open_2(const char* p, int fl) { return open(p, fl); }
int __open64_2(const char* p, int fl) { return open(p, fl); }
int openat(int d, const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (!g_on) return (int)syscall(SYS_openat, d, p, fl, m);
    return open_impl(p, fl);
}
int creat(const char* p, mode_t m) {
    if (!g_on) return (int)syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m);
    return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC);
}
int close(int fd) {
    if (!g_on && !simfd(fd)) return (int)syscall(SYS_close, fd);
    if (!g_on) { return do_close(fd); }
    Off off_; sync_point(0xF3); crash_point();
    int e; bool f = fault_hit("close", &e);
    int r = do_close(fd); // the descriptor is released even when close reports an error
    if (f) { errno = e; return -1; }
    return r;
}
ssize_t read(int fd, void* b, size_t n) {
    if (!simfd(fd)) return syscall(SYS_read, fd, b, n);
    if (g_on && n) check_access((uintptr_t)b, n, true, __builtin_return_address(0));
    ENTER("read", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    Inode& in = inodes[it->second.ino];
    size_t av = it->second.pos < in.size ? in.size - it->second.pos : 0;
    size_t c = std::min(n, av);
    iread(it->second.ino, it->second.pos, (char*)b, c);
    it->second.pos += c;
    return (ssize_t)c;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pread64, fd, b, n, o);
    if (g_on && n) check_access((uintptr_t)b, n, true, __builtin_return_address(0));
    ENTER("pread", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    Inode& in = inodes[it->second.ino];
    size_t av = (size_t)o < in.size ? in.size - (size_t)o : 0;
    size_t c = std::min(n, av);
    iread(it->second.ino, (size_t)o, (char*)b, c);
    return (ssize_t)c;
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n) {
    if (!simfd(fd)) return syscall(SYS_write, fd, b, n);
    if (g_on && n) check_access((uintptr_t)b, n, false, __builtin_return_address(0));
    ENTER("write", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    if ((it->second.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (it->second.flags & O_APPEND) it->second.pos = inodes[it->second.ino].size;
    size_t c = iwrite(it->second.ino, it->second.pos, (const char*)b, n);
    it->second.pos += c;
    return c || !n ? (ssize_t)c : -1;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    if (!simfd(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    if (g_on && n) check_access((uintptr_t)b, n, false, __builtin_return_address(0));
    ENTER("pwrite", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    if ((it->second.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    size_t c = iwrite(it->second.ino, (size_t)o, (const char*)b, n);
    return c || !n ? (ssize_t)c : -1;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!simfd(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; }
    return t;
}
off_t lseek(int fd, off_t o, int wh) {
    if (!simfd(fd)) return syscall(SYS_lseek, fd, o, wh);
    ENTER("lseek", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)it->second.pos : (off_t)inodes[it->second.ino].size;
    if (base + o < 0) { errno = EINVAL; return -1; }
    it->second.pos = (size_t)(base + o);
    return base + o;
}
off_t lseek64(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t n) {
    if (!simfd(fd)) return (int)syscall(SYS_ftruncate, fd, n);
    ENTER("ftruncate", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    if ((it->second.flags & O_ACCMODE) == O_RDONLY || n < 0) { errno = EINVAL; return -1; }
    if ((size_t)n > EXTENT) { errno = EFBIG; return -1; }
    set_size(it->second.ino, (size_t)n);
    return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
    if (!g_on) return (int)syscall(SYS_truncate, p, n);
    ENTER("ftruncate", -1)
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    if (n < 0 || (size_t)n > EXTENT) { errno = EFBIG; return -1; }
    set_size(i, (size_t)n);
    return 0;
}
static int falloc_impl(int fd, off_t o, off_t l, bool keep) { // 0 or an errno
    auto it = fds.find(fd);
    if (it == fds.end()) return EBADF;
    if (l <= 0 || o < 0) return EINVAL;
    if ((size_t)(o + l) > EXTENT) return EFBIG;
    Inode& n = inodes[it->second.ino];
    for (size_t pg = (size_t)o / PAGE; pg * PAGE < (size_t)(o + l); ++pg)
        if (!page_alloc(n, pg)) { if (res) ++res->fired["disk-full"]; return ENOSPC; }
    if (!keep && (size_t)(o + l) > n.size) { set_size(it->second.ino, (size_t)(o + l)); }
    return 0;
}
int posix_fallocate(int fd, off_t o, off_t l) {
    if (!simfd(fd)) { errno = EOPNOTSUPP; return EOPNOTSUPP; }
    Off off_; sync_point(0xF4); crash_point();
    int e;
    if (fault_hit("fallocate", &e)) return e;
    return falloc_impl(fd, o, l, false);
}
int posix_fallocate64(int fd, off_t o, off_t l) { return posix_fallocate(fd, o, l); }
int fallocate(int fd, int mode, off_t o, off_t l) {
    if (!simfd(fd)) return (int)syscall(SYS_fallocate, fd, mode, o, l);
    ENTER("fallocate", -1)
    int e = falloc_impl(fd, o, l, mode & FALLOC_FL_KEEP_SIZE);
    if (e) { errno = e; return -1; }
    return 0;
}
int fallocate64(int fd, int mode, off_t o, off_t l) { return fallocate(fd, mode, o, l); }
int fstat(int fd, struct stat* st) {
    if (!simfd(fd)) return (int)syscall(SYS_fstat, fd, st);
    ENTER("fstat", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    return sim_fstat_ino(it->second.ino, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
static int stat_impl(const char* p, struct stat* st) {
    ENTER("stat", -1)
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    return sim_fstat_ino(i, st);
}
int stat(const char* p, struct stat* st) { if (!g_on) return (int)syscall(SYS_stat, p, st); return stat_impl(p, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (!g_on) return (int)syscall(SYS_lstat, p, st); return stat_impl(p, st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) {
    if (!g_on) return (int)syscall(SYS_access, p, m);
    Off o; sync_point(0xF5);
    if (lookup(p) < 0) { errno = ENOENT; return -1; }
    return 0;
}
int unlink(const char* p) {
    if (!g_on) return (int)syscall(SYS_unlink, p);
    ENTER("unlink", -1)
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    names.erase(p);
    inodes[i].linked = false;
    maybe_free(i);
    return 0;
}
int remove(const char* p) { if (!g_on) return (int)syscall(SYS_unlink, p); return unlink(p); }
int rename(const char* a, const char* b) {
    if (!g_on) return (int)syscall(SYS_rename, a, b);
    ENTER("rename", -1)
    int i = lookup(a);
    if (i < 0) { errno = ENOENT; return -1; }
    int j = lookup(b);
    if (i == j) return 0;
    names.erase(a);
    names[b] = i;
    if (j >= 0) { inodes[j].linked = false; maybe_free(j); }
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
    if (!simfd(fd)) return (int)syscall(SYS_fcntl, fd, cmd, a);
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return it->second.flags;
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return fcntl(fd, cmd, a); }
int dup(int fd) {
    if (!simfd(fd)) return (int)syscall(SYS_dup, fd);
    ENTER("dup", -1)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return -1; }
    int n = 1000;
    while (fds.count(n)) ++n;
    fds[n] = it->second; fds[n].stream = false;
    ++inodes[it->second.ino].refs;
    return n;
}
int posix_fadvise(int fd, off_t, off_t, int) { (void)fd; return 0; }
int posix_fadvise64(int fd, off_t, off_t, int) { (void)fd; return 0; }

// ---- stdio
FILE* fopen(const char* p, const char* m) {
    if (!g_on) return REAL(fopen, FILE* (*)(const char*, const char*))(p, m);
    return sim_fopen(p, m);
}
FILE* fopen64(const char* p, const char* m) {
    if (!g_on) return REAL(fopen64, FILE* (*)(const char*, const char*))(p, m);
    return sim_fopen(p, m);
}
FILE* fdopen(int fd, const char* m) {
    if (!simfd(fd)) return REAL(fdopen, FILE* (*)(int, const char*))(fd, m);
    ENTER("fdopen", nullptr)
    auto it = fds.find(fd);
    if (it == fds.end()) { errno = EBADF; return nullptr; }
    int acc = it->second.flags & O_ACCMODE;
    bool wantw = m[0] != 'r' || strchr(m, '+');
    bool wantr = m[0] == 'r' || strchr(m, '+');
    if ((wantw && acc == O_RDONLY) || (wantr && acc == O_WRONLY)) { errno = EINVAL; return nullptr; }
    SFile* s = mk_stream(fd, m);
    s->pos = it->second.pos;
    return (FILE*)s;
}
int fclose(FILE* fp) {
    if (!g_on && !is_stream(fp)) return REAL(fclose, int (*)(FILE*))(fp);
    Off off_; sync_point(0xF6); crash_point();
    SFile* f = need(fp);
    int e;
    bool flt = fault_hit("fclose", &e);
    if (flt) f->wbuf.clear();     // the pending data never reaches the file
    bool ok = stdio_flush(f);
    int se = errno;
    do_close(f->fd);
    streams.erase(f);
    delete f;
    if (flt) { errno = e; return EOF; }
    if (!ok) { errno = se; return EOF; }
    return 0;
}
int fflush(FILE* fp) {
    if (!g_on || !fp || !is_stream(fp)) return REAL(fflush, int (*)(FILE*))(fp);
    ENTER("fflush", EOF)
    return stdio_flush((SFile*)fp) ? 0 : EOF;
}
int fseeko(FILE* f, off_t o, int w) { if (!g_on) return REAL(fseeko, int (*)(FILE*, off_t, int))(f, o, w); return sim_fseek(f, o, w); }
int fseeko64(FILE* f, off_t o, int w) { if (!g_on) return REAL(fseeko64, int (*)(FILE*, off_t, int))(f, o, w); return sim_fseek(f, o, w); }
int fseek(FILE* f, long o, int w) { if (!g_on) return REAL(fseek, int (*)(FILE*, long, int))(f, o, w); return sim_fseek(f, o, w); }
void rewind(FILE* f) { if (!g_on) { REAL(rewind, void (*)(FILE*))(f); return; } sim_fseek(f, 0, SEEK_SET); }
off_t ftello(FILE* f) { if (!g_on) return REAL(ftello, off_t (*)(FILE*))(f); return sim_ftell(f); }
off_t ftello64(FILE* f) { if (!g_on) return REAL(ftello64, off_t (*)(FILE*))(f); return sim_ftell(f); }
long ftell(FILE* f) { if (!g_on) return REAL(ftell, long (*)(FILE*))(f); return sim_ftell(f); }
int fputc(int c, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fputc, int (*)(int, FILE*))(c, f);
    ENTER("fputc", EOF)
    char b = (char)c;
    return swrite(need(f), &b, 1) == 1 ? (unsigned char)c : EOF;
}
int putc(int c, FILE* f) { return fputc(c, f); }
int fputs(const char* s, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fputs, int (*)(const char*, FILE*))(s, f);
    ENTER("fwrite", EOF)
    size_t n = strlen(s);
    return swrite(need(f), s, n) == n ? 1 : EOF;
}
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fwrite, size_t (*)(const void*, size_t, size_t, FILE*))(p, a, b, f);
    if (a * b) check_access((uintptr_t)p, a * b, false, __builtin_return_address(0));
    ENTER("fwrite", 0)
    size_t n = swrite(need(f), (const char*)p, a * b);
    return a ? n / a : 0;
}
size_t fread(void* p, size_t a, size_t b, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fread, size_t (*)(void*, size_t, size_t, FILE*))(p, a, b, f);
    if (a * b) check_access((uintptr_t)p, a * b, true, __builtin_return_address(0));
    ENTER("fread", 0)
    size_t n = sread(need(f), (char*)p, a * b);
    return a ? n / a : 0;
}
int fgetc(FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fgetc, int (*)(FILE*))(f);
    ENTER("fread", EOF)
    char c;
    return sread(need(f), &c, 1) == 1 ? (unsigned char)c : EOF;
}
int getc(FILE* f) { return fgetc(f); }
int ungetc(int c, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(ungetc, int (*)(int, FILE*))(c, f);
    Off o; need(f)->unget = c; return c;
}
char* fgets(char* s, int n, FILE* f) {
    if (!g_on || !is_stream(f)) return REAL(fgets, char* (*)(char*, int, FILE*))(s, n, f);
    ENTER("fread", nullptr)
    int i = 0;
    while (i < n - 1) { char c; if (sread(need(f), &c, 1) != 1) break; s[i++] = c; if (c == '\n') break; }
    if (!i) return nullptr;
    s[i] = 0;
    return s;
}
int fprintf(FILE* f, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    int r;
    if (!g_on || !is_stream(f)) r = vfprintf(f, fmt, ap);
    else {
        Off o; sync_point(0xF7);
        char b[4096];
        r = vsnprintf(b, sizeof b, fmt, ap);
        if (r > 0 && swrite(need(f), b, (size_t)std::min(r, 4095)) == 0) r = -1;
    }
    va_end(ap);
    return r;
}
int feof(FILE* f) { if (!g_on || !is_stream(f)) return REAL(feof, int (*)(FILE*))(f); return ((SFile*)f)->eof; }
int ferror(FILE* f) { if (!g_on || !is_stream(f)) return REAL(ferror, int (*)(FILE*))(f); return ((SFile*)f)->err; }
void clearerr(FILE* f) { if (!g_on || !is_stream(f)) { REAL(clearerr, void (*)(FILE*))(f); return; } ((SFile*)f)->eof = ((SFile*)f)->err = false; }
int fileno(FILE* f) { if (!g_on || !is_stream(f)) return REAL(fileno, int (*)(FILE*))(f); return ((SFile*)f)->fd; }
int setvbuf(FILE* f, char* b, int m, size_t n) { if (!g_on || !is_stream(f)) return REAL(setvbuf, int (*)(FILE*, char*, int, size_t))(f, b, m, n); return 0; }
long sysconf(int name) {
    return REAL(sysconf, long (*)(int))(name);
}
int getpagesize() { return 4096; }
}
