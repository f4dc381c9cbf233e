// pigosim: seeded search over simulated executions, replay and minimisation.
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include "case.hpp"
using std::string; using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const int WATCHDOG = 45; // CPU seconds for one execution
static void on_alarm(int) { _exit(97); }
static void watchdog(int secs) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static uint64_t case_seed(uint64_t s, uint64_t i) { sim::Rng r(s * 1000003ull + i); r.next(); return r.next() >> 16; }
static string js(const string& s) {
    string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; } else o += c; }
    return o + "\"";
}
static string read_all(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

// ---------------------------------------------------------------- isolated runs
struct Res { bool violation = false; string cls, detail; uint64_t hash = 0; vector<vector<sim::Switch>> traces; int death = 0; };
static void put(string& o, const void* p, size_t n) { o.append((const char*)p, n); }
static void puts_(string& o, const string& s) { uint64_t n = s.size(); put(o, &n, 8); o += s; }
static Res isolated(const Case& c, bool want_trace = false) {
    int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        watchdog(WATCHDOG);
        RunOut r = run_case(c);
        watchdog(0);
        string o; char v = r.violation; put(o, &v, 1); put(o, &r.hash, 8); puts_(o, r.cls); puts_(o, r.detail);
        if (want_trace) for (auto& t : r.traces) { string b; for (auto& s : t) { put(b, &s.fiber, 4); put(b, &s.step, 8); put(b, &s.to, 4); } puts_(o, b); }
        size_t off = 0;
        while (off < o.size()) { ssize_t k = write(fd[1], o.data() + off, o.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]);
    string o; char b[65536]; ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    Res r;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        r.violation = true; r.death = 1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { r.cls = "HANG"; r.detail = "no progress: the execution used " + std::to_string(WATCHDOG) + " s of CPU without finishing"; }
        else { r.cls = "DIED"; r.detail = WIFSIGNALED(st) ? string("the simulated process died with signal ") + strsignal(WTERMSIG(st)) : "the simulated process exited with status " + std::to_string(WEXITSTATUS(st)); }
        r.hash = sim::fnvs(r.cls + r.detail);
        return r;
    }
    size_t p = 0;
    auto gets = [&]() { uint64_t n; memcpy(&n, &o[p], 8); p += 8; string s = o.substr(p, n); p += n; return s; };
    r.violation = o[p++]; memcpy(&r.hash, &o[p], 8); p += 8; r.cls = gets(); r.detail = gets();
    while (p < o.size()) {
        string t = gets(); vector<sim::Switch> v;
        for (size_t i = 0; i + 16 <= t.size(); i += 16) { sim::Switch s; memcpy(&s.fiber, &t[i], 4); memcpy(&s.step, &t[i + 4], 8); memcpy(&s.to, &t[i + 12], 4); v.push_back(s); }
        r.traces.push_back(v);
    }
    return r;
}

// ---------------------------------------------------------------- minimisation
struct Shrinker {
    Case best; string cls; double deadline; int tries = 0, max_tries = 1500;
    bool over() { return now() > deadline || tries >= max_tries; }
    bool test(const Case& c) { ++tries; Res r = isolated(c); return r.violation && r.cls == cls; }
    bool accept(const Case& c) { if (over()) return false; if (test(c)) { best = c; return true; } return false; }
    // remove units; unit = list of record indices
    bool ddmin(std::function<vector<vector<size_t>>(const Case&)> units) {
        bool any = false;
        size_t n = units(best).size();
        size_t chunk = std::max<size_t>(1, n / 2);
        while (n && !over()) {
            bool removed = false;
            for (size_t a = 0; !over();) {
                auto u = units(best); n = u.size();
                if (a >= n) break;
                size_t b = std::min(n, a + chunk);
                std::set<size_t> drop;
                for (size_t k = a; k < b; ++k) drop.insert(u[k].begin(), u[k].end());
                Case c = best; c.recs.clear();
                for (size_t k = 0; k < best.recs.size(); ++k) if (!drop.count(k)) c.recs.push_back(best.recs[k]);
                if (accept(c)) { removed = any = true; }
                else a = b;
            }
            if (chunk == 1) { if (!removed) break; }
            chunk = std::max<size_t>(1, chunk / 2);
            n = units(best).size();
        }
        return any;
    }
    static vector<vector<size_t>> of_type(const Case& c, const std::set<string>& heads, const std::set<string>& tails) {
        vector<vector<size_t>> u;
        for (size_t i = 0; i < c.recs.size(); ++i) {
            if (!heads.count(c.recs[i].type)) continue;
            u.push_back({i});
            size_t j = i + 1;
            while (j < c.recs.size() && tails.count(c.recs[j].type)) u.back().push_back(j++);
        }
        return u;
    }
    void params() {
        for (size_t i = 0; i < best.recs.size() && !over(); ++i) {
            const string t = best.recs[i].type;
            if (t == "cfg") {
                for (uint64_t k : {1, 2, 3, 4, 5, 6, 8, 12}) { if (k >= best.recs[i].u("team", 4)) break; Case c = best; c.recs[i].set("team", k); if (accept(c)) break; }
            }
            if (t == "sched" && best.recs[i].str("policy") != "run-to-block") { Case c = best; c.recs[i].kv.clear(); c.recs[i].set("policy", "run-to-block").set("seed", 1); accept(c); }
            if (t == "cfg" || t == "file") {
                static const std::set<string> opt = {"dyn", "lev", "chunk", "reuse", "disk", "crlf", "nl", "page", "xr", "xc", "xn", "xm", "half", "htail", "square", "cut", "grow", "growc", "fill"};
                for (size_t k = 0; k < best.recs[i].kv.size() && !over();) {
                    if (!opt.count(best.recs[i].kv[k].first)) { ++k; continue; }
                    Case c = best; c.recs[i].kv.erase(c.recs[i].kv.begin() + k);
                    if (!accept(c)) ++k;
                }
            }
            if (t == "op" && best.recs[i].str("k") == "threads") for (uint64_t k : {1, 2, 3, 4}) { if (k >= best.recs[i].u("n")) break; Case c = best; c.recs[i].set("n", k); if (accept(c)) break; }
            if (t == "file") {
                if (best.recs[i].str("fmt") == "bytes") for (uint64_t n = best.recs[i].u("n") / 2; n; n /= 2) { Case c = best; c.recs[i].set("n", n); if (!accept(c)) break; }
            }
        }
        // whitespace and digits of the lines
        for (size_t i = 0; i < best.recs.size() && !over(); ++i) {
            if (best.recs[i].type != "l" && best.recs[i].type != "h") continue;
            string l = best.recs[i].line;
            for (int pass = 0; pass < 2; ++pass) {
                string n;
                if (pass == 0) for (size_t k = 0; k < l.size(); ++k) { char ch = l[k] == '\t' ? ' ' : l[k]; if (ch == ' ' && (n.empty() || n.back() == ' ')) continue; n += ch; }
                else { std::istringstream is(l); string tok; while (is >> tok) { if (tok.size() > 2 && tok.find_first_not_of("0123456789") == string::npos) tok = tok.substr(tok.size() - 1); n += (n.empty() ? "" : " ") + tok; } }
                if (n == best.recs[i].line) continue;
                Case c = best; c.recs[i].line = n;
                accept(c);
            }
        }
    }
    void explicit_sched() {
        Res r = isolated(best, true);
        size_t total = 0; for (auto& t : r.traces) total += t.size();
        if (r.death || total > 200000) return;
        Case c = best; c.recs.clear();
        size_t ph = 0; bool seen = false, put_in = false;
        auto emit = [&]() { if (ph < r.traces.size()) { for (auto& s : r.traces[ph]) { Rec x("sw"); x.set("f", (uint64_t)s.fiber).set("s", s.step).set("t", (uint64_t)s.to); c.recs.push_back(x); } } };
        for (auto& rec : best.recs) {
            if (rec.type == "sw") return; // already explicit
            if (rec.type == "phase") { if (seen) { if (!put_in) return; ++ph; put_in = false; } seen = true; c.recs.push_back(rec); continue; }
            seen = true;
            if (rec.type == "sched") { Rec x("sched"); x.set("policy", "explicit"); c.recs.push_back(x); emit(); put_in = true; continue; }
            c.recs.push_back(rec);
        }
        if (!accept(c)) return;
        ddmin([](const Case& c) { return of_type(c, {"sw"}, {}); });
    }
    void run() {
        ddmin([](const Case& c) { return of_type(c, {"file"}, {"l", "h", "e"}); });
        ddmin([](const Case& c) { return of_type(c, {"op", "fault"}, {"e"}); });
        for (int k = 0; k < 2 && !over(); ++k) {
            ddmin([](const Case& c) { return of_type(c, {"l", "h", "e"}, {}); });
            params();
            if (!ddmin([](const Case& c) { return of_type(c, {"op", "fault", "crash"}, {"e"}); })) break;
        }
        explicit_sched();
    }
};

static string one_line(string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; if (s.size() > 700) s = s.substr(0, 700) + "..."; return s; }

static bool minimise(const Case& c0, const string& out, double secs, string& info) {
    Res a = isolated(c0);
    if (!a.violation) { info = "the violation did not occur again in a fresh process"; return false; }
    Shrinker s; s.best = c0; s.cls = a.cls; s.deadline = now() + secs;
    if (a.death && a.cls == "HANG") s.max_tries = 3;
    s.run();
    Res r1 = isolated(s.best), r2 = isolated(s.best);
    if (!r1.violation || r1.hash != r2.hash || r1.cls != r2.cls || r1.detail != r2.detail) { s.best = c0; r1 = isolated(c0); r2 = isolated(c0); }
    if (!r1.violation || r1.hash != r2.hash) { info = "replay is not deterministic"; return false; }
    std::ofstream f(out);
    f << s.best.text();
    f << "; " << r1.cls << ": " << one_line(r1.detail) << "\n";
    f << "; hash " << r1.hash << " shrink-runs " << s.tries << "\n";
    f.close();
    info = r1.cls + ": " + one_line(r1.detail);
    return true;
}

static int real_main(int argc, char** argv) {
    std::map<string, string> a;
    if (argc < 2) return 2;
    string mode = argv[1];
    vector<string> pos;
    for (int i = 2; i < argc; ++i) {
        string s = argv[i];
        if (s.compare(0, 2, "--") == 0) { s = s.substr(2); if (s == "big" || s == "keep-going") a[s] = "1"; else if (i + 1 < argc) a[s] = argv[++i]; }
        else pos.push_back(s);
    }
    signal(SIGVTALRM, on_alarm);
    sim::init();
    if (mode == "props") { for (auto& p : all_props()) puts(p.c_str()); return 0; }
    uint64_t S = strtoull(a.count("seed") ? a["seed"].c_str() : "1", 0, 10);
    bool big = a.count("big");
    if (mode == "gen" || mode == "one") {
        uint64_t i = strtoull(a["index"].c_str(), 0, 10);
        Case c;
        if (!gen_case(a["prop"], case_seed(S, i), big, c)) { fprintf(stderr, "unknown property\n"); return 2; }
        if (mode == "gen") { fputs(c.text().c_str(), stdout); return 0; }
        Res r = isolated(c);
        if (!r.violation) { printf("OK hash %llu\n", (unsigned long long)r.hash); return 0; }
        printf("FOUND %s: %s\n", r.cls.c_str(), r.detail.c_str());
        if (a.count("out")) { string info; if (!minimise(c, a["out"], a.count("shrink") ? atof(a["shrink"].c_str()) : 20, info)) { printf("UNSTABLE %s\n", info.c_str()); return 2; } printf("MINIMISED %s\n", info.c_str()); }
        return 1;
    }
    if (mode == "replay") {
        Case c; string err;
        if (pos.empty() || !Case::parse(read_all(pos[0]), c, err)) { fprintf(stderr, "cannot parse replay file: %s\n", err.c_str()); return 2; }
        Res r = isolated(c);
        if (r.violation) { printf("REPRODUCED property=%s %s: %s\nhash %llu\n", c.prop.c_str(), r.cls.c_str(), r.detail.c_str(), (unsigned long long)r.hash); return 1; }
        printf("NOT-REPRODUCED hash %llu\n", (unsigned long long)r.hash);
        return 0;
    }
    if (mode == "shrink") {
        Case c; string err, info;
        if (pos.size() < 2 || !Case::parse(read_all(pos[0]), c, err)) { fprintf(stderr, "cannot parse: %s\n", err.c_str()); return 2; }
        bool ok = minimise(c, pos[1], a.count("shrink") ? atof(a["shrink"].c_str()) : 20, info);
        printf("%s\n", info.c_str());
        return ok ? 1 : 2;
    }
    if (mode != "run") return 2;
    uint64_t start = strtoull(a["start"].c_str(), 0, 10), stride = a.count("stride") ? strtoull(a["stride"].c_str(), 0, 10) : 1;
    double secs = a.count("secs") ? atof(a["secs"].c_str()) : 10;
    uint64_t maxruns = a.count("runs") ? strtoull(a["runs"].c_str(), 0, 10) : ~0ull;
    string outp = a["out"], prop = a["prop"];
    volatile uint64_t* beat = nullptr;
    if (!outp.empty()) {
        int fd = open((outp + ".beat").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) { perror("beat"); return 2; }
        beat = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    RunStats tot; uint64_t runs = 0, nontrivial = 0, det_checked = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<string, uint64_t> callsum, outcomes;
    double t0 = now();
    int rc = 0; string vinfo, vcls; uint64_t vindex = 0;
    for (uint64_t i = start; runs < maxruns && now() - t0 < secs; i += stride) {
        if (beat) beat[0] = i + 1;
        Case c;
        if (!gen_case(prop, case_seed(S, i), big, c)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
        watchdog(WATCHDOG);
        RunOut r = run_case(c);
        watchdog(0);
        ++runs;
        // non-trivial: at least one thread switch, injected fault or crash
        if (r.st.switches > 0 || !r.st.fired.empty() || r.st.crashes) { ++nontrivial; hashes.insert(r.hash); }
        tot.phases += r.st.phases; tot.steps += r.st.steps; tot.switches += r.st.switches; tot.preempts += r.st.preempts; tot.regions += r.st.regions; tot.fibers += r.st.fibers; tot.crashes += r.st.crashes; tot.ops += r.st.ops; tot.checks += r.st.checks;
        tot.max_team = std::max(tot.max_team, r.st.max_team);
        for (auto& x : r.st.fired) tot.fired[x.first] += x.second;
        for (auto& x : r.st.optypes) tot.optypes[x.first] += x.second;
        for (auto& x : r.st.policies) tot.policies[x.first] += x.second;
        for (auto& m : r.calls) for (auto& x : m) callsum[x.first] += x.second;
        if (r.violation) {
            if (a.count("keep-going")) { printf("%llu %s: %s\n", (unsigned long long)i, r.cls.c_str(), one_line(r.detail).c_str()); rc = 1; continue; }
            vindex = i; vcls = r.cls; rc = 1; vinfo = one_line(r.detail);
            break;
        }
        if (runs % 40 == 7) {
            ++det_checked;
            Case c2; string err;
            if (!Case::parse(c.text(), c2, err)) { fprintf(stderr, "case text does not parse: %s\n", err.c_str()); return 2; }
            watchdog(WATCHDOG);
            RunOut r2 = run_case(c2);
            watchdog(0);
            if (r2.hash != r.hash || r2.violation != r.violation) { fprintf(stderr, "NONDETERMINISM index %llu: %llx %llx %s %s\n", (unsigned long long)i, (unsigned long long)r.hash, (unsigned long long)r2.hash, r2.cls.c_str(), r2.detail.c_str()); rc = 2; break; }
        }
    }
    double dt = now() - t0;
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    std::stringstream o;
    auto map_js = [&](const std::map<string, uint64_t>& m) { string s = "{"; bool f = true; for (auto& x : m) { s += (f ? "" : ",") + js(x.first) + ":" + std::to_string(x.second); f = false; } return s + "}"; };
    o << "{\"rc\":" << rc << ",\"prop\":" << js(prop) << ",\"seed\":" << S << ",\"start\":" << start << ",\"stride\":" << stride << ",\"runs\":" << runs << ",\"secs\":" << dt
      << ",\"phases\":" << tot.phases << ",\"steps\":" << tot.steps << ",\"switches\":" << tot.switches << ",\"preempts\":" << tot.preempts << ",\"regions\":" << tot.regions << ",\"fibers\":" << tot.fibers
      << ",\"crashes\":" << tot.crashes << ",\"ops\":" << tot.ops << ",\"checks\":" << tot.checks << ",\"max_team\":" << tot.max_team << ",\"nontrivial\":" << nontrivial << ",\"distinct\":" << hashes.size() << ",\"determinism_checked\":" << det_checked << ",\"maxrss_kb\":" << ru.ru_maxrss
      << ",\"fired\":" << map_js(tot.fired) << ",\"optypes\":" << map_js(tot.optypes) << ",\"policies\":" << map_js(tot.policies) << ",\"calls\":" << map_js(callsum);
    if (rc == 1 && !a.count("keep-going")) o << ",\"violation\":{\"index\":" << vindex << ",\"cls\":" << js(vcls) << ",\"detail\":" << js(vinfo) << "}";
    o << "}\n";
    if (outp.empty()) fputs(o.str().c_str(), stdout);
    else {
        std::ofstream f(outp); f << o.str();
        std::ofstream h(outp + ".hashes", std::ios::binary);
        for (auto x : hashes) h.write((const char*)&x, 8);
    }
    return rc;
}

int main(int argc, char** argv) {
    int rc = real_main(argc, argv);
    fflush(stdout); fflush(stderr);
    _exit(rc); // no destructor of the target or the simulator runs
}
