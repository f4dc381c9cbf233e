// A case is the complete, textual description of one simulated execution
// (files, operations, simulator configuration, schedule, faults, crash). The
// same text is the replay file.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
#include "../sim/sim.hpp"

typedef std::vector<std::pair<std::string, std::string>> KV;

struct Rec {
    std::string type;  // phase cfg sched sw fault crash file l hs e op
    KV kv;
    std::string line;  // for 'l'/'h'/'e': raw text
    Rec() {}
    Rec(const std::string& t) : type(t) {}
    Rec& set(const std::string& k, const std::string& v) {
        for (auto& p : kv) if (p.first == k) { p.second = v; return *this; }
        kv.push_back({k, v});
        return *this;
    }
    Rec& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
    Rec& set(const std::string& k, uint64_t v) { return set(k, std::to_string(v)); }
    Rec& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
    bool has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
    std::string str(const std::string& k, const std::string& d = "") const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
    uint64_t u(const std::string& k, uint64_t d = 0) const { for (auto& p : kv) if (p.first == k) return strtoull(p.second.c_str(), 0, 10); return d; }
    int64_t i(const std::string& k, int64_t d = 0) const { for (auto& p : kv) if (p.first == k) return strtoll(p.second.c_str(), 0, 10); return d; }
};

struct Case {
    std::string prop;
    uint64_t seed = 0;
    std::vector<Rec> recs;
    std::string text() const;
    static bool parse(const std::string& t, Case& out, std::string& err);
    Rec& add(const std::string& type) { recs.push_back(Rec(type)); return recs.back(); }
    void line(const std::string& type, const std::string& l) { recs.push_back(Rec(type)); recs.back().line = l; }
};

struct RunStats {
    uint64_t phases = 0, steps = 0, switches = 0, preempts = 0, regions = 0, fibers = 0, crashes = 0, ops = 0, checks = 0, max_team = 0;
    std::map<std::string, uint64_t> fired;
    std::map<std::string, uint64_t> optypes;
    std::map<std::string, uint64_t> policies;
};
struct RunOut {
    bool violation = false;
    std::string cls, detail;
    uint64_t hash = 0;
    RunStats st;
    std::vector<std::map<std::string, uint64_t>> calls; // per phase
    std::vector<uint64_t> crash_points;
    std::vector<std::vector<sim::Switch>> traces;
    std::string gist; // one-line summary
};
// run a whole case; deterministic
RunOut run_case(const Case& c);

// generate the case of a property for a seed; `big` widens the bounds
bool gen_case(const std::string& prop, uint64_t seed, bool big, Case& out);
std::vector<std::string> all_props();
