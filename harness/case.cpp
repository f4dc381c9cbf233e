#include "case.hpp"
#include <sstream>
using std::string;
string Case::text() const {
    std::ostringstream o;
    o << "pigosim-case prop=" << prop << " seed=" << seed << "\n";
    for (auto& r : recs) {
        o << r.type;
        if (r.type == "l" || r.type == "h" || r.type == "e") o << " " << r.line;
        else for (auto& p : r.kv) o << " " << p.first << "=" << p.second;
        o << "\n";
    }
    return o.str();
}
bool Case::parse(const string& t, Case& out, string& err) {
    out = Case();
    std::istringstream is(t);
    string l; int no = 0;
    while (std::getline(is, l)) {
        ++no;
        if (no == 1 && l.compare(0, 12, "pigosim-case") != 0) { err = "not a case file"; return false; }
        if (l.empty() || l[0] == ';') continue;
        size_t sp = l.find(' ');
        string ty = l.substr(0, sp), rest = sp == string::npos ? "" : l.substr(sp + 1);
        Rec r(ty);
        if (ty == "l" || ty == "h" || ty == "e") r.line = rest;
        else {
            std::istringstream rs(rest); string tok;
            while (rs >> tok) { size_t e = tok.find('='); if (e == string::npos) { err = "line " + std::to_string(no); return false; } r.kv.push_back({tok.substr(0, e), tok.substr(e + 1)}); }
        }
        if (ty == "pigosim-case") { out.prop = r.str("prop"); out.seed = r.u("seed"); }
        else out.recs.push_back(r);
    }
    return true;
}
