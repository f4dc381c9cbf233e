#include "api.hpp"
namespace ad {
std::vector<Variant*>& variants() { static std::vector<Variant*>* v = new std::vector<Variant*>; return *v; }
Variant* variant(const std::string& name) {
    for (Variant* v : variants()) if (v->vi.name == name) return v;
    return nullptr;
}
std::map<std::pair<std::string, std::string>, ConvFn>& converters() { static auto* m = new std::map<std::pair<std::string, std::string>, ConvFn>; return *m; }
std::map<std::pair<std::string, std::string>, ConvFn>& dedups() { static auto* m = new std::map<std::pair<std::string, std::string>, ConvFn>; return *m; }
}
