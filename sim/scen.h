// Scenario: the complete, replayable description of one simulated run.
#pragma once
#include "rt.h"
#include <map>
#include <string>
#include <vector>
struct Op {
    std::string k; std::map<std::string, std::string> a;
    bool has(const char* n) const { return a.count(n); }
    long long num(const char* n, long long d = -1) const { auto i = a.find(n); return i == a.end() ? d : atoll(i->second.c_str()); }
    std::string str(const char* n, const std::string& d = "") const { auto i = a.find(n); return i == a.end() ? d : i->second; }
    template <class V> Op& set(const char* n, V v) { if constexpr (std::is_convertible<V, std::string>::value) a[n] = v; else a[n] = std::to_string(v); return *this; }
    Op() {} explicit Op(const std::string& kind) : k(kind) {}
    std::string text() const { std::string s = k; for (auto& p : a) s += " " + p.first + "=" + p.second; return s; }
};
struct Life { Op env{"life"}; std::vector<Op> pre; std::vector<std::vector<Op>> thr; std::vector<Op> post; };
struct Scen { std::string prop; uint64_t seed = 0; std::vector<Life> lives; };
std::string toText(const Scen&);
Scen fromText(const std::string&);
// ---- documents
std::string docBytes(const std::string& spec);             // c:<file> x:<seed>
bool isScoreDoc(const std::string& spec);                   // s:<seed>
extern std::vector<std::string> corpusNames;                // all corpus files
void loadCorpus(const std::string& dir);
struct OpProf { uint64_t allocs = 0, steps = 0; std::vector<uint32_t> sites; std::vector<uint64_t> hash; std::vector<std::vector<uint32_t>> stk; };   // the first allocation made from each distinct call stack
struct Gold;                                                // reference answers, see exec.cpp
const Gold* gold(const std::string& spec);
struct GoldInfo { bool ok; bool unsavable; bool getOk; size_t wBytes; size_t inBytes; size_t hBytes; const OpProf &create, &write, &get, &hw, &hx, &geth, &destroy, &createf; bool timewise; };
GoldInfo goldInfo(const std::string& spec);
// ---- running
struct Outcome { int kind = 0; std::string cat, msg; std::vector<uint32_t> pcs; uint32_t pc2 = 0; uint64_t hash = 0, steps = 0, switches = 0, allocs = 0, simNs = 0, ops = 0, conflicts = 0, clockReads = 0; uint64_t fired[sim::FK_N] = {0}; int life = -1; std::vector<std::vector<sim::Switch>> sw; std::vector<uint64_t> lifeHash; bool internal = false; };
Outcome runScen(const Scen& s, const std::string& scratch);
Scen genScen(const std::string& prop, uint64_t seed, bool thorough);

#include <memory>
namespace mx { namespace core { class Document; } } namespace ezxml { class XDoc; }
void shareTake(std::shared_ptr<mx::core::Document>& to, const std::shared_ptr<mx::core::Document>& from); void shareDrop(std::shared_ptr<mx::core::Document>& p); void shareDrop(std::shared_ptr<ezxml::XDoc>& p);
