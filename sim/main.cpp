// Command line of the simulator:  run FILE | explore | minimise FILE OUT | gold SPEC...
#include "scen.h"
#include <cstdio>
#include <cstring>
#include <ctime>
#include <chrono>
#include <fstream>
#include <sstream>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <unistd.h>
#include <sched.h>
#include <sys/stat.h>
using namespace sim; using std::string;
void printGold(const string& spec); void initPool(uint64_t seed, int n, const string& prop, uint64_t epoch); void forgetGolds(); void initWorker(uint64_t k, uint64_t n); size_t oomSitesFailed(); size_t oomCallsFailed(); size_t oomCallsKnown(); size_t oomSitesKnown(); extern double goldTime; extern std::vector<string> diedDocs;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string esc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static const char* kindName(int k) { static const char* n[] = {"none", "race", "memory", "crash", "deadlock", "hang", "oracle", "internal"}; return n[k]; }
static string category(const Outcome& o) { return o.kind == V_ORACLE || o.kind == V_INTERNAL || o.kind == V_MEM || o.kind == V_CRASH || o.kind == V_DEADLOCK || o.kind == V_HANG ? (o.cat.empty() ? kindName(o.kind) : o.cat) : kindName(o.kind); }
static string stackOf(const Outcome& o) { return stackText(o.pcs.data(), (int)o.pcs.size()); }
static string outcomeJson(const Outcome& o) {
    char b[512]; snprintf(b, sizeof b, "\"hash\":\"%016lx\",\"steps\":%lu,\"switches\":%lu,\"allocs\":%lu,\"simNs\":%lu,\"ops\":%lu,\"conflicts\":%lu,\"clockReads\":%lu,\"life\":%d", o.hash, o.steps, o.switches, o.allocs, o.simNs, o.ops, o.conflicts, o.clockReads, o.life);
    string f; for (int k = 0; k < FK_N; k++) if (o.fired[k]) { if (!f.empty()) f += ","; f += string("\"") + faultName[k] + "\":" + std::to_string(o.fired[k]); }
    string s = string("{\"kind\":\"") + kindName(o.kind) + "\",\"cat\":\"" + esc(o.kind ? category(o) : "") + "\",\"msg\":\"" + esc(o.msg) + "\",\"stack\":\"" + esc(o.kind ? stackOf(o) : "") + "\",\"other\":\"" + esc(o.pc2 ? funcName(o.pc2) : "") + "\"," + b + ",\"faults\":{" + f + "},\"lifeHash\":["; for (size_t i = 0; i < o.lifeHash.size(); i++) { char h[24]; snprintf(h, 24, "%s\"%016lx\"", i ? "," : "", o.lifeHash[i]); s += h; } return s + "]}";
}
static Scen withSwitches(const Scen& s, const Outcome& o) { Scen e = s; for (size_t i = 0; i < e.lives.size() && i < o.sw.size(); i++) { string l; for (auto& x : o.sw[i]) { if (!l.empty()) l += ","; l += std::to_string(x.tid) + ":" + std::to_string(x.local) + ":" + std::to_string(x.to); } auto& a = e.lives[i].env.a; for (const char* k : {"mode", "mean", "psync", "pshared", "pio", "pts", "span"}) a.erase(k); a["sw"] = l; } return e; }
static bool readFile(const string& p, string& out) { std::ifstream f(p, std::ios::binary); if (!f) return false; std::stringstream ss; ss << f.rdbuf(); out = ss.str(); return true; }

// ------------------------------------------------------------------ minimisation
struct Shrinker {
    string scratch, cat; double end; int tries = 0; Scen best; Outcome bo;
    bool test(const Scen& c) { if (now() > end) return false; tries++; Outcome o = runScen(c, scratch); if (o.kind && category(o) == cat) { best = c; bo = o; return true; } return false; }
    template <class F> bool each(F f) { bool any = false; (void)f; return any; }
    static std::vector<std::vector<Op>*> lists(Scen& s) { std::vector<std::vector<Op>*> v; for (auto& l : s.lives) { v.push_back(&l.pre); for (auto& t : l.thr) v.push_back(&t); v.push_back(&l.post); } return v; }
    void dropOps() { for (bool again = true; again && now() < end;) { again = false; Scen c0 = best; auto L0 = lists(c0); for (size_t i = 0; i < L0.size(); i++) { size_t n = lists(best)[i]->size(); for (size_t chunk = std::max<size_t>(1, n / 2); n > 0; chunk = chunk > 1 ? chunk / 2 : 0) { if (!chunk) break; for (size_t a = lists(best)[i]->size(); a > 0;) { size_t b = a > chunk ? a - chunk : 0; Scen c = best; auto& v = *lists(c)[i]; if (a > v.size()) { a = v.size(); continue; } v.erase(v.begin() + b, v.begin() + a); if (test(c)) again = true; a = b; if (now() > end) return; } } } } }
    void dropThreads() { for (size_t i = 0; i < best.lives.size(); i++) for (size_t t = best.lives[i].thr.size(); t-- > 0;) { if (t >= best.lives[i].thr.size()) continue; Scen c = best; c.lives[i].thr.erase(c.lives[i].thr.begin() + t); if (test(c)) continue; } }
    void dropLives() { for (size_t i = best.lives.size(); i-- > 0;) if (best.lives.size() > 1) { Scen c = best; c.lives.erase(c.lives.begin() + i); test(c); } }
    void sequentialise() { for (size_t i = 0; i < best.lives.size(); i++) if (!best.lives[i].thr.empty()) { Scen c = best; auto& l = c.lives[i]; for (auto& t : l.thr) l.pre.insert(l.pre.end(), t.begin(), t.end()); l.thr.clear(); test(c); } }
    void attrs() {
        static const char* drop[] = {"stall", "chunk", "seek", "exc", "rshort", "wshort", "eintr", "osfmt", "once", "sk", "off", "reent", "src", "path"};
        auto n = lists(best).size(); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < lists(best)[i]->size(); k++) {
            for (const char* a : drop) if ((*lists(best)[i])[k].has(a)) { Scen c = best; (*lists(c)[i])[k].a.erase(a); test(c); }
            if ((*lists(best)[i])[k].has("ooms")) { Scen c = best; auto& o = (*lists(c)[i])[k]; o.a["oom"] = o.a["ooms"]; o.a.erase("ooms"); test(c); }
            if ((*lists(best)[i])[k].has("dmg")) { string d = (*lists(best)[i])[k].str("dmg"); std::vector<string> p; std::istringstream is(d); string x; while (std::getline(is, x, ',')) p.push_back(x); for (size_t z = p.size(); z-- > 0 && p.size() > 1;) { auto q = p; q.erase(q.begin() + z); string j; for (auto& y : q) j += (j.empty() ? "" : ",") + y; Scen c = best; (*lists(c)[i])[k].a["dmg"] = j; if (test(c)) p = q; } }
        }
        for (auto i = 0u; i < best.lives.size(); i++) for (const char* a : {"tz", "clock", "jumps", "locale", "fill", "cstep", "quar"}) if (best.lives[i].env.has(a)) { Scen c = best; c.lives[i].env.a.erase(a); test(c); }
        // simpler documents
        std::set<string> docs; for (auto* v : lists(best)) for (auto& o : *v) if (o.has("doc")) docs.insert(o.str("doc"));
        for (auto& d : docs) for (const char* simple : {"x:1", "s:1"}) { if (d == simple || d[0] == 'v' || (isScoreDoc(d) != isScoreDoc(simple)) || !goldInfo(simple).ok) continue; Scen c = best; for (auto* v : lists(c)) for (auto& o : *v) for (const char* k : {"doc", "old"}) if (o.str(k) == d) o.a[k] = simple; test(c); }
    }
    void switches() {
        { Scen e = withSwitches(best, bo); if (!test(e)) return; }
        for (size_t i = 0; i < best.lives.size(); i++) {
            if (!best.lives[i].env.has("sw") || best.lives[i].thr.empty()) { Scen c = best; c.lives[i].env.a.erase("sw"); if (best.lives[i].env.has("sw")) test(c); continue; }
            auto parse = [&] { std::vector<string> p; std::istringstream is(best.lives[i].env.str("sw")); string x; while (std::getline(is, x, ',')) p.push_back(x); return p; };
            std::vector<string> p = parse(); auto put = [&](const std::vector<string>& q) { string j; for (auto& y : q) j += (j.empty() ? "" : ",") + y; Scen c = best; c.lives[i].env.a["sw"] = j; return test(c); };
            for (size_t chunk = std::max<size_t>(1, p.size() / 2); chunk; chunk /= 2) for (size_t a = p.size(); a > 0 && now() < end;) { size_t b = a > chunk ? a - chunk : 0; auto q = p; q.erase(q.begin() + b, q.begin() + a); if (put(q)) p = q; a = b; }
        }
    }
    void all() { dropLives(); sequentialise(); dropThreads(); dropOps(); attrs(); dropOps(); switches(); dropOps(); }
};
static const char* arg(int c, char** v, const char* n, const char* d) { for (int i = 2; i + 1 < c; i++) if (!strcmp(v[i], n)) return v[i + 1]; return d; }

int main(int argc, char** argv) {
    if (argc < 2) return 2; string cmd = argv[1]; string corpus = arg(argc, argv, "--corpus", "corpus"); string scratch = arg(argc, argv, "--scratch", "/tmp/mxsim-scratch"); mkdir(scratch.c_str(), 0777); scratch += "/mxsim." + std::to_string(getpid());
    initProcess(); loadCorpus(corpus); setvbuf(stdout, nullptr, _IOLBF, 1 << 16); struct Clean { string d; ~Clean() { string c = "rm -rf -- '" + d + "'"; if (d.find("/mxsim.") != string::npos && system(c.c_str())) {} } } clean{scratch};
    if (cmd == "bytes") { fwrite(docBytes(argv[2]).data(), 1, docBytes(argv[2]).size(), stdout); return 0; }
    if (cmd == "gold") { for (int i = 2; i < argc; i++) if (argv[i][0] != '-') printGold(argv[i]); else i++; if (argc < 3 || argv[2][0] == '-') for (auto& n : corpusNames) printGold("c:" + n); return 0; }
    auto pool = [&](uint64_t epoch) { initPool(strtoull(arg(argc, argv, "--base", "1"), 0, 10) * 64 + strtoull(arg(argc, argv, "--from", "0"), 0, 10), atoi(arg(argc, argv, "--pool", "40")), arg(argc, argv, "--prop", "C01"), epoch); };
    if (cmd == "show") { pool(0); Scen s = genScen(arg(argc, argv, "--prop", "C01"), strtoull(arg(argc, argv, "--seed", "1"), 0, 10), atoi(arg(argc, argv, "--deep", "0"))); fputs(toText(s).c_str(), stdout); return 0; }
    if (cmd == "run") { string t; if (!readFile(argv[2], t)) return 2; Scen s = fromText(t); int n = atoi(arg(argc, argv, "--times", "1")); for (int i = 0; i < n; i++) { Outcome o = runScen(s, scratch); printf("%s\n", outcomeJson(o).c_str()); } return 0; }
    if (cmd == "minimise") {
        string t; if (!readFile(argv[2], t)) return 2; Shrinker k; k.scratch = scratch; k.end = now() + atof(arg(argc, argv, "--time", "40")); k.best = fromText(t); k.bo = runScen(k.best, scratch); if (!k.bo.kind) { printf("{\"kind\":\"none\"}\n"); return 0; } k.cat = category(k.bo); k.all();
        std::ofstream(argv[3]) << toText(k.best); string js = outcomeJson(k.bo); js.pop_back(); printf("%s,\"tries\":%d}\n", js.c_str(), k.tries); return 0;
    }
    if (cmd == "explore") {
        pool(0); uint64_t epoch = strtoull(arg(argc, argv, "--epoch", "0"), 0, 10); int cpu = atoi(arg(argc, argv, "--cpu", "-1")); if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); if (!sched_getaffinity(0, sizeof cs, &cs)) { int n = CPU_COUNT(&cs), k = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &cs) && k++ == cpu % n) { CPU_ZERO(&cs); CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; } } }
        string prop = arg(argc, argv, "--prop", "C01"), cats = arg(argc, argv, "--cats", ""); uint64_t base = strtoull(arg(argc, argv, "--base", "1"), 0, 10), from = strtoull(arg(argc, argv, "--from", "0"), 0, 10), stride = strtoull(arg(argc, argv, "--stride", "1"), 0, 10), maxRuns = strtoull(arg(argc, argv, "--runs", "1000000000"), 0, 10); double T = atof(arg(argc, argv, "--time", "20")); bool deep = atoi(arg(argc, argv, "--deep", "0")); int maxBad = atoi(arg(argc, argv, "--maxbad", "1")); string hashFile = arg(argc, argv, "--hashes", ""); int recheck = atoi(arg(argc, argv, "--recheck", "25")); int verbose = atoi(arg(argc, argv, "--v", "0"));
        initWorker(from % stride, stride); size_t probed = 0; double t0 = now(); uint64_t runs = 0, lives = 0, steps = 0, sw = 0, allocs = 0, ns = 0, ops = 0, conf = 0, clk = 0, rechecked = 0, nondet = 0, fired_[FK_N] = {0}, faultRuns = 0, mt = 0, other = 0; std::unordered_set<uint64_t> hs, ss; int badN = 0; std::vector<uint64_t> hv; string sample; std::set<string> otherCats;
        for (uint64_t i = from; runs < maxRuns && now() - t0 < T; i += stride) {
            if (epoch && runs && runs % epoch == 0) { forgetGolds(); pool(runs / epoch); }
            Scen s = genScen(prop, base * 1000003ull + i, deep);
            if (probed < diedDocs.size() && probed < 3) { s = Scen(); s.prop = prop; s.seed = base * 1000003ull + i; s.lives.emplace_back(); auto& pr = s.lives[0].pre; auto add = [&](const char* t) { pr.push_back(fromText(string("life\npre\n") + t).lives[0].pre[0]); }; Op c("create"); c.set("v", 0).set("doc", diedDocs[probed++]).set("dmg", ""); pr.push_back(c); add("write v=0"); add("get v=0"); add("geth v=0 h=0"); add("hw h=0"); add("hx h=0"); add("hwalk h=0 sel=1"); add("destroy v=0"); }
            if (verbose) fprintf(stderr, "%lu %.3f\n%s", i, now() - t0, verbose > 1 ? toText(s).c_str() : ""); Outcome o = runScen(s, scratch); runs++; lives += o.lifeHash.size(); steps += o.steps; sw += o.switches; allocs += o.allocs; ns += o.simNs; ops += o.ops; conf += o.conflicts; clk += o.clockReads; bool anyF = false; for (int k = 0; k < FK_N; k++) { fired_[k] += o.fired[k]; anyF |= o.fired[k] > 0; } faultRuns += anyF; for (auto& l : s.lives) if (l.thr.size() > 1) { mt++; break; }
            if (hs.insert(o.hash).second) hv.push_back(o.hash);
            uint64_t swh = 1469598103934665603ull; for (auto& v : o.sw) for (auto& x : v) { swh = (swh ^ (x.tid * 31 + x.to)) * 1099511628211ull; swh = (swh ^ x.local) * 1099511628211ull; } ss.insert(swh);
            if (runs == 3 || (sample.empty() && anyF)) sample = toText(s);
            if (recheck > 0 && runs % recheck == 1) { Outcome q = runScen(s, scratch); rechecked++; if (q.hash != o.hash || q.kind != o.kind) { nondet++; printf("{\"ev\":\"nondet\",\"i\":%lu,\"scen\":\"%s\",\"a\":%s,\"b\":%s}\n", i, esc(toText(s)).c_str(), outcomeJson(o).c_str(), outcomeJson(q).c_str()); } }
            if (o.kind) {
                string c = category(o); bool rel = cats.empty() || ("," + cats + ",").find("," + c + ",") != string::npos; if (o.internal || o.kind == V_INTERNAL) rel = false;
                if (rel || (otherCats.insert(c).second)) printf("{\"ev\":\"%s\",\"i\":%lu,\"scen\":\"%s\",\"exact\":\"%s\",\"o\":%s}\n", rel ? "bad" : "other", i, esc(toText(s)).c_str(), esc(toText(withSwitches(s, o))).c_str(), outcomeJson(o).c_str()); if (!rel) other++; if (rel && ++badN >= maxBad) break;
            }
        }
        if (!hashFile.empty()) { std::ofstream f(hashFile, std::ios::binary); f.write((const char*)hv.data(), hv.size() * 8); }
        string f; for (int k = 0; k < FK_N; k++) { if (!f.empty()) f += ","; f += string("\"") + faultName[k] + "\":" + std::to_string(fired_[k]); }
        printf("{\"ev\":\"stats\",\"runs\":%lu,\"lives\":%lu,\"steps\":%lu,\"switches\":%lu,\"allocs\":%lu,\"simNs\":%lu,\"ops\":%lu,\"conflicts\":%lu,\"clockReads\":%lu,\"rechecked\":%lu,\"nondet\":%lu,\"distinct\":%zu,\"schedules\":%zu,\"faultRuns\":%lu,\"mtRuns\":%lu,\"otherViolations\":%lu,\"wall\":%.2f,\"goldWall\":%.2f,\"oomSites\":%zu,\"oomSitesKnown\":%zu,\"oomCalls\":%zu,\"oomCallsKnown\":%zu,\"faults\":{%s},\"sample\":\"%s\"}\n", runs, lives, steps, sw, allocs, ns, ops, conf, clk, rechecked, nondet, hs.size(), ss.size(), faultRuns, mt, other, now() - t0, goldTime, oomSitesFailed(), oomSitesKnown(), oomCallsFailed(), oomCallsKnown(), f.c_str(), esc(sample).c_str());
        return 0;
    }
    return 2;
}
