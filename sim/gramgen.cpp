// Grows MusicXML documents from the schema table: every element and attribute of the format can occur.
#include "scen.h"
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
using sim::Rng; using std::string; using std::vector;
namespace {
struct Ex { char k; string name; int type = -1, lo = 1, hi = 1; vector<Ex> ch; };
struct At { string name; int st; bool req; };
struct Ty { string name; int text = -1; vector<At> at; bool model = false; Ex ex; };
struct Edge { int parent; string name; int type; };
vector<vector<string>> S; std::map<string, int> sIdx; vector<Ty> T; std::map<string, int> tIdx; vector<Edge> E; vector<vector<int>> D;   // D[target type][type]: steps to reach
string unq(const string& s) { string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 1 < s.size()) { char c = s[++i]; if (c == 's') o += ' '; else if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'e') {} else o += c; } else o += s[i]; return o; }
int ty(const string& n) { auto r = tIdx.insert({n, (int)T.size()}); if (r.second) { T.emplace_back(); T.back().name = n; } return r.first->second; }
Ex parse(std::istringstream& is) { Ex e; string k; is >> k; e.k = k[0]; if (e.k == 'e') { string t; is >> e.name >> t >> e.lo >> e.hi; e.type = ty(t); } else { int n; is >> e.lo >> e.hi >> n; for (int i = 0; i < n; i++) e.ch.push_back(parse(is)); } return e; }
void edges(int p, const Ex& e) { if (e.k == 'e') { for (auto& x : E) if (x.parent == p && x.name == e.name) return; E.push_back({p, e.name, e.type}); } for (auto& c : e.ch) edges(p, c); }
void init() {
    if (!T.empty()) return; static const char* text =
#include "grammar.inc"
        ; std::istringstream in(text); string l;
    while (std::getline(in, l)) { std::istringstream is(l); string k; is >> k; if (k == "S") { string n, v; int c; is >> n >> c; sIdx[unq(n)] = (int)S.size(); S.emplace_back(); while (is >> v) S.back().push_back(unq(v)); } }
    std::istringstream in2(text);
    while (std::getline(in2, l)) { std::istringstream is(l); string k; is >> k; if (k != "T") continue; string n, x; int na; is >> n >> x >> na; int t = ty(n); T[t].text = x == "-" ? -1 : sIdx.at(unq(x)); for (int i = 0; i < na; i++) { string a, st; int rq; is >> a >> st >> rq; T[t].at.push_back({a, sIdx.at(unq(st)), rq != 0}); } is >> x; if (x == "M") { Ex e = parse(is); T[t].ex = e; T[t].model = true; } }
    for (size_t t = 0; t < T.size(); t++) if (T[t].model) edges((int)t, T[t].ex);
    D.assign(T.size(), vector<int>(T.size(), 9999)); for (size_t g = 0; g < T.size(); g++) { D[g][g] = 0; for (bool again = true; again;) { again = false; for (auto& e : E) if (D[g][e.type] + 1 < D[g][e.parent]) { D[g][e.parent] = D[g][e.type] + 1; again = true; } } }
}
const std::set<string> shy = {"percussion", "play", "elision", "link", "opus", "bookmark", "circular-arrow", "other-notation"};   // forms that this library refuses
struct Grow {
    Rng r; string o; int budget; int score = 0; bool rich; bool picky = false; Grow(uint64_t s) : r(s), budget(0), rich(false) {}
    typedef vector<int> Tg;                            // edges still to be reached
    int cost(const Ex& e, int owner, int tg) { const Edge& g = E[tg]; if (e.k == 'e') { int b = owner == g.parent && e.name == g.name ? 0 : 9999; return std::min(b, D[g.parent][e.type] + 1); } int m = 9999; for (auto& c : e.ch) m = std::min(m, cost(c, owner, tg)); return m; }
    string quote(const string& v, bool attr) { string q; bool cd = !attr && v.find("]]>") == string::npos && v.find('\r') == string::npos && r.chance(3) && !v.empty(); if (cd) return "<![CDATA[" + v + "]]>"; for (char c : v) { if (c == '&') q += "&amp;"; else if (c == '<') q += "&lt;"; else if (c == '>' ) q += r.chance(50) || !attr ? "&gt;" : ">"; else if (c == '"') q += "&quot;"; else if (c == '\n' || c == '\t') q += attr || r.chance(30) ? c == '\n' ? "&#10;" : "&#9;" : string(1, c); else if (c == '\'' && r.chance(50)) q += "&apos;"; else q += c; } return q; }
    void expr(const Ex& e, int owner, Tg tg) {
        if (e.k == 'e') {
            if (picky && e.lo == 0 && (shy.count(e.name) || owner == ty("lyric") && (e.name == "footnote" || e.name == "level"))) return;
            int n = e.lo; if (e.hi > 1 && tg.size() > 1) n = std::max(n, (int)std::min<size_t>(tg.size(), e.hi)); else if (!tg.empty()) n = std::max(n, 1); else if (n < e.hi && budget > 0 && r.chance(rich ? 22 : 7)) n++;
            if (e.name == "part") n = 1; if (e.name == "score-part" && owner != ty("part-list")) n = 1;
            for (int i = 0; i < n; i++) { Tg mine; for (size_t j = 0; j < tg.size(); j++) if ((int)(j % n) == i) mine.push_back(tg[j]); element(e.name, e.type, owner, mine); } return;
        }
        int n = e.lo; if (e.hi > 1 && tg.size() > 1) n = std::max(n, (int)std::min<size_t>(tg.size(), e.hi)); else if (!tg.empty()) n = std::max(n, 1); else if (n < e.hi && budget > 0 && r.chance(rich ? 22 : 7)) n += e.hi > 1 && r.chance(30) ? 2 : 1;
        for (int i = 0; i < n; i++) {
            Tg mine; for (size_t j = 0; j < tg.size(); j++) if ((int)(j % n) == i) mine.push_back(tg[j]);
            if (e.k == 's') { vector<Tg> part(e.ch.size()); for (int t : mine) { int b = 0, bc = 99999; vector<int> eq; for (size_t c = 0; c < e.ch.size(); c++) { int k = cost(e.ch[c], owner, t); if (k < bc) { bc = k; eq.clear(); } if (k == bc) eq.push_back((int)c); } if (bc < 9999) { b = eq[r.below(eq.size())]; part[b].push_back(t); } } for (size_t c = 0; c < e.ch.size(); c++) expr(e.ch[c], owner, part[c]); }
            else { vector<int> eq; int bc = 99999; if (!mine.empty()) { for (size_t c = 0; c < e.ch.size(); c++) { int k = cost(e.ch[c], owner, mine[0]); if (k < bc) { bc = k; eq.clear(); } if (k == bc) eq.push_back((int)c); } } else for (size_t c = 0; c < e.ch.size(); c++) eq.push_back((int)c);
                int c = eq[r.below(eq.size())]; if (e.ch[c].k == 'e' && e.ch[c].name == "score-part" && score > 0) { for (size_t k = 0; k < e.ch.size(); k++) if ((int)k != c) { c = (int)k; break; } } for (int tries = 0; picky && tries < 20 && e.ch[c].k == 'e' && shy.count(e.ch[c].name); tries++) c = (int)r.below(e.ch.size()); Tg keep; for (int t : mine) if (cost(e.ch[c], owner, t) < 9999) keep.push_back(t); Ex x = e.ch[c]; if (x.lo == 0 && !keep.empty()) x.lo = 1; expr(x, owner, keep); }
        }
    }
    string value(const string& el, int st, const string& at) { if (S[st].size() == 1 && S[st][0] == "P1") { if (el == "midi-instrument" || el == "midi-device" || el == "score-instrument" || el == "instrument") return "P1-I1"; return el == "score-part" ? "P" + std::to_string(std::max(1, score)) : "P1"; } (void)at; const string* v = &S[st][r.below(S[st].size())]; while (picky && v->size() > 9 && v->compare(0, 9, "33.333333") == 0) v = &S[st][r.below(S[st].size())]; return *v; }
    void element(const string& name, int t, int owner, Tg tg) {
        bool hit = false; Tg rest; for (int x : tg) if (E[x].parent == owner && E[x].name == name) hit = true; else rest.push_back(x); const Ty& y = T[t]; bool was = rich; if (hit) rich = r.chance(60);
        if (name == "score-part") score++;
        budget--; o += "<" + name; for (auto& a : y.at) if (a.req || r.chance(hit ? 45 : 5)) { string v = value(name, a.st, a.name); o += " " + a.name + "=\"" + quote(v, true) + "\""; }
        size_t at = o.size(); o += ">"; size_t body = o.size(); if (y.text >= 0) o += quote(value(name, y.text, ""), false); if (y.model) { if (picky && !y.ex.ch.empty() && (name == "page-layout" || name == "slash" || name == "dynamics")) { Ex x = y.ex; (name == "dynamics" ? x : x.ch[0]).lo = 1; expr(x, t, rest); } else expr(y.ex, t, rest); }
        if (o.size() == body && r.chance(70)) { o.insert(at, "/"); } else o += "</" + name + ">"; rich = was;
    }
};
}
int grammarEdges() { init(); return (int)E.size(); }
string edgeName(int i) { init(); return T[E[i].parent].name + "/" + E[i].name; }
// g:<seed>, and h:<seed> for a document without the forms that the library is known to refuse
string growXml(uint64_t seed, bool picky) {
    init(); Grow g(seed * 6364136223846793005ull + 99); g.picky = picky; bool tw = g.r.chance(25); int root = ty(tw ? "score-timewise" : "score-partwise"); int n = 1 + g.r.below(8); Grow::Tg tg; vector<int> usable; for (size_t i = 0; i < E.size(); i++) if (D[E[i].parent][root] < 9999 && !(picky && (shy.count(E[i].name) || shy.count(T[E[i].parent].name)))) usable.push_back((int)i);
    tg.push_back(usable[seed % usable.size()]); for (int i = 1; i < n; i++) tg.push_back(usable[g.r.below(usable.size())]); g.budget = 30 + g.r.below(60);
    g.o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; g.element(T[root].name, root, -1, tg); return g.o + "\n";
}
