#include "scen.h"
#include <sstream>
#include <fstream>
#include <algorithm>
#include <dirent.h>
#include <cstring>
std::vector<std::string> corpusNames; static std::map<std::string, std::string> corpus;
std::string toText(const Scen& s) {
    std::string o = "scenario " + s.prop + " seed=" + std::to_string(s.seed) + "\n";
    for (auto& l : s.lives) { o += l.env.text() + "\n"; if (!l.pre.empty()) { o += "pre\n"; for (auto& p : l.pre) o += "  " + p.text() + "\n"; } for (auto& t : l.thr) { o += "thread\n"; for (auto& p : t) o += "  " + p.text() + "\n"; } if (!l.post.empty()) { o += "post\n"; for (auto& p : l.post) o += "  " + p.text() + "\n"; } }
    return o;
}
static Op parseOp(const std::string& line) { std::istringstream is(line); Op o; is >> o.k; std::string w; while (is >> w) { auto e = w.find('='); if (e == std::string::npos) o.a[w] = "1"; else o.a[w.substr(0, e)] = w.substr(e + 1); } return o; }
Scen fromText(const std::string& t) {
    Scen s; std::istringstream is(t); std::string line; std::vector<Op>* sec = nullptr;
    while (std::getline(is, line)) {
        size_t b = line.find_first_not_of(" \t"); if (b == std::string::npos || line[b] == '#') continue; Op o = parseOp(line.substr(b));
        if (o.k == "scenario") { std::istringstream ls(line); std::string x; ls >> x >> s.prop; s.seed = strtoull(o.str("seed", "0").c_str(), nullptr, 10); }
        else if (o.k == "life") { s.lives.emplace_back(); s.lives.back().env = o; sec = &s.lives.back().pre; }
        else if (s.lives.empty()) continue;
        else if (o.k == "pre") sec = &s.lives.back().pre; else if (o.k == "post") sec = &s.lives.back().post;
        else if (o.k == "thread") { s.lives.back().thr.emplace_back(); sec = &s.lives.back().thr.back(); }
        else sec->push_back(o);
    }
    return s;
}
void loadCorpus(const std::string& dir) {
    DIR* d = opendir(dir.c_str()); if (!d) return; while (auto* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".xml") corpusNames.push_back(n); } closedir(d);
    std::sort(corpusNames.begin(), corpusNames.end());
    for (auto& n : corpusNames) { std::ifstream f(dir + "/" + n, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); corpus[n] = ss.str(); }
}
std::string makeXml(uint64_t seed); std::string richXml(uint64_t seed);
std::string growXml(uint64_t seed, bool picky);
// "o:<n>:<doc>": the document with processing instructions, comments and perhaps a document type behind its XML declaration,
// and with some texts divided by comments or partly written as sections.
static std::string prolog(uint64_t n, const std::string& x) {
    sim::Rng r(n * 104729 + 11); size_t at = 0; if (!x.compare(0, 5, "<?xml")) { at = x.find("?>"); if (at == std::string::npos) return x; at += 2; } if (x.find('\0') != std::string::npos) return x;
    std::string p; int k = r.range(1, 3); while (k--) p += r.chance(75) ? "\n<?style" + std::to_string(r.below(3)) + " href=\"x\"?>" : "\n<!-- note -->"; if (x.find("<!DOCTYPE") == std::string::npos && r.chance(40)) p += "\n<!DOCTYPE root SYSTEM \"a.dtd\">"; std::string y = x.substr(0, at) + p;
    for (size_t i = at; i < x.size(); i++) {      // texts in several pieces: divided by comments, partly written as sections
        y += x[i]; if (!isalnum((unsigned char)x[i]) || i + 1 >= x.size() || !isalnum((unsigned char)x[i + 1]) || !r.chance(2)) continue; size_t b = x.find_last_of("<>", i), e = x.find_first_of("<>&", i); if (b == std::string::npos || x[b] != '>' || e == std::string::npos || x[e] != '<' || x.compare(e, 2, "</") || x.find_first_of("&", b) < e || (b > 1 && (x[b - 1] == '-' || x[b - 1] == ']' || x[b - 1] == '?'))) continue;
        if (r.chance(60)) y += "<!-- c -->"; else { y += "<![CDATA[" + x.substr(i + 1, e - i - 1) + "]]>"; i = e - 1; }
    }
    return y;
}
// "p:<n>:<doc>": the document with processing instructions and comments put behind some of its tags.
static std::string sprinkle(uint64_t n, const std::string& x) {
    std::vector<size_t> at; sim::Rng r(n * 7919 + 3); size_t i = 0, end = x.rfind("</");
    while ((i = x.find('<', i)) != std::string::npos) {
        auto skip = [&](const char* to) { size_t e = x.find(to, i); i = e == std::string::npos ? x.size() : e + strlen(to); };
        if (!x.compare(i, 4, "<!--")) skip("-->"); else if (!x.compare(i, 9, "<![CDATA[")) skip("]]>"); else if (!x.compare(i, 2, "<?")) skip("?>"); else if (!x.compare(i, 2, "<!")) skip(">"); else { bool quiet = x.compare(i, 2, "</") && r.chance(70); skip(">"); if (i <= end && !quiet) at.push_back(i); }
    }
    std::vector<size_t> pick; int k = at.empty() ? 0 : r.range(1, 12); for (int j = 0; j < k; j++) pick.push_back(at[r.chance(30) ? r.below(std::min<size_t>(at.size(), 12)) : r.below(at.size())]); std::sort(pick.begin(), pick.end());
    std::string o; size_t b = 0; for (size_t p : pick) { o.append(x, b, p - b); b = p; o += r.chance(80) ? "<?app" + std::to_string(r.below(3)) + (r.chance(70) ? " data=\"x\"" : "") + "?>" : "<!-- note & more -->"; } return o + x.substr(b);
}
// "b:<n>:<doc>": the document grown to a size at which buffers and chunks of the layers below end (or to some large size),
// by comments (which are not kept) or by a long name (which is).
static std::string grow(uint64_t n, const std::string& x) {
    sim::Rng r(n * 104729 + 11); static const size_t unit[] = {32768, 32768, 65536, 8191, 8192, 4096, 2048, 1024, 10240}; size_t u = unit[r.below(9)], S = r.chance(75) ? u * (1 + r.below(u >= 32768 ? 4 : 12)) + r.range(-2, 2) : 20000 + r.below(200000); if (S < x.size() + 40) S = ((x.size() + 40) / u + 1) * u + r.range(-2, 2);
    size_t room = S - x.size(); size_t pn = x.find("<part-name>"); if (pn != std::string::npos && r.chance(35)) { std::string w; while (w.size() < room) w += r.chance(10) ? "\xC3\xA9" : "name of a part "; w.resize(room); if ((w[room - 1] & 0xC0) == 0xC0) w[room - 1] = 'e'; else if ((w[room - 1] & 0x80) && room > 1 && !(w[room - 2] & 0x80)) w[room - 1] = 'e'; if (w[room - 1] == ' ') w[room - 1] = 'z'; return x.substr(0, pn + 11) + w + x.substr(pn + 11); }
    std::vector<size_t> at; size_t i = x.find("<score-"), end = x.rfind("</"); while (i != std::string::npos && i < end) { if (!x.compare(i, 9, "<![CDATA[") || !x.compare(i, 4, "<!--") || !x.compare(i, 2, "<?")) break; i = x.find('>', i); if (i == std::string::npos || i > end) break; if (x[i + 1] == '\n' || x[i + 1] == '<' || x[i + 1] == '\r') at.push_back(i + 1); i = x.find('<', i); } if (at.empty()) at.push_back(x.size());
    std::string o; size_t b = 0; int k = room > 400 ? r.range(1, 3) : 1; std::vector<size_t> pick; for (int j = 0; j < k; j++) pick.push_back(r.chance(30) ? x.size() : at[r.below(at.size())]); std::sort(pick.begin(), pick.end()); for (int j = 0; j < k; j++) { size_t len = j + 1 == k ? room : room / (k - j); if (len < 8) len = 8; room -= std::min(room, len); o.append(x, b, pick[j] - b); b = pick[j]; std::string c = "<!--"; while (c.size() < len - 3) c += c.size() % 79 == 78 ? '\n' : (char)('a' + c.size() % 23); o += c + "-->"; } return o + x.substr(b);
}
// "n:<r>:<doc>": the document without its XML declaration and with processing instructions in front of it, as many as it takes
// for the parser's current page of memory to be all but 8 r bytes full when the end of the document is reached: what is added
// to the tree afterwards needs a new page, so its allocations are the ones that can fail.
static std::string fillPage(uint64_t n, std::string x) {
    if (!x.compare(0, 5, "<?xml")) { size_t e = x.find("?>"); if (e == std::string::npos) return x; x = x.substr(e + 2); x.erase(0, std::min(x.size(), x.find_first_not_of(" \r\n\t"))); }
    const size_t cap = 32768 - 40, pi = 64; std::vector<unsigned char> sz; size_t i = 0, len = x.size();
    while (i < len) {
        auto skip = [&](const char* to) { size_t e = x.find(to, i); i = e == std::string::npos ? len : e + strlen(to); };
        if (x[i] != '<') { size_t e = std::min(len, x.find('<', i)); bool ws = x.find_first_not_of(" \t\r\n", i) >= e; if (!ws || (i && x[i - 1] == '>' && i > 1 && x[i - 2] != '/' && e + 1 < len && x[e + 1] == '/' && x[x.rfind('<', i - 1) + 1] != '/')) sz.push_back(64); i = e; continue; }
        if (!x.compare(i, 4, "<!--")) { skip("-->"); continue; }
        if (!x.compare(i, 9, "<![CDATA[")) { sz.push_back(64); skip("]]>"); continue; }
        if (!x.compare(i, 2, "</")) { skip(">"); continue; }
        sz.push_back(64); if (!x.compare(i, 2, "<?")) { skip("?>"); continue; } if (!x.compare(i, 2, "<!")) { skip(">"); continue; }
        for (char q = 0; i < len; i++) { char c = x[i]; if (q) { if (c == q) q = 0; } else if (c == '"' || c == '\'') { q = c; sz.push_back(40); } else if (c == '>') { i++; break; } }
    }
    size_t want = n % 48 * 8, best = 0, bestd = ~0ull;
    for (size_t k = 0; k < 520; k++) { size_t busy = cap; auto add = [&](size_t s) { if (busy + s > cap) busy = 0; busy += s; }; for (size_t j = 0; j < k; j++) add(pi); for (unsigned char s : sz) add(s); size_t fr = cap - busy, d = fr > want ? fr - want : want - fr; if (d < bestd) { bestd = d; best = k; } }
    size_t at = x.find("<score-"); if (at == std::string::npos) return x; std::string p; for (size_t k = 0; k < best; k++) p += "<?q?>"; return x.substr(0, at) + p + x.substr(at);
}
// "e:<n>:<doc>": the document with a few attribute values, texts or small elements made unusual: empty, zero, negative, large,
// padded, taken from elsewhere in the document, left out or there twice.
static std::string edgy(uint64_t n, std::string x) {
    sim::Rng r(n * 15485863 + 29); int k = r.range(1, 4);
    while (k-- > 0) {
        struct At { size_t b, e; int kind; std::string name; }; std::vector<At> at; size_t i = x.find("<score-"), len = x.size(); if (i == std::string::npos) return x;
        while (i < len) {        // kind 0: attribute value, 1: text, 2: an element without element children, 3: a whole attribute
            if (x[i] != '<') { i++; continue; }
            auto skip = [&](const char* to) { size_t e = x.find(to, i); i = e == std::string::npos ? len : e + strlen(to); };
            if (!x.compare(i, 4, "<!--")) { skip("-->"); continue; } if (!x.compare(i, 9, "<![CDATA[")) { skip("]]>"); continue; } if (!x.compare(i, 2, "<?")) { skip("?>"); continue; } if (!x.compare(i, 2, "</") || !x.compare(i, 2, "<!")) { skip(">"); continue; }
            size_t el = i, ne = x.find_first_of(" \t\r\n/>", i); if (ne == std::string::npos) break; std::string tag = x.substr(i + 1, ne - i - 1); bool root = !tag.compare(0, 6, "score-") && tag != "score-part" && tag != "score-instrument"; i = ne; bool closed = false;
            while (i < len && x[i] != '>') { if (x[i] == '/') closed = true; size_t eq; if (isalpha((unsigned char)x[i]) && (eq = x.find('=', i)) != std::string::npos && eq + 1 < len && (x[eq + 1] == '"' || x[eq + 1] == '\'')) { size_t q = x.find(x[eq + 1], eq + 2); if (q == std::string::npos) return x; if (!root) { at.push_back({eq + 2, q, 0, tag + "@" + x.substr(i, eq - i)}); at.push_back({i, q + 1, 3, at.back().name}); } i = q + 1; } else i++; }
            i++; if (closed) { at.push_back({el, std::min(i, len), 2, tag}); continue; } size_t lt = x.find('<', i); if (lt == std::string::npos) break; if (!x.compare(lt, 3 + tag.size(), "</" + tag + ">")) { at.push_back({i, lt, 1, tag}); at.push_back({el, lt + 3 + tag.size(), 2, tag}); }
        }
        if (at.empty()) return x; int want = r.below(20); want = want < 9 ? 0 : want < 15 ? 1 : want < 18 ? 2 : 3; std::vector<size_t> c; for (size_t j = 0; j < at.size(); j++) if (at[j].kind == want) c.push_back(j); if (c.empty()) continue;
        if (r.chance(70)) { std::vector<std::string> nm; for (size_t j : c) nm.push_back(at[j].name); std::sort(nm.begin(), nm.end()); nm.erase(std::unique(nm.begin(), nm.end()), nm.end()); const std::string w = nm[r.below(nm.size())]; std::vector<size_t> k2; for (size_t j : c) if (at[j].name == w) k2.push_back(j); c.swap(k2); }      // every kind of place alike, however often it occurs
        const At a = at[c[r.below(c.size())]]; std::string v = x.substr(a.b, a.e - a.b), w;
        if (a.kind == 3) w = ""; else if (a.kind == 2) w = r.chance(40) ? "" : v + v;
        else if (r.chance(30)) { std::vector<size_t> same; for (size_t j : c) if (at[j].name == a.name) same.push_back(j); const At& o = at[r.chance(80) ? same[r.below(same.size())] : c[r.below(c.size())]]; w = x.substr(o.b, o.e - o.b); }
        else { bool num = !v.empty() && v.find_first_not_of("0123456789.-+ ") == std::string::npos; static const char* nums[] = {"", "0", "-1", "1", "2", "7", "100", "0.5", "-0.25", "3.75", "007", "1.50", " 4 ", "127", "128"}; static const char* txt[] = {"", " ", "0", "x", " padded ", "two  words", "\xC3\xA9\xF0\x9D\x84\x9E", "a&amp;b&lt;c", "&quot;q&quot;", "P1", "yes", "no", "none", "start", "stop", "a&#9;b", "&#10;", "c&#13;&#10;d"}; w = r.chance(25) ? "" : num && r.chance(75) ? nums[r.below(15)] : txt[r.below(18)]; }
        x = x.substr(0, a.b) + w + x.substr(a.e);
    }
    return x;
}
std::string docBytes(const std::string& spec) {
    if (spec.compare(0, 2, "w:") == 0) { size_t c = spec.find(':', 2); return c == std::string::npos ? "" : docBytes(spec.substr(c + 1)); }      // edited through its handle once it is loaded
    if (spec.compare(0, 2, "e:") == 0) { size_t c = spec.find(':', 2); std::string x = c == std::string::npos ? "" : docBytes(spec.substr(c + 1)); return x.empty() || x.find('\0') != std::string::npos || (unsigned char)x[0] >= 0xFE ? x : edgy(strtoull(spec.c_str() + 2, nullptr, 10), x); }
    if (spec.compare(0, 2, "n:") == 0) { size_t c = spec.find(':', 2); std::string x = c == std::string::npos ? "" : docBytes(spec.substr(c + 1)); return x.empty() || x.find('\0') != std::string::npos || (unsigned char)x[0] >= 0x80 ? x : fillPage(strtoull(spec.c_str() + 2, nullptr, 10), x); }
    if (spec.compare(0, 2, "b:") == 0) { size_t c = spec.find(':', 2); std::string x = c == std::string::npos ? "" : docBytes(spec.substr(c + 1)); return x.empty() || x.find('\0') != std::string::npos || (unsigned char)x[0] >= 0xFE ? x : grow(strtoull(spec.c_str() + 2, nullptr, 10), x); }
    if (spec.compare(0, 2, "o:") == 0) { size_t c = spec.find(':', 2); return c == std::string::npos ? "" : prolog(strtoull(spec.c_str() + 2, nullptr, 10), docBytes(spec.substr(c + 1))); }
    if (spec.compare(0, 2, "p:") == 0) { size_t c = spec.find(':', 2); std::string x = c == std::string::npos ? "" : docBytes(spec.substr(c + 1)); return x.find('\0') != std::string::npos ? x : sprinkle(strtoull(spec.c_str() + 2, nullptr, 10), x); }
    if (spec.compare(0, 2, "g:") == 0 || spec.compare(0, 2, "h:") == 0) return growXml(strtoull(spec.c_str() + 2, nullptr, 10), spec[0] == 'h'); if (spec.compare(0, 2, "r:") == 0) return richXml(strtoull(spec.c_str() + 2, nullptr, 10)); if (spec.compare(0, 2, "c:") == 0) return corpus[spec.substr(2)]; if (spec.compare(0, 2, "x:") == 0) return makeXml(strtoull(spec.c_str() + 2, nullptr, 10)); return "";
}
bool isScoreDoc(const std::string& s) { return s.compare(0, 2, "s:") == 0 || s.compare(0, 2, "q:") == 0 || s.compare(0, 2, "i:") == 0; }
