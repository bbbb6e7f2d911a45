// Executes scenarios against the real library and judges what it did.
#include "scen.h"
#include "scoregen.h"
#include "mx/api/DocumentManager.h"
#include "mx/core/Document.h"
#include "ezxml/XFactory.h"
#include "ezxml/XDoc.h"
#include "dom.h"
#include "tree.h"
#include "docedit.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <set>
#include <algorithm>
#include <cstring>
#include <clocale>
#include <iomanip>
#include <locale>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace sim; using mx::api::DocumentManager; using mx::api::ScoreData; using mx::core::DocumentPtr;

// ------------------------------------------------------------------ reference answers
struct Gold { bool ok = false, unsavable = false, getOk = false, hxOk = false; std::string loadEx, getEx, W, rawW, H, HX, notWhole; ScoreData* S = nullptr; bool timewise = false; size_t inBytes = 0; OpProf create, write, get, hw, hx, geth, destroy, createf; ScoreData* in = nullptr; };
static std::map<std::string, const Gold*> golds;

static std::string normIds(const std::string& s, std::vector<long long>* ids = nullptr) {
    std::string o; size_t i = 0;
    while (i < s.size()) { if (s[i] == 'I' && i + 1 < s.size() && s[i + 1] == 'D') { size_t j = i + 2; while (j < s.size() && isdigit((unsigned char)s[j])) j++; if (j - i - 2 >= 7) { if (ids) ids->push_back(atoll(s.c_str() + i + 2)); o += "ID#"; i = j; continue; } } o += s[i++]; }
    return o;
}
// What a file says, as a list of tags, attributes and texts; layout, comments, the prolog and white space between tags do not count.
static bool xmlTokens(const std::string& x, std::vector<std::string>& v, std::string& err) {
    auto dec = [&](const std::string& t) { std::string o; for (size_t i = 0; i < t.size(); i++) { if (t[i] != '&') { o += t[i]; continue; } size_t e = t.find(';', i); std::string n = e == std::string::npos ? "" : t.substr(i + 1, e - i - 1); if (n == "amp") o += '&'; else if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else if (n.size() > 1 && n[0] == '#') { unsigned long c = n[1] == 'x' ? strtoul(n.c_str() + 2, 0, 16) : strtoul(n.c_str() + 1, 0, 10); if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } } else { o += '&'; continue; } i = e; } return o; };
    std::vector<std::string> open; size_t i = 0; bool leaf = false, any = false; const char* W = " \t\r\n"; auto fail = [&](const char* m) { err = std::string(m) + " near byte " + std::to_string(i) + " of " + std::to_string(x.size()); return false; };
    std::string text; auto flush = [&](bool closing) { if (!text.empty() && (text.find_first_not_of(W) != std::string::npos || (closing && leaf))) v.push_back("\"" + text); text.clear(); };
    while (i < x.size()) {
        if (x[i] != '<') { size_t e = x.find('<', i); if (e == std::string::npos) e = x.size(); std::string t = x.substr(i, e - i); if (open.empty()) { if (t.find_first_not_of(W) != std::string::npos && !(i == 0 && t == "\xEF\xBB\xBF")) return fail("text outside the document"); } else text += dec(t); i = e; continue; }
        if (!x.compare(i, 4, "<!--")) { size_t e = x.find("-->", i); if (e == std::string::npos) return fail("open comment"); i = e + 3; continue; }
        if (!x.compare(i, 9, "<![CDATA[")) { size_t e = x.find("]]>", i); if (e == std::string::npos) return fail("open section"); text += x.substr(i + 9, e - i - 9); i = e + 3; continue; }
        if (!x.compare(i, 2, "<?")) { size_t e = x.find("?>", i); if (e == std::string::npos) return fail("open instruction"); i = e + 2; continue; }
        if (!x.compare(i, 2, "<!")) { size_t e = x.find('>', i); if (e == std::string::npos) return fail("open declaration"); i = e + 1; continue; }
        if (x[i + 1] == '/') { size_t e = x.find('>', i); if (e == std::string::npos) return fail("open end tag"); std::string n = x.substr(i + 2, e - i - 2); while (!n.empty() && strchr(W, n.back())) n.pop_back(); if (open.empty() || open.back() != n) return fail("end tag without start"); flush(true); open.pop_back(); v.push_back("/"); leaf = false; i = e + 1; continue; }
        if (open.empty() && any) return fail("second root"); any = true; flush(false); size_t e = i + 1; while (e < x.size() && !strchr(" \t\r\n/>", x[e])) e++; std::string n = x.substr(i + 1, e - i - 1); v.push_back("<" + n); std::vector<std::string> at;
        for (;;) { while (e < x.size() && strchr(W, x[e])) e++; if (e >= x.size()) return fail("open tag"); if (x[e] == '>') { open.push_back(n); leaf = true; e++; break; } if (x[e] == '/') { if (e + 1 >= x.size() || x[e + 1] != '>') return fail("bad tag"); leaf = false; e += 2; at.push_back("/"); break; } size_t q = x.find('=', e); if (q == std::string::npos || q + 1 >= x.size()) return fail("bad attribute"); std::string k = x.substr(e, q - e); char c = x[q + 1]; if (c != '"' && c != '\'') return fail("attribute without quotes"); size_t z = x.find(c, q + 2); if (z == std::string::npos) return fail("open attribute"); at.push_back("@" + k + "=" + dec(x.substr(q + 2, z - q - 2))); e = z + 1; }
        bool self = !at.empty() && at.back() == "/"; if (self) at.pop_back(); std::sort(at.begin(), at.end()); for (auto& a : at) v.push_back(a); if (self) v.push_back("/"); i = e;
    }
    if (!open.empty() || !any) return fail("the document ends early"); return true;
}
static std::string notWhole(const std::string& a, const std::string& b) {      // is the saved file as complete as what the document streams out directly?
    std::vector<std::string> x, y; std::string e; if (!xmlTokens(a, x, e)) return "it is not well-formed: " + e; if (!xmlTokens(b, y, e)) return ""; size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    if (i == x.size() && i == y.size()) return ""; return "it has [" + (i < x.size() ? x[i].substr(0, 60) : std::string("nothing")) + "] where the document has [" + (i < y.size() ? y[i].substr(0, 60) : std::string("nothing")) + "]";
}
static void normScore(ScoreData& s) { for (auto& p : s.parts) { p.instrumentData.uniqueId = normIds(p.instrumentData.uniqueId); } }
static std::string exName(const std::exception& e) { return std::string(typeid(e).name()) + ": " + e.what(); }

// ------------------------------------------------------------------ simulated sources and sinks
static void callBack(int n);                      // a source or sink of the host application that uses the library itself
struct IoStats { bool errFired = false, cutFired = false, sinkFired = false; };
class SrcBuf : public std::streambuf {
    const std::string& d; size_t pos = 0; Rng r; int chunk; bool seekable; int64_t errAt, eofAt; int errKind, stall, sk, reent; std::string cur; size_t curBase = 0;
public:
    IoStats st; std::istream* owner = nullptr; std::vector<char> keep;
    SrcBuf(const std::string& data, const Op& o) : d(data), r(o.num("chunk", 0) + 77), chunk((int)o.num("chunk", 0)), seekable(o.num("seek", 1) != 0), errAt(o.num("err", -1)), eofAt(o.num("eof", -1)), errKind((int)o.num("ekind", 0)), stall((int)o.num("stall", 0)), sk((int)o.num("sk", 0)), reent((int)o.num("reent", 0)), curBase((size_t)std::max(0ll, o.num("off", 0))) { if (errAt >= 0) errAt += curBase; if (eofAt >= 0) eofAt += curBase; }
    size_t end() const { return eofAt >= 0 && (size_t)eofAt < d.size() ? (size_t)eofAt : d.size(); }
    int_type underflow() override {
        OutLib o; yieldIo(); if (stall) { fired(FK_STALL); sleepNs(1000000ll * (1 + r.below(stall * 10))); } if (reent) callBack(reent);
        pos = curBase + (gptr() ? gptr() - eback() : 0);
        if (errAt >= 0 && pos >= (size_t)errAt) { st.errFired = true; fired(FK_SRC_ERR); if (errKind == 1 && owner) { owner->setstate(std::ios::badbit); return traits_type::eof(); } throw std::runtime_error("simulated source error"); }
        if (pos >= end()) { if (end() < d.size()) { st.cutFired = true; fired(FK_SRC_EOF); } return traits_type::eof(); }
        size_t n = end() - pos; if (chunk > 0) { size_t k = 1 + r.below(r.chance(30) ? 3 : chunk); if (k < n) { n = k; fired(FK_SRC_CHUNK); } }
        if (errAt >= 0 && pos + n > (size_t)errAt) n = errAt - pos;
        keep.assign(d.begin() + pos, d.begin() + pos + n); curBase = pos; setg(keep.data(), keep.data(), keep.data() + n); return traits_type::to_int_type(keep[0]);
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir w, std::ios_base::openmode) override {
        OutLib o; if (!seekable) { fired(FK_SRC_NOSEEK); return pos_type(off_type(-1)); }
        off_type p = curBase + (gptr() ? gptr() - eback() : 0); off_type t = w == std::ios_base::beg ? off : w == std::ios_base::cur ? p + off : (off_type)d.size() + off;
        if (t < 0 || t > (off_type)d.size()) return pos_type(off_type(-1)); if (t != p || w != std::ios_base::cur) { curBase = t; keep.clear(); setg(nullptr, nullptr, nullptr); if ((sk & 2) && (size_t)t < end() && errAt < 0) underflow(); } return pos_type(t);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    std::streamsize showmanyc() override { if (!(sk & 1)) return 0; OutLib o; size_t p = curBase + (gptr() ? gptr() - eback() : 0); return p >= end() ? -1 : (std::streamsize)(1 + r.below(std::min<size_t>(end() - p, 700))); }   // how much is known to be there without waiting
};
class SinkBuf : public std::streambuf {
public:
    std::string data; int64_t cap; int kind, stall, reent; Rng r; IoStats st; bool once; bool fail = false; std::ostream* owner = nullptr;
    SinkBuf(const Op& o) : cap(o.num("cap", -1)), kind((int)o.num("skind", 0)), stall((int)o.num("stall", 0)), reent((int)o.num("reent", 0)), r(o.num("cap", 0) + 5), once(o.num("once", 0) != 0) {}
    virtual size_t put(const char* s, size_t n) {
        OutLib o; yieldIo(); if (stall) { fired(FK_STALL); sleepNs(1000000ll * (1 + r.below(stall * 10))); } if (reent) callBack(reent);
        if (cap >= 0 && (int64_t)(data.size() + n) > cap && !(once && fail)) { fail = true; st.sinkFired = true; size_t k = cap > (int64_t)data.size() ? cap - data.size() : 0; if (kind == 2) k = 0; data.append(s, k); if (kind == 1) { fired(FK_SINK_FAIL); throw std::runtime_error("simulated sink error"); } fired(k ? FK_SINK_SHORT : FK_SINK_FAIL); return k; }
        data.append(s, n); return n;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n); }
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return traits_type::not_eof(c); char ch = (char)c; return put(&ch, 1) == 1 ? c : traits_type::eof(); }
};
// A pipe from one thread of the host application to another: the writer waits while it is full, the reader while it is empty.
struct Pipe { std::string buf, total; bool hasR = false, hasW = false, wDone = false, rDone = false; size_t cap = 64; };
static Pipe pipe1;
class PipeSink : public SinkBuf {
public:
    using SinkBuf::SinkBuf;
    size_t put(const char* s, size_t n) override {
        OutLib o; yieldIo(); Pipe& p = pipe1; size_t k = 0; if (reent) callBack(reent);
        while (k < n) { if (p.rDone || !p.hasR) { if (p.hasR) { st.sinkFired = true; fired(FK_SINK_FAIL); break; } p.buf.append(s + k, n - k); k = n; break; } if (p.buf.size() >= p.cap) { if (!waitOn(&p)) { p.buf.append(s + k, n - k); k = n; break; } continue; } size_t c = std::min(n - k, p.cap - p.buf.size()); p.buf.append(s + k, c); k += c; wakeOn(&p); }
        p.total.append(s, k); data.append(s, k); return k;
    }
};
static void pipeClose(bool writer) { (writer ? pipe1.wDone : pipe1.rDone) = true; wakeOn(&pipe1); }
class PipeSrc : public std::streambuf {
    std::string cur; int reent;
public:
    PipeSrc(const Op& o) : reent((int)o.num("reent", 0)) {}
    int_type underflow() override {
        OutLib o; yieldIo(); Pipe& p = pipe1; if (reent) callBack(reent);
        while (p.buf.empty()) { if (p.wDone || !p.hasW || !waitOn(&p)) return traits_type::eof(); fired(FK_STALL); }
        cur.swap(p.buf); p.buf.clear(); wakeOn(&p); setg(&cur[0], &cur[0], &cur[0] + cur.size()); return traits_type::to_int_type(cur[0]);
    }
};

// ------------------------------------------------------------------ life state
struct Ev { char what; int id; uint64_t inv, res; char outcome; uint32_t mask; int tid; int opIdx; };   // what: C create, R read, D destroy; outcome: U unknown answer, C content, N none
struct Var { int id = -1; int doc = -1; bool set = false; };
struct Handle { DocumentPtr p; int id = 0; bool set = false; };
struct LifeCtx {
    const Scen* sc; const Life* life; int lifeNo; std::string dir; std::vector<std::string> docs; std::vector<const Gold*> g;
    Var vars[64]; Handle hs[64]; std::vector<Ev> ev; std::vector<long long> uids; std::map<int, std::vector<long long>> docIds; // id -> generated ids inside
    int pass = 0; bool expectAll = true; DomState dom; TreeState tree; std::set<std::string> damaged;
    bool probeOff = false; bool strict = false; std::map<int, int> nowDoc;      // strict: a document is read only by its own thread, so that it is known what it is at each read
};
static LifeCtx* L;
struct TzSpec { std::string name; int std; int dst; int sm, sw, sd, em, ew, ed; };
static TzSpec curTz{"UTC0", 0, 0, 0, 0, 0, 0, 0, 0};

static int docIdx(const std::string& d) { for (size_t i = 0; i < L->docs.size(); i++) if (L->docs[i] == d) return (int)i; return -1; }
static bool has(const char* p, const std::string& prop) { return prop == p; }
static void bad(const char* cat, const std::string& m) { violation(V_ORACLE, cat, m); }
static std::string diffAt(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; auto cut = [&](const std::string& s) { std::string t = s.substr(i > 40 ? i - 40 : 0, 100); for (auto& c : t) if (c == '\n') c = '~'; return t; }; return "sizes " + std::to_string(a.size()) + "/" + std::to_string(b.size()) + ", first difference at byte " + std::to_string(i) + ": got [" + cut(a) + "] expected [" + cut(b) + "]"; }

static OpFault faultOf(const Op& o) {
    OpFault f; if (o.has("oom")) f.oomAt = o.num("oom"); if (o.has("ooms")) { f.oomAt = o.num("ooms"); f.oomSticky = true; }
    f.rdShort = (int)o.num("rshort", 0); f.wrShort = (int)o.num("wshort", 0); f.eintr = (int)o.num("eintr", 0); f.rdErrAt = o.num("rerr", -1); f.rdErr = (int)o.num("rerrno", EIO); f.rdEofAt = o.num("reof", -1);
    f.wrErrAt = o.num("werr", -1); f.wrErr = (int)o.num("werrno", ENOSPC); f.closeErr = (int)o.num("cerr", 0); f.openErr = (int)o.num("oerr", 0); f.seekErr = (int)o.num("serr", 0); f.crashAt = o.num("crash", -1); f.crashStep = o.num("cstep", -1); if (o.str("to") == "file" || o.str("src") == "file" || o.str("src") == "ifs") f.stall = (int)o.num("stall", 0);
    return f;
}
static void spit(const std::string& p, const std::string& d) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); size_t o = 0; while (o < d.size()) { ssize_t n = ::write(fd, d.data() + o, d.size() - o); if (n <= 0) break; o += n; } ::close(fd); }
static bool slurp(const std::string& p, std::string& out) { out.clear(); int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) out.append(b, n); ::close(fd); return true; }
static std::string opName(const Op& o, int t) { return "thread " + std::to_string(t) + " [" + o.text() + "]"; }

// damage of stored bytes: dmg=kind:a:b[:c],...
static std::string damage(std::string d, const std::string& spec) {
    std::istringstream is(spec); std::string it;
    while (std::getline(is, it, ',')) {
        std::vector<std::string> p; std::istringstream ps(it); std::string x; while (std::getline(ps, x, ':')) p.push_back(x); if (p.size() < 3 || d.empty()) continue;
        size_t a = strtoull(p[1].c_str(), 0, 10) % d.size(), b = strtoull(p[2].c_str(), 0, 10), c = p.size() > 3 ? strtoull(p[3].c_str(), 0, 10) : 0; fired(FK_DAMAGE);
        if (p[0] == "flip") d[a] ^= (char)(1 << (b & 7)); else if (p[0] == "set") d[a] = (char)b; else if (p[0] == "cut") d.erase(a, b % 512 + 1); else if (p[0] == "zero") { for (size_t i = a; i < d.size() && i < a + b % 512 + 1; i++) d[i] = 0; }
        else if (p[0] == "dup") { std::string s = d.substr(a, b % 512 + 1); d.insert(a, s); } else if (p[0] == "move") { std::string s = d.substr(a, b % 300 + 1); d.erase(a, s.size()); d.insert(c % (d.size() + 1), s); } else if (p[0] == "trunc") d.resize(a);
        else if (p[0] == "digit") { size_t k = a; for (size_t n = 0; n < d.size(); n++, k = (k + 1) % d.size()) if (isdigit((unsigned char)d[k])) { static const char* v[] = {"0", "-1", "99999999999", "2147483647", "-2147483648", "1e20", "4294967296", "0.0000001", "nan", "65536"}; size_t e = k; while (e < d.size() && isdigit((unsigned char)d[e])) e++; d.replace(k, e - k, v[b % 10]); break; } }
        else if (p[0] == "num") {                            // a number that is the whole text of an element or a whole attribute value becomes a near or an extreme one
            size_t k = a; for (size_t n = 0; n < d.size(); n++, k = (k + 1) % d.size()) if ((d[k] == '>' || d[k] == '"') && k + 1 < d.size()) {
                size_t s = k + 1, e = s; if (e < d.size() && d[e] == '-') e++; size_t f = e; while (e < d.size() && (isdigit((unsigned char)d[e]) || d[e] == '.')) e++; if (e == f || e >= d.size() || (d[e] != '<' && d[e] != '"') || e - s > 15) continue;
                long long v = atoll(d.c_str() + s); std::string w; switch (b % 14) { case 0: case 1: w = std::to_string(v + 1); break; case 2: case 3: w = std::to_string(v - 1); break; case 4: w = std::to_string(v + 2); break; case 5: w = "0"; break; case 6: w = std::to_string(-v); break; case 7: w = std::to_string(v * 2); break; case 8: w = ""; break; case 9: w = std::to_string(v) + ".5"; break; case 10: w = std::to_string(v + 10); break; case 11: w = "2147483647"; break; case 12: w = "-2147483648"; break; default: w = std::to_string(v * 1000 + 7); } d.replace(s, e - s, w); break; }
        }
        else if (p[0] == "textdel" || p[0] == "textswap") {  // the text of an element is lost, or exchanged with that of another one
            auto text = [&](size_t at, size_t& s, size_t& e) { for (size_t k = d.find('>', at); k != std::string::npos; k = d.find('>', k + 1)) { e = d.find('<', k); if (e != std::string::npos && e > k + 1 && e + 1 < d.size() && d[e + 1] == '/') { s = k + 1; return true; } } return false; };
            size_t s1, e1, s2, e2; if (text(a, s1, e1)) { if (p[0] == "textdel") d.erase(s1, e1 - s1); else if (text(e1 + c % 400, s2, e2)) { std::string t1 = d.substr(s1, e1 - s1), t2 = d.substr(s2, e2 - s2); d.replace(s2, t2.size(), t1); d.replace(s1, t1.size(), t2); } }
        }
        else if (p[0] == "tagmove") { size_t s1 = d.find('<', a), e1 = s1 == std::string::npos ? s1 : d.find('>', s1); if (e1 != std::string::npos) { size_t n = s1 + 1; std::string nm; while (n < d.size() && (isalnum((unsigned char)d[n]) || d[n] == '-')) nm += d[n++]; size_t ce = nm.empty() ? std::string::npos : d.find("</" + nm + ">", e1); std::string t; if (d[e1 - 1] == '/') t = d.substr(s1, e1 - s1 + 1); else if (ce != std::string::npos) t = d.substr(s1, ce + nm.size() + 3 - s1); if (!t.empty()) { if (b & 1) d.erase(s1, t.size()); size_t to = d.find('<', c % (d.size() + 1)); if (to != std::string::npos) d.insert(to, t); } } }
        else if (p[0] == "swap") { size_t s1 = d.find('<', a), e1 = s1 == std::string::npos ? s1 : d.find('>', s1); size_t s2 = e1 == std::string::npos ? e1 : d.find('<', e1 + b % 200), e2 = s2 == std::string::npos ? s2 : d.find('>', s2); if (e2 != std::string::npos) { std::string t1 = d.substr(s1, e1 - s1 + 1), t2 = d.substr(s2, e2 - s2 + 1); d.replace(s2, t2.size(), t1); d.replace(s1, t1.size(), t2); } }
        else if (p[0] == "tagdel") { size_t s1 = d.find('<', a), e1 = s1 == std::string::npos ? s1 : d.find('>', s1); if (e1 != std::string::npos) { size_t n = s1 + 1; std::string nm; while (n < d.size() && (isalnum((unsigned char)d[n]) || d[n] == '-')) nm += d[n++]; size_t ce = nm.empty() ? std::string::npos : d.find("</" + nm + ">", e1); if (d[e1 - 1] == '/') d.erase(s1, e1 - s1 + 1); else if (ce != std::string::npos) d.erase(s1, ce + nm.size() + 3 - s1); } }
        else if (p[0] == "tagdup") { size_t s1 = d.find('<', a), e1 = s1 == std::string::npos ? s1 : d.find('>', s1); if (e1 != std::string::npos) { size_t n = s1 + 1; std::string nm; while (n < d.size() && (isalnum((unsigned char)d[n]) || d[n] == '-')) nm += d[n++]; size_t ce = nm.empty() ? std::string::npos : d.find("</" + nm + ">", e1); std::string t; if (d[e1 - 1] == '/') t = d.substr(s1, e1 - s1 + 1); else if (ce != std::string::npos) t = d.substr(s1, ce + nm.size() + 3 - s1); d.insert(s1, t); } }
    }
    return d;
}

// ------------------------------------------------------------------ operations
static uint64_t LIMIT = 60000000ull;              // steps one call may take; damaged numbers may ask for much more work before memory runs out
struct Res { bool threw = false, stdEx = false, oomEx = false, mute = false; std::string ex; OpStats st{}; };
static bool saysWhat(const char* w) { std::string m = w ? w : ""; size_t q = m.find(": '"); for (size_t i = q == std::string::npos ? 0 : q; i < m.size(); i++) if (isalnum((unsigned char)m[i])) return true; return false; }      // the library's own prefix (file, line, function) tells a user nothing
template <class F> static Res guarded(const Op& o, const OpFault& f, uint64_t limit, F fn) {
    Res r; beginOp(f, limit);
    try { InLib in; fn(); }
    catch (const std::bad_alloc& e) { OutLib ol; r.threw = r.stdEx = r.oomEx = true; r.ex = "bad_alloc"; }
    catch (const std::exception& e) { OutLib ol; r.threw = r.stdEx = true; r.ex = exName(e); if (typeid(e) == typeid(std::exception)) { r.stdEx = false; r.ex = "a bare std::exception that does not say what failed"; } else if (!saysWhat(e.what())) r.mute = true; }
    catch (...) { r.threw = true; r.ex = "something that is not a std::exception"; }
    r.st = endOp(); hashEvent(r.threw ? 0xE0 : 0xE1);
    if (r.mute) bad("mute", opName(o, tid()) + " threw an exception that does not say what went wrong: " + r.ex);
    if (r.threw && !r.stdEx) bad("exception", opName(o, tid()) + " threw " + r.ex);
    return r;
}
static uint32_t matchDocs(const std::string& s, int field) { uint32_t m = 0; for (size_t i = 0; i < L->g.size(); i++) { const Gold* g = L->g[i]; if (!g || !g->ok) continue; const std::string& e = field == 0 ? g->W : field == 1 ? g->H : g->HX; if (e == s) m |= 1u << i; } return m; }
static uint32_t matchScore(const ScoreData& s) { uint32_t m = 0; for (size_t i = 0; i < L->g.size(); i++) { const Gold* g = L->g[i]; if (g && g->ok && g->S && *g->S == s) m |= 1u << i; } return m; }
static uint32_t getExDocs() { uint32_t m = 0; for (size_t i = 0; i < L->g.size(); i++) if (L->g[i] && L->g[i]->ok && !L->g[i]->getOk) m |= 1u << i; return m; }
static void record(char what, int id, uint64_t inv, uint64_t res, char outcome, uint32_t mask, int opIdx) { L->ev.push_back({what, id, inv, res, outcome, mask, tid(), opIdx}); hashEvent(((uint64_t)what << 48) ^ ((uint64_t)outcome << 40) ^ ((uint64_t)mask << 8) ^ id); }
static int idOf(const Op& o, bool& ok) { ok = true; std::string v = o.str("v"); if (!v.empty() && v[0] == '#') return atoi(v.c_str() + 1); Var& x = L->vars[atoi(v.c_str()) & 63]; if (!x.set) { ok = false; return -1; } return x.id; }
static int docOfId(int id);
static void mustBe(const Op& o, int id, uint32_t m, const char* what) { if (!L->strict) return; int d = docOfId(id); if (d >= 0 && !(m >> d & 1)) bad("content", "thread " + std::to_string(tid()) + " [" + o.text() + "] " + what + ", not what its edits have made of it"); }
static const Gold* goldOfVar(const Op& o) { std::string v = o.str("v"); if (v.empty() || v[0] == '#') return nullptr; Var& x = L->vars[atoi(v.c_str()) & 63]; return x.set && x.doc >= 0 ? L->g[x.doc] : nullptr; }

static void verifyContent(const Op& o, int id, int doc, const char* cat, const std::string& why) {        // fault-free look at a document that an operation under fault returned
    std::string out; Op plain("write"); SinkBuf sb(plain); std::ostream os(&sb); uint64_t inv = eventSeq();
    Res r = guarded(o, OpFault(), LIMIT, [&] { DocumentManager::getInstance().writeToStream(id, os); }); uint64_t res = eventSeq();
    std::vector<long long> ids; out = normIds(sb.data, &ids);
    if (r.threw) bad(cat, why + ", and saving that document then failed: " + r.ex);
    if (out != L->g[doc]->W) bad(cat, why + ", but the document is not the complete one: " + diffAt(out, L->g[doc]->W));
    record('R', id, inv, res, 'C', matchDocs(out, 0), -1); (void)ids;
    if (L->g[doc]->getOk) { ScoreData s; Res q = guarded(o, OpFault(), LIMIT, [&] { s = DocumentManager::getInstance().getData(id); }); if (q.threw) bad(cat, why + ", and reading that document then failed: " + q.ex); normScore(s); if (!(s == *L->g[doc]->S)) bad(cat, why + ", but its score data differ from the complete document's"); }
}
static void opCreate(const Op& o, int oi) {
    std::string spec = o.str("doc"); int d = docIdx(spec); const Gold* g = L->g[d]; OpFault f = faultOf(o); int id = -2; Var& v = L->vars[o.num("v", 0) & 63]; bool errF = false, cutF = false; uint64_t inv, res; Res r; bool file = o.str("src") == "file"; bool dmg = o.has("dmg"); bool missing = o.has("missing");
    if (isScoreDoc(spec)) {
        ScoreData in; if (g->in) in = *g->in; else { if (spec[0] == 'q') return; in = makeScore(strtoull(spec.c_str() + 2, 0, 10), spec[0] == 'i'); } if (o.has("type")) in.musicXmlType = o.str("type");
        inv = eventSeq(); r = guarded(o, f, LIMIT, [&] { id = DocumentManager::getInstance().createFromScore(in); }); res = eventSeq();
    } else {
        std::string bytes = docBytes(spec); if (dmg) bytes = damage(bytes, o.str("dmg")); if (o.has("bad")) { bytes = o.str("bad") == "empty" ? "" : o.str("bad") == "garbage" ? "this is not xml <<<" : o.str("bad") == "root" ? "<?xml version=\"1.0\"?><something-else/>" : o.str("bad") == "elem" ? "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"><bogus/></score-partwise>" : o.str("bad") == "metronome" ? "<?xml version=\"1.0\"?><score-partwise version=\"3.0\"><part-list><score-part id=\"P1\"><part-name>p</part-name></score-part></part-list><part id=\"P1\"><measure number=\"1\"><direction><direction-type><metronome><beat-unit>eighth</beat-unit></metronome></direction-type></direction></measure></part></score-partwise>" : bytes.substr(0, bytes.size() / 2); fired(FK_BADINPUT); }
        bool ifs = o.str("src") == "ifs";
        if (o.str("src") == "pipe") {
            PipeSrc sb(o); std::istream is(&sb); inv = eventSeq(); r = guarded(o, f, LIMIT, [&] { id = DocumentManager::getInstance().createFromStream(is); }); res = eventSeq(); pipeClose(false); cutF = g->ok ? normIds(pipe1.total) != g->W : false;
        } else if (file || ifs) {
            std::string p = L->dir + "/in" + std::to_string(std::hash<std::string>()(spec + o.str("dmg") + o.str("bad")) % 100000000) + "." + o.str("ext", "xml"); if (missing) p = L->dir + "/no-such-dir/x" + o.str("missing") + ".xml"; else { struct stat sb; if (stat(p.c_str(), &sb) || sb.st_size != (off_t)bytes.size()) spit(p, bytes); }
            if (o.has("path")) { p = L->dir + "/" + o.str("path"); }
            inv = eventSeq(); if (ifs) { std::ifstream is; r = guarded(o, f, LIMIT, [&] { is.open(p, std::ios::in | std::ios::binary); id = DocumentManager::getInstance().createFromStream(is); }); } else r = guarded(o, f, LIMIT, [&] { id = DocumentManager::getInstance().createFromFile(p); }); res = eventSeq(); errF = r.st.anyIoFault && f.rdEofAt < 0; cutF = r.st.anyIoFault && f.rdEofAt >= 0;
        } else if (o.str("src") == "ss") {
            std::stringstream is; is << bytes; inv = eventSeq(); r = guarded(o, f, LIMIT, [&] { id = DocumentManager::getInstance().createFromStream(is); }); res = eventSeq();
        } else {
            if (o.num("off", 0) > 0) bytes.insert(0, std::string(o.num("off"), '#'));      // the stream stands behind something else
            SrcBuf sb(bytes, o); std::istream is(&sb); sb.owner = &is; if (o.num("exc", 0)) is.exceptions(std::ios::badbit);
            inv = eventSeq(); r = guarded(o, f, LIMIT, [&] { id = DocumentManager::getInstance().createFromStream(is); }); res = eventSeq(); errF = sb.st.errFired; cutF = sb.st.cutFired;
        }
    }
    bool expectFail = missing || o.has("bad") || (!dmg && !g->ok && !g->unsavable);
    if (r.threw) {
        if (r.oomEx && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " ran out of memory although none was withheld");
        if (!expectFail && !dmg && !errF && !cutF && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex);
        return;
    }
    if (id <= 0) { if (!(expectFail || errF || cutF || dmg || r.st.oomFired)) bad("id", opName(o, tid()) + " returned id " + std::to_string(id)); return; }   // documented error answer
    if (expectFail) bad("accepted", opName(o, tid()) + " accepted input that cannot be loaded");
    if (errF) bad("partial", opName(o, tid()) + " returned a document although its source reported an error");
    record('C', id, inv, res, 'C', 1u << d, oi);
    if (dmg) { v.id = id; v.doc = -1; v.set = true; L->damaged.insert(std::to_string(id)); return; }
    if (cutF) verifyContent(o, id, d, "partial", opName(o, tid()) + " returned a document although its source ended early");
    if (r.st.oomFired) verifyContent(o, id, d, "silent", opName(o, tid()) + " succeeded although an allocation failed [" + oomStack(6) + "]");
    v.id = id; v.doc = d; v.set = true;
    if (o.has("path")) verifyContent(o, id, d, "reload", opName(o, tid()) + " loaded a file saved earlier");
}
static bool isDamaged(const Op& o) { std::string v = o.str("v"); return !v.empty() && v[0] != '#' && L->vars[atoi(v.c_str()) & 63].set && L->vars[atoi(v.c_str()) & 63].doc < 0; }
static void noteIds(int id, const std::vector<long long>& ids) { auto& x = L->docIds[id]; std::vector<long long> s(ids); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); for (auto k : s) if (std::find(x.begin(), x.end(), k) == x.end()) x.push_back(k); }
static void opUid(const Op& o);
static void opFeed(const Op& o) {                             // a producer that uses the library between two pieces of its output
    std::string b = L->g[docIdx(o.str("doc"))]->W; PipeSink ps{Op("write")}; size_t n = std::max<size_t>(1, b.size() / std::max(1ll, o.num("n", 3)));
    for (size_t i = 0; i < b.size(); i += n) { opUid(Op("uid")); if (ps.put(b.data() + i, std::min(n, b.size() - i)) == 0) break; } pipeClose(true);
}
// a save through an output file stream that the host application opens and closes
static void saveOfs(const Op& o, int oi, const OpFault& f, int kind, int d, int id, bool dmg, const std::function<void(std::ostream&)>& save) {
    std::string p = L->dir + "/" + o.str("path", "ofs" + std::to_string(tid()) + "_" + std::to_string(oi) + ".xml"); bool good = false, live = d >= 0;
    uint64_t inv = eventSeq(); Res r = guarded(o, f, LIMIT, [&] { std::ofstream os(p, std::ios::out | std::ios::binary); if (o.num("unit", 0)) os << std::unitbuf; save(os); os.close(); good = os.good(); }); uint64_t res = eventSeq(); if (dmg) return;
    if (r.threw) { if (!r.st.anyIoFault && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; }
    if (!good) { if (!r.st.anyIoFault && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " left the caller's stream in a failed state although every byte was accepted"); return; }
    std::string after; slurp(p, after); std::vector<long long> ids; std::string n = normIds(after, &ids);
    if (kind == 0 && o.k == "write" && n.empty() && !(r.st.oomFired && live)) { record('R', id, inv, res, 'U', 0, oi); return; }
    uint32_t m = matchDocs(n, kind); if (o.k == "write" ? !m : d >= 0 ? !(m >> d & 1) : !m) bad(r.st.oomFired ? "silent" : r.st.anyIoFault ? "lostsave" : o.k == "write" ? "content" : "handle", opName(o, tid()) + " succeeded, but the file behind the stream does not hold the document: " + (d >= 0 ? diffAt(n, kind ? L->g[d]->H : L->g[d]->W) : ""));
    if (o.k == "write") { noteIds(id, ids); record('R', id, inv, res, 'C', m, oi); }
}
static void opWrite(const Op& o, int oi) {
    struct PipeEnd { bool on; ~PipeEnd() { if (on) pipeClose(true); } } pe{o.str("to") == "pipe"}; bool ok; int id = idOf(o, ok); if (!ok) return; OpFault f = faultOf(o); const Gold* g = goldOfVar(o); bool dmg = isDamaged(o);
    if (o.str("to") == "file") {
        std::string p = L->dir + "/" + o.str("path", "out" + std::to_string(tid()) + "_" + std::to_string(oi) + ".xml"); if (o.num("nodir", 0)) p = L->dir + "/no-such-dir/y.xml";
        std::string before; bool existed = slurp(p, before); struct rlimit old; bool rl = o.has("rlim") && L->life->thr.empty(); if (rl) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit n = old; n.rlim_cur = o.num("rlim"); setrlimit(RLIMIT_FSIZE, &n); }
        uint64_t inv = eventSeq(); Res r = guarded(o, f, LIMIT, [&] { DocumentManager::getInstance().writeToFile(id, p); }); uint64_t res = eventSeq(); if (rl) setrlimit(RLIMIT_FSIZE, &old);
        bool fault = r.st.anyIoFault || rl || o.num("nodir", 0);
        if (dmg) return;
        if (r.threw) { if (!fault && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); if (rl) fired(FK_WR_ERR); return; }
        std::string after; bool exists = slurp(p, after);
        if (!exists || (existed && after == before && matchDocs(normIds(after), 0) == 0)) { record('R', id, inv, res, 'U', 0, oi); return; }
        std::vector<long long> ids; std::string n = normIds(after, &ids); uint32_t m = matchDocs(n, 0);
        if (existed && after == before && g && m) { record('R', id, inv, res, 'E', m, oi); return; }    // same bytes as before: either nothing or the same content written
        if (!m) { if (r.st.oomFired) bad("silent", opName(o, tid()) + " returned normally although an allocation failed [" + oomStack(6) + "], and the file is not complete: " + (g ? diffAt(n, g->W) : "")); if (rl) fired(FK_WR_ERR); bad(fault ? "lostsave" : "content", opName(o, tid()) + " returned normally but the file does not hold the document" + (g ? ": " + diffAt(n, g->W) : "")); }
        mustBe(o, id, m, "saved another document"); noteIds(id, ids); if (g && !g->notWhole.empty()) bad("lostsave", opName(o, tid()) + " returned normally but the file does not hold the whole document: " + g->notWhole); record('R', id, inv, res, 'C', m, oi); return;
    }
    if (o.str("to") == "ofs") { std::string vv = o.str("v"); int d = g && !vv.empty() && vv[0] != '#' ? L->vars[atoi(vv.c_str()) & 63].doc : -1; saveOfs(o, oi, f, 0, d, id, dmg, [&](std::ostream& os) { DocumentManager::getInstance().writeToStream(id, os); }); return; }
    std::unique_ptr<SinkBuf> sbp(pe.on ? new PipeSink(o) : new SinkBuf(o)); SinkBuf& sb = *sbp; std::ostream os(&sb); sb.owner = &os; if (o.num("exc", 0)) os.exceptions(std::ios::badbit | std::ios::failbit); if (o.has("osfmt")) { os << std::hex << std::setfill('*'); os.width(30); os.precision(2); }
    uint64_t inv = eventSeq(); Res r = guarded(o, f, LIMIT, [&] { DocumentManager::getInstance().writeToStream(id, os); }); uint64_t res = eventSeq(); if (dmg) return;
    if (r.threw) { if (!sb.st.sinkFired && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; }
    if (sb.st.sinkFired) { if (os.good()) bad("lostsave", opName(o, tid()) + " returned normally with the stream in a good state although the sink refused data"); return; }
    if (!os.good() && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " left the caller's stream in a failed state although the sink accepted everything");
    if (!os.good()) return;
    std::vector<long long> ids; std::string n = normIds(sb.data, &ids);
    if (n.empty() && !(r.st.oomFired && g)) { mustBe(o, id, 0, "saved nothing"); record('R', id, inv, res, 'U', 0, oi); return; }
    uint32_t m = matchDocs(n, 0); if (!m) { if (r.st.oomFired) bad("silent", opName(o, tid()) + " returned normally although an allocation failed [" + oomStack(6) + "], and the output is not complete: " + (g ? diffAt(n, g->W) : "")); bad("content", opName(o, tid()) + " wrote something that is not the document" + (g ? ": " + diffAt(n, g->W) : " ")); }
    mustBe(o, id, m, "saved another document"); noteIds(id, ids); record('R', id, inv, res, 'C', m, oi);
}
static void opGet(const Op& o, int oi) {
    bool ok; int id = idOf(o, ok); if (!ok) return; OpFault f = faultOf(o); ScoreData s; s.workTitle = "unset";
    uint64_t inv = eventSeq(); Res r = guarded(o, f, LIMIT, [&] { s = DocumentManager::getInstance().getData(id); }); uint64_t res = eventSeq(); if (isDamaged(o)) return;
    if (r.threw) { if (r.st.oomFired) return; uint32_t m = getExDocs(); const Gold* g = goldOfVar(o); mustBe(o, id, m, ("gave no score data (" + r.ex + ")").c_str()); if (!m || (g && g->getOk)) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); record('R', id, inv, res, 'C', m, oi); return; }
    if (s == ScoreData{} && !(r.st.oomFired && goldOfVar(o))) { if (L->strict && docOfId(id) >= 0 && !(*L->g[docOfId(id)]->S == s)) mustBe(o, id, 0, "gave empty score data"); record('R', id, inv, res, 'U', 0, oi); return; }
    normScore(s); uint32_t m = matchScore(s);
    if (!m) { if (r.st.oomFired) bad("silent", opName(o, tid()) + " returned normally although an allocation failed [" + oomStack(6) + "], and the score data are not the document's"); bad("content", opName(o, tid()) + " returned score data that are not the document's"); }
    mustBe(o, id, m, "gave the score data of another document"); record('R', id, inv, res, 'C', m, oi);
}
static void opGetH(const Op& o, int oi) {
    bool ok; int id = idOf(o, ok); if (!ok) return; Handle& h = L->hs[o.num("h", 0) & 63]; DocumentPtr p;
    uint64_t inv = eventSeq(); Res r = guarded(o, faultOf(o), LIMIT, [&] { p = DocumentManager::getInstance().getDocument(id); }); uint64_t res = eventSeq(); if (isDamaged(o)) { h.p = p; h.id = id; h.set = (bool)p; return; }
    if (r.threw) { if (r.st.oomFired) return; bad("unexpected", opName(o, tid()) + " failed: " + r.ex); }
    if (!p) { record('R', id, inv, res, 'U', 0, oi); return; }
    record('R', id, inv, res, 'H', 0, oi); if (h.set) { InLib in; shareDrop(h.p); } h.p = std::move(p); h.id = id; h.set = true;
}
// no number that no create call returned may stand for a document
static void opGhost(const Op& o) {
    std::set<int> known; int top = 0; for (auto& e : L->ev) if (e.what == 'C') known.insert(e.id); for (auto& v : L->vars) known.insert(v.id); for (auto& d : L->damaged) known.insert(atoi(d.c_str())); for (int k : known) top = std::max(top, k);
    for (int id = -1; id <= top + 3; id++) {
        if (known.count(id)) continue; DocumentPtr p; ScoreData s; s.workTitle = "unset"; Op w("write"); SinkBuf sb(w); std::ostream os(&sb); auto& m = DocumentManager::getInstance();
        Res r = guarded(o, OpFault(), LIMIT, [&] { p = m.getDocument(id); if (!p) { s = m.getData(id); m.writeToStream(id, os); m.destroyDocument(id); } });
        if (p) { { InLib in; shareDrop(p); } bad("id", "the number " + std::to_string(id) + ", which no call returned, stands for a document"); }
        if (r.threw) bad("id", "operations on the number " + std::to_string(id) + ", which no call returned, fail: " + r.ex);
        if (!(s == ScoreData{}) || !sb.data.empty()) bad("id", "the number " + std::to_string(id) + ", which no call returned, has contents");
    }
}
static int docOfId(int id) { if (L->strict) { auto i = L->nowDoc.find(id); if (i != L->nowDoc.end()) return i->second; } for (auto& e : L->ev) if (e.what == 'C' && e.id == id) { for (int i = 0; i < 32; i++) if (e.mask >> i & 1) return i; } return -1; }
static void opHandle(const Op& o, int oi) {
    Handle& h = L->hs[o.num("h", 0) & 63]; if (!h.set) return; int d = docOfId(h.id); bool dmg = L->damaged.count(std::to_string(h.id)); DocumentPtr p; { InLib in; shareTake(p, h.p); } struct Rel { DocumentPtr& p; ~Rel() { InLib in; shareDrop(p); } } rel{p};
    OpFault f = faultOf(o);
    if (o.str("to") == "ofs") { bool hx = o.k == "hx"; saveOfs(o, oi, f, hx ? 0 : 1, d, h.id, dmg, [&](std::ostream& os) { if (hx) { auto x = ::ezxml::XFactory::makeXDoc(); p->toXDoc(*x); x->saveStream(os); } else p->toStream(os); }); }
    else if (o.k == "hw") {
        SinkBuf sb(o); std::ostream os(&sb); if (o.num("exc", 0)) os.exceptions(std::ios::badbit | std::ios::failbit); Res r = guarded(o, f, LIMIT, [&] { p->toStream(os); }); if (dmg) return;
        if (r.threw) { if (!sb.st.sinkFired && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; }
        if (sb.st.sinkFired) { if (os.good()) bad("lostsave", opName(o, tid()) + " returned normally with a good stream although the sink refused data"); return; } if (!os.good()) { if (!r.st.oomFired) bad("unexpected", opName(o, tid()) + " left the caller's stream in a failed state"); return; }
        std::string n = normIds(sb.data); uint32_t m = matchDocs(n, 1); if (d >= 0 ? !(m >> d & 1) : !m) bad(r.st.oomFired ? "silent" : "handle", opName(o, tid()) + (r.st.oomFired ? " returned normally although an allocation failed [" + oomStack(6) + "], but" : "") + " a document handle shows different content: " + (d >= 0 ? diffAt(n, L->g[d]->H) : ""));
    } else if (o.k == "hx") {
        SinkBuf sb(o); std::ostream os(&sb); Res r = guarded(o, f, LIMIT, [&] { auto x = ::ezxml::XFactory::makeXDoc(); p->toXDoc(*x); x->saveStream(os); }); if (dmg) return;
        if (r.threw) { if (!sb.st.sinkFired && !r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; } if (sb.st.sinkFired) { if (os.good()) bad("lostsave", opName(o, tid()) + " returned normally with a good stream although the sink refused data"); return; } if (!os.good()) return;
        std::string n = normIds(sb.data); uint32_t m = matchDocs(n, 0); if (d >= 0 ? !(m >> d & 1) : !m) bad(r.st.oomFired ? "silent" : "handle", opName(o, tid()) + (r.st.oomFired ? " returned normally although an allocation failed [" + oomStack(6) + "], but" : "") + " a document handle shows different content: " + (d >= 0 ? diffAt(n, L->g[d]->W) : ""));
    } else if (o.k == "hwalk") { Res r = guarded(o, f, LIMIT, [&] { walkConst(*p, (int)o.num("sel", 0)); }); if (r.threw && !r.st.oomFired && !dmg) bad("unexpected", opName(o, tid()) + " failed: " + r.ex); }
    else if (o.k == "hconv") { Res r = guarded(o, f, LIMIT, [&] { p->convertContents(); }); (void)r; }
}
// one edit through a handle: it happens, or it fails and the document stays what it was
static void opEdit(const Op& o) {
    Handle& h = L->hs[o.num("h", 0) & 63]; if (!h.set || !L->strict) return; int d = docOfId(h.id), nd = docIdx(o.str("doc")); if (d < 0 || nd < 0 || !L->g[nd]->ok) return; std::string s = o.str("doc"); size_t c = s.find(':', 2); if (c == std::string::npos || s.substr(c + 1) != L->docs[d]) return;      // (a shortened scenario: this edit belongs to another state)
    DocumentPtr p; { InLib in; shareTake(p, h.p); } struct Rel { DocumentPtr& p; ~Rel() { InLib in; shareDrop(p); } } rel{p}; Res r = guarded(o, faultOf(o), LIMIT, [&] { editDoc(*p, strtoull(s.c_str() + 2, nullptr, 10)); });
    if (r.threw) { if (!r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; }
    L->nowDoc[h.id] = nd; for (auto& v : L->vars) if (v.set && v.id == h.id) v.doc = nd;
}
static void opRelH(const Op& o) { Handle& h = L->hs[o.num("h", 0) & 63]; if (!h.set) return; h.set = false; DocumentPtr p = std::move(h.p); guarded(o, OpFault(), LIMIT, [&] { shareDrop(p); }); }
static void opDestroy(const Op& o, int oi) {
    bool ok; int id = idOf(o, ok); if (!ok) return; uint64_t inv = eventSeq(); Res r = guarded(o, faultOf(o), LIMIT, [&] { DocumentManager::getInstance().destroyDocument(id); }); uint64_t res = eventSeq();
    if (r.threw) { if (!r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed: " + r.ex); return; }
    record('D', id, inv, res, 'N', 0, oi); if (L->strict) for (auto& v : L->vars) if (v.id == id) v.set = false;
}
static void opUid(const Op& o) { if (o.num("n", 1) > 1) { std::vector<int> v; v.reserve(o.num("n")); guarded(o, OpFault(), LIMIT, [&] { for (long long i = 0; i < o.num("n"); i++) v.push_back(DocumentManager::getInstance().getUniqueId()); }); for (int x : v) L->uids.push_back(x); return; }
    int n = -1; Res r = guarded(o, faultOf(o), LIMIT, [&] { n = DocumentManager::getInstance().getUniqueId(); }); if (r.threw) { if (!r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed: " + r.ex); return; } L->uids.push_back(n); hashEvent(n); }

static void callBack(int n) { int u = 0; { InLib in; u = DocumentManager::getInstance().getUniqueId(); if (n > 1) { DocumentPtr p = DocumentManager::getInstance().getDocument(n - 2); shareDrop(p); } } L->uids.push_back(u); hashEvent(u); }

// ------------------------------------------------------------------ civil calendar oracle
static void civil(int64_t days, int& y, int& m, int& d) { int64_t z = days + 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t yy = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y = (int)(yy + (m <= 2)); }
static int64_t daysOf(int y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
static int64_t ruleDay(int y, int m, int w, int wd) { int64_t first = daysOf(y, m, 1); int dow = (int)(((first + 4) % 7 + 7) % 7); int64_t d = first + ((wd - dow + 7) % 7) + (w - 1) * 7; int64_t next = m == 12 ? daysOf(y + 1, 1, 1) : daysOf(y, m + 1, 1); while (d >= next) d -= 7; return d; }
static void localDate(int64_t ns, int& y, int& m, int& d) {
    int64_t s = fdiv(ns, 1000000000); int off = curTz.std * 60;
    if (curTz.sm) { civil(fdiv(s + off, 86400), y, m, d); int64_t st = ruleDay(y, curTz.sm, curTz.sw, curTz.sd) * 86400 + 7200 - curTz.std * 60, en = ruleDay(y, curTz.em, curTz.ew, curTz.ed) * 86400 + 7200 - curTz.dst * 60; bool in = st < en ? (s >= st && s < en) : (s >= st || s < en); if (in) off = curTz.dst * 60; }
    civil(fdiv(s + off, 86400), y, m, d);
}
static const TzSpec tzs[] = {{"UTC0", 0, 0, 0, 0, 0, 0, 0, 0}, {"<+14>-14", 840, 0, 0, 0, 0, 0, 0, 0}, {"<-12>12", -720, 0, 0, 0, 0, 0, 0, 0}, {"EST5EDT,M3.2.0,M11.1.0", -300, -240, 3, 2, 0, 11, 1, 0}, {"<+0545>-5:45", 345, 0, 0, 0, 0, 0, 0, 0}, {"AEST-10AEDT,M10.1.0,M4.1.0", 600, 660, 10, 1, 0, 4, 1, 0}, {"CET-1CEST,M3.5.0,M10.5.0", 60, 120, 3, 5, 0, 10, 5, 0}, {"<-0330>3:30", -210, 0, 0, 0, 0, 0, 0, 0}};
static void applyTz(int i) { curTz = tzs[i & 7]; setenv("TZ", curTz.name.c_str(), 1); tzset(); if (i) fired(FK_TZ); }
static void opToday(const Op& o) {
    int64_t c0 = nowNs(); uint64_t inv = eventSeq(); mx::api::EncodingDate e; size_t k0 = clockLog.size(); Res r = guarded(o, faultOf(o), LIMIT, [&] { e = mx::api::EncodingDate::today(); }); eventSeq(); int64_t c1 = nowNs();
    if (r.threw) { if (!r.st.oomFired) bad("unexpected", opName(o, tid()) + " failed: " + r.ex); return; }
    std::vector<int64_t> c{c0, c1}; for (size_t i = k0; i < clockLog.size(); i++) { c.push_back(clockLog[i].second); c.push_back(clockLog[i].second - cfg.clockStep); } bool ok = false; std::string w;
    for (auto t : c) { int y, m, d; localDate(t, y, m, d); if (e.year == y && e.month == m && e.day == d) ok = true; w += " " + std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(d); }
    hashEvent(e.year * 10000 + e.month * 100 + e.day); (void)inv;
    if (!ok) bad("date", opName(o, tid()) + " gave " + std::to_string(e.year) + "-" + std::to_string(e.month) + "-" + std::to_string(e.day) + " but the local date during the call was" + w + " (TZ " + curTz.name + ")");
}
// ------------------------------------------------------------------ host environment
struct Grp : std::numpunct<char> { char dp, ts; std::string g; Grp(char d, char t, std::string gr) : dp(d), ts(t), g(gr) {} char do_decimal_point() const override { return dp; } char do_thousands_sep() const override { return ts; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
static void applyLocale(int i) { decimalComma = i >= 2; std::locale c = std::locale::classic(); if (i == 0) std::locale::global(c); else { std::locale::global(std::locale(c, new Grp(i == 1 ? ',' : i == 2 ? '.' : ';', i == 1 ? '.' : ',', i == 3 ? "\1" : "\3"))); fired(FK_LOCALE); } }
static void opEnv(const Op& o) { if (o.has("tz")) applyTz((int)o.num("tz")); if (o.has("locale")) applyLocale((int)o.num("locale")); if (o.has("clock")) { setClockNs(o.num("clock") * 1000000000ll); fired(FK_CLOCK_JUMP); } if (o.has("sleep")) sleepNs(o.num("sleep") * 1000000ll); }

static void opExists(const Op& o) { // what a crash left in a file: the complete new document, what was there before, or something the loader rejects
    std::string p = L->dir + "/" + o.str("path"); std::string bytes; bool ex = slurp(p, bytes); int dn = o.has("doc") ? docIdx(o.str("doc")) : -1, dold = o.has("old") ? docIdx(o.str("old")) : -1; int id = -2;
    Res r = guarded(o, OpFault(), LIMIT, [&] { id = DocumentManager::getInstance().createFromFile(p); });
    if (r.threw || id <= 0) { if (o.num("ack", 0)) bad("lostsave", "a save that had been acknowledged cannot be loaded by a new process: " + r.ex); return; }
    SinkBuf sb(Op("write")); std::ostream os(&sb); Res q = guarded(o, OpFault(), LIMIT, [&] { DocumentManager::getInstance().writeToStream(id, os); }); std::string n = normIds(sb.data);
    bool isNew = dn >= 0 && !q.threw && n == L->g[dn]->W, isOld = dold >= 0 && !q.threw && n == L->g[dold]->W; (void)ex;
    if (o.num("ack", 0) ? !isNew : !(isNew || isOld)) bad("torn", opName(o, tid()) + ": the file left by the crash (" + std::to_string(bytes.size()) + " bytes) was accepted but is neither the new nor the old document: " + (dn >= 0 ? diffAt(n, L->g[dn]->W) : ""));
    guarded(o, OpFault(), LIMIT, [&] { DocumentManager::getInstance().destroyDocument(id); });
}
// one generation of save and reload: what was saved is what is loaded
static void opReload(const Op& o) {
    std::string p = L->dir + "/" + o.str("path"); int d = docIdx(o.str("doc")); const Gold* g = L->g[d]; if (!g->ok) return; int id = -2; std::string bytes; if (!slurp(p, bytes)) return; 
    if (o.num("bytes", 1) && normIds(bytes) != g->W) bad("content", opName(o, tid()) + ": the saved file is not the document: " + diffAt(normIds(bytes), g->W));
    Op plain = o; Res r; SrcBuf sb(bytes, o); std::istream is(&sb); sb.owner = &is;
    if (o.str("src") == "stream") r = guarded(o, faultOf(o), LIMIT, [&] { id = DocumentManager::getInstance().createFromStream(is); }); else r = guarded(o, faultOf(o), LIMIT, [&] { id = DocumentManager::getInstance().createFromFile(p); });
    if (r.threw || id <= 0) bad("reload", opName(o, tid()) + ": a saved document cannot be loaded: " + r.ex);
    Var& v = L->vars[o.num("v", 0) & 63]; v.id = id; v.doc = d; v.set = true; record('C', id, eventSeq(), eventSeq(), 'C', 1u << d, -1);
    SinkBuf ob(Op("write")); std::ostream os(&ob); Res q = guarded(o, OpFault(), LIMIT, [&] { DocumentManager::getInstance().writeToStream(id, os); }); if (q.threw) bad("reload", opName(o, tid()) + ": a reloaded document cannot be saved: " + q.ex);
    if (normIds(ob.data) != g->W) bad("fixpoint", opName(o, tid()) + ": saving a reloaded document gives different bytes: " + diffAt(normIds(ob.data), g->W));
    ScoreData s; Res t = guarded(o, OpFault(), LIMIT, [&] { s = DocumentManager::getInstance().getData(id); }); if (t.threw != !g->getOk) bad("reload", opName(o, tid()) + ": reading a reloaded document " + (t.threw ? "failed: " + t.ex : "succeeded where the original fails")); if (!t.threw) { normScore(s); if (!(s == *g->S)) bad("fixpoint", opName(o, tid()) + ": a reloaded document has different score data"); }
}
static std::vector<std::string> tokens(const std::string& x, const char* mark) { std::vector<std::string> v; size_t i = 0; std::string m = mark; while ((i = x.find(m, i)) != std::string::npos) { size_t j = i; while (j < x.size() && (isalnum((unsigned char)x[j]) || x[j] == '_')) j++; v.push_back(x.substr(i, j - i)); i = j; } std::sort(v.begin(), v.end()); return v; }

static void opDom(const Op& o) { // a call on the XML tree layer: answers, or throws a standard exception; never touches a released tree (the allocator shadow reports that)
    std::string w; bool dead = L->dom.d[o.num("d", 0) & 7].released; Res r = guarded(o, faultOf(o), LIMIT, [&] { w = domOp(L->dom, o); }); (void)dead;
    if (o.k == "xe" && r.threw && r.st.oomFired && !r.st.anyIoFault) { Op q = o; q.a["m"] = "whole"; q.a.erase("oom"); q.a.erase("ooms"); std::string w2; guarded(q, OpFault(), LIMIT, [&] { w2 = domOp(L->dom, q); }); if (!w2.empty()) w = w2; }
    if (w.compare(0, 7, "silent|") == 0) bad("silent", opName(o, tid()) + (r.st.oomFired ? " with a failed allocation" : "") + ": " + w.substr(7));
    if (!w.empty()) bad("stale", opName(o, tid()) + ": " + w); hashEvent(r.threw);
}
static void opTree(const Op& o) { // an edit, a read or a save of an XML tree: the tree is what the edits that returned have made of it
    std::string w; Res r = guarded(o, faultOf(o), LIMIT, [&] { w = treeOp(L->tree, o, L->dir); }); hashEvent(r.threw); bool oom = r.st.oomFired;
    if (!w.empty()) bad(oom ? "silent" : "tree", opName(o, tid()) + (oom ? " with a failed allocation: " : ": ") + w);
    if (r.threw && !oom && !r.st.anyIoFault) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex);
    if (!treeLive(L->tree, o) || !(r.threw || o.num("look", 0))) return;
    std::string got; Res q = guarded(o, OpFault(), LIMIT, [&] { std::string s = treeActual(L->tree, o); OutLib ol; got = s; }); if (q.threw) bad("tree", opName(o, tid()) + ": the tree can no longer be read: " + q.ex);
    std::string want = treeExpected(L->tree, o); if (got != want) bad("tree", opName(o, tid()) + (r.threw ? " failed (" + r.ex + ") and left a trace in the tree: " : ": the tree is not what its edits make of it: ") + diffAt(got, want));
}
std::string valueCall(uint64_t k);
static void opVal(const Op& o) { // an answer that depends on nothing but the arguments of the call
    const Gold* g = L->g[docIdx(o.str("doc"))]; std::string w; Res r = guarded(o, faultOf(o), LIMIT, [&] { w = valueCall(strtoull(o.str("doc").c_str() + 2, 0, 10)); });
    if (r.threw) { if (!r.st.oomFired && r.ex != g->loadEx) bad("unexpected", opName(o, tid()) + " failed without any fault: " + r.ex); return; }
    if (w != g->W || !g->loadEx.empty()) bad(r.st.oomFired ? "silent" : "content", opName(o, tid()) + (r.st.oomFired ? " returned normally although an allocation failed [" + oomStack(6) + "], with" : " gave") + " an answer other than a fresh process gives: " + diffAt(w, g->W)); hashEvent(w.size());
}
static void doOp(const Op& o, int oi) {
    rep->ops++; hashEvent(0x0b + oi);
    if (o.k == "create") opCreate(o, oi); else if (o.k == "write") opWrite(o, oi); else if (o.k == "get") opGet(o, oi); else if (o.k == "geth") opGetH(o, oi); else if (o.k == "hw" || o.k == "hx" || o.k == "hwalk" || o.k == "hconv") opHandle(o, oi);
    else if (o.k == "hedit") opEdit(o); else if (o.k == "relh") opRelH(o); else if (o.k == "destroy") opDestroy(o, oi); else if (o.k == "uid") opUid(o); else if (o.k == "ghost") opGhost(o); else if (o.k == "today") opToday(o); else if (o.k == "env") opEnv(o); else if (o.k == "exists") opExists(o); else if (o.k == "reload") opReload(o);
    else if (o.k == "feed") opFeed(o); else if (o.k == "val") opVal(o);
    else if (o.k == "spit") { spit(L->dir + "/" + o.str("path"), o.has("doc") ? (L->g[docIdx(o.str("doc"))]->rawW.empty() ? L->g[docIdx(o.str("doc"))]->W : L->g[docIdx(o.str("doc"))]->rawW) : std::string(o.num("n", 100), '#')); }
    else if (o.k[0] == 'x') opDom(o); else if (o.k == "tload" || o.k == "tsave" || o.k == "te" || o.k == "ta" || o.k == "td") opTree(o);
    else bad("internal", "unknown op " + o.k);
}
static void doOps(const std::vector<Op>& v) { int i = 0; for (auto& o : v) doOp(o, i++); }

// ------------------------------------------------------------------ after the run: history checks
static bool linearize(std::vector<Ev>& e, int did, uint64_t doneMask, int state, std::set<std::pair<uint64_t, int>>& seen) {
    if (doneMask == (1ull << e.size()) - 1) return true;
    if (!seen.insert({doneMask, state}).second) return false;
    uint64_t minRes = ~0ull; for (size_t i = 0; i < e.size(); i++) if (!(doneMask >> i & 1) && e[i].res < minRes) minRes = e[i].res;
    for (size_t i = 0; i < e.size(); i++) {
        if (doneMask >> i & 1 || e[i].inv > minRes) continue; int ns = state; bool ok = true;      // states: 0 not yet created, 1 live, 2 destroyed
        switch (e[i].what) {
            case 'C': ok = state == 0; ns = 1; break;
            case 'D': ns = state == 1 ? 2 : state; break;
            default: if (e[i].outcome == 'U') ok = state != 1; else if (e[i].outcome == 'H') ok = state == 1; else if (e[i].outcome == 'E') ok = state != 1 || (did >= 0 && (e[i].mask >> did & 1)); else ok = state == 1 && did >= 0 && (e[i].mask >> did & 1);
        }
        if (ok && linearize(e, did, doneMask | 1ull << i, ns, seen)) return true;
    }
    return false;
}
static void checkHistory() {
    if (L->strict) return;
    std::map<int, std::vector<Ev>> by; for (auto& e : L->ev) by[e.id].push_back(e);
    for (auto& p : by) {
        auto& e = p.second; int creates = 0, did = -1; for (auto& x : e) if (x.what == 'C') { creates++; for (int i = 0; i < 32; i++) if (x.mask >> i & 1) did = i; }
        if (L->damaged.count(std::to_string(p.first))) continue;
        if (creates > 1) bad("id", "document id " + std::to_string(p.first) + " was issued " + std::to_string(creates) + " times");
        if (!creates) { for (auto& x : e) if (x.what == 'R' && x.outcome != 'U') { bool pend = false; for (auto& q : L->damaged) (void)q; if (!pend) bad("history", "id " + std::to_string(p.first) + ", which no create call returned, gave a document"); } continue; }
        if (e.size() > 40) e.resize(40);
        std::set<std::pair<uint64_t, int>> seen;
        if (!linearize(e, did, 0, 0, seen)) { std::string h; std::sort(e.begin(), e.end(), [](const Ev& a, const Ev& b) { return a.inv < b.inv; }); for (auto& x : e) h += std::string(" ") + (x.what == 'C' ? "create" : x.what == 'D' ? "destroy" : "read") + "(t" + std::to_string(x.tid) + ", " + std::to_string(x.inv) + ".." + std::to_string(x.res) + ")" + (x.what == 'R' ? (x.outcome == 'U' ? "=unknown" : x.outcome == 'H' ? "=handle" : did >= 0 && (x.mask >> did & 1) ? "=its document" : "=ANOTHER document") : ""); bad("history", "no sequential order explains the calls on document " + std::to_string(p.first) + ":" + h); }
    }
    std::map<long long, std::string> all; auto add = [&](long long n, const std::string& w) { auto r = all.insert({n, w}); if (!r.second) bad("unique", "generated identifier " + std::to_string(n) + " given out twice: " + r.first->second + " and " + w); };
    for (auto u : L->uids) add(u, "getUniqueId"); for (auto& p : L->docIds) { int d = docOfId(p.first); if (d >= 0 && L->docs[d].compare(0, 2, "i:") == 0) for (auto n : p.second) add(n, "document " + std::to_string(p.first)); }
}
static void cleanup() {
    for (auto& h : L->hs) if (h.set) { h.set = false; DocumentPtr p = std::move(h.p); InLib in; p.reset(); }
    std::set<int> ids; for (auto& v : L->vars) if (v.set) { ids.insert(v.id); v.set = false; } for (auto& e : L->ev) if (e.what == 'C') ids.insert(e.id);
    Op d("destroy"); for (int i : ids) guarded(d, OpFault(), LIMIT, [&] { DocumentManager::getInstance().destroyDocument(i); });
    domClear(L->dom); treeClear(L->tree);
}
static void probeIds() { // no id that no call returned names a document
    int top = 0; std::set<int> seen; for (auto& e : L->ev) { seen.insert(e.id); if (e.what == 'C') top = std::max(top, e.id); } Op o("probe"); if (L->probeOff) return;
    for (int id = 1; id <= top + 6; id++) { if (seen.count(id) && id != top) continue; DocumentPtr p; uint64_t inv = eventSeq(); Res r = guarded(o, OpFault(), LIMIT, [&] { p = DocumentManager::getInstance().getDocument(id); }); uint64_t res = eventSeq(); bool any = (bool)p; { InLib il; shareDrop(p); } if (r.threw || !any) continue; if (!seen.count(id)) bad("history", "id " + std::to_string(id) + ", which no create call returned, gives a document"); (void)inv; (void)res; }
}
static void finalSane() { // no lock is left behind: every kind of manager call still completes
    Op o("final"); bool hadLoc = L->life->env.num("locale", 0) != 0; (void)hadLoc;
    guarded(o, OpFault(), LIMIT, [&] { auto& m = DocumentManager::getInstance(); m.getUniqueId(); m.getData(-5); m.destroyDocument(-5); m.getDocument(-5); });
}

static void applyCfg(const Op& e) {
    cfg = Config(); cfg.schedSeed = strtoull(e.str("sched", "1").c_str(), 0, 10); cfg.mode = (int)e.num("mode", 0); cfg.mean = e.num("mean", 2000); cfg.pSync = (int)e.num("psync", 20); cfg.pShared = (int)e.num("pshared", 10); cfg.pIo = (int)e.num("pio", 30); cfg.pctPoints = (int)e.num("pts", 3); cfg.pctSpan = e.num("span", 2000000); cfg.fill = (uint8_t)e.num("fill", 0xCD); cfg.quar = (uint64_t)e.num("quar", 8192) << 10; cfg.clock0 = e.num("clock", 1600000000ll) * 1000000000ll; cfg.clockStep = e.num("cstep", 1000); cfg.memCap = (uint64_t)e.num("cap", 192) << 20;
    if (e.has("race")) cfg.race = e.num("race") != 0;
    if (e.has("jumps")) { std::istringstream is(e.str("jumps")); std::string x; while (std::getline(is, x, ',')) { auto c = x.find(':'); if (c != std::string::npos) cfg.clockJumps.push_back({atoi(x.c_str()), atoll(x.c_str() + c + 1) * 1000000000ll}); } }
    if (e.has("sw")) { cfg.mode = 2; std::istringstream is(e.str("sw")); std::string x; while (std::getline(is, x, ',')) { int a, c; unsigned long long b; if (sscanf(x.c_str(), "%d:%llu:%d", &a, &b, &c) == 3) cfg.list.push_back({a, (uint64_t)b, c}); } }
}
static void lifeMain(const Scen& s, int no, const std::string& dir, const std::vector<std::string>& docs) {
    const Life& l = s.lives[no]; applyCfg(l.env); { bool dm = false; auto scan = [&](const std::vector<Op>& v) { for (auto& o : v) dm |= o.has("dmg"); }; scan(l.pre); for (auto& t : l.thr) scan(t); scan(l.post); if (dm) { LIMIT = 800000000ull; cfg.maxSteps = 2000000000ull; cfg.memCap = std::min<uint64_t>(cfg.memCap, 96ull << 20); } } L = new LifeCtx; L->sc = &s; L->life = &l; L->lifeNo = no; L->dir = dir; contain(dir.c_str()); L->docs = docs; for (auto& d : docs) L->g.push_back(gold(d)); L->ev.reserve(256); { auto scan = [&](const std::vector<Op>& v) { for (auto& o : v) L->strict |= o.k == "hedit"; }; scan(l.pre); for (auto& t : l.thr) scan(t); scan(l.post); }
    { pipe1 = Pipe(); int rt = -1, wt = -1; for (size_t t = 0; t < l.thr.size(); t++) for (auto& o : l.thr[t]) { if (o.str("src") == "pipe") rt = (int)t; if (o.str("to") == "pipe" || o.k == "feed") { wt = (int)t; pipe1.cap = std::max(1ll, o.num("pcap", 64)); } } pipe1.hasR = pipe1.hasW = rt >= 0 && wt >= 0 && rt != wt; }
    signal(SIGXFSZ, SIG_IGN); applyTz((int)l.env.num("tz", 0)); if (l.env.num("locale", 0)) applyLocale((int)l.env.num("locale")); if (no) fired(FK_RESTART);
    int repeat = (int)l.env.num("repeat", 1); std::vector<std::function<void()>> b; int fd0 = -1;
    b.push_back([&l, repeat, &fd0] {
        for (int p = 0; p < repeat; p++) {
            setPass(p); L->pass = p; if (p == repeat - 1) fd0 = fdCount(); doOps(l.pre);
            if (repeat > 1 && p < repeat - 1) { for (auto& t : l.thr) doOps(t); } else spawnAndJoin();
            doOps(l.post); probeIds(); finalSane(); checkHistory();
            if (repeat > 1) { cleanup(); L->ev.clear(); L->docIds.clear(); L->uids.clear(); L->damaged.clear(); L->nowDoc.clear(); }
        }
        if (repeat > 1) {
            Leak k = liveSince(repeat - 1); if (k.count) { for (int i = 0; i < k.npc; i++) rep->pcs[i] = k.pcs[i]; bad("leak", std::to_string(k.count) + " blocks (" + std::to_string(k.bytes) + " bytes) allocated during the last repetition of the same operations are still held after every document was destroyed; first: " + std::to_string(k.firstSize) + " bytes allocated at " + stackText(k.pcs, k.npc)); }
            int fd1 = fdCount(); if (fd1 != fd0) bad("leak", "file descriptors held: " + std::to_string(fd1 - fd0));
        }
    });
    for (auto& t : l.thr) b.push_back([&t] { doOps(t); });
    runLife(b);
}
static void collectDocs(const Scen& s, std::vector<std::string>& docs) {
    auto add = [&](const std::vector<Op>& v) { for (auto& o : v) for (const char* k : {"doc", "old"}) if (o.has(k) && std::find(docs.begin(), docs.end(), o.str(k)) == docs.end()) docs.push_back(o.str(k)); };
    for (auto& l : s.lives) { add(l.pre); for (auto& t : l.thr) add(t); add(l.post); }
}
static int forkRun(const std::function<void()>& f, int secs) {
    memset((void*)rep, 0, offsetof(Report, sw)); rep->nsw = 0; pid_t p = fork();
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); struct rlimit rl{(rlim_t)secs, (rlim_t)secs + 2}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); f(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
Outcome runScen(const Scen& s, const std::string& scratch) {
    Outcome out; std::vector<std::string> docs; collectDocs(s, docs); for (auto& d : docs) gold(d);
    std::string dir = scratch; { std::string c = "rm -rf -- '" + dir + "'"; if (dir.find("/mxsim") == std::string::npos) abort(); if (access(dir.c_str(), F_OK) == 0) { if (system(c.c_str())) {} } mkdir(dir.c_str(), 0700); }
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.lives.size(); i++) {
        int st = forkRun([&] { lifeMain(s, (int)i, dir, docs); }, 60);
        h = (h ^ rep->hash) * 1099511628211ull; out.steps += rep->steps; out.switches += rep->switches; out.allocs += rep->allocs; out.simNs += rep->simNs; out.ops += rep->ops; out.conflicts += rep->conflicts; out.clockReads += rep->clockReads; for (int k = 0; k < FK_N; k++) out.fired[k] += rep->fired[k]; out.sw.emplace_back(rep->sw, rep->sw + rep->nsw); out.lifeHash.push_back(rep->hash);
        bool normal = WIFEXITED(st) && ((WEXITSTATUS(st) == 0 && rep->done) || (WEXITSTATUS(st) == 77 && rep->crashed));
        if (rep->kind != V_NONE || !normal) {
            out.life = (int)i; out.kind = rep->kind; out.cat = rep->cat; out.msg = rep->msg; out.pcs.assign(rep->pcs, rep->pcs + std::max(0, std::min((int)rep->npc, MAXPC))); out.pc2 = rep->pc2;
            if (rep->kind == V_NONE) { if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { out.kind = V_HANG; out.cat = "hang"; out.msg = "the process did not finish within its processor-time budget"; } else if (WIFSIGNALED(st)) { out.kind = V_CRASH; out.cat = "crash"; out.msg = "the process died of signal " + std::to_string(WTERMSIG(st)); } else { out.kind = V_CRASH; out.cat = "crash"; out.msg = "the process ended unexpectedly with status " + std::to_string(WEXITSTATUS(st)); if (WEXITSTATUS(st) == 9) out.internal = true; } }
            break;
        }
    }
    out.hash = h; return out;
}
// ------------------------------------------------------------------ reference answers
static std::map<uint64_t, std::vector<uint32_t>> rawStk;
static OpProf profOf(const OpStats& st, std::vector<uint64_t>& raw) { OpProf p; p.allocs = st.allocs; p.steps = st.steps; std::set<uint64_t> seen; goldenAlloc(true); std::vector<uint32_t> sites; std::vector<uint64_t> hash; for (size_t i = 0; i < raw.size(); i++) if (seen.insert(raw[i]).second) { sites.push_back((uint32_t)i); hash.push_back(raw[i]); p.stk.push_back(std::vector<uint32_t>(rawStk[raw[i]])); } p.sites = sites; p.hash = hash; goldenAlloc(false); raw.clear(); return p; }
struct GoldSlot { const Gold* g; };
double goldTime = 0; std::vector<std::string> diedDocs;
const Gold* gold(const std::string& full) {
    struct Tm { timespec a; Tm() { clock_gettime(CLOCK_MONOTONIC, &a); } ~Tm() { timespec b; clock_gettime(CLOCK_MONOTONIC, &b); goldTime += (b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9; } } tm;
    auto it = golds.find(full); if (it != golds.end()) return it->second;
    std::string spec = full; std::vector<uint64_t> edits; while (spec.compare(0, 2, "w:") == 0) { size_t c = spec.find(':', 2); if (c == std::string::npos) break; edits.insert(edits.begin(), strtoull(spec.c_str() + 2, nullptr, 10)); spec = std::string(spec, c + 1); }      // a document edited through its handle
    goldenAlloc(true); GoldSlot* slot = new GoldSlot{nullptr}; goldenAlloc(false);
    std::vector<std::string> none;
    auto body = [&] {
        applyCfg(Op("life")); L = new LifeCtx; Scen sc; L->sc = &sc; Life lf; L->life = &lf; applyTz(0);
        std::vector<std::function<void()>> b; b.push_back([&] {
            goldenAlloc(true); Gold* g = new Gold; goldenAlloc(false); Op o("golden"); std::vector<uint64_t> raw; auto keep = [&](std::string& dst, const std::string& s) { goldenAlloc(true); dst = std::string(s); goldenAlloc(false); };
            if (spec[0] == 'v') { std::string w; auto call = [&] { Res q = guarded(o, OpFault(), LIMIT, [&] { w = valueCall(strtoull(spec.c_str() + 2, 0, 10)); }); return q; }; Res q0 = call(); keep(g->W, w); keep(g->loadEx, q0.ex); raw.reserve(1 << 16); profileAllocs(&raw, &rawStk); Res q = call(); profileAllocs(nullptr); g->create = profOf(q.st, raw); slot->g = g; return; }
            auto& m = DocumentManager::getInstance(); ScoreData in; std::string bytes; bool sd = isScoreDoc(spec);
            if (spec[0] == 'q') {      // score data got from a document, edited as a client edits it
                size_t c = spec.find(':', 2); std::string src = docBytes(c == std::string::npos ? "" : spec.substr(c + 1)); SrcBuf sb(src, o); std::istream is(&sb); Res q = guarded(o, OpFault(), LIMIT, [&] { int t = m.createFromStream(is); in = m.getData(t); m.destroyDocument(t); });
                if (q.threw) { keep(g->loadEx, "no score data: " + q.ex); slot->g = g; return; } editScore(in, strtoull(spec.c_str() + 2, 0, 10)); goldenAlloc(true); g->in = new ScoreData(in); goldenAlloc(false);
            } else if (sd) { in = makeScore(strtoull(spec.c_str() + 2, 0, 10), spec[0] == 'i'); goldenAlloc(true); g->in = new ScoreData(in); goldenAlloc(false); } else bytes = docBytes(spec); g->inBytes = bytes.size();
            auto mk = [&](int& id, bool prof) { if (prof) { raw.reserve(1 << 16); profileAllocs(&raw, &rawStk); } SrcBuf sb(bytes, o); std::istream is(&sb); Res r = guarded(o, OpFault(), LIMIT, [&] { id = sd ? m.createFromScore(in) : m.createFromStream(is); }); profileAllocs(nullptr); if (prof) { g->create = profOf(r.st, raw); } if (!r.threw && id > 0 && !edits.empty()) { Res q; { DocumentPtr p; guarded(o, OpFault(), LIMIT, [&] { p = m.getDocument(id); }); for (auto e : edits) { q = guarded(o, OpFault(), LIMIT, [&] { editDoc(*p, e); }); if (q.threw) { r.threw = true; r.ex = "edit: " + q.ex; } } InLib il; shareDrop(p); } } return r; };
            int id = -1; { int w = -1; mk(w, false); if (w > 0) { InLib il; m.destroyDocument(w); } }      // warm, so that the profile does not contain first-use work
            Res r = mk(id, true); g->ok = !r.threw && id > 0; if (r.threw) { keep(g->loadEx, r.ex); g->unsavable = sd && edits.empty() && spec.compare(0, 2, "q:") != 0; }
            if (g->ok) {
                auto prof = [&](OpProf& p, const std::function<void()>& f) { raw.reserve(1 << 16); profileAllocs(&raw, &rawStk); Res q = guarded(o, OpFault(), LIMIT, f); profileAllocs(nullptr); p = profOf(q.st, raw); return q; };
                { Op w("write"); SinkBuf sb(w); std::ostream os(&sb); Res q = prof(g->write, [&] { m.writeToStream(id, os); }); if (q.threw) { g->ok = false; g->unsavable = edits.empty(); keep(g->loadEx, "write: " + q.ex); } keep(g->W, normIds(sb.data)); if (g->W != sb.data) keep(g->rawW, sb.data); }
                int id2 = -1; mk(id2, false); ScoreData s; Res q = prof(g->get, [&] { s = m.getData(id2); }); g->getOk = !q.threw; if (q.threw) keep(g->getEx, q.ex); else { normScore(s); goldenAlloc(true); g->S = new ScoreData(s); goldenAlloc(false); }
                int id3 = -1; mk(id3, false); DocumentPtr p; prof(g->geth, [&] { p = m.getDocument(id3); }); { Op w("hw"); SinkBuf sb(w); std::ostream os(&sb); Res x = prof(g->hw, [&] { p->toStream(os); }); keep(g->H, normIds(sb.data)); if (!x.threw && os.good()) keep(g->notWhole, notWhole(g->W, g->H)); g->timewise = p->getChoice() == mx::core::DocumentChoice::timewise; }
                { Op w("hx"); SinkBuf sb(w); std::ostream os(&sb); prof(g->hx, [&] { auto x = ::ezxml::XFactory::makeXDoc(); p->toXDoc(*x); x->saveStream(os); }); }
                { InLib il; p.reset(); }
            }
            slot->g = g;
        });
        runLife(b);
    };
    int st = forkRun(body, 20);
    if (!slot->g) { goldenAlloc(true); Gold* g = new Gold; goldenAlloc(false); g->loadEx = "reference run died"; slot->g = g; (void)st; diedDocs.push_back(full); fprintf(stderr, "reference run for %s failed: %s\n", full.c_str(), rep->msg); }
    golds[full] = slot->g; return slot->g;
}
GoldInfo goldInfo(const std::string& spec) { const Gold* g = gold(spec); return GoldInfo{g->ok, g->unsavable, g->getOk, g->W.size(), g->inBytes, g->H.size(), g->create, g->write, g->get, g->hw, g->hx, g->geth, g->destroy, g->createf, g->timewise}; }
static std::set<uint64_t> sitesKnown; static std::set<uint32_t> callsKnown;
static void countSites() { for (auto& g : golds) if (g.second) for (auto* p : {&g.second->create, &g.second->write, &g.second->get, &g.second->hw, &g.second->hx, &g.second->geth}) { sitesKnown.insert(p->hash.begin(), p->hash.end()); for (auto& v : p->stk) callsKnown.insert(v.begin(), v.end()); } }
size_t oomSitesKnown() { countSites(); return sitesKnown.size(); }
size_t oomCallsKnown() { countSites(); return callsKnown.size(); }
void forgetGolds() { countSites(); golds.clear(); goldenReset(); }      // other documents are drawn from now on
void printGold(const std::string& spec) { const Gold* g = gold(spec); if (spec[0] == 'v') printf("%s\n", g->W.c_str()); printf("%s ok=%d get=%d tw=%d in=%zu W=%zu create(a=%lu st=%lu sites=%zu) write(a=%lu st=%lu sites=%zu) get(a=%lu st=%lu sites=%zu) %s %s\n", spec.c_str(), g->ok, g->getOk, g->timewise, g->inBytes, g->W.size(), g->create.allocs, g->create.steps, g->create.sites.size(), g->write.allocs, g->write.steps, g->write.sites.size(), g->get.allocs, g->get.steps, g->get.sites.size(), (g->loadEx.substr(0, 400) + (g->notWhole.empty() ? "" : " NOTWHOLE " + g->notWhole)).c_str(), g->getEx.substr(0, 400).c_str()); }
