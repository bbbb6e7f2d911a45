// Seeded generators: MusicXML documents and, per property, whole scenarios.
#include "scen.h"
#include <algorithm>
#include <mutex>
#include <unordered_set>
using namespace sim; using std::string; using std::to_string;

// ------------------------------------------------------------------ documents
static string esc(Rng& r) { static const char* w[] = {"A &amp; B", "x &lt; y", "plain", "caf\xC3\xA9", "&#233;", "<![CDATA[c < d & e]]>", "&quot;q&quot;", "", " padded ", "\xE2\x99\xAD", "long long long long long long text with words", "a &amp;amp; b", "&amp;#65;&amp;lt;x", "]]&gt;", "q'&apos;&quot;q"}; return w[r.below(15)]; }
static string dec(Rng& r) { static const char* w[] = {"0", "10", "-3.5", "12.25", "1000", "0.125", "7.0", "1234567.5", "99999"}; return w[r.below(9)]; }
static string noteXml(Rng& r, int div, int& dur, bool allowChord, int voice, int staff) {
    string s = "<note"; if (r.chance(20)) s += " default-x=\"" + dec(r) + "\""; if (r.chance(5)) s += " print-object=\"no\""; s += ">"; bool grace = r.chance(6), rest = !grace && r.chance(15), chord = allowChord && r.chance(20); static const char* ty[] = {"16th", "eighth", "quarter", "half", "whole"}; int t = r.below(5); int d = std::max(1, div * (1 << t) / 4);
    if (grace) s += r.chance(50) ? "<grace slash=\"yes\"/>" : "<grace/>"; if (chord && !rest) s += "<chord/>";
    if (rest) s += r.chance(30) ? "<rest measure=\"yes\"/>" : "<rest/>"; else if (r.chance(8)) s += "<unpitched><display-step>E</display-step><display-octave>4</display-octave></unpitched>"; else { s += "<pitch><step>" + string(1, "ABCDEFG"[r.below(7)]) + "</step>"; if (r.chance(25)) s += "<alter>" + string(r.chance(50) ? "1" : r.chance(50) ? "-1" : "0.5") + "</alter>"; s += "<octave>" + to_string(r.range(1, 7)) + "</octave></pitch>"; }
    if (!grace) { s += "<duration>" + to_string(d) + "</duration>"; if (!chord) dur += d; } if (r.chance(10)) s += "<tie type=\"start\"/>"; s += "<voice>" + to_string(voice) + "</voice><type>" + ty[t] + "</type>"; if (r.chance(10)) s += "<dot/>"; if (r.chance(10)) s += "<accidental>sharp</accidental>";
    if (r.chance(8)) s += "<time-modification><actual-notes>3</actual-notes><normal-notes>2</normal-notes></time-modification>"; if (r.chance(30)) s += r.chance(50) ? "<stem>up</stem>" : "<stem default-y=\"" + dec(r) + "\">down</stem>"; if (r.chance(5)) s += "<notehead>x</notehead>"; if (staff) s += "<staff>" + to_string(staff) + "</staff>"; if (r.chance(15)) s += "<beam number=\"1\">begin</beam>";
    if (r.chance(25)) { s += "<notations>"; if (r.chance(30)) s += "<tied type=\"start\"/>"; if (r.chance(30)) s += "<slur number=\"1\" type=\"start\"/>"; if (r.chance(20)) s += "<tuplet number=\"1\" type=\"start\"/>"; if (r.chance(20)) s += "<ornaments><trill-mark/><accidental-mark>flat</accidental-mark></ornaments>"; if (r.chance(20)) s += "<technical><fingering>3</fingering><string>2</string></technical>"; if (r.chance(40)) s += "<articulations><accent/><staccato placement=\"above\"/></articulations>"; if (r.chance(10)) s += "<fermata type=\"upright\"/>"; s += "</notations>"; }
    if (r.chance(10)) s += "<lyric number=\"1\"><syllabic>single</syllabic><text>" + esc(r) + "</text></lyric>"; return s + "</note>";
}
static string measureXml(Rng& r, int mi, int div, int staves) {
    string s; if (mi == 0 || r.chance(15)) { s += "<attributes>"; if (mi == 0) s += "<divisions>" + to_string(div) + "</divisions>"; if (r.chance(60)) s += "<key><fifths>" + to_string(r.range(-6, 6)) + "</fifths><mode>major</mode></key>"; if (mi == 0 || r.chance(30)) s += "<time><beats>" + to_string(r.range(2, 6)) + "</beats><beat-type>4</beat-type></time>"; if (mi == 0 && staves > 1) s += "<staves>" + to_string(staves) + "</staves>"; for (int k = 1; k <= (mi == 0 ? staves : 0); k++) s += "<clef" + (staves > 1 ? " number=\"" + to_string(k) + "\"" : string()) + "><sign>" + (r.chance(50) ? "G</sign><line>2" : "F</sign><line>4") + "</line></clef>"; if (r.chance(10)) s += "<transpose><diatonic>-1</diatonic><chromatic>-2</chromatic></transpose>"; s += "</attributes>"; }
    if (r.chance(15)) s += "<print new-system=\"yes\"><system-layout><system-margins><left-margin>" + dec(r) + "</left-margin><right-margin>0</right-margin></system-margins></system-layout></print>"; int dur = 0, n = r.range(1, 5), voice = 1;
    for (int i = 0; i < n; i++) {
        if (r.chance(12)) { s += "<direction placement=\"above\">"; int k = r.below(5); s += "<direction-type>" + (k == 0 ? "<words default-y=\"" + dec(r) + "\">" + esc(r) + "</words>" : k == 1 ? string("<dynamics><mf/></dynamics>") : k == 2 ? string("<wedge type=\"crescendo\" spread=\"0\"/>") : k == 3 ? string("<metronome><beat-unit>quarter</beat-unit><per-minute>96</per-minute></metronome>") : string("<octave-shift type=\"up\" size=\"8\"/>")) + "</direction-type>"; if (r.chance(30)) s += "<offset>" + to_string(r.range(-3, 3)) + "</offset>"; if (r.chance(30)) s += "<voice>" + to_string(r.range(1, 3)) + "</voice>"; if (staves > 1 ? r.chance(60) : r.chance(15)) s += "<staff>" + to_string(r.range(1, staves + (r.chance(12) ? 1 : 0))) + "</staff>"; if (r.chance(20)) s += "<sound tempo=\"" + to_string(r.range(40, 200)) + "\"/>"; s += "</direction>"; }
        if (r.chance(5)) s += "<harmony><root><root-step>C</root-step></root><kind>major</kind>" + (r.chance(30) ? "<offset>" + to_string(r.range(-2, 4)) + "</offset>" : string()) + (r.chance(30) ? "<staff>" + to_string(r.range(1, staves)) + "</staff>" : string()) + "</harmony>"; if (r.chance(3)) s += "<figured-bass><figure><figure-number>6</figure-number></figure><duration>" + to_string(div) + "</duration></figured-bass>"; if (i && r.chance(4)) s += "<attributes><clef" + (staves > 1 ? " number=\"" + to_string(r.range(1, staves)) + "\"" : string()) + "><sign>C</sign><line>3</line></clef></attributes>"; s += noteXml(r, div, dur, i > 0, voice, staves > 1 ? 1 : 0); if (r.chance(6)) s += "<!-- a comment & more -->"; if (r.chance(4)) s += "<?proc inst=\"1\"?>";
    }
    if (dur > 0 && r.chance(25)) { s += "<backup><duration>" + to_string(dur) + "</duration></backup>"; int d2 = 0; voice = 2; s += noteXml(r, div, d2, false, voice, staves > 1 ? 2 : 0); if (r.chance(50)) s += "<forward><duration>" + to_string(r.range(1, div)) + "</duration>" + (r.chance(40) ? "<voice>2</voice>" : "") + (staves > 1 && r.chance(40) ? "<staff>2</staff>" : "") + "</forward>"; }
    if (r.chance(12)) s += "<barline location=\"right\"><bar-style>light-heavy</bar-style><repeat direction=\"backward\"/></barline>"; return s;
}
static string utf16(const string& s, bool be) { string o; auto put = [&](uint32_t c) { if (be) { o += (char)(c >> 8); o += (char)c; } else { o += (char)c; o += (char)(c >> 8); } }; put(0xFEFF); for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; uint32_t v; int n; if (c < 0x80) { v = c; n = 1; } else if (c < 0xE0) { v = c & 31; n = 2; } else if (c < 0xF0) { v = c & 15; n = 3; } else { v = c & 7; n = 4; } for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); i += n; if (v >= 0x10000) { v -= 0x10000; put(0xD800 + (v >> 10)); put(0xDC00 + (v & 1023)); } else put(v); } return o; }
string makeXml(uint64_t seed) {
    Rng r(seed * 104729 + 7); bool tw = r.chance(30); bool big = seed % 5 == 0; int np = big ? r.range(1, 3) : r.chance(65) ? 1 : 2, nm = big ? r.range(1, 4) : r.range(1, 2), div = r.chance(50) ? 4 : r.chance(50) ? 1 : 24; string s; int enc = r.below(20);
    if (enc != 1) { s += "<?xml version=\"1.0\""; if (enc != 2) s += " encoding=\"" + string(enc >= 18 ? "UTF-16" : r.chance(20) ? "utf-8" : "UTF-8") + "\""; if (r.chance(30)) s += " standalone=\"no\""; s += "?>\n"; }
    string root = tw ? "score-timewise" : "score-partwise"; if (r.chance(50)) s += "<!DOCTYPE " + root + " PUBLIC \"-//Recordare//DTD MusicXML 3.0 " + (tw ? "Timewise" : "Partwise") + "//EN\" \"http://www.musicxml.org/dtds/x.dtd\">\n"; if (r.chance(20)) s += "<!-- made -->\n"; if (r.chance(10)) s += "<?pi data?>\n"; s += "<" + root + (r.chance(80) ? string(" version=\"") + (r.chance(50) ? "3.0" : r.chance(50) ? "2.0" : "1.0") + "\"" : "") + ">\n";
    if (r.chance(40)) s += "<work><work-title>" + esc(r) + "</work-title></work>"; if (r.chance(20)) s += "<movement-title>" + esc(r) + "</movement-title>"; if (r.chance(40)) s += "<identification><creator type=\"composer\">" + esc(r) + "</creator><rights>" + esc(r) + "</rights><encoding><software>sw</software><encoding-date>2013-04-0" + to_string(r.range(1, 9)) + "</encoding-date></encoding></identification>"; if (r.chance(30)) s += "<defaults><scaling><millimeters>7.2319</millimeters><tenths>40</tenths></scaling><page-layout><page-height>1545</page-height><page-width>1194.5</page-width></page-layout></defaults>"; if (r.chance(20)) s += "<credit page=\"1\"><credit-words default-x=\"" + dec(r) + "\" font-size=\"22\">" + esc(r) + "</credit-words></credit>";
    s += "\n<part-list>"; std::vector<int> staves; for (int p = 0; p < np; p++) { staves.push_back(r.chance(20) ? 2 : 1); if (p == 0 && np > 1 && r.chance(30)) s += "<part-group number=\"1\" type=\"start\"><group-symbol>bracket</group-symbol></part-group>"; s += "<score-part id=\"P" + to_string(p + 1) + "\"><part-name>" + esc(r) + "</part-name>"; if (r.chance(30)) s += "<part-abbreviation>Ab.</part-abbreviation>"; if (r.chance(30)) s += "<score-instrument id=\"P" + to_string(p + 1) + "-I1\"><instrument-name>Inst</instrument-name></score-instrument><midi-instrument id=\"P" + to_string(p + 1) + "-I1\"><midi-channel>" + to_string(p + 1) + "</midi-channel><midi-program>" + to_string(r.range(1, 128)) + "</midi-program></midi-instrument>"; s += "</score-part>"; } s += "</part-list>\n"; string nl = r.chance(30) ? "\r\n" : r.chance(70) ? "\n" : "";
    if (tw) for (int m = 0; m < nm; m++) { s += "<measure number=\"" + to_string(m + 1) + "\"" + (r.chance(20) ? " width=\"" + dec(r) + "\"" : "") + ">" + nl; for (int p = 0; p < np; p++) s += "<part id=\"P" + to_string(p + 1) + "\">" + measureXml(r, m, div, staves[p]) + "</part>" + nl; s += "</measure>" + nl; }
    else for (int p = 0; p < np; p++) { s += "<part id=\"P" + to_string(p + 1) + "\">" + nl; for (int m = 0; m < nm; m++) s += "<measure number=\"" + to_string(m + 1) + "\"" + (r.chance(20) ? " width=\"" + dec(r) + "\"" : "") + ">" + nl + measureXml(r, m, div, staves[p]) + "</measure>" + nl; s += "</part>" + nl; }
    s += "</" + root + ">"; if (r.chance(50)) s += "\n"; if (r.chance(5)) s += "<!-- end -->"; if (enc >= 18) return utf16(s, enc == 19); if (enc == 3) return "\xEF\xBB\xBF" + s; return s;
}

// ------------------------------------------------------------------ building blocks
// The documents one worker draws from: each worker and each seed gets different ones.
static std::vector<string> docPool; extern std::vector<string> diedDocs;
struct Cand { double ub; size_t doc; int op; bool operator<(const Cand& o) const { return ub < o.ub; } };
static std::vector<Cand> cands; static bool candsMade = false;
void initPool(uint64_t seed, int n, const string& prop, uint64_t epoch) {
    seed += epoch * 1000003; candsMade = false; cands.clear(); Rng r(seed * 31337 + 5); docPool.clear(); bool wide = prop == "D02" || prop == "F04" || prop == "T02" || prop == "H01"; uint64_t row = seed * (uint64_t)n;     // wide: the property is about documents more than about schedules
    for (int i = 0; i < n; i++) {
        if (wide && r.chance(40)) { docPool.push_back((r.chance(12) ? "g:" : "h:") + to_string(row + i)); continue; }      // one after the other: the forms of the format in turn
        if (r.chance(wide ? 20 : 6)) { int q = r.below(10); docPool.push_back("e:" + to_string(r.below(100000)) + (q < 3 && !corpusNames.empty() ? ":c:" + corpusNames[r.below(corpusNames.size())] : q < 4 ? ":x:" + to_string(r.below(5000)) : q < 7 ? ":r:" + to_string(r.below(100000)) : ":h:" + to_string(r.below(100000)))); continue; }
        int k = r.below(20); string d;
        if (k < 5 && !corpusNames.empty()) d = "c:" + corpusNames[r.below(corpusNames.size())];
        else if (k < 6) d = "x:" + to_string(r.below(5000));
        else if (k < 8) d = "r:" + to_string(r.below(100000));
        else if (k < 9) d = "p:" + to_string(r.below(1000)) + (r.chance(50) ? (r.chance(50) ? ":x:" : ":r:") + to_string(r.below(5000)) : (r.chance(30) ? ":g:" : ":h:") + to_string(r.below(100000)));
        else if (prop == "F06" || prop == "F05" ? k < 11 && r.chance(60) : k == 10 && r.chance(10)) d = "n:" + to_string(r.below(48)) + (r.chance(50) ? ":x:" + to_string(r.below(5000)) : ":h:" + to_string(r.below(100000)));
        else if (k < 10) d = "b:" + to_string(r.below(10000)) + (r.chance(70) ? (r.chance(50) ? ":x:" : ":r:") + to_string(r.below(5000)) : ":h:" + to_string(r.below(100000)));
        else if (k < 14) d = (r.chance(25) ? "g:" : r.chance(wide ? 40 : 60) ? "r:" : "h:") + to_string(r.below(100000));
        else if (k < 18 && r.chance(45)) d = "q:" + to_string(r.chance(20) ? 0 : 1 + r.below(100000)) + (r.chance(65) ? ":r:" : r.chance(50) ? ":x:" : r.chance(60) ? ":h:" : ":e:" + to_string(r.below(1000)) + ":r:") + to_string(r.below(5000));
        else d = (k < 18 ? "s:" : "i:") + to_string(r.below(1000));
        docPool.push_back(d);
    }
}
static uint64_t strHash(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static std::unordered_set<uint64_t> oomDone; static std::unordered_set<uint32_t> oomUnder; static uint64_t worker = 0, workers = 1;
void initWorker(uint64_t k, uint64_t n) { worker = k; workers = n ? n : 1; } size_t oomSitesFailed() { return oomDone.size(); } size_t oomCallsFailed() { return oomUnder.size(); }
struct Gen {
    Rng r; bool deep; string prop;
    Gen(const string& p, uint64_t seed, bool d) : r(seed * 2654435761ull + strHash(p)), deep(d), prop(p) {}
    // a document that loads; big=false keeps it small enough for many interleavings
    string doc(bool allowScore = true, uint64_t maxSteps = 3000000, bool needGet = false) {
        for (int t = 0; t < 80 && diedDocs.size() < 3; t++) { const string& d = docPool[r.below(docPool.size())]; if (!allowScore && isScoreDoc(d)) continue; if (!isScoreDoc(d) && docBytes(d).size() > maxSteps / (d[0] == 'b' ? 10 : 150)) continue; GoldInfo g = goldInfo(d); if (g.ok && (!needGet || g.getOk) && g.create.steps + g.write.steps <= maxSteps) return d; }
        return "x:12";
    }
    string timewise(uint64_t maxSteps = 3000000) { for (int t = 0; t < 80 && diedDocs.size() < 3; t++) { const string& d = docPool[r.below(docPool.size())]; GoldInfo g = goldInfo(d); if (g.ok && g.timewise && g.create.steps <= maxSteps) return d; } return doc(true, maxSteps); }
    string ids() { for (int t = 0; t < 60 && diedDocs.size() < 3; t++) { const string& d = docPool[r.below(docPool.size())]; if (d[0] == 'i' && goldInfo(d).ok) return d; } return "i:" + to_string(1 + r.below(4)); }
    Op env(bool threads = true) {
        Op e("life"); e.set("sched", r.next() >> 20); if (threads) { int m = r.below(10); if (m < 3) { e.set("mode", 1); e.set("pts", r.range(1, 6)); e.set("span", 10000ll << r.below(11)); } else { e.set("mode", 0); e.set("mean", 100ll << r.below(13)); e.set("psync", (int)(r.below(4) * 15)); static const int ps[] = {0, 0, 1, 3, 10, 30}; e.set("pshared", ps[r.below(6)]); } }
        static const int fills[] = {0xCD, 0x00, 0xFF, 0x41, 0x7F}; e.set("fill", fills[r.below(5)]); if (r.chance(30)) e.set("clock", 946684800ll + (long long)r.below(3000000000ull)); if (r.chance(30)) e.set("tz", (int)r.below(8));
        if (r.chance(prop == "H01" || prop == "T02" || prop == "C02" ? 50 : 20)) e.set("quar", r.chance(70) ? 0 : 1 << r.below(9)); return e;
    }
    Op mk(const char* k) { return Op(k); }
    Op val() { Op o("val"); o.set("doc", "v:" + to_string(r.below(480))); return o; }
    Op create(int v, const string& d) { Op o("create"); o.set("v", v); o.set("doc", d); if (!isScoreDoc(d)) { if (r.chance(45)) { int k = r.below(10); o.set("src", k < 7 ? "file" : k < 9 ? "ifs" : "ss"); } delivery(o, 25); } return o; }
    void delivery(Op& o, int pct) {
        bool file = o.str("src") == "file" || o.str("src") == "ifs"; if (o.str("src") == "ss" || !r.chance(pct)) return;
        if (file) { if (r.chance(60)) o.set("rshort", 1 + r.below(100000)); if (r.chance(40)) o.set("eintr", r.range(1, 5)); if (r.chance(30)) o.set("stall", r.range(1, 9)); }
        else { if (r.chance(70)) o.set("chunk", r.chance(40) ? r.range(1, 9) : r.chance(50) ? r.range(10, 300) : r.range(300, 6000)); if (r.chance(40)) o.set("seek", 0); if (r.chance(20)) o.set("stall", r.range(1, 9)); if (r.chance(20)) o.set("exc", 1); if (r.chance(50)) o.set("sk", r.range(1, 3)); if (o.num("seek", 1) != 0 && r.chance(15)) o.set("off", r.range(1, 3000)); }
    }
    Op on(const char* k, int v) { Op o(k); o.set("v", v); if (string(k) == "write") { if (r.chance(30)) o.set("to", "file"); else if (r.chance(10)) ofs(o); } return o; }
    void ofs(Op& o) { o.set("to", "ofs"); if (r.chance(30)) o.set("unit", 1); }
    Op hop(const char* k, int h) { Op o(k); o.set("h", h); if ((string(k) == "hw" || string(k) == "hx") && r.chance(12)) ofs(o); if (string(k) == "hwalk") o.set("sel", (int)(r.chance(60) ? r.below(8) : r.below(32))); return o; }
    // Which allocation of an operation fails: the one whose call stack has the most call sites under which no earlier run of this worker failed an allocation; when there is none, one made from a call stack not failed before.
    long long oomNew(const OpProf& p) {
        size_t n = p.hash.size(), s = n ? r.below(n) : 0, best = n; int bs = 0;
        for (size_t i = 0; i < n; i++) { size_t k = (s + i) % n; int c = 0; for (auto pc : p.stk[k]) c += !oomUnder.count(pc); if (c > bs) { bs = c; best = k; } }
        if (best == n) for (size_t i = 0; i < n; i++) { size_t k = (s + i) % n; if (!oomDone.count(p.hash[k])) { if (p.hash[k] % workers == worker) { best = k; break; } if (best == n) best = k; } }
        if (best == n) return -1; oomDone.insert(p.hash[best]); oomUnder.insert(p.stk[best].begin(), p.stk[best].end()); return p.sites[best];
    }
    long long oomPos(const OpProf& p) { if (!p.allocs) return 0; int k = r.below(10); if (k < 7 && !p.sites.empty()) { long long s = p.sites[r.below(p.sites.size())]; return std::max(0ll, s + (r.chance(20) ? r.range(-1, 2) : 0)); } return (long long)r.below(p.allocs + 2); }
    void oom(Op& o, const string& d) {
        GoldInfo g = goldInfo(d); const OpProf* p = o.k == "create" || o.k == "val" ? &g.create : o.k == "write" ? &g.write : o.k == "get" ? &g.get : o.k == "hw" ? &g.hw : o.k == "hx" ? &g.hx : o.k == "geth" ? &g.geth : nullptr;
        long long n = p && r.chance(65) ? oomNew(*p) : -1; if (n >= 0) { o.set("oom", n); return; } n = p ? oomPos(*p) : (long long)r.below(6); if (o.k == "hwalk") n = r.below(40); o.set(r.chance(25) ? "ooms" : "oom", n);
    }
    void srcFault(Op& o, const string& d) {
        if (o.str("src") == "ss") o.a.erase("src"); size_t n = docBytes(d).size(); bool file = o.str("src") == "file" || o.str("src") == "ifs"; int k = r.below(file ? 5 : 4); long long at = (long long)(r.chance(15) ? 0 : r.chance(20) ? n - std::min<size_t>(n, r.below(20)) : r.below(n + 1)); static const int en[] = {5, 21, 75, 116};
        if (k == 0) o.set(file ? "rerr" : "err", at); else if (k == 1) { o.set(file ? "rerr" : "err", at); if (file) o.set("rerrno", en[r.below(4)]); else o.set("ekind", 1); } else if (k == 4) o.set("oerr", r.chance(50) ? 2 : 24); else o.set(file ? "reof" : "eof", at);
        if (!file && r.chance(40)) o.set("seek", 0); if (!file && r.chance(50)) o.set("chunk", r.range(1, 2000)); if (!file && r.chance(25)) o.set("exc", 1); if (file && r.chance(40)) o.set("rshort", 1 + r.below(100000));
    }
    void sinkFault(Op& o, const string& d) {
        GoldInfo g = goldInfo(d); size_t n = o.k == "hw" ? g.hBytes : g.wBytes; long long at = (long long)(r.chance(15) ? 0 : r.chance(25) ? n - std::min<size_t>(n, 1 + r.below(30)) : r.below(n + 1)); if (at >= (long long)n) at = n ? n - 1 : 0; static const int en[] = {28, 5, 27, 122};
        if (o.str("to") == "file" || o.str("to") == "ofs") { int k = r.below(12); if (o.str("to") == "ofs" && (k == 7 || k == 8)) k = 0; if (k < 5) { o.set("werr", at); o.set("werrno", en[r.below(4)]); } else if (k < 7) o.set("cerr", r.chance(50) ? 28 : 5); else if (k == 7) { o.set("werr", 0); o.set("werrno", 28); } else if (k == 8) o.set("nodir", 1); else if (k == 9) o.set("oerr", r.chance(50) ? 13 : 24); else if (k == 10) o.set("rlim", at); else { o.set("werr", at); o.set("cerr", 5); } if (r.chance(40)) o.set("wshort", 1 + r.below(100000)); if (r.chance(20)) o.set("eintr", r.range(1, 5)); }
        else { o.set("cap", at); o.set("skind", (int)r.below(3)); if (r.chance(20)) o.set("once", 1); if (r.chance(30)) o.set("exc", 1); }
    }
    void softSink(Op& o) { if (o.str("to") == "file" || o.str("to") == "ofs") { if (r.chance(50)) o.set("wshort", 1 + r.below(100000)); if (r.chance(40)) o.set("eintr", r.range(1, 5)); if (r.chance(20)) o.set("stall", r.range(1, 9)); } else if (r.chance(30)) o.set("stall", r.range(1, 9)); }
    Op badCreate(int v, const string& d0) { string d = isScoreDoc(d0) ? string("x:1") : d0; Op o("create"); o.set("v", v); o.set("doc", d); static const char* b[] = {"empty", "garbage", "root", "elem", "half", "metronome"}; if (prop == "F01" && r.chance(40)) { o.set("dmg", dmgSpec(d)); if (r.chance(30)) o.set("src", "file"); } else if (r.chance(25)) { o.set("src", "file"); o.set("missing", (int)r.below(9)); } else { o.set("bad", b[r.below(6)]); if (r.chance(40)) { o.set("src", "file"); if (r.chance(40)) o.set("ext", r.chance(60) ? "mxl" : r.chance(50) ? "" : "MXL.x"); } } return o; }
    string dmgSpec(const string& d) {
        static const char* k[] = {"flip", "set", "cut", "zero", "dup", "move", "trunc", "digit", "swap", "tagdel", "tagdup", "num", "num", "textdel", "textswap", "tagmove", "tagmove"}; string s; int n = r.chance(60) ? 1 : r.range(2, 5); size_t len = std::max<size_t>(1, docBytes(d).size());
        for (int i = 0; i < n; i++) { int w = r.chance(60) ? 7 + r.below(10) : r.below(11); if (!s.empty()) s += ","; s += string(k[w]) + ":" + to_string(r.below(len)) + ":" + to_string(w == 1 ? r.below(256) : r.below(100000)) + ":" + to_string(r.below(len)); } return s;
    }
    // reads of a live document
    Op anyRead(int v, int h, bool handle) { int k = r.below(handle ? 6 : 2); return k == 0 ? on("write", v) : k == 1 ? on("get", v) : k == 2 ? hop("hw", h) : k == 3 ? hop("hx", h) : k == 4 ? hop("hwalk", h) : on("write", v); }
};
// A sweep: the operations and allocations whose failure reaches most call sites that no earlier run of this worker reached, per unit of work (lazy greedy cover over the worker's documents).
static const char* sweepOps[] = {"create", "write", "get", "hw", "hx", "geth"};
static const OpProf& profFor(const GoldInfo& g, int k) { return k == 0 ? g.create : k == 1 ? g.write : k == 2 ? g.get : k == 3 ? g.hw : k == 4 ? g.hx : g.geth; }
static double candCost(const GoldInfo& g, int op) { return 60000.0 + (double)g.create.steps + (op ? (double)profFor(g, op).steps : 0); }
static int novelty(const OpProf& p) { int b = 0; for (auto& s : p.stk) { int c = 0; for (auto pc : s) c += !oomUnder.count(pc); b = std::max(b, c); } if (!b) for (auto h : p.hash) if (!oomDone.count(h)) return 0; return b ? b : -1; }
static double gain(const GoldInfo& g, int op) { int n = novelty(profFor(g, op)); return n < 0 ? 0 : (n ? n : 0.02) / candCost(g, op); }
static bool sweep(Gen& g, Life& l) {
    Rng& r = g.r; if (!candsMade) { candsMade = true; for (size_t d = 0; d < docPool.size(); d++) { GoldInfo i = goldInfo(docPool[d]); if (!i.ok || diedDocs.size() > 2) continue; for (int k = 0; k < 6; k++) if (!profFor(i, k).hash.empty()) cands.push_back({1e9, d, k}); } std::make_heap(cands.begin(), cands.end()); }
    while (!cands.empty()) { Cand& c = cands.front(); GoldInfo i = goldInfo(docPool[c.doc]); double u = gain(i, c.op); std::pop_heap(cands.begin(), cands.end()); if (u <= 0) { cands.pop_back(); continue; } bool fresh = u >= cands.back().ub * 0.9999; cands.back().ub = u; std::push_heap(cands.begin(), cands.end()); if (fresh) break; }
    if (cands.empty()) return false; size_t di = cands.front().doc; const string& d = docPool[di]; GoldInfo i = goldInfo(d); Op c0("create"); c0.set("v", 0); c0.set("doc", d); l.pre.push_back(c0); Op q = g.on("geth", 0); q.set("h", 0); l.pre.push_back(q); double spent = (double)i.create.steps;
    for (int n = 0; n < 6 && (n == 0 || spent < 4e6); n++) {
        int best = -1; double bg = 0; for (int k = 0; k < 6; k++) { double u = gain(i, k) * candCost(i, k) / (60000.0 + (double)profFor(i, k).steps); if (u > bg) { bg = u; best = k; } }
        if (best < 0 || (n && bg < cands.front().ub * 0.3)) break; Op o(sweepOps[best]); if (best == 0) { o.set("v", 10 + n); o.set("doc", d); } else if (best == 3 || best == 4) o.set("h", 0); else o.set("v", 0); if (best == 5) o.set("h", 10 + n); spent += (double)profFor(i, best).steps;
        long long at = g.oomNew(profFor(i, best)); if (at < 0) break; o.set("oom", at); l.pre.push_back(o); if (best == 0) { l.pre.push_back(g.on("get", 10 + n)); Op w("write"); w.set("v", 10 + n); l.pre.push_back(w); }
    }
    if (r.chance(50)) l.post.push_back(g.on("get", 0)); Op w("write"); w.set("v", 0); l.post.push_back(w); return true;
}
static void shareVars(Gen& g, std::vector<Op>& t, int self, int nv, std::vector<string>& vd, int n, int faultPct) {
    Rng& r = g.r; int mine = 10 + self * 10, mk = 0;
    for (int i = 0; i < n; i++) {
        int k = r.below(20); int v = r.chance(70) ? (int)r.below(nv) : mine + (mk ? (int)r.below(mk) : 0); if (r.chance(15)) v = 10 + (int)r.below(3) * 10 + (int)r.below(2); string d = v < nv ? vd[v] : vd[0]; Op o;
        if (k < 5) { string nd = g.doc(true, 1500000); o = g.create(mine + mk, nd); d = nd; mk++; } else if (k < 9) o = g.on("write", v); else if (k < 12) o = g.on("get", v); else if (k < 14) { o = g.on("geth", v); o.set("h", self * 4 + (int)r.below(2)); } else if (k < 15) o = g.hop("hw", self * 4 + (int)r.below(2)); else if (k < 18) o = g.on("destroy", v); else if (k < 19) o = Op("uid"); else { static const char* q[] = {"write", "get", "geth", "destroy"}; static const char* ids[] = {"#0", "#-1", "#-2147483648", "#2147483647", "#123", "#1000000", "#1000003", "#3", "#7"}; o = Op(q[r.below(4)]); o.set("v", ids[r.below(9)]); if (o.k == "geth") o.set("h", self * 4); }
        if (r.chance(faultPct) && !o.str("v").empty() && o.str("v")[0] != '#') { int f = r.below(3); if (f == 0 && o.k == "create" && !isScoreDoc(d)) { o.a.erase("chunk"); o.a.erase("rshort"); g.srcFault(o, d); } else if (f == 1 && o.k == "write") g.sinkFault(o, d); else if (o.k == "create" || o.k == "write" || o.k == "get" || o.k == "geth" || o.k == "hw") g.oom(o, d); }
        t.push_back(o);
    }
}

Scen genScen(const string& prop, uint64_t seed, bool thorough) {
    Gen g(prop, seed, thorough); Rng& r = g.r; Scen s; s.prop = prop; s.seed = seed; auto addLife = [&](bool th) -> Life& { s.lives.emplace_back(); s.lives.back().env = g.env(th); return s.lives.back(); };
    auto P = [&](const char* p) { return prop == p; };
    if (P("C01") || P("C04")) {
        Life& l = addLife(true); int nv = r.range(0, 3); std::vector<string> vd; bool faults = P("C04") || r.chance(40); for (int i = 0; i < nv; i++) { vd.push_back(g.doc(true, 1500000)); l.pre.push_back(g.create(i, vd[i])); } if (vd.empty()) vd.push_back("x:1");
        int nt = r.range(2, r.chance(20) ? 4 : 3); for (int t = 0; t < nt; t++) { l.thr.emplace_back(); shareVars(g, l.thr.back(), t, std::max(1, nv), vd, r.range(1, thorough ? 9 : 6), faults ? (P("C04") ? 50 : 25) : 0); if (P("C04") && r.chance(30)) l.thr.back().push_back(g.badCreate(50 + t, vd[0])); }
        for (int i = 0; i < nv; i++) { if (r.chance(60)) l.post.push_back(g.on(r.chance(50) ? "write" : "get", i)); if (r.chance(30)) { l.post.push_back(g.on("destroy", i)); l.post.push_back(g.on("get", i)); } } for (int t = 0; t < nt; t++) if (r.chance(50)) l.post.push_back(g.on("write", 10 + t * 10)); if (r.chance(40)) l.post.push_back(Op("ghost"));
        if (r.chance(P("C04") ? 30 : 8)) {      // one thread writes into a pipe another one loads from
            int a = r.below(nt), b = (a + 1 + r.below(nt - 1)) % nt; string d = g.doc(false, 1500000); Op w; if (r.chance(40)) { w = Op("feed"); w.set("doc", d); w.set("n", r.range(1, 8)); } else { l.pre.push_back(g.create(8, d)); w = Op("write"); w.set("v", 8); w.set("to", "pipe"); } w.set("pcap", 1ll << r.below(14)); Op c("create"); c.set("v", 45); c.set("doc", d); c.set("src", "pipe"); if (r.chance(30)) c.set("reent", r.range(1, 5)); if (P("C04") && r.chance(15)) g.oom(r.chance(50) || w.k == "feed" ? c : w, d);
            l.thr[a].insert(l.thr[a].begin() + r.below(l.thr[a].size() + 1), w); l.thr[b].insert(l.thr[b].begin() + r.below(l.thr[b].size() + 1), c); if (r.chance(30)) l.thr[b].push_back(g.on("destroy", 8)); l.post.push_back(g.on("write", 45));
        }
        if (P("C04") && r.chance(30)) for (auto& t : l.thr) for (auto& o : t) if (r.chance(40) && ((o.k == "create" && !o.has("src") && !isScoreDoc(o.str("doc"))) || ((o.k == "write" || o.k == "hw" || o.k == "hx") && !o.has("to")))) o.set("reent", r.range(1, 6));
        if (P("C04")) { string d = g.doc(true, 1500000); l.post.push_back(g.create(9, d)); l.post.push_back(g.on("write", 9)); l.post.push_back(Op("uid")); }
    } else if (P("C02")) {
        Life& l = addLife(true); int nt = r.range(2, r.chance(30) ? 4 : 3); bool same = r.chance(40); string one = g.doc(true, 2500000);
        for (int t = 0; t < nt; t++) { l.thr.emplace_back(); auto& o = l.thr.back(); int n = r.range(1, 2); for (int k = 0; k < n; k++) { int v = t * 8 + k, h = t * 4 + k; string d = same ? one : g.doc(true, 2500000); Op c = g.create(v, d); o.push_back(c); if (r.chance(40)) { Op q = g.on("geth", v); q.set("h", h); o.push_back(q); o.push_back(g.anyRead(v, h, true)); } o.push_back(g.on("get", v)); o.push_back(g.on("write", v)); if (r.chance(30)) o.push_back(g.anyRead(v, h, true)); if (r.chance(20)) o.push_back(Op("today")); if (r.chance(60)) o.push_back(g.on("destroy", v)); } }
        if (r.chance(30)) { bool only = r.chance(30); Op sm = g.val(); bool eq = r.chance(40); for (auto& t : l.thr) { if (only) t.clear(); int n = r.range(1, only ? 5 : 2); for (int k = 0; k < n; k++) t.insert(t.begin() + r.below(t.size() + 1), eq && r.chance(60) ? sm : g.val()); } }
    } else if (P("C03")) {
        Life& l = addLife(true); string d = r.chance(30) ? g.timewise() : g.doc(true, 2500000, r.chance(70)); l.pre.push_back(g.create(0, d)); l.pre.back().a.erase("stall"); bool hs = r.chance(90); if (hs) { Op q = g.on("geth", 0); q.set("h", 0); l.pre.push_back(q); } int nt = r.range(2, r.chance(30) ? 4 : 3); int style = r.below(4);
        for (int t = 0; t < nt; t++) { l.thr.emplace_back(); int n = r.range(1, 2); for (int k = 0; k < n; k++) { Op o = style == 0 ? g.hop("hwalk", 0) : style == 1 ? g.hop(r.chance(50) ? "hw" : "hx", 0) : g.anyRead(0, 0, hs); l.thr.back().push_back(o); } }
        l.post.push_back(g.on("write", 0)); if (r.chance(50)) l.post.push_back(g.on("get", 0)); if (hs) l.post.push_back(g.hop("hw", 0));
    } else if (P("C05")) {
        Life& l = addLife(true); int nt = r.range(2, 4); for (int i = 0; i < 2; i++) { l.pre.push_back(Op("uid")); if (r.chance(50)) l.pre.push_back(g.create(i, g.ids())); } if (r.chance(6)) { Op u("uid"); u.set("n", r.chance(50) ? r.range(100, 3000) : r.range(3000, 140000)); l.pre.push_back(u); }
        for (int t = 0; t < nt; t++) { l.thr.emplace_back(); int n = r.range(2, thorough ? 12 : 7); for (int k = 0; k < n; k++) { if (r.chance(65)) l.thr.back().push_back(Op("uid")); else { int v = 10 + t * 12 + k % 12; string d = g.ids(); Op c = g.create(v, d); if (r.chance(30)) g.oom(c, d); l.thr.back().push_back(c); l.thr.back().push_back(g.on("write", v)); if (r.chance(30)) l.thr.back().push_back(g.on("destroy", v)); } } }
        for (int i = 0; i < 2; i++) l.post.push_back(g.on("write", i)); l.post.push_back(Op("uid"));
    } else if (P("H01")) {
        bool th = r.chance(25); Life& l = addLife(th); string d = r.chance(45) ? g.timewise() : g.doc(true, 4000000); l.pre.push_back(g.create(0, d)); Op q = g.on("geth", 0); q.set("h", 0); l.pre.push_back(q); if (th) l.thr.resize(2); int n = r.range(2, 6);
        for (int i = 0; i < n; i++) { Op o = g.anyRead(0, 0, true); if (r.chance(45)) { int f = r.below(3); if (f == 0 && (o.k == "write" || o.k == "hw" || o.k == "hx")) g.sinkFault(o, d); else if (o.k != "hwalk" || r.chance(50)) g.oom(o, d); } if (th) l.thr[i % 2].push_back(o); else l.pre.push_back(o); }
        l.post.push_back(g.on("write", 0)); l.post.push_back(g.hop("hw", 0)); l.post.push_back(g.on("get", 0)); l.post.push_back(g.on("write", 0)); l.post.push_back(g.on("get", 0)); l.post.push_back(g.hop("hx", 0)); l.post.push_back(g.hop("hw", 0));
    } else if (P("H02")) {
        bool th = r.chance(70); Life& l = addLife(th); int nv = r.range(1, 3); std::vector<string> vd; for (int i = 0; i < nv; i++) { vd.push_back(r.chance(25) ? g.timewise(2000000) : g.doc(true, 2000000)); l.pre.push_back(g.create(i, vd[i])); int nh = r.range(1, 2); for (int k = 0; k < nh; k++) { Op q = g.on("geth", i); q.set("h", i * 2 + k); l.pre.push_back(q); } if (r.chance(30)) l.pre.push_back(g.anyRead(i, i * 2, true)); }
        int nt = th ? r.range(2, 3) : 1; std::vector<std::vector<Op>> t(nt); for (int k = 0; k < nt; k++) { int n = r.range(2, 5); for (int j = 0; j < n; j++) { int i = r.below(nv); int w = r.below(10); if (w < 3) t[k].push_back(g.on("destroy", i)); else if (w < 5) { int v = 10 + k * 10 + j; t[k].push_back(g.create(v, g.doc(true, 1000000))); if (r.chance(60)) t[k].push_back(g.on("destroy", v)); } else if (w < 6) { Op q = g.on("geth", i); q.set("h", 10 + k * 5 + j); t[k].push_back(q); t[k].push_back(g.hop("hw", 10 + k * 5 + j)); } else if (w < 7) t[k].push_back(g.anyRead(i, i * 2, false)); else { static const char* q[] = {"hw", "hx", "hwalk"}; t[k].push_back(g.hop(q[r.below(3)], i * 2)); } if (r.chance(12) && t[k].back().k != "hwalk" && t[k].back().k != "destroy") g.oom(t[k].back(), vd[i]); } }
        if (th) l.thr = t; else l.pre.insert(l.pre.end(), t[0].begin(), t[0].end());
        for (int i = 0; i < nv; i++) { if (r.chance(70)) l.post.push_back(g.on("destroy", i)); l.post.push_back(g.hop("hw", i * 2)); l.post.push_back(g.hop("hx", i * 2)); if (r.chance(50)) l.post.push_back(g.hop("hwalk", i * 2)); if (r.chance(50)) { Op o("relh"); o.set("h", i * 2 + 1); l.post.push_back(o); l.post.push_back(g.hop("hw", i * 2)); } l.post.push_back(g.on("write", i)); }
    } else if (P("H03")) {
        bool th = r.chance(35); Life& l = addLife(th); l.env.set("repeat", 3); int nt = th ? 2 : 1; std::vector<std::vector<Op>> t(nt);
        for (int k = 0; k < nt; k++) { int n = r.range(1, 3); for (int j = 0; j < n; j++) { int v = k * 8 + j, h = k * 8 + j; string d = r.chance(20) ? g.timewise(1200000) : g.doc(true, 1200000); Op c = g.create(v, d); int f = r.below(10); if (f < 2) g.oom(c, d); else if (f < 4 && !isScoreDoc(d)) { c.a.erase("chunk"); c.a.erase("rshort"); g.srcFault(c, d); } else if (f == 4 && !isScoreDoc(d)) c = g.badCreate(v, d); else if (f == 5 && !isScoreDoc(d)) { c.a.erase("chunk"); c.set("dmg", g.dmgSpec(d)); } t[k].push_back(c); if (r.chance(50)) { Op q = g.on("geth", v); q.set("h", h); t[k].push_back(q); } int m = r.below(4); for (int x = 0; x < m; x++) { Op o = g.anyRead(v, h, true); if (r.chance(50)) { if (r.chance(50) && (o.k == "write" || o.k == "hw")) g.sinkFault(o, d); else g.oom(o, d); } t[k].push_back(o); } if (r.chance(15)) { Op x("xload"); x.set("d", k); x.set("doc", isScoreDoc(d) ? string("x:1") : d); t[k].push_back(x); } if (r.chance(40)) t[k].push_back(g.on("destroy", v)); } }
        if (r.chance(25)) { Op o = g.val(); if (r.chance(50)) g.oom(o, o.str("doc")); t[0].push_back(o); }
        if (th) l.thr = t; else l.pre = t[0];
    } else if (P("F06") && r.chance(6)) {       // edits of an XML tree with failing allocations
        Life& l = addLife(false); Op x("xload"); x.set("d", 0); string sp = g.doc(false, 1500000); if (sp[0] != 'n' && r.chance(50)) sp = "n:" + to_string(r.below(20)) + ":" + sp; x.set("doc", sp); for (int i = r.below(4); i > 0; i--) { Op y = x; y.set("d", i); y.set(r.chance(70) ? "oom" : "ooms", (int)r.below(r.chance(50) ? 12 : 40)); l.pre.push_back(y); Op sv("xsave"); sv.set("d", i); sv.set("ol", 1); l.pre.push_back(sv); } l.pre.push_back(x); Op rt("xroot"); rt.set("d", 0); l.pre.push_back(rt); static const char* nv[] = {"child", "child", "child", "next", "abegin"}; static const char* mu[] = {"setname", "setvalue", "setvalue", "append", "append", "prepend", "insert", "aappend", "aprepend"}; auto mk = [&](const char* kk, const char* m) { Op y(kk); y.set("d", 0); y.set("m", m); y.set("n", (int)r.below(16)); y.set("k", (int)r.below(8)); return y; };
        int n = r.range(2, 9); for (int i = 0; i < n; i++) l.pre.push_back(mk("xe", nv[r.below(5)])); l.pre.push_back(mk("xe", "aappend")); int m = r.range(8, 60); for (int i = 0; i < m; i++) { static const char* dm[] = {"version", "hasalone", "alone", "hasdtd", "dtd"}; l.pre.push_back(r.chance(10) ? mk("xd", dm[r.below(5)]) : r.chance(80) ? mk("xe", mu[r.below(9)]) : mk("xa", r.chance(50) ? "setname" : "setvalue")); if (r.chance(60)) l.pre.back().set("len", r.chance(50) ? 40000 : r.range(20, 9000)); if (r.chance(75)) l.pre.back().set(r.chance(30) ? "ooms" : "oom", (int)r.below(6)); }
    } else if (P("F01") || P("F05") || P("F06")) {
        if (P("F01") && r.chance(20)) {      // loads that fail and loads that succeed, at the same time
            Life& l = addLife(true); int nt = r.range(2, 3), v = 1; l.pre.push_back(g.create(0, g.doc(true, 600000))); bool files = r.chance(60);
            for (int t = 0; t < nt; t++) { l.thr.emplace_back(); int n = r.range(1, 3); for (int k = 0; k < n; k++) { string d = g.doc(false, 600000); Op o = r.chance(50) ? g.badCreate(v, d) : g.create(v, d); if (o.has("bad") && r.chance(50)) o.set("bad", r.chance(70) ? "elem" : "root"); if (files && !o.has("src")) { o.set("src", "file"); o.a.erase("chunk"); o.a.erase("exc"); o.a.erase("seek"); } if (r.chance(10)) g.oom(o, d); l.thr.back().push_back(o); if (r.chance(30)) l.thr.back().push_back(g.on(r.chance(50) ? "write" : "get", v)); v++; } }
            int late = r.range(1, 3); for (int k = 0; k < late; k++) l.post.push_back(g.create(30 + k, g.doc(true, 600000))); for (int i = 0; i < v; i++) l.post.push_back(g.on(r.chance(50) ? "write" : "get", i)); for (int k = 0; k < late; k++) l.post.push_back(g.on("write", 30 + k)); l.post.push_back(Op("ghost")); return s;
        }
        bool sw = !P("F01") && r.chance(70); bool th = !sw && r.chance(P("F06") ? 10 : 25); Life& l = addLife(th); if (P("F05") && r.chance(30)) l.env.set("repeat", 2 + (int)r.below(2)); if (sw && sweep(g, l)) return s; int nv = r.range(1, 2); std::vector<string> vd; auto pickd = [&] { return r.chance(20) ? g.timewise(2500000) : g.doc(true, P("F06") ? 4000000 : 2500000); };
        for (int i = 0; i < nv; i++) { vd.push_back(pickd()); l.pre.push_back(g.create(i, vd[i])); if (r.chance(50)) { Op q = g.on("geth", i); q.set("h", i); l.pre.push_back(q); } }
        int nt = th ? 2 : 1; std::vector<std::vector<Op>> t(nt); for (int k = 0; k < nt; k++) { int n = r.range(1, P("F01") ? 3 : 4); for (int j = 0; j < n; j++) {
            bool isCreate = r.chance(50); string d = isCreate ? pickd() : vd[r.below(nv)]; int i = 0; for (int z = 0; z < nv; z++) if (vd[z] == d) i = z; int v = 10 + k * 10 + j; Op o = isCreate ? g.create(v, d) : r.chance(15) ? g.on("geth", i) : g.anyRead(i, i, true); if (o.k == "geth") o.set("h", 10 + k * 5 + j); bool file = o.str("src") == "file" || o.str("to") == "file"; (void)file; Op plain = o;
            if (P("F01") && r.chance(55)) { if (isCreate && !isScoreDoc(d)) { if (r.chance(35)) o = g.badCreate(v, d); else { o.a.erase("chunk"); o.a.erase("rshort"); g.srcFault(o, d); } } else if (o.k == "write" || o.k == "hw" || o.k == "hx") g.sinkFault(o, d); else g.oom(o, d); } else g.oom(o, d);
            if (!P("F01") && r.chance(12)) { o = plain = g.val(); isCreate = false; g.oom(o, o.str("doc")); }
            t[k].push_back(o); if (r.chance(P("F01") ? 75 : 35)) { if (isCreate) plain.set("v", v + 5); t[k].push_back(plain); if (isCreate) t[k].push_back(g.on(r.chance(50) ? "write" : "get", v + 5)); } if (isCreate && r.chance(40)) t[k].push_back(g.on(r.chance(50) ? "write" : "get", v)); } }
        if (th) l.thr = t; else l.pre.insert(l.pre.end(), t[0].begin(), t[0].end());
        for (int i = 0; i < nv; i++) { l.post.push_back(g.on("write", i)); l.post.push_back(g.on("get", i)); if (r.chance(40)) l.post.push_back(g.hop("hw", i)); } if (r.chance(40)) { string d = g.doc(true, 1500000); l.post.push_back(g.create(9, d)); l.post.push_back(g.on("write", 9)); } if (P("F01")) { l.post.push_back(Op("uid")); l.post.push_back(Op("ghost")); }
    } else if (P("F02")) {
        Life& l = addLife(false); int n = r.range(1, 3); for (int i = 0; i < n; i++) { string d = g.doc(false, 8000000); Op o("create"); o.set("v", i); o.set("doc", d); if (r.chance(50)) { int k = r.below(10); o.set("src", k < 6 ? "file" : k < 9 ? "ifs" : "ss"); } g.delivery(o, 100); l.pre.push_back(o); l.pre.push_back(g.on("write", i)); l.pre.push_back(g.on("get", i)); if (r.chance(30)) { Op q = g.on("geth", i); q.set("h", i); l.pre.push_back(q); l.pre.push_back(g.hop("hw", i)); } }
    } else if (P("F03")) {
        Life& l = addLife(false); int n = r.range(2, 5); for (int i = 0; i < n; i++) { string d = g.doc(false, 5000000); Op o("create"); o.set("v", i); o.set("doc", d); if (r.chance(50)) o.set("src", r.chance(70) ? "file" : "ifs"); g.srcFault(o, d); l.pre.push_back(o); }
    } else if (P("F04")) {
        Life& l = addLife(false); int n = r.range(1, 2); for (int i = 0; i < n; i++) { string d = r.chance(25) ? g.timewise(5000000) : g.doc(true, 6000000); l.pre.push_back(g.create(i, d)); Op q = g.on("geth", i); q.set("h", i); l.pre.push_back(q); int m = r.range(2, 5); for (int k = 0; k < m; k++) { int w = r.below(6); Op o = w < 4 ? g.on("write", i) : w == 4 ? g.hop("hw", i) : g.hop("hx", i); if (w < 3) o.set("to", "file"); if (r.chance(75)) g.sinkFault(o, d); else g.softSink(o); if (o.str("to") == "file" && r.chance(40)) o.set("path", "f" + to_string(r.below(2)) + ".xml"); l.pre.push_back(o); } }
    } else if (P("F07")) {
        Life& l = addLife(false); string keep = g.doc(true, 1000000); l.pre.push_back(g.create(0, keep)); int n = r.range(2, 5); for (int i = 1; i <= n; i++) { string d = g.doc(false, 3000000); Op o("create"); o.set("v", i); o.set("doc", d); o.set("dmg", g.dmgSpec(d)); if (r.chance(30)) o.set("src", "file"); if (r.chance(30) && !o.has("src")) o.set("chunk", r.range(1, 3000)); l.pre.push_back(o); Op q = g.on("geth", i); q.set("h", i); l.pre.push_back(q); int m = r.range(1, 4); for (int k = 0; k < m; k++) l.pre.push_back(g.anyRead(i, i, true)); if (r.chance(35)) { l.pre.push_back(g.hop("hconv", i)); l.pre.push_back(g.hop("hw", i)); if (r.chance(50)) { l.pre.push_back(g.hop("hconv", i)); l.pre.push_back(g.on("get", i)); } } if (r.chance(50)) l.pre.push_back(g.on("destroy", i)); }
        l.post.push_back(g.on("write", 0)); l.post.push_back(g.on("get", 0));
    } else if (P("D01")) {
        Life& a = addLife(false); string d = r.chance(20) ? g.timewise(5000000) : g.doc(true, 6000000); string old; a.pre.push_back(g.create(0, d)); int k = r.below(4); if (k >= 2) { old = g.doc(true, 3000000); Op sp("spit"); sp.set("path", "s.xml"); sp.set("doc", old); a.pre.push_back(sp); }
        Op w("write"); w.set("v", 0); w.set("to", "file"); w.set("path", "s.xml"); GoldInfo gi = goldInfo(d); bool ack = r.chance(35);
        if (!ack) { int c = r.below(3); if (c == 0) w.set("crash", (long long)r.below(gi.wBytes + 1)); else if (c == 1) w.set("cstep", (long long)r.below(gi.write.steps + 2)); else { w.set("crash", (long long)(gi.wBytes - std::min<size_t>(gi.wBytes, r.below(60)))); } if (r.chance(30)) w.set("wshort", 1 + r.below(100000)); if (r.chance(10)) w.set("eintr", r.range(1, 5)); a.pre.push_back(w); }
        else { g.softSink(w); a.pre.push_back(w); Op n = r.chance(50) ? g.create(1, g.doc(true, 2000000)) : g.on("get", 0); GoldInfo g2 = n.k == "create" ? goldInfo(n.str("doc")) : gi; n.set("cstep", (long long)r.below((n.k == "create" ? g2.create.steps : g2.get.steps) + 1)); a.pre.push_back(n); }
        Life& b = addLife(false); Op e("exists"); e.set("path", "s.xml"); e.set("doc", d); if (!old.empty()) e.set("old", old); if (ack) e.set("ack", 1); b.pre.push_back(e);
        if (r.chance(50)) { b.pre.push_back(g.create(0, d)); Op w2("write"); w2.set("v", 0); w2.set("to", "file"); w2.set("path", "s.xml"); b.pre.push_back(w2); Life& c = addLife(false); Op e2("exists"); e2.set("path", "s.xml"); e2.set("doc", d); e2.set("ack", 1); c.pre.push_back(e2); }
    } else if (P("D02")) {
        string d = r.chance(15) ? g.timewise(6000000) : g.doc(true, 9000000); if (r.chance(5)) for (auto& x : docPool) if (goldInfo(x).unsavable && docBytes(x).size() < 60000) { d = x; break; }     // a document that loads (or a score) and cannot be saved
        Life& a = addLife(false); a.pre.push_back(g.create(0, d)); bool viaH = false; auto save = [&](Life& l, const string& path) { bool h = r.chance(25); viaH = false; if (h) { Op q = g.on("geth", 0); q.set("h", 0); l.pre.push_back(q); } Op w(h ? r.chance(60) ? "hw" : "hx" : "write"); if (h) w.set("h", 0); else w.set("v", 0); if (h || r.chance(15)) g.ofs(w); else w.set("to", "file"); viaH = w.k == "hw"; w.set("path", path); g.softSink(w); l.pre.push_back(w); };
        if (r.chance(30) && goldInfo(d).ok) a.pre.push_back(g.on("get", 0)); save(a, "g0.xml"); int n = r.range(1, 3);
        for (int i = 0; i < n; i++) { Life& b = addLife(false); Op rl("reload"); rl.set("path", "g" + to_string(i) + ".xml"); rl.set("doc", d); rl.set("v", 0); if (viaH) rl.set("bytes", 0); if (r.chance(40)) rl.set("src", "stream"); if (r.chance(40)) { if (rl.has("src")) rl.set("chunk", r.range(1, 4000)); else rl.set("rshort", 1 + r.below(100000)); } b.pre.push_back(rl); save(b, "g" + to_string(i + 1) + ".xml"); }
    } else if (P("T01")) {
        bool th = r.chance(60); Life& l = addLife(th); l.env.set("tz", (int)r.below(8)); static const long long base[] = {1583020800, 1582934400, 951782400, 1709164800, 1704067200, 1577836800, 1604188800, 1583622000, 1572130800, 946684800, 1635638400, 0, 2147483647, 4102444800, 1616893200, 1667095200, 86400}; long long b = base[r.below(17)] + r.range(-3, 3) * 86400ll + (r.chance(50) ? r.range(-15, 15) * 3600ll - 1 : (long long)r.below(172800) - 86400); if (r.chance(20)) b = (long long)r.below(4000000000ull); l.env.set("clock", b); if (r.chance(60)) l.env.set("cstep", 1000ll << r.below(30)); if (r.chance(40)) { string j; int n = r.range(1, 4); for (int i = 0; i < n; i++) { if (i) j += ","; j += to_string(r.below(8)) + ":" + to_string((long long)r.range(-400, 400) * 86400 / (r.chance(50) ? 1 : 100) + r.range(-5000, 5000)); } l.env.set("jumps", j); }
        int nt = th ? r.range(2, 4) : 1; std::vector<std::vector<Op>> t(nt); for (int k = 0; k < nt; k++) { int n = r.range(1, 6); for (int i = 0; i < n; i++) { t[k].push_back(Op("today")); if (!th && r.chance(30)) { Op e("env"); if (r.chance(50)) e.set("clock", b + r.range(-800, 800) * 43200ll); else e.set("tz", (int)r.below(8)); t[k].push_back(e); } if (r.chance(25)) { Op e("env"); e.set("sleep", (long long)r.below(100000000)); t[k].push_back(e); } if (r.chance(10)) t[k].back().set("oom", (int)r.below(3)); if (r.chance(8)) t[k].push_back(g.create(k * 8 + i % 8, "s:" + to_string(r.below(20)))); } }
        if (th) l.thr = t; else l.pre = t[0];
    } else if (P("T02")) {
        bool th = r.chance(25); Life& l = addLife(th); if (r.chance(60)) l.env.set("locale", r.range(1, 3)); l.env.set("tz", (int)r.below(8)); l.env.set("clock", (long long)r.below(4000000000ull)); int n = r.range(2, 5); std::vector<std::vector<Op>> t(th ? 2 : 1);
        for (int i = 0; i < n; i++) { auto& o = t[i % t.size()]; string d = g.doc(true, 2500000); int k = r.below(10); if (k == 0) { Op e("env"); e.set("locale", (int)r.below(4)); o.push_back(e); } else if (k == 1 && !th) { Op e("env"); e.set("tz", (int)r.below(8)); e.set("clock", (long long)r.below(4000000000ull)); o.push_back(e); } else if (k == 2) o.push_back(g.badCreate(40, d)); else if (k == 3) { Op c = g.create(41, d); g.oom(c, d); o.push_back(c); } else if (k == 4 && !isScoreDoc(d)) { Op c = g.create(42, d); c.a.erase("chunk"); c.set("dmg", g.dmgSpec(d)); o.push_back(c); o.push_back(g.on("get", 42)); o.push_back(g.on("write", 42)); } int v = 2 * i; if (r.chance(25)) o.push_back(g.val()); Op c = g.create(v, d); if (r.chance(20)) g.delivery(c, 100); o.push_back(c); if (r.chance(60)) o.push_back(g.on("get", v)); if (r.chance(25)) { Op q = g.on("geth", v); q.set("h", v); o.push_back(q); o.push_back(g.hop(r.chance(70) ? "hw" : "hx", v)); } Op w = g.on("write", v); if (w.str("to") != "file" && r.chance(20)) w.set("osfmt", 1); o.push_back(w); if (r.chance(25)) o.push_back(g.on("destroy", v)); if (r.chance(25)) { o.push_back(g.create(v + 1, d)); o.push_back(g.on("get", v + 1)); } }
        if (th) l.thr = t; else l.pre = t[0];
    } else if (P("H04")) {                      // documents edited through their handles between reads, saves and failures
        bool th = r.chance(25); Life& l = addLife(th); int nt = th ? 2 : 1; std::vector<std::vector<Op>> t(nt); int budget = 24; bool faults = r.chance(60);
        for (int k = 0; k < nt; k++) {
            auto& o = t[k]; int nd = r.range(1, 2), next = k * 20 + 10; struct D { string cur, base; int v, h, depth; bool gone; }; std::vector<D> ds;
            for (int q = 0; q < nd; q++) { string d = q && r.chance(40) ? ds[0].base : r.chance(35) ? g.timewise(500000) : g.doc(true, 500000); int v = k * 20 + q; o.push_back(g.create(v, d)); Op y = g.on("geth", v); y.set("h", v); o.push_back(y); ds.push_back({d, d, v, v, 0, false}); budget--; }
            auto read = [&](D& x) { Op y = g.anyRead(x.v, x.h, true); if (faults && r.chance(20)) { if ((y.k == "write" || y.k == "hw" || y.k == "hx") && r.chance(50)) g.sinkFault(y, x.cur); else g.oom(y, x.cur); } o.push_back(y); };
            int n = r.range(4, 14); for (int i = 0; i < n; i++) {
                D& x = ds[r.below(nd)]; int w = r.below(100);
                if (w < 45) { if (x.depth >= 6 || budget <= 0) continue; string c = "w:" + to_string((strHash(x.cur) + r.below(x.depth ? 2 : 5) * 7919) % 100000) + ":" + x.cur; if (!goldInfo(c).ok) continue; Op y("hedit"); y.set("h", x.h); y.set("doc", c); if (faults && r.chance(20)) { y.set("oom", (int)r.below(6)); o.push_back(y); if (r.chance(50)) read(x); y.a.erase("oom"); } o.push_back(y); x.cur = c; x.depth++; budget--; if (r.chance(50)) read(x); }
                else if (w < 85) read(x);
                else if (w < 91 && next < k * 20 + 19) { int v = next++; o.push_back(g.create(v, x.base)); Op y = g.on(r.chance(50) ? "write" : "get", v); o.push_back(y); }     // what was edited is one document, not all that come from the same source
                else if (w < 94 && !x.gone) { o.push_back(g.on("destroy", x.v)); x.gone = true; }
                else if (w < 97) o.push_back(g.badCreate(60, x.base)); else o.push_back(Op("uid"));
            }
            for (auto& x : ds) { if (!x.gone) { o.push_back(g.on("write", x.v)); o.push_back(g.on("get", x.v)); } o.push_back(g.hop(r.chance(50) ? "hw" : "hx", x.h)); }
        }
        if (th) l.thr = t; else l.pre = t[0];
    } else if (P("E02")) {                      // histories of edits on XML trees of one or several threads
        bool th = r.chance(25); Life& l = addLife(th); int nt = th ? r.range(2, 3) : 1; bool faults = r.chance(75); std::vector<std::vector<Op>> t(nt);
        static const char* nv[] = {"child", "child", "child", "childpi", "next", "parent", "root", "clone", "attr", "attr"}; static const char* rd[] = {"name", "value", "type", "next", "parent", "child", "childpi", "attr", "null", "doc", "pi"}; static const char* mu[] = {"setname", "setvalue", "setvalue", "setvalue", "append", "append", "append", "prepend", "insert", "insert", "remove", "aappend", "aappend", "aprepend", "aremove", "aset"}; static const char* am[] = {"setvalue", "setvalue", "setname", "value", "name", "null"}; static const char* dm[] = {"version", "hasalone", "hasalone", "alone", "hasdtd", "dtd"};
        for (int k = 0; k < nt; k++) {
            auto& o = t[k]; int nd = r.range(1, 2), x = 0; auto readFault = [&](Op& y) { y.set(r.chance(50) ? "rerr" : "reof", (int)r.below(r.chance(50) ? 200 : 20000)); }; auto fault = [&](Op& y) { if (faults && r.chance(35)) y.set(r.chance(25) ? "ooms" : "oom", (int)r.below(r.chance(80) ? 5 : 40)); };
            for (int q = 0; q < nd; q++) {
                int d = k * 2 + q; Op ld("tload"); ld.set("d", d); if (r.chance(60)) { string sp = g.doc(false, r.chance(80) ? 300000 : 1000000); if (sp[0] != 'p' && sp[0] != 'n' && r.chance(30)) sp = "p:" + to_string(r.below(1000)) + ":" + sp; else if (sp[0] != 'n' && r.chance(25)) sp = "n:" + to_string(r.below(20)) + ":" + sp; if (r.chance(25)) sp = "o:" + to_string(r.below(1000)) + ":" + sp; ld.set("doc", sp); if (r.chance(40)) { ld.set("file", 1); if (faults && r.chance(40)) { Op bad = ld; readFault(bad); o.push_back(bad); } if (r.chance(40)) { if (r.chance(50)) ld.set("rshort", r.range(1, 60)); if (r.chance(50)) ld.set("eintr", r.range(1, 4)); } } } o.push_back(ld);
                int n = r.range(1, 10); for (int i = 0; i < n; i++) { Op y("te"); y.set("d", d); y.set("m", nv[r.below(10)]); y.set("n", (int)r.below(40)); y.set("k", (int)r.below(5)); o.push_back(y); }
            }
            int n = r.range(6, 50); for (int i = 0; i < n; i++) {
                int w = r.below(100); Op y(w < 8 ? "tsave" : w < 22 ? "ta" : w < 28 ? "td" : "te"); y.set("d", k * 2 + (int)r.below(nd)); y.set("n", (int)r.below(40)); if (w < 8) { if (r.chance(60)) { y.set("file", 1); if (faults && r.chance(50)) { switch (r.below(6)) { case 0: case 1: y.set("werr", (int)r.below(r.chance(50) ? 60 : 20000)); y.set("werrno", r.chance(50) ? ENOSPC : EIO); break; case 2: y.set("cerr", r.chance(50) ? EIO : ENOSPC); break; case 3: y.set("oerr", EACCES); break; case 4: readFault(y); break; default: break; } if (r.chance(30)) y.set("wshort", r.range(1, 60)); if (r.chance(20)) y.set("eintr", r.range(1, 4)); } } if (r.chance(30)) y.set("go", 1); if (r.chance(20)) y.set("enc", r.range(1, 2)); if (r.chance(20)) y.set("bom", (int)r.below(2)); }
                else { y.set("m", w < 22 ? am[r.below(6)] : w < 28 ? dm[r.below(6)] : w < 45 ? rd[r.below(11)] : w < 55 ? nv[r.below(10)] : mu[r.below(16)]); y.set("k", (int)r.below(5)); y.set("x", r.chance(8) && y.str("m") == "setvalue" ? -1 : (int)(k * 1000 + x++)); if (r.chance(25)) y.set("len", r.chance(15) ? 40000 : r.chance(50) ? r.range(1, 60) : r.range(60, 9000)); if (y.str("m") == "remove" && r.chance(20)) y.set("none", 1);  if ((y.str("m").compare(0, 5, "child") == 0 || y.str("m") == "attr") && r.chance(30)) y.set("back", 1); }
                if (r.chance(25)) y.set("look", 1); fault(y); o.push_back(y);
            }
            for (int q = 0; q < nd; q++) { Op y("tsave"); y.set("d", k * 2 + q); y.set("look", 1); o.push_back(y); }
        }
        if (th) l.thr = t; else l.pre = t[0];
    } else if (P("E01") && r.chance(30)) {      // threads that use handles on one document while another one releases it
        Life& l = addLife(true); int nu = r.range(1, 2); bool mut = nu == 1 && r.chance(50); Op x("xload"); x.set("d", 0); string spec = g.doc(false, 1500000); if (spec[0] != 'p' && r.chance(40)) spec = "p:" + to_string(r.below(1000)) + ":" + spec; x.set("doc", spec); l.pre.push_back(x);
        static const char* nv[] = {"child", "child", "childpi", "next", "begin", "abegin", "beginpi", "clone"}; static const char* rd[] = {"null", "type", "name", "value", "pi", "doc", "clone", "next", "begin", "beginpi", "end", "child", "childpi", "abegin", "aend", "type", "value"}; static const char* mu[] = {"setname", "setvalue", "append", "prepend", "remove", "aappend", "aprepend"}; static const char* im[] = {"payload", "star", "arrow", "inc", "incp", "eq", "copy", "star", "arrow"}; static const char* am[] = {"null", "name", "value", "setname", "setvalue"}; static const char* jm[] = {"star", "arrow", "inc", "incp", "eq", "copy"};
        for (int k = 0; k < nu; k++) {
            int d = k + 1; Op al("xalias"); al.set("d", d); al.set("of", 0); l.pre.push_back(al); Op rt("xroot"); rt.set("d", d); l.pre.push_back(rt); auto mk = [&](const char* kk, const char* m) { Op y(kk); y.set("d", d); y.set("m", m); y.set("n", (int)r.below(16)); y.set("k", (int)r.below(6)); return y; };
            int n = r.range(2, 8); for (int i = 0; i < n; i++) l.pre.push_back(mk("xe", nv[r.below(8)])); if (r.chance(50)) l.pre.push_back(mk("xe", "aappend"));
            auto use = [&](bool post) { int w = r.below(10); return w < 5 ? mk("xe", mut && r.chance(40) ? mu[r.below(7)] : rd[r.below(17)]) : w < 7 ? mk("xi", im[r.below(9)]) : w < 8 ? mk("xa", am[r.below(mut || post ? 5 : 3)]) : mk("xj", jm[r.below(6)]); };
            l.thr.emplace_back(); int m = r.range(2, 10); for (int i = 0; i < m; i++) { l.thr.back().push_back(use(false)); if (r.chance(4)) l.thr.back().back().set("oom", (int)r.below(3)); } m = r.range(2, 8); for (int i = 0; i < m; i++) l.post.push_back(use(true));
        }
        l.thr.emplace_back(); if (r.chance(30)) { Op y("xload"); y.set("d", 4); y.set("doc", spec); l.thr.back().push_back(y); } Op rel("xrel"); rel.set("d", 0); l.thr.back().push_back(rel); if (r.chance(50)) { Op y("xload"); y.set("d", 5); y.set("doc", spec); l.thr.back().push_back(y); }
    } else if (P("E01")) {
        bool th = r.chance(25); Life& l = addLife(th); int nt = th ? 2 : 1; std::vector<std::vector<Op>> t(nt), after(nt); static const char* em[] = {"null", "type", "name", "value", "pi", "doc", "clone", "parent", "next", "begin", "beginpi", "end", "child", "abegin", "aend", "setname", "setvalue", "append", "prepend", "insert", "remove", "aappend", "aprepend", "aremove"}; static const char* im[] = {"payload", "star", "arrow", "inc", "incp", "dec", "decp", "eq", "copy", "skip"}; static const char* am[] = {"null", "name", "value", "setname", "setvalue"}; static const char* jm[] = {"star", "arrow", "inc", "incp", "dec", "decp", "eq", "copy"};
        for (int k = 0; k < nt; k++) { int nd = r.range(1, 2); for (int q = 0; q < nd; q++) { int d = k * 4 + q; auto& o = t[k]; Op x("xload"); x.set("d", d); string spec = g.doc(false, 1500000); if (spec[0] != 'p' && r.chance(50)) spec = "p:" + to_string(r.below(1000)) + ":" + spec; x.set("doc", spec); o.push_back(x); Op rt("xroot"); rt.set("d", d); o.push_back(rt); auto use = [&](std::vector<Op>& dst, bool nav, bool mut) { int w = r.below(10); Op y; if (nav ? w < 8 : w < 5) { y = Op("xe"); if (nav && r.chance(75)) { static const char* nv[] = {"child", "child", "child", "childpi", "childpi", "next", "begin", "abegin", "end", "aend", "beginpi", "parent", "clone"}; y.set("m", nv[r.below(13)]); } else y.set("m", em[mut ? r.below(24) : r.below(15)]); y.set("k", (int)r.below(6)); } else if (w < 7) { y = Op("xi"); y.set("m", im[r.below(10)]); } else if (w < 8) { y = Op("xa"); y.set("m", am[r.below(5)]); } else { y = Op("xj"); y.set("m", jm[r.below(8)]); } y.set("d", d); y.set("n", (int)r.below(16)); dst.push_back(y); };
            int n = r.range(4, 14); bool mut = r.chance(50); if (r.chance(50)) { Op y("xe"); y.set("d", d); y.set("m", "aappend"); o.push_back(y); mut = true; } for (int i = 0; i < n; i++) { use(o, true, mut && r.chance(30)); if (r.chance(6)) o.back().set("oom", (int)r.below(4)); } if (!mut) { Op sv("xsave"); sv.set("d", d); o.push_back(sv); } Op rel("xrel"); rel.set("d", d); o.push_back(rel); if (r.chance(50)) { Op y("xload"); y.set("d", k * 4 + 3); y.set("doc", spec); o.push_back(y); } int m = r.range(3, 12); for (int i = 0; i < m; i++) { use(r.chance(70) ? o : after[k], false, true); auto& back = o.back(); if (back.k != "xload" && r.chance(5)) back.set("oom", (int)r.below(3)); } } }
        if (th) { l.thr = t; for (auto& a : after) l.post.insert(l.post.end(), a.begin(), a.end()); } else { l.pre = t[0]; l.post = after[0]; }
    }
    return s;
}
