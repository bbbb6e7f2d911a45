// r: documents. Typical MusicXML as notation programs write it, with everything mx::api reads:
// divisions that differ from part to part and change on the way, several voices and staves under
// odd numbers, spanners with their print attributes, layout, lyrics, key/time/clef changes anywhere.
#include "scen.h"
using namespace sim; using std::string; using std::to_string;
namespace {
struct Rich {
    Rng r; string s; int level;
    explicit Rich(uint64_t seed) : r(seed * 7368787 + 11) { level = r.range(1, 3); }
    bool ch(int p) { return r.chance(p); }
    template <size_t N> const char* one(const char* const (&w)[N]) { return w[r.below(N)]; }
    string num() { static const char* const w[] = {"0", "10", "-3.5", "12.25", "100", "0.125", "7", "-40"}; return one(w); }
    string txt() { static const char* const w[] = {"A", "dolce e legato", "caf\xC3\xA9", "x &lt; y &amp; z", "1.", "Violin \xE2\x99\xAD", "", " two  spaces ", "rit."}; return one(w); }
    string yn(const char* n, int p) { return ch(p) ? string(" ") + n + "=\"" + (ch(50) ? "yes" : "no") + "\"" : string(); }
    string att(const char* n, const string& v, int p) { return ch(p) ? string(" ") + n + "=\"" + v + "\"" : string(); }
    string pos(int p = 20) { return att("default-x", num(), p) + att("default-y", num(), p) + att("relative-x", num(), p) + att("relative-y", num(), p); }
    string place(int p = 25) { return ch(p) ? string(" placement=\"") + (ch(50) ? "above" : "below") + "\"" : string(); }
    string color(int p = 10) { static const char* const w[] = {"#FF0000", "#80FF00C0", "#000000", "#0A0B0C"}; return att("color", one(w), p); }
    string font(int p = 12) { static const char* const fs[] = {"12", "9.5", "large", "xx-small", "medium"}; return att("font-family", ch(50) ? "Times New Roman,serif" : "Maestro, engraved", p) + (ch(p) ? string(" font-style=\"") + (ch(50) ? "italic" : "normal") + "\"" : string()) + att("font-size", one(fs), p) + (ch(p) ? string(" font-weight=\"") + (ch(50) ? "bold" : "normal") + "\"" : string()); }
    string align(int p = 10) { static const char* const h[] = {"left", "center", "right"}; static const char* const v[] = {"top", "middle", "bottom", "baseline"}; return att("halign", one(h), p) + att("valign", one(v), p); }
    string print(int p = 12) { return pos(p) + font(p) + color(p); }
    string deco(int p = 8) { static const char* const e[] = {"none", "rectangle", "circle", "diamond"}; return att("justify", ch(50) ? "left" : "center", p) + att("underline", to_string(r.below(4)), p) + att("overline", to_string(r.below(4)), p) + att("rotation", num(), p) + att("letter-spacing", ch(50) ? "normal" : "1.5", p) + att("line-height", ch(50) ? "normal" : "120", p) + att("xml:lang", "de", p) + att("dir", ch(50) ? "ltr" : "rtl", p) + att("enclosure", one(e), p); }
    string line(int p = 15) { static const char* const w[] = {"solid", "dashed", "dotted", "wavy"}; return att("line-type", one(w), p) + att("dash-length", num(), p / 2) + att("space-length", num(), p / 2); }
    string bez(int p = 12) { return att("orientation", ch(50) ? "over" : "under", p) + att("bezier-offset", num(), p) + att("bezier-offset2", num(), p) + att("bezier-x", num(), p) + att("bezier-y", num(), p) + att("bezier-x2", num(), p) + att("bezier-y2", num(), p); }
    string sss() { static const char* const w[] = {"start", "stop", "continue"}; return string(" type=\"") + w[ch(45) ? 0 : ch(80) ? 1 : 2] + "\""; }
    string nbr(int p = 60) { return att("number", to_string(r.range(1, ch(85) ? 2 : 6)), p); }
    string el(const char* n, const string& a = "", const string& body = "\x01") { return "<" + string(n) + a + (body == "\x01" ? string("/>") : ">" + body + "</" + n + ">"); }

    string notations() {
        string o = "<notations" + yn("print-object", 4) + ">"; int n = r.range(1, 4);
        for (int i = 0; i < n; i++) switch (r.below(13)) {
        case 0: case 1: o += el("tied", sss() + nbr(30) + line() + place() + bez() + color() + pos(8)); break;
        case 2: case 3: o += el("slur", sss() + nbr() + line() + place() + bez() + color() + pos(8)); break;
        case 4: { static const char* const sn[] = {"actual", "both", "none"}; static const char* const ls[] = {"straight", "curved", "straight"}; o += "<tuplet type=\"" + string(ch(60) ? "start" : "stop") + "\"" + nbr() + yn("bracket", 40) + att("show-number", one(sn), 40) + att("show-type", one(sn), 30) + att("line-shape", one(ls), 20) + place() + pos(8) + ">"; if (ch(50)) { o += "<tuplet-actual><tuplet-number" + font() + ">3</tuplet-number><tuplet-type>eighth</tuplet-type>" + string(ch(30) ? "<tuplet-dot/>" : "") + "</tuplet-actual>"; if (ch(70)) o += "<tuplet-normal><tuplet-number>2</tuplet-number><tuplet-type>eighth</tuplet-type>" + string(ch(20) ? "<tuplet-dot/><tuplet-dot/>" : "") + "</tuplet-normal>"; } o += "</tuplet>"; break; }
        case 5: o += el(ch(50) ? "glissando" : "slide", sss().replace(7, string::npos, ch(50) ? "start\"" : "stop\"") + nbr() + line() + print(), ch(50) ? txt() : "\x01"); break;
        case 6: { o += "<ornaments>"; int k = r.range(1, 3); while (k--) { static const char* const w[] = {"trill-mark", "turn", "delayed-turn", "inverted-turn", "delayed-inverted-turn", "vertical-turn", "shake", "mordent", "inverted-mordent", "schleifer"}; if (ch(15)) o += "<tremolo type=\"" + string(ch(60) ? "single" : ch(50) ? "start" : "stop") + "\"" + place() + ">" + to_string(r.below(6)) + "</tremolo>"; else if (ch(15)) o += el("wavy-line", sss() + nbr() + place()); else if (ch(8)) o += el("other-ornament", place(), txt()); else o += el(one(w), print(6) + place() + yn("slash", 10)); if (ch(30)) { static const char* const a[] = {"sharp", "flat", "natural", "double-sharp", "quarter-flat"}; o += el("accidental-mark", place(), one(a)); } } o += "</ornaments>"; break; }
        case 7: { o += "<technical>"; int k = r.range(1, 3); while (k--) { static const char* const w[] = {"up-bow", "down-bow", "open-string", "thumb-position", "double-tongue", "triple-tongue", "stopped", "snap-pizzicato", "heel", "toe", "fingernails"}; switch (r.below(8)) { case 0: o += el("fingering", yn("substitution", 20) + yn("alternate", 20) + print(6) + place(), to_string(r.range(0, 5))); break; case 1: o += el("string", place(), to_string(r.range(1, 6))); break; case 2: o += el("fret", font(), to_string(r.range(0, 24))); break; case 3: o += el(ch(50) ? "hammer-on" : "pull-off", " type=\"" + string(ch(50) ? "start" : "stop") + "\"" + nbr(), ch(50) ? "H" : ""); break; case 4: o += "<harmonic" + place() + ">" + (ch(50) ? ch(50) ? "<natural/>" : "<artificial/>" : "") + (ch(40) ? ch(50) ? "<base-pitch/>" : "<touching-pitch/>" : "") + "</harmonic>"; break; case 5: if (ch(50)) o += "<bend><bend-alter>" + num() + "</bend-alter>" + string(ch(30) ? "<pre-bend/>" : ch(50) ? "<release/>" : "") + "</bend>"; else if (ch(50)) o += el("pluck", place(), "p"); else o += "<hole><hole-type>x</hole-type><hole-closed location=\"left\">half</hole-closed></hole>"; break; default: o += el(one(w), print(6) + place()); } } o += "</technical>"; break; }
        case 8: { o += "<articulations>"; int k = r.range(1, 4); while (k--) { static const char* const w[] = {"accent", "strong-accent", "staccato", "tenuto", "detached-legato", "staccatissimo", "spiccato", "scoop", "plop", "doit", "falloff", "breath-mark", "caesura", "stress", "unstress"}; const char* x = one(w); if (ch(5)) o += el("other-articulation", place(), txt()); else o += el(x, print(6) + place() + (x[0] == 's' && x[2] == 'r' && x[3] == 'o' && ch(60) ? " type=\"down\"" : ""), x[0] == 'b' && ch(50) ? (ch(50) ? "comma" : "") : "\x01"); } o += "</articulations>"; break; }
        case 9: o += dynamics(); break;
        case 10: { static const char* const f[] = {"normal", "angled", "square", ""}; o += el("fermata", (ch(60) ? string(" type=\"") + (ch(50) ? "upright" : "inverted") + "\"" : string()) + print(8), ch(60) ? one(f) : "\x01"); break; }
        case 11: o += ch(60) ? el("arpeggiate", nbr(30) + (ch(40) ? " direction=\"down\"" : "") + place() + color()) : el("non-arpeggiate", string(" type=\"") + (ch(50) ? "top" : "bottom") + "\"" + nbr(30)); break;
        case 12: o += ch(50) ? el("accidental-mark", place(), "natural") : dynamics(); break;
        }
        return o + "</notations>";
    }
    string dynamics() { static const char* const w[] = {"p", "pp", "ppp", "pppp", "ppppp", "pppppp", "f", "ff", "fff", "ffff", "fffff", "ffffff", "mp", "mf", "sf", "sfp", "sfpp", "fp", "rf", "rfz", "sfz", "sffz", "fz"}; string o = "<dynamics" + print() + place() + align() + deco(4) + ">"; int n = ch(85) ? 1 : 2; while (n--) o += ch(8) ? el("other-dynamics", "", txt()) : el(one(w)); return o + "</dynamics>"; }
    string lyric(int n) {
        static const char* const sy[] = {"single", "begin", "middle", "end"}; string o = "<lyric" + att("number", ch(85) ? to_string(n) : "verse 2", 85) + att("name", "chorus", 8) + pos(8) + place(10) + color(6) + yn("print-object", 4) + att("justify", "center", 8) + ">";
        int k = r.below(12); if (k == 0) o += "<extend/>"; else if (k == 1) o += "<laughing/>"; else if (k == 2) o += "<humming/>"; else { if (ch(80)) o += el("syllabic", "", one(sy)); o += el("text", font(8) + deco(3), txt()); if (ch(12)) { o += el("elision", "", ch(50) ? "_" : "\xE2\x80\xBF"); if (ch(50)) o += el("syllabic", "", one(sy)); o += el("text", "", txt()); } if (ch(20)) o += ch(50) ? "<extend/>" : "<extend type=\"start\"/>"; }
        if (ch(5)) o += "<end-line/>"; if (ch(4)) o += "<end-paragraph/>"; return o + "</lyric>";
    }
    string rests;
    string note(int div, int& dur, bool chordOk, const string& voice, int staff) {
        static const char* const ty[] = {"256th", "128th", "64th", "32nd", "16th", "eighth", "quarter", "half", "whole", "breve", "long"}; int t = ch(80) ? r.range(4, 8) : r.range(0, 10); int d = t >= 6 ? div << (t - 6) : div >> (6 - t); if (d < 1) d = 1; bool dot = ch(12); if (dot && d % 2 == 0) d += d / 2; bool tup = ch(12); int an = 3, nn = 2; if (tup) { static const int a[] = {3, 5, 6, 7, 9}; static const int b[] = {2, 4, 4, 4, 8}; int q = r.below(5); an = a[q]; nn = b[q]; d = std::max(1, d * nn / an); }
        bool cue = ch(3), grace = !cue && ch(7), rest = !grace && ch(14), chord = chordOk && ch(22) && !rest;
        string o = "<note" + print(5) + att("dynamics", num(), 4) + att("end-dynamics", "20", 2) + att("attack", "5", 3) + att("release", "-5", 3) + yn("print-object", 4) + yn("print-dot", 2) + yn("print-spacing", 2) + yn("print-lyric", 2) + yn("pizzicato", 2) + att("time-only", "1,2", 2) + ">";
        if (grace) o += el("grace", yn("slash", 50) + att("steal-time-previous", "10", 10) + att("steal-time-following", "25.5", 10) + att("make-time", "4", 6)); if (cue) o += "<cue/>"; if (chord) o += "<chord/>";
        if (rest) o += el("rest", yn("measure", 25), ch(20) ? "<display-step>B</display-step><display-octave>4</display-octave>" : "\x01"); else if (ch(6)) o += el("unpitched", "", ch(70) ? "<display-step>E</display-step><display-octave>5</display-octave>" : "\x01"); else { static const char* const al[] = {"1", "-1", "0", "2", "-2", "0.5", "-1.5", "3"}; o += "<pitch><step>" + string(1, "ABCDEFG"[r.below(7)]) + "</step>" + (ch(30) ? el("alter", "", one(al)) : string()) + "<octave>" + to_string(r.range(0, 9)) + "</octave></pitch>"; }
        if (!grace) { string ds = to_string(d); if (ch(3)) ds += ".5"; o += el("duration", "", ds); if (!chord && !cue) dur += d; else if (!chord) dur += d; }
        if (!cue) { if (ch(12)) o += el("tie", " type=\"stop\""); if (ch(12)) o += el("tie", " type=\"start\""); } if (ch(4)) o += "<instrument id=\"P1-I1\"/>"; if (ch(3)) o += el("footnote", print(5), txt()); if (ch(3)) o += el("level", yn("reference", 50) + yn("parentheses", 50), "1"); if (!voice.empty()) o += el("voice", "", voice);
        if (ch(88)) o += el("type", ch(6) ? " size=\"cue\"" : "", ty[t]); if (dot) o += el("dot", print(4) + place(8)); if (dot && ch(20)) o += "<dot/>";
        if (!rest && ch(14)) { static const char* const a[] = {"sharp", "natural", "flat", "double-sharp", "sharp-sharp", "flat-flat", "natural-sharp", "natural-flat", "quarter-flat", "quarter-sharp", "three-quarters-flat", "three-quarters-sharp", "sharp-down", "sharp-up", "slash-flat", "sori", "koron"}; o += el("accidental", yn("cautionary", 15) + yn("editorial", 15) + yn("parentheses", 15) + yn("bracket", 10) + (ch(6) ? " size=\"cue\"" : "") + print(4), one(a)); }
        if (tup || ch(3)) o += "<time-modification><actual-notes>" + to_string(an) + "</actual-notes><normal-notes>" + to_string(nn) + "</normal-notes>" + (ch(30) ? "<normal-type>eighth</normal-type>" + string(ch(30) ? "<normal-dot/>" : "") : "") + "</time-modification>";
        if (!rest && ch(35)) { static const char* const st[] = {"up", "down", "none", "double"}; o += el("stem", pos(10) + color(4), one(st)); } if (!rest && ch(8)) { static const char* const nh[] = {"x", "diamond", "slash", "normal", "none", "triangle", "square", "cross", "circle-x", "do", "mi", "cluster", "circled"}; o += el("notehead", yn("filled", 25) + yn("parentheses", 25) + color(8) + font(4), one(nh)); } if (ch(2)) o += "<notehead-text><display-text>A</display-text><accidental-text>flat</accidental-text></notehead-text>";
        if (staff) o += el("staff", "", to_string(staff)); if (!rest && ch(22)) { int n = r.range(1, 3); static const char* const b[] = {"begin", "continue", "end", "forward hook", "backward hook"}; for (int i = 1; i <= n; i++) o += el("beam", " number=\"" + to_string(i) + "\"" + yn("repeater", 3) + (ch(4) ? " fan=\"accel\"" : "") + color(3), one(b)); }
        int nn2 = ch(30) ? ch(15) ? 2 : 1 : 0; while (nn2--) o += notations(); int nl = ch(14) ? r.range(1, 3) : 0; for (int i = 1; i <= nl; i++) o += lyric(i); return o + "</note>";
    }
    string clef(int staff) { static const char* const sg[] = {"<sign>G</sign><line>2</line>", "<sign>F</sign><line>4</line>", "<sign>C</sign><line>3</line>", "<sign>C</sign><line>4</line>", "<sign>percussion</sign>", "<sign>TAB</sign><line>5</line>", "<sign>G</sign>", "<sign>jianpu</sign>", "<sign>none</sign>", "<sign>F</sign><line>3</line>", "<sign>G</sign><line>1</line>"}; return "<clef" + (staff ? " number=\"" + to_string(staff) + "\"" : string()) + yn("additional", 4) + att("size", ch(50) ? "cue" : "full", 5) + yn("after-barline", 6) + print(3) + yn("print-object", 3) + ">" + one(sg) + (ch(18) ? "<clef-octave-change>" + to_string(r.range(-2, 2)) + "</clef-octave-change>" : "") + "</clef>"; }
    string key(int staff) { string o = "<key" + (staff ? " number=\"" + to_string(staff) + "\"" : string()) + print(3) + yn("print-object", 3) + ">"; if (ch(10)) { o += "<key-step>F</key-step><key-alter>1</key-alter>"; if (ch(50)) o += "<key-accidental>sharp</key-accidental>"; if (ch(60)) o += "<key-step>B</key-step><key-alter>-1</key-alter>"; } else { static const char* const md[] = {"major", "minor", "dorian", "none", "locrian", "ionian"}; if (ch(20)) o += "<cancel" + string(ch(40) ? " location=\"right\"" : "") + ">" + to_string(r.range(-7, 7)) + "</cancel>"; o += "<fifths>" + to_string(r.range(-7, 7)) + "</fifths>"; if (ch(60)) o += el("mode", "", one(md)); } if (ch(5)) o += "<key-octave number=\"1\" cancel=\"no\">4</key-octave>"; return o + "</key>"; }
    string time(int staff) { static const char* const sy[] = {"common", "cut", "single-number", "note", "dotted-note", "normal"}; string o = "<time" + (staff && ch(50) ? " number=\"" + to_string(staff) + "\"" : string()) + att("symbol", one(sy), 25) + print(3) + yn("print-object", 3) + ">"; if (ch(6)) o += ch(50) ? "<senza-misura/>" : "<senza-misura>X</senza-misura>"; else { static const char* const bt[] = {"4", "3", "2", "6", "12", "3+2", "5"}; static const char* const ba[] = {"4", "8", "2", "16", "1"}; int n = ch(88) ? 1 : 2; while (n--) o += string("<beats>") + one(bt) + "</beats><beat-type>" + one(ba) + "</beat-type>"; if (ch(5)) o += "<interchangeable symbol=\"common\"><time-relation>equals</time-relation><beats>6</beats><beat-type>8</beat-type></interchangeable>"; } return o + "</time>"; }
    string attributes(int& div, int staves, bool first, bool newDiv) {
        string o = "<attributes>"; if (ch(2)) o += el("footnote", "", txt()); if (first || newDiv) o += "<divisions>" + to_string(div) + "</divisions>"; int per = staves > 1 && ch(40) ? staves : 0;
        if (first ? ch(85) : ch(40)) { if (per) for (int k = 1; k <= per; k++) o += key(k); else o += key(staves > 1 && ch(20) ? r.range(1, staves) : 0); } if (first ? ch(90) : ch(30)) o += time(staves > 1 ? r.below(staves + 1) : 0); if (first && staves > 1) o += "<staves>" + to_string(staves) + "</staves>"; if (first && ch(6)) o += "<part-symbol top-staff=\"1\">brace</part-symbol>"; if (ch(3)) o += "<instruments>2</instruments>";
        if (first) for (int k = 1; k <= staves; k++) { if (ch(90)) o += clef(staves > 1 || ch(20) ? k : 0); } else if (ch(50)) { int n = ch(80) ? 1 : 2; while (n--) o += clef(staves > 1 ? r.range(1, staves) : ch(20) ? 1 : 0); }
        if (ch(8)) { o += "<staff-details" + (staves > 1 ? " number=\"" + to_string(r.range(1, staves)) + "\"" : string()) + " show-frets=\"numbers\"" + yn("print-object", 20) + ">" + (ch(40) ? "<staff-type>ossia</staff-type>" : "") + "<staff-lines>" + to_string(r.range(1, 6)) + "</staff-lines>" + (ch(40) ? "<staff-tuning line=\"1\"><tuning-step>E</tuning-step><tuning-octave>2</tuning-octave></staff-tuning><capo>2</capo>" : "") + (ch(30) ? "<staff-size>75</staff-size>" : "") + "</staff-details>"; }
        if (ch(10)) o += "<transpose><diatonic>-1</diatonic><chromatic>" + to_string(r.range(-12, 12)) + "</chromatic>" + (ch(30) ? "<octave-change>-1</octave-change>" : "") + (ch(15) ? "<double/>" : "") + "</transpose>"; if (ch(2)) o += "<directive xml:lang=\"it\">Tempo</directive>"; if (ch(6)) { static const char* const ms[] = {"<multiple-rest use-symbols=\"no\">4</multiple-rest>", "<measure-repeat type=\"start\" slashes=\"1\">1</measure-repeat>", "<beat-repeat type=\"stop\"/>", "<slash type=\"start\" use-stems=\"yes\"><slash-type>quarter</slash-type></slash>"}; o += string("<measure-style") + (staves > 1 && ch(50) ? " number=\"1\"" : "") + ">" + one(ms) + "</measure-style>"; }
        return o + "</attributes>";
    }
    string sound() { string o = "<sound" + att("tempo", to_string(r.range(20, 300)) + (ch(20) ? ".5" : ""), 60) + att("dynamics", num().replace(0, 1, "5"), 20) + yn("dacapo", 8) + att("segno", "s1", 6) + att("dalsegno", "s1", 6) + att("coda", "c1", 6) + att("tocoda", "c1", 6) + att("fine", "yes", 6) + yn("forward-repeat", 6) + att("divisions", "4", 4) + yn("pizzicato", 4) + att("pan", "-30", 4) + att("elevation", "10", 3) + yn("damper-pedal", 4) + yn("soft-pedal", 4) + yn("sostenuto-pedal", 4) + att("time-only", "1", 3) + ">"; if (ch(15)) o += "<midi-instrument id=\"P1-I1\"><midi-program>5</midi-program></midi-instrument>"; if (ch(8)) o += "<offset>1</offset>"; return o + "</sound>"; }
    string dtype() {
        switch (r.below(20)) {
        case 0: case 1: return el("words", print() + align() + deco(), txt()) + (ch(15) ? el("words", print(), txt()) : "");
        case 2: case 3: return dynamics();
        case 4: { static const char* const t[] = {"crescendo", "diminuendo", "stop", "continue"}; return el("wedge", string(" type=\"") + one(t) + "\"" + nbr() + att("spread", ch(50) ? "0" : "15", 40) + yn("niente", 10) + line() + pos() + color()); }
        case 5: { static const char* const bu[] = {"quarter", "eighth", "half", "16th", "whole"}; string o = "<metronome" + yn("parentheses", 25) + print(6) + align(5) + ">"; if (ch(15)) o += "<metronome-note><metronome-type>quarter</metronome-type><metronome-dot/></metronome-note><metronome-relation>equals</metronome-relation><metronome-note><metronome-type>eighth</metronome-type><metronome-beam number=\"1\">begin</metronome-beam></metronome-note>"; else { o += el("beat-unit", "", one(bu)); if (ch(25)) o += "<beat-unit-dot/>"; static const char* const pm[] = {"96", "c. 108", "72.5", ""}; if (ch(65)) o += el("per-minute", font(5), one(pm)); else { o += el("beat-unit", "", one(bu)); if (ch(25)) o += "<beat-unit-dot/>"; } } return o + "</metronome>"; }
        case 6: { static const char* const t[] = {"up", "down", "stop", "continue"}; return el("octave-shift", string(" type=\"") + one(t) + "\"" + nbr() + att("size", ch(60) ? "8" : ch(50) ? "15" : "22", 60) + line() + print(6)); }
        case 7: { static const char* const t[] = {"start", "stop", "change", "continue"}; return el("pedal", string(" type=\"") + one(t) + "\"" + yn("line", 40) + yn("sign", 40) + print(6) + align(5)); }
        case 8: { static const char* const t[] = {"start", "stop"}; return el("dashes", string(" type=\"") + one(t) + "\"" + nbr() + line() + pos(10)); }
        case 9: { static const char* const e[] = {"up", "down", "both", "arrow", "none"}; return el("bracket", sss() + nbr() + string(" line-end=\"") + one(e) + "\"" + att("end-length", "12.5", 30) + line() + pos(10) + color(6)); }
        case 10: { string a = print() + align(); int n = ch(85) ? 1 : 2; string o; while (n--) o += el("segno", a); return o; }
        case 11: return el("coda", print() + align());
        case 12: return el("rehearsal", print() + align() + deco(), ch(50) ? "A" : txt()) + (ch(10) ? el("rehearsal", "", "B") : "");
        case 13: { static const char* const m[] = {"<eyeglasses/>", "<damp/>", "<damp-all/>", "<string-mute type=\"on\"/>", "<scordatura><accord string=\"1\"><tuning-step>D</tuning-step><tuning-octave>3</tuning-octave></accord></scordatura>", "<harp-pedals><pedal-tuning><pedal-step>D</pedal-step><pedal-alter>-1</pedal-alter></pedal-tuning></harp-pedals>", "<image source=\"a.png\" type=\"image/png\"/>", "<principal-voice type=\"start\" symbol=\"Hauptstimme\">x</principal-voice>", "<accordion-registration><accordion-high/><accordion-middle>2</accordion-middle></accordion-registration>"}; return one(m); }
        case 14: return el("words", deco(20), txt());
        case 15: return el("other-direction", print(6), txt());
        default: return el("words", print(5), txt());
        }
    }
    string direction(int staves, int div) { string o = "<direction" + place(60) + yn("directive", 10) + ">"; int n = ch(80) ? 1 : r.range(2, 3); while (n--) o += "<direction-type>" + dtype() + "</direction-type>"; if (ch(25)) o += el("offset", yn("sound", 30), to_string(r.range(-div, 2 * div))); if (ch(2)) o += el("footnote", "", txt()); if (ch(40)) o += el("voice", "", to_string(r.range(1, 4))); if (staves > 1 ? ch(80) : ch(20)) o += el("staff", "", to_string(r.range(1, staves))); if (ch(25)) o += sound(); return o + "</direction>"; }
    string harmony(int staves, int div) { static const char* const k[] = {"major", "minor", "augmented", "diminished", "dominant", "major-seventh", "half-diminished", "suspended-fourth", "Neapolitan", "Tristan", "other", "none", "power", "pedal"}; string o = "<harmony" + print(5) + place(15) + yn("print-frame", 8) + ">"; int n = ch(88) ? 1 : 2; while (n--) { o += ch(90) ? "<root><root-step" + string(ch(10) ? " text=\"Do\"" : "") + ">" + string(1, "ABCDEFG"[r.below(7)]) + "</root-step>" + (ch(30) ? "<root-alter>-1</root-alter>" : "") + "</root>" : string("<function>IV</function>"); o += el("kind", att("text", "m7", 20) + yn("use-symbol", 10) + yn("parentheses-degrees", 10), one(k)); if (ch(10)) o += "<inversion>1</inversion>"; if (ch(20)) o += "<bass><bass-step>E</bass-step><bass-alter>-1</bass-alter></bass>"; if (ch(15)) o += "<degree><degree-value>9</degree-value><degree-alter>1</degree-alter><degree-type>add</degree-type></degree>"; } if (ch(8)) o += "<frame><frame-strings>6</frame-strings><frame-frets>4</frame-frets><frame-note><string>1</string><fret>3</fret><fingering>2</fingering></frame-note></frame>"; if (ch(20)) o += el("offset", "", to_string(r.range(-div, div))); if (staves > 1 && ch(60)) o += el("staff", "", to_string(r.range(1, staves))); return o + "</harmony>"; }
    string sysLayout() { return string("<system-layout>") + (ch(50) ? "<system-margins><left-margin>" + num() + "</left-margin><right-margin>" + num() + "</right-margin></system-margins>" : "") + (ch(50) ? "<system-distance>" + num() + "</system-distance>" : "") + (ch(50) ? "<top-system-distance>" + num() + "</top-system-distance>" : "") + (ch(15) ? "<system-dividers><left-divider print-object=\"yes\"/><right-divider print-object=\"no\"/></system-dividers>" : "") + "</system-layout>"; }
    string pageLayout() { static const char* const t[] = {"odd", "even", "both"}; string o = "<page-layout>"; o += "<page-height>1545</page-height><page-width>1194.5</page-width>"; int n = r.below(3); int k = r.below(3); for (int i = 0; i < n; i++) o += "<page-margins" + (ch(85) ? string(" type=\"") + t[n == 2 ? i : k] + "\"" : string()) + "><left-margin>70</left-margin><right-margin>" + num() + "</right-margin><top-margin>88.25</top-margin><bottom-margin>" + num() + "</bottom-margin></page-margins>"; return o + "</page-layout>"; }
    string print_(int staves) { string o = "<print" + yn("new-system", 50) + yn("new-page", 30) + att("page-number", "3", 10) + att("staff-spacing", "60", 8) + att("blank-page", "1", 4) + ">"; if (ch(20)) o += pageLayout(); if (ch(50)) o += sysLayout(); int n = ch(35) ? r.range(1, staves + 1) : 0; for (int i = 1; i <= n; i++) o += "<staff-layout" + att("number", to_string(i), 80) + ">" + (ch(85) ? "<staff-distance>" + num() + "</staff-distance>" : "") + "</staff-layout>"; if (ch(15)) o += "<measure-layout><measure-distance>10</measure-distance></measure-layout>"; static const char* const mn[] = {"none", "measure", "system"}; if (ch(15)) o += el("measure-numbering", print(4), one(mn)); if (ch(4)) o += "<part-name-display><display-text>Solo</display-text></part-name-display>"; return o + "</print>"; }
    string barline(bool left) { static const char* const bs[] = {"regular", "dotted", "dashed", "heavy", "light-light", "light-heavy", "heavy-light", "heavy-heavy", "tick", "short", "none"}; string o = "<barline" + string(ch(90) ? left ? " location=\"left\"" : ch(92) ? " location=\"right\"" : " location=\"middle\"" : "") + att("segno", "s1", 3) + att("coda", "c1", 3) + att("divisions", "4", 2) + ">"; if (ch(80)) o += el("bar-style", color(4), one(bs)); if (ch(4)) o += el("wavy-line", sss()); if (ch(5)) o += "<segno/>"; if (ch(5)) o += "<coda/>"; if (ch(8)) o += "<fermata/>"; if (ch(6)) o += "<fermata type=\"inverted\"/>"; static const char* const en[] = {"1", "2", "1,2", "1, 2, 3"}; static const char* const et[] = {"start", "stop", "discontinue"}; if (ch(30)) o += el("ending", string(" number=\"") + one(en) + "\" type=\"" + (left ? "start" : one(et)) + "\"" + att("end-length", num(), 15) + att("text-x", num(), 10) + att("text-y", num(), 10) + print(4) + yn("print-object", 5), ch(40) ? "1." : ""); if (ch(40)) o += string("<repeat direction=\"") + (left ? "forward" : "backward") + "\"" + att("times", "3", 20) + (ch(10) ? " winged=\"curved\"" : "") + "/>"; return o + "</barline>"; }
    int nextDiv(int div) { static const int d[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 48, 96, 120, 256, 480, 768, 960, 1024}; return ch(30) ? div * 2 : d[r.below(level > 2 ? 20 : 12)]; }
    string measure(int mi, int& div, int staves, const std::vector<string>& voices) {
        string o; if (mi == 0 ? ch(10) : ch(12)) o += print_(staves); bool nd = false; if (mi && ch(10)) { div = nextDiv(div); nd = true; } if (ch(10)) o += barline(true); if (ch(4)) o += direction(staves, div); if (mi == 0 || nd || ch(22)) o += attributes(div, staves, mi == 0, nd); int n = r.range(mi ? 0 : 1, 2 + 2 * level), dur = 0; size_t nv = ch(60) ? 1 : voices.size();
        for (size_t v = 0; v < nv; v++) {
            if (v && dur > 0) { o += "<backup><duration>" + to_string(ch(90) ? dur : r.range(1, dur)) + "</duration></backup>"; if (ch(90)) dur = 0; }
            int staff = staves > 1 ? (ch(80) ? 1 + (int)v % staves : r.range(1, staves)) : ch(10) ? 1 : 0; string voice = ch(3) ? string() : voices[v];
            for (int i = 0; i < n; i++) {
                if (ch(14)) o += direction(staves, div); if (ch(4)) o += harmony(staves, div); if (ch(3)) { static const char* const fb[] = {"<figure><figure-number>6</figure-number><suffix>sharp</suffix></figure>", "<figure><prefix>flat</prefix><figure-number>5</figure-number><extend/></figure><figure><figure-number>3</figure-number></figure>", "<figure/>"}; o += string("<figured-bass") + yn("parentheses", 20) + ">" + one(fb) + (ch(50) ? "<duration>" + to_string(div) + "</duration>" : string()) + "</figured-bass>"; } if (i && ch(6)) { bool d2 = ch(8); if (d2) { div = nextDiv(div); dur = 0; } o += attributes(div, staves, false, d2); } if (ch(3)) o += sound(); if (ch(2)) o += print_(staves); if (ch(2)) o += barline(false);
                o += note(div, dur, i > 0, voice, staff && ch(8) ? r.range(1, std::max(1, staves)) : staff); if (ch(4)) { int f = r.range(1, 2 * div); o += "<forward><duration>" + to_string(f) + "</duration>" + (ch(60) ? el("voice", "", voices[v]) : string()) + (staff && ch(60) ? el("staff", "", to_string(staff)) : string()) + "</forward>"; dur += f; } if (dur > 0 && ch(3)) { int b = r.range(1, dur); o += "<backup><duration>" + to_string(b) + "</duration></backup>"; dur -= b; }
                if (ch(2)) o += "<!-- note " + to_string(i) + " -->"; if (ch(2)) o += "<bookmark id=\"b" + to_string(mi) + "\"/>"; if (ch(2)) o += "<grouping type=\"start\" number=\"1\"><feature type=\"t\">v</feature></grouping>";
            }
        }
        if (ch(8)) o += attributes(div, staves, false, false); if (ch(6)) o += direction(staves, div); if (ch(18)) o += barline(false); return o;
    }
    string header(int np) {
        string o; if (ch(50)) o += "<work>" + (ch(50) ? el("work-number", "", txt()) : string()) + (ch(80) ? el("work-title", "", txt()) : string()) + "</work>"; if (ch(25)) o += el("movement-number", "", txt()); if (ch(40)) o += el("movement-title", "", txt());
        if (ch(60)) { o += "<identification>"; static const char* const ct[] = {"composer", "lyricist", "arranger", "translator"}; int n = r.below(4); while (n--) o += el("creator", att("type", one(ct), 85), txt()); n = r.below(3); while (n--) o += el("rights", att("type", "words", 30), txt()); if (ch(70)) { o += "<encoding>"; n = r.range(0, 6); while (n--) switch (r.below(5)) { case 0: o += "<encoding-date>2016-0" + to_string(r.range(1, 9)) + "-1" + to_string(r.below(10)) + "</encoding-date>"; break; case 1: o += el("encoder", att("type", "music", 40), txt()); break; case 2: o += el("software", "", txt()); break; case 3: o += el("encoding-description", "", txt()); break; default: { static const char* const se[] = {"print", "accidental", "beam", "stem", "note"}; o += string("<supports element=\"") + one(se) + "\" type=\"" + (ch(50) ? "yes" : "no") + "\"" + (ch(50) ? " attribute=\"new-system\"" : "") + (ch(50) ? " value=\"yes\"" : "") + "/>"; } } o += "</encoding>"; } if (ch(20)) o += el("source", "", txt()); if (ch(15)) o += el("relation", att("type", "music", 50), txt()); if (ch(25)) { o += "<miscellaneous>"; n = r.range(1, 3); for (int i = 0; i < n; i++) o += "<miscellaneous-field name=\"f" + to_string(i) + "\">" + txt() + "</miscellaneous-field>"; o += "</miscellaneous>"; } o += "</identification>"; }
        if (ch(50)) { o += "<defaults>"; if (ch(70)) o += "<scaling><millimeters>7.2319</millimeters><tenths>40</tenths></scaling>"; if (ch(60)) o += pageLayout(); if (ch(60)) o += sysLayout(); int n = ch(40) ? r.range(1, 3) : 0; for (int i = 1; i <= n; i++) o += "<staff-layout" + att("number", to_string(i), 80) + "><staff-distance>" + num() + "</staff-distance></staff-layout>"; if (ch(35)) { static const char* const lw[] = {"staff", "beam", "slur middle", "light barline", "wedge", "tie tip"}; o += "<appearance>"; n = r.below(4); while (n--) o += el("line-width", string(" type=\"") + one(lw) + "\"", num()); if (ch(50)) o += string("<note-size type=\"") + (ch(50) ? "cue" : "grace") + "\">60</note-size>"; if (ch(25)) o += "<distance type=\"hyphen\">60</distance>"; if (ch(15)) o += "<other-appearance type=\"z\">q</other-appearance>"; o += "</appearance>"; } if (ch(20)) o += el("music-font", font(60)); if (ch(20)) o += el("word-font", font(60)); if (ch(15)) o += el("lyric-font", att("number", "1", 50) + font(60)); if (ch(8)) o += "<lyric-language number=\"1\" xml:lang=\"en\"/>"; o += "</defaults>"; }
        int nc = r.below(4); while (nc--) { o += "<credit" + att("page", to_string(r.range(1, 3)), 70) + ">"; if (ch(20)) o += "<credit-type>title</credit-type>"; if (ch(8)) o += "<credit-image source=\"a.png\" type=\"image/png\"/>"; else { o += el("credit-words", print(30) + align(25) + deco(8), txt()); if (ch(20)) o += el("credit-words", print(), txt()); } o += "</credit>"; }
        o += "<part-list>"; int open = 0; for (int p = 1; p <= np; p++) { string id = to_string(p); if (np > 1 && p < np && ch(40)) { static const char* const gs[] = {"bracket", "brace", "line", "square", "none"}; open++; o += "<part-group number=\"" + to_string(open) + "\" type=\"start\">" + (ch(40) ? el("group-name", print(4), txt()) : string()) + (ch(25) ? "<group-name-display><display-text>G</display-text></group-name-display>" : "") + (ch(25) ? "<group-abbreviation>g.</group-abbreviation>" : "") + el("group-symbol", pos(5), one(gs)) + (ch(50) ? string("<group-barline>") + (ch(60) ? "yes" : ch(50) ? "no" : "Mensurstrich") + "</group-barline>" : "") + "</part-group>"; }
            o += "<score-part id=\"P" + id + "\">"; if (ch(8)) o += "<identification><source>s</source></identification>"; o += el("part-name", print(4) + yn("print-object", 8), txt()); if (ch(20)) o += "<part-name-display" + yn("print-object", 20) + "><display-text>N</display-text><accidental-text>flat</accidental-text></part-name-display>"; if (ch(40)) o += el("part-abbreviation", "", "Ab."); if (ch(12)) o += "<part-abbreviation-display><display-text>A</display-text></part-abbreviation-display>"; if (ch(8)) o += "<group>score</group>"; int ni = ch(50) ? ch(80) ? 1 : 2 : 0; for (int i = 1; i <= ni; i++) { o += "<score-instrument id=\"P" + id + "-I" + to_string(i) + "\">" + el("instrument-name", "", txt()) + (ch(25) ? "<instrument-abbreviation>i.</instrument-abbreviation>" : ""); static const char* const is[] = {"strings.violin", "keyboard.piano", "wind.flutes.flute", "drum.snare-drum", "no.such.sound"}; if (ch(40)) o += el("instrument-sound", "", one(is)); if (ch(20)) o += ch(50) ? "<solo/>" : ch(50) ? "<ensemble>4</ensemble>" : "<ensemble/>"; if (ch(15)) o += "<virtual-instrument><virtual-library>L</virtual-library><virtual-name>N</virtual-name></virtual-instrument>"; o += "</score-instrument>"; } for (int i = 1; i <= ni; i++) { if (ch(25)) o += "<midi-device" + att("port", "1", 50) + att("id", "P" + id + "-I" + to_string(i), 70) + ">" + (ch(50) ? "dev" : "") + "</midi-device>"; if (ch(60)) o += "<midi-instrument id=\"P" + id + "-I" + to_string(i) + "\">" + (ch(60) ? "<midi-channel>" + to_string(r.range(1, 16)) + "</midi-channel>" : "") + (ch(20) ? "<midi-name>m</midi-name>" : "") + (ch(25) ? "<midi-bank>7</midi-bank>" : "") + (ch(60) ? "<midi-program>" + to_string(r.range(1, 128)) + "</midi-program>" : "") + (ch(15) ? "<midi-unpitched>36</midi-unpitched>" : "") + (ch(40) ? "<volume>" + num().replace(0, 1, "7") + "</volume>" : "") + (ch(40) ? "<pan>-90</pan>" : "") + (ch(10) ? "<elevation>5</elevation>" : "") + "</midi-instrument>"; } o += "</score-part>"; if (open && (p == np || ch(40))) { while (open) { o += "<part-group number=\"" + to_string(open) + "\" type=\"stop\"/>"; open--; if (p != np && ch(60)) break; } } }
        return o + "</part-list>";
    }
    string make() {
        bool tw = ch(15); int np = ch(45) ? 1 : r.range(2, 3), nm = r.range(1, 1 + level); string root = tw ? "score-timewise" : "score-partwise"; string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"" + string(ch(50) ? " standalone=\"no\"" : "") + "?>\n"; if (ch(60)) o += "<!DOCTYPE " + root + " PUBLIC \"-//Recordare//DTD MusicXML 3.0 " + (tw ? "Timewise" : "Partwise") + "//EN\" \"http://www.musicxml.org/dtds/" + (tw ? "timewise" : "partwise") + ".dtd\">\n"; o += "<" + root + (ch(85) ? " version=\"3.0\"" : "") + ">" + header(np);
        struct P { int div, staves; std::vector<string> voices; }; std::vector<P> ps; static const char* const vn[] = {"1", "2", "3", "4", "5", "6", "9", "0", "-1", "a", "12", "1000"}; for (int p = 0; p < np; p++) { P x; x.div = nextDiv(1); x.staves = ch(70) ? 1 : r.range(2, 3); int n = r.range(1, 3); for (int i = 0; i < n; i++) x.voices.push_back(ch(75) ? to_string(i + 1) : one(vn)); ps.push_back(x); }
        auto mAtt = [&](int m) { return " number=\"" + (ch(94) ? to_string(m + 1) : ch(50) ? "X" + to_string(m) : string("0")) + "\"" + yn("implicit", 6) + yn("non-controlling", 5) + att("width", num().replace(0, 1, "2"), 30); };
        if (tw) for (int m = 0; m < nm; m++) { o += "<measure" + mAtt(m) + ">"; for (int p = 0; p < np; p++) o += "<part id=\"P" + to_string(p + 1) + "\">" + measure(m, ps[p].div, ps[p].staves, ps[p].voices) + "</part>"; o += "</measure>"; }
        else for (int p = 0; p < np; p++) { o += "<part id=\"P" + to_string(p + 1) + "\">"; for (int m = 0; m < nm; m++) o += "<measure" + mAtt(m) + ">" + measure(m, ps[p].div, ps[p].staves, ps[p].voices) + "</measure>\n"; o += "</part>"; }
        return o + "</" + root + ">\n";
    }
};
}
string richXml(uint64_t seed) { return Rich(seed).make(); }
