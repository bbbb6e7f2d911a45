// XML tree layer operations on live and on released documents, and const walks over a core document.
#include "dom.h"
#include "ezxml/XFactory.h"
#include "mx/core/elements/ScorePartwise.h"
#include "mx/core/elements/ScoreTimewise.h"
#include "mx/core/elements/PartwisePart.h"
#include "mx/core/elements/PartwiseMeasure.h"
#include "mx/core/elements/TimewisePart.h"
#include "mx/core/elements/TimewiseMeasure.h"
#include "mx/core/elements/MusicDataGroup.h"
#include "mx/core/elements/MusicDataChoice.h"
#include "mx/core/elements/Note.h"
#include "mx/core/elements/Notations.h"
#include "mx/core/elements/NotationsChoice.h"
#include "mx/core/elements/Tied.h"
#include "mx/core/elements/Slur.h"
#include "mx/core/elements/Tuplet.h"
#include "mx/core/elements/Ornaments.h"
#include "mx/core/elements/Technical.h"
#include "mx/core/elements/Articulations.h"
#include "mx/core/elements/Dynamics.h"
#include "mx/core/elements/Fermata.h"
#include "mx/core/elements/Arpeggiate.h"
#include "mx/core/elements/Beam.h"
#include "mx/core/elements/Dot.h"
#include "mx/core/elements/Lyric.h"
#include "mx/core/elements/Direction.h"
#include "mx/core/elements/Properties.h"
#include "mx/core/elements/NoteChoice.h"
#include "mx/core/elements/NormalNoteGroup.h"
#include "mx/core/elements/CueNoteGroup.h"
#include "mx/core/elements/GraceNoteGroup.h"
#include "mx/core/elements/FullNoteGroup.h"
#include "mx/core/elements/FullNoteTypeChoice.h"
#include <sstream>
using namespace ezxml;
// Runs inside the code under test (InLib); harness containers are only touched through OutLib.
std::string domOp(DomState& S, const Op& o) {
    using sim::OutLib;
    DomDoc& D = S.d[o.num("d", 0) & 7]; DomDoc& O = D.of >= 0 ? S.d[D.of & 7] : D; const bool loose = D.of >= 0 && sim::tid() != 0; long long n = o.num("n", 0); std::string m = o.str("m"), bad;
    std::string made = "made", renamed = "renamed", changed = "changed"; if (o.has("len")) { std::string x(o.num("len"), 'x'); made += x; renamed += x; changed += x; }
    auto add = [&](XElementPtr p) { if (p) { OutLib ol; if (D.e.size() < 64) D.e.push_back(p); } };
    if (o.k == "xload") {
        std::string bytes; { OutLib ol; bytes = docBytes(o.str("doc")); }
        XDocPtr d = XFactory::makeXDoc(); std::istringstream is(bytes); d->loadStream(is); OutLib ol; D.spec = o.str("doc"); D.d = d; D.loaded = true; D.released = D.changed = false; return "";
    }
    if (o.k == "xalias") { D.of = (int)o.num("of", 0) & 7; return ""; }      // handles of their own on the document of another slot, for a thread of its own; its answers are judged once the threads have ended
    if (!O.loaded) return ""; if (loose && (o.k == "xroot" || o.k == "xsave" || o.k == "xrel" || m == "parent" || m == "insert" || m == "dec" || m == "decp")) return "";
    if (o.k == "xrel") { XDocPtr d; { OutLib ol; d = std::move(D.d); D.d.reset(); D.released = true; } shareDrop(d); return ""; }
    if (o.k == "xclear") { std::vector<XElementPtr> e; std::vector<XAttributePtr> a; std::vector<DomIter> ei; std::vector<DomAIter> ai; { OutLib ol; e.swap(D.e); a.swap(D.a); ei.swap(D.ei); ai.swap(D.ai); } return ""; }
    if (o.k == "xroot") { if (O.released) return ""; add(O.d->getRoot()); return ""; }
    if (o.k == "xsave") { if (D.released || D.changed) return ""; std::ostringstream os; D.d->saveStream(os); OutLib ol; std::istringstream is(docBytes(D.spec)); XDocPtr c; { c = XFactory::makeXDoc(); c->loadStream(is); } std::ostringstream ref; c->saveStream(ref); if (os.str() != ref.str()) return std::string(o.has("ol") ? "silent|" : "") + "an XML tree that nobody changed is written differently from a fresh load of the same bytes"; return ""; }
    if (o.k == "xd") {       // properties of the document itself
        if (O.released || loose) return ""; XDoc& d = *O.d; O.changed = true; std::string want;
        if (m == "version") { auto v = n & 1 ? XmlVersion::onePointOne : XmlVersion::onePointZero; d.setXmlVersion(v); if (d.getXmlVersion() != v) return "silent|setXmlVersion() returned normally but the version is another one"; want = n & 1 ? "version=\"1.1\"" : "version=\"1.0\""; }
        else if (m == "hasalone") { d.setHasStandaloneAttribute(n & 1); if (d.getHasStandaloneAttribute() != (bool)(n & 1)) return "silent|setHasStandaloneAttribute() returned normally without doing it"; if (n & 1) want = "standalone=\""; }
        else if (m == "alone") { d.setIsStandalone(n & 1); if (d.getIsStandalone() != (bool)(n & 1) || !d.getHasStandaloneAttribute()) return "silent|setIsStandalone() returned normally without doing it"; want = n & 1 ? "standalone=\"yes\"" : "standalone=\"no\""; }
        else if (m == "hasdtd") { d.setHasDoctypeDeclaration(n & 1); if (d.getHasDoctypeDeclaration() != (bool)(n & 1)) return "silent|setHasDoctypeDeclaration() returned normally without doing it"; }
        else if (m == "dtd") { d.setDoctypeValue(renamed); if (d.getDoctypeValue() != renamed) return "silent|setDoctypeValue() returned normally but the value is '" + d.getDoctypeValue().substr(0, 40) + "'"; want = renamed; }
        if (!want.empty()) { std::ostringstream os; d.saveStream(os); if (os.good() && os.str().find(want) == std::string::npos) return "silent|what was set on the document (" + want.substr(0, 40) + ") is not in what is saved"; }
        return "";
    }
    bool dead = O.released && !loose;
    if (o.k == "xe") {       // element handle
        XElementPtr p; { OutLib ol; if (D.e.empty()) return ""; p = D.e[n % D.e.size()]; } XElement& e = *p;
        if (m == "null") { bool b = e.getIsNull(); if (dead && !b) return "getIsNull() is false after the document was released"; }
        else if (m == "type") { auto t = e.getType(); if (dead && t != XElementType::null) return "getType() is not null after the document was released"; }
        else if (m == "name") { std::string s = e.getName(); if (dead && !s.empty()) return "getName() answered '" + s + "' after the document was released"; }
        else if (m == "value") { std::string s = e.getValue(); if (dead && !s.empty()) return "getValue() answered '" + s + "' after the document was released"; }
        else if (m == "pi") { bool b = e.getIsProcessingInstruction(); (void)b; }
        else if (m == "doc") { auto d = e.getDoc(); if (dead && d) return "getDoc() gave a document after it was released"; }
        else if (m == "clone") { auto c = e.clone(); if (dead) { if (c && !c->getIsNull()) return "clone() gave a usable element after the document was released"; } else add(c); }
        else if (m == "parent") { if (!dead) { auto r = O.d->getRoot(); if (r->getName() == e.getName()) return ""; } auto c = e.getParent(); if (dead) { if (c && !c->getIsNull()) return "getParent() gave a usable element after release"; } else add(c); }
        else if (m == "next") { auto c = e.getNextSibling(); if (dead) { if (c && !c->getIsNull()) return "getNextSibling() gave a usable element after release"; } else add(c); }
        else if (m == "begin" || m == "beginpi") { auto it = m == "begin" ? e.begin() : e.beginWithProcessingInstructions(); if (dead) { if (!it.getIsPayloadNull()) return "begin() gave a usable iterator after release"; } else { auto en = e.end(); OutLib ol; if (D.ei.size() < 64) D.ei.push_back({it, en}); } }
        else if (m == "end") { auto en = e.end(); if (!dead) { OutLib ol; if (D.ei.size() < 64) D.ei.push_back({en, en}); } }
        else if (m == "child") { auto it = e.begin(); auto en = e.end(); for (long long k = o.num("k", 0); it != en && k > 0; --k) { ++it; } if (it != en) { auto c = it->clone(); if (!dead) add(c); } }
        else if (m == "childpi") { auto it = e.beginWithProcessingInstructions(); auto en = e.end(); XElementPtr f; for (long long k = o.num("k", 0); it != en; ++it) { if (!it->getIsProcessingInstruction()) continue; f = it->clone(); if (k-- <= 0) break; } if (!dead) add(f); }
        else if (m == "abegin") { auto it = e.attributesBegin(); if (!dead) { auto en = e.attributesEnd(); OutLib ol; if (D.ai.size() < 64) D.ai.push_back({it, en}); } }
        else if (m == "aend") { auto it = e.attributesEnd(); if (!dead) { OutLib ol; if (D.ai.size() < 64) D.ai.push_back({it, it}); } }
        else if (m == "setname") { O.changed = true; e.setName(renamed); if (!dead && !loose && e.getName() != renamed) return "silent|setName() returned normally but the name is '" + e.getName() + "'"; }
        else if (m == "setvalue") { O.changed = true; bool plain = !dead && !loose && (e.getType() == XElementType::empty || e.beginWithProcessingInstructions() == e.end()); e.setValue(changed); if (plain && e.getValue() != changed) return "silent|setValue() returned normally but the value is '" + e.getValue() + "'"; }
        else if (m == "append") { O.changed = true; auto c = e.appendChild(made); if (!dead) { if (!loose && c->getName() != made) return "silent|appendChild() returned an element without its name"; add(c); } }
        else if (m == "prepend") { O.changed = true; auto c = e.prependChild(made); if (!dead) { if (!loose && c->getName() != made) return "silent|prependChild() returned an element without its name"; add(c); } }
        else if (m == "insert") { if (!dead) { auto r = O.d->getRoot(); if (r->getName() == e.getName()) return ""; } O.changed = true; auto c = e.insertSiblingAfter(made); if (!dead) { if (!loose && c->getName() != made) return "silent|insertSiblingAfter() returned an element without its name"; add(c); } }
        else if (m == "remove") { O.changed = true; bool b = e.removeChild("no-such-child"); if (dead && b) return "removeChild() claims success after release"; }
        else if (m == "aappend") { O.changed = true; bool pi = e.getIsProcessingInstruction(); auto c = e.appendAttribute(made); if (!dead) { c->setValue("v"); if (!loose && !pi && (c->getName() != made || c->getValue() != "v")) return "silent|appendAttribute() returned an attribute without its name or value"; OutLib ol; if (D.a.size() < 64) D.a.push_back(c); } }
        else if (m == "aprepend") { O.changed = true; bool pi = e.getIsProcessingInstruction(); auto c = e.prependAttribute(made); if (!dead) { c->setValue("v"); if (!loose && !pi && (c->getName() != made || c->getValue() != "v")) return "silent|prependAttribute() returned an attribute without its name or value"; OutLib ol; if (D.a.size() < 64) D.a.push_back(c); } }
        else if (m == "aremove") { if (!dead) return ""; XAttributeIterator it; { OutLib ol; if (!D.ai.empty()) it = D.ai[o.num("k", 0) % D.ai.size()].it; } e.removeAttribute(it); }
        else if (m == "whole") { if (dead || loose || e.getIsProcessingInstruction()) return ""; auto en = e.end(); for (auto it = e.beginWithProcessingInstructions(); it != en; ++it) if (it->getName().empty()) return "silent|a failed edit left an element without a name behind"; auto an = e.attributesEnd(); for (auto it = e.attributesBegin(); it != an; ++it) if (it->getName().empty()) return "silent|a failed edit left an attribute without a name behind"; }
        return "";
    }
    if (o.k == "xa") {       // attribute handle
        XAttributePtr p; { OutLib ol; if (D.a.empty()) return ""; p = D.a[n % D.a.size()]; }
        if (m == "null") { bool b = p->getIsNull(); if (dead && !b) return "an attribute handle is not null after the document was released"; }
        else if (m == "name") { std::string s = p->getName(); if (dead && !s.empty()) return "an attribute handle answered its name after the document was released"; }
        else if (m == "value") { std::string s = p->getValue(); if (dead && !s.empty()) return "an attribute handle answered its value after the document was released"; }
        else if (m == "setname") { p->setName(renamed); O.changed = true; std::string s = p->getName(); if (!dead && !loose && !s.empty() && s != renamed) return "silent|an attribute's setName() returned normally but the name is '" + s + "'"; }
        else if (m == "setvalue") { p->setValue("a considerably longer changed value"); O.changed = true; if (!dead && !loose && !p->getName().empty() && p->getValue() != "a considerably longer changed value") return "silent|an attribute's setValue() returned normally but the value is different"; }
        return "";
    }
    if (o.k == "xi") {       // element iterator
        DomIter* I; { OutLib ol; if (D.ei.empty()) return ""; I = &D.ei[n % D.ei.size()]; } XElementIterator& it = I->it;
        if (m == "payload") { bool b = it.getIsPayloadNull(); if (dead && !b) return "an iterator has a payload after the document was released"; }
        else if (m == "star") { if (!dead && !(it != I->end)) return ""; XElement& e = *it; if (dead) return "an iterator could be dereferenced after the document was released"; (void)e.getName(); auto c = e.clone(); add(c); }
        else if (m == "arrow") { if (!dead && !(it != I->end)) return ""; std::string s = it->getName(); if (dead) return "an iterator could be dereferenced after the document was released"; }
        else if (m == "inc") { if (dead || it != I->end) ++it; } else if (m == "incp") { if (dead || it != I->end) it++; }
        else if (m == "dec") { if (dead) --it; } else if (m == "decp") { if (dead) it--; }
        else if (m == "eq") { (void)(it == I->end); (void)(it != I->end); } else if (m == "copy") { XElementIterator c(it), d; d = c; c = d; } else if (m == "skip") { it.setSkipProcessingInstructions(true); (void)it.getSkipProcessingInstructions(); }
        return "";
    }
    if (o.k == "xj") {       // attribute iterator
        DomAIter* I; { OutLib ol; if (D.ai.empty()) return ""; I = &D.ai[n % D.ai.size()]; } XAttributeIterator& it = I->it;
        if (m == "star") { if (!dead && !(it != I->end)) return ""; XAttribute& a = *it; if (dead) return "an attribute iterator could be dereferenced after release"; (void)a.getValue(); }
        else if (m == "arrow") { if (!dead && !(it != I->end)) return ""; std::string s = it->getName(); if (dead) return "an attribute iterator could be dereferenced after release"; }
        else if (m == "inc") { if (dead || it != I->end) ++it; } else if (m == "incp") { if (dead || it != I->end) it++; }
        else if (m == "dec") { if (dead) --it; } else if (m == "decp") { if (dead) it--; }
        else if (m == "eq") { (void)(it == I->end); (void)(it != I->end); } else if (m == "copy") { XAttributeIterator c(it), d; d = c; c = d; }
        return "";
    }
    return "";
}
void domClear(DomState& S) { sim::InLib il; for (auto& D : S.d) { std::vector<XElementPtr> e; std::vector<XAttributePtr> a; std::vector<DomIter> ei; std::vector<DomAIter> ai; XDocPtr d; { sim::OutLib ol; e.swap(D.e); a.swap(D.a); ei.swap(D.ei); ai.swap(D.ai); d.swap(D.d); D.loaded = false; D.of = -1; } } }

using namespace mx::core;
template <class P> static void same(const P& a, const P& b, const char* w) { if (!a || a != b) { sim::OutLib ol; sim::violation(sim::V_ORACLE, "handle", std::string("two reads of ") + w + " through const accessors gave different elements"); } }
#define G(x, f) same((x)->f(), (x)->f(), #f)
// what any element can be asked; sel & 8: its own text, too
static void ask(const ElementInterface& e, int sel) { if (!(sel & 24)) return; std::string a = e.getElementName(), b = e.getElementName(); if (a.empty() || a != b) { sim::OutLib ol; sim::violation(sim::V_ORACLE, "handle", "an element's name reads '" + a + "' and then '" + b + "'"); } (void)e.hasAttributes(); (void)e.hasContents(); (void)e.getProcessingInstructions(); if (sel & 8) { std::ostringstream os; e.toStream(os, 0); } }
static void walkNotations(const Note& n, int sel) {
    for (auto& x : n.getNotationsSet()) { const Notations* p = x.get(); ask(*p, sel & 16); for (auto& y : p->getNotationsChoiceSet()) { const NotationsChoice* c = y.get(); G(c, getSlur); G(c, getTied); switch (c->getChoice()) { case NotationsChoice::Choice::tied: ask(*c->getTied(), sel); break; case NotationsChoice::Choice::slur: ask(*c->getSlur(), sel); break; case NotationsChoice::Choice::tuplet: ask(*c->getTuplet(), sel); break; case NotationsChoice::Choice::ornaments: ask(*c->getOrnaments(), sel); break; case NotationsChoice::Choice::technical: ask(*c->getTechnical(), sel); break; case NotationsChoice::Choice::articulations: ask(*c->getArticulations(), sel); break; case NotationsChoice::Choice::dynamics: ask(*c->getDynamics(), sel); break; case NotationsChoice::Choice::fermata: ask(*c->getFermata(), sel); break; case NotationsChoice::Choice::arpeggiate: ask(*c->getArpeggiate(), sel); break; default: break; } } }
    for (auto& x : n.getBeamSet()) ask(*x, sel); for (auto& x : n.getDotSet()) ask(*x, sel); for (auto& x : n.getLyricSet()) ask(*x, sel);
}
static void walkNote(const Note& n, int sel) {
    ask(n, sel); if (sel & 24) walkNotations(n, sel);
    const Note* p = &n; G(p, getAttributes); if (sel & 2) { G(p, getStaff); G(p, getNotehead); G(p, getStem); }
    auto c = p->getNoteChoice(); FullNoteGroupPtr f; if (c->getChoice() == NoteChoice::Choice::normal) f = c->getNormalNoteGroup()->getFullNoteGroup(); else if (c->getChoice() == NoteChoice::Choice::cue) f = c->getCueNoteGroup()->getFullNoteGroup(); else if (c->getChoice() == NoteChoice::Choice::grace) f = c->getGraceNoteGroup()->getFullNoteGroup();
    if (f) { G(f, getChord); auto t = f->getFullNoteTypeChoice(); same(t, f->getFullNoteTypeChoice(), "getFullNoteTypeChoice"); G(t, getPitch); G(t, getUnpitched); G(t, getRest); }
    if (sel & 4) return;
    G(p, getInstrument); G(p, getEditorialVoiceGroup); G(p, getType); G(p, getAccidental); G(p, getTimeModification); G(p, getStem); G(p, getNotehead); G(p, getNoteheadText); G(p, getStaff); G(p, getPlay);
}
static void walkMusic(const MusicDataGroupPtr& g, int sel) {
    for (auto& c : g->getMusicDataChoiceSet()) {
        if (c->getChoice() == MusicDataChoice::Choice::note) walkNote(*c->getNote(), sel);
        if (sel & 1) { G(c, getNote); G(c, getBackup); G(c, getForward); G(c, getDirection); G(c, getProperties); G(c, getHarmony); G(c, getFiguredBass); G(c, getPrint); G(c, getSound); G(c, getBarline); G(c, getGrouping); G(c, getLink); G(c, getBookmark); }
        else switch (c->getChoice()) { case MusicDataChoice::Choice::backup: G(c, getBackup); break; case MusicDataChoice::Choice::direction: G(c, getDirection); ask(*c->getDirection(), sel); break; case MusicDataChoice::Choice::properties: G(c, getProperties); ask(*c->getProperties(), sel); break; case MusicDataChoice::Choice::print: G(c, getPrint); break; default: break; }
    }
}
void walkConst(const Document& d, int sel) {
    if (d.getChoice() == DocumentChoice::partwise) { for (auto& p : d.getScorePartwise()->getPartwisePartSet()) { G(p, getAttributes); for (auto& m : p->getPartwiseMeasureSet()) { G(m, getAttributes); G(m, getMusicDataGroup); walkMusic(m->getMusicDataGroup(), sel); } } }
    else { for (auto& m : d.getScoreTimewise()->getTimewiseMeasureSet()) { G(m, getAttributes); for (auto& p : m->getTimewisePartSet()) { G(p, getAttributes); G(p, getMusicDataGroup); walkMusic(p->getMusicDataGroup(), sel); } } }
}
