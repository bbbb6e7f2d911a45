// One edit of a document through its handle, as a client of the typed classes makes it.  Each edit is a single change: it either
// happens or, when it fails, leaves the document as it was.  Which one is decided by the seed and by what the document contains.
// Compiled like the library, because this is client code that uses its templates and inline functions.
#include "mx/core/Document.h"
#include "mx/core/Elements.h"
#include "docedit.h"
#include <vector>
using namespace mx::core;
namespace {
struct Rnd { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } size_t below(size_t n) { return n ? next() % n : 0; } };
const char* word(Rnd& r) { static const char* w[] = {"edited", "A & B", "x < y", "caf\xC3\xA9", "a text that is somewhat longer than the small string buffer", " padded", "7", "q\"uo'te"}; return w[r.below(8)]; }
std::vector<MusicDataGroupPtr> groups(const Document& d) {
    std::vector<MusicDataGroupPtr> v;
    if (d.getChoice() == DocumentChoice::partwise) { for (auto& p : d.getScorePartwise()->getPartwisePartSet()) for (auto& m : p->getPartwiseMeasureSet()) v.push_back(m->getMusicDataGroup()); }
    else for (auto& m : d.getScoreTimewise()->getTimewiseMeasureSet()) for (auto& p : m->getTimewisePartSet()) v.push_back(p->getMusicDataGroup());
    return v;
}
std::vector<MeasureAttributesPtr> measures(const Document& d) {
    std::vector<MeasureAttributesPtr> v;
    if (d.getChoice() == DocumentChoice::partwise) { for (auto& p : d.getScorePartwise()->getPartwisePartSet()) for (auto& m : p->getPartwiseMeasureSet()) v.push_back(m->getAttributes()); }
    else for (auto& m : d.getScoreTimewise()->getTimewiseMeasureSet()) v.push_back(m->getAttributes());
    return v;
}
std::vector<NotePtr> notes(const Document& d) { std::vector<NotePtr> v; for (auto& g : groups(d)) for (auto& c : g->getMusicDataChoiceSet()) if (c->getChoice() == MusicDataChoice::Choice::note) v.push_back(c->getNote()); return v; }
MusicDataChoicePtr item(Rnd& r) {
    auto c = makeMusicDataChoice();
    switch (r.below(5)) {
    case 0: { c->setChoice(MusicDataChoice::Choice::note); auto n = c->getNote(); n->getNoteChoice()->setChoice(NoteChoice::Choice::normal); n->getNoteChoice()->getNormalNoteGroup()->getDuration()->setValue(PositiveDivisionsValue(1 + r.below(8))); n->getEditorialVoiceGroup()->setHasVoice(true); n->getEditorialVoiceGroup()->getVoice()->setValue(XsString("2")); break; }
    case 1: c->setChoice(MusicDataChoice::Choice::forward); c->getForward()->getDuration()->setValue(PositiveDivisionsValue(1 + r.below(4))); break;
    case 2: { c->setChoice(MusicDataChoice::Choice::direction); auto t = makeDirectionType(); t->setChoice(DirectionType::Choice::words); auto w = makeWords(); w->setValue(XsString(word(r))); t->addWords(w); c->getDirection()->addDirectionType(t); break; }
    case 3: c->setChoice(MusicDataChoice::Choice::barline); c->getBarline()->setHasBarStyle(true); c->getBarline()->getBarStyle()->setValue(BarStyleEnum::lightHeavy); break;
    default: c->setChoice(MusicDataChoice::Choice::backup); c->getBackup()->getDuration()->setValue(PositiveDivisionsValue(1 + r.below(4))); break;
    }
    return c;
}
ProcessingInstruction instruction(Rnd& r) { ProcessingInstruction p("edited", word(r)); p.setIsChild(r.below(2)); return p; }
}
void editDoc(Document& d, uint64_t seed) {
    Rnd r{seed * 6364136223846793005ull + 1442695040888963407ull}; r.next(); bool pw = d.getChoice() == DocumentChoice::partwise; auto h = pw ? d.getScorePartwise()->getScoreHeaderGroup() : d.getScoreTimewise()->getScoreHeaderGroup();
    switch (r.below(24)) {
    case 0: if (r.below(2)) h->setHasMovementTitle(!h->getHasMovementTitle()); else h->setHasMovementNumber(!h->getHasMovementNumber()); break;
    case 1: h->getMovementTitle()->setValue(XsString(word(r))); h->setHasMovementTitle(true); break;
    case 2: h->getWork()->getWorkTitle()->setValue(XsString(word(r))); h->getWork()->setHasWorkTitle(true); h->setHasWork(true); break;
    case 3: { auto c = makeCreator(); c->setValue(XsString(word(r))); h->getIdentification()->addCreator(c); h->setHasIdentification(true); break; }
    case 4: if (r.below(2)) h->getIdentification()->clearCreatorSet(); else h->setHasIdentification(!h->getHasIdentification()); break;
    case 5: if (pw) d.getScorePartwise()->addProcessingInstruction(instruction(r)); else d.getScoreTimewise()->addProcessingInstruction(instruction(r)); break;
    case 6: if (pw) d.getScorePartwise()->clearProcessingInstructions(); else d.getScoreTimewise()->clearProcessingInstructions(); break;
    case 7: { auto v = measures(d); if (!v.empty()) v[r.below(v.size())]->number = XsToken(word(r)); break; }
    case 8: { auto v = measures(d); if (v.empty()) break; auto& m = *v[r.below(v.size())]; if (r.below(2)) { m.width = TenthsValue((long double)r.below(500)); m.hasWidth = true; } else { m.implicit = YesNo::yes; m.hasImplicit = !m.hasImplicit; } break; }
    case 9: case 10: { auto v = groups(d); if (!v.empty()) { auto c = item(r); v[r.below(v.size())]->addMusicDataChoice(c); } break; }
    case 11: case 12: { auto v = groups(d); if (v.empty()) break; auto& g = v[r.below(v.size())]; auto& s = g->getMusicDataChoiceSet(); if (!s.empty()) g->removeMusicDataChoice(s.cbegin() + r.below(s.size())); break; }
    case 13: { auto v = groups(d); if (!v.empty()) v[r.below(v.size())]->clearMusicDataChoiceSet(); break; }
    case 14: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; n->getStaff()->setValue(PositiveInteger(1 + r.below(3))); n->setHasStaff(!n->getHasStaff()); break; }
    case 15: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; if (r.below(2)) n->addDot(makeDot()); else n->clearDotSet(); break; }
    case 16: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; n->getType()->setValue(NoteTypeValue::half); n->setHasType(true); break; }
    case 17: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; n->getAttributes()->defaultX = TenthsValue((long double)r.below(90)); n->getAttributes()->hasDefaultX = !n->getAttributes()->hasDefaultX; break; }
    case 18: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; switch (r.below(4)) { case 0: n->clearLyricSet(); break; case 1: n->clearNotationsSet(); break; case 2: n->addLyric(makeLyric()); break; default: n->getEditorialVoiceGroup()->getVoice()->setValue(XsString(word(r))); n->getEditorialVoiceGroup()->setHasVoice(true); } break; }
    case 19: { auto v = notes(d); if (v.empty()) break; auto n = v[r.below(v.size())]; if (r.below(3)) n->addProcessingInstruction(instruction(r)); else n->clearProcessingInstructions(); break; }
    case 20: h->getPartList()->getScorePart()->getPartName()->setValue(XsString(word(r))); break;
    case 21: // measures
        if (pw) { auto& ps = d.getScorePartwise()->getPartwisePartSet(); if (ps.empty()) break; auto p = ps[r.below(ps.size())]; if (r.below(2)) { auto m = makePartwiseMeasure(); m->getAttributes()->number = XsToken("99"); m->getMusicDataGroup()->addMusicDataChoice(item(r)); p->addPartwiseMeasure(m); } else if (p->getPartwiseMeasureSet().size() > 1) p->removePartwiseMeasure(p->getPartwiseMeasureSet().cbegin() + r.below(p->getPartwiseMeasureSet().size())); }
        else { auto t = d.getScoreTimewise(); auto& ms = t->getTimewiseMeasureSet(); if (ms.empty()) break; if (r.below(2)) { auto m = makeTimewiseMeasure(); m->getAttributes()->number = XsToken("99"); m->addTimewisePart(makeTimewisePart()); t->addTimewiseMeasure(m); } else if (ms.size() > 1) t->removeTimewiseMeasure(ms.cbegin() + r.below(ms.size())); }
        break;
    case 22: // whole pieces exchanged
        if (pw) { auto& ps = d.getScorePartwise()->getPartwisePartSet(); if (ps.empty()) break; auto& ms = ps[r.below(ps.size())]->getPartwiseMeasureSet(); if (ms.empty()) break; auto m = ms[r.below(ms.size())]; if (r.below(2)) m->setMusicDataGroup(makeMusicDataGroup()); else m->setAttributes(std::make_shared<MeasureAttributes>()); }
        else { auto& ms = d.getScoreTimewise()->getTimewiseMeasureSet(); if (ms.empty()) break; auto m = ms[r.below(ms.size())]; if (r.below(2)) m->setAttributes(std::make_shared<MeasureAttributes>()); else if (!m->getTimewisePartSet().empty()) m->getTimewisePartSet()[0]->setMusicDataGroup(makeMusicDataGroup()); }
        break;
    case 23: d.convertContents(); break;
    }
}
