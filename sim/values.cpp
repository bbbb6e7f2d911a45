// Calls on plain values: parsing, printing, converting, comparing.  Each is a function of its arguments alone, so its answer is
// the one the same call gives in a fresh process, whatever other threads do.  Compiled like the library, so that the templates
// and inline functions used here are watched too.
#include "mx/api/DocumentManager.h"
#include "mx/api/SoundID.h"
#include "mx/api/Version.h"
#include "mx/api/MeasureLocation.h"
#include "mx/api/ScoreData.h"
#include "mx/core/Document.h"
#include "mx/core/Enums.h"
#include "mx/core/EnumsBuiltin.h"
#include "mx/core/PlaybackSound.h"
#include "mx/core/Color.h"
#include "mx/core/Date.h"
#include "mx/core/Decimals.h"
#include "mx/core/Integers.h"
#include "mx/core/FontSize.h"
#include "mx/core/NumberOrNormal.h"
#include "mx/core/YesNoNumber.h"
#include "mx/core/PositiveIntegerOrEmpty.h"
#include "mx/core/CommaSeparatedText.h"
#include "mx/core/CommaSeparatedPositiveIntegers.h"
#include "ezxml/XFactory.h"
#include "ezxml/XDoc.h"
#include "ezxml/XElement.h"
#include "ezxml/XElementIterator.h"
#include "ezxml/XAttribute.h"
#include "ezxml/XAttributeIterator.h"
#include <sstream>
#include <new>
mx::api::ScoreData makeScore(uint64_t seed, bool withIds);
namespace {
using namespace mx; using std::string; using std::to_string;
struct R { uint64_t s; uint32_t below(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } };
struct Out : std::ostringstream { string s() { if (!good()) throw std::bad_alloc(); return str(); } };      // a client looks at the state of its stream
template <class T> string str(const T& v) { Out os; core::toStream(os, v); return os.s() + "|"; }
template <class E, class P> string en(R& r, P parse, uint32_t n) { string o; for (int i = 0; i < 4; i++) { E e = static_cast<E>(r.below(n)); string t = core::toString(e); o += t + "=" + str(e) + (parse(t) == e ? "" : "!"); } o += to_string((int)parse("no such token")); return o; }
const char* nums[] = {"0", "1", "-1", "3.5", "-0.25", "1234567.125", "0.001", "99999", "2147483647", "-17", "60.0", " 4 ", "abc", "", "1e3", "+7", "0x10", "1,5"};
string num(R& r) { return nums[r.below(18)]; }
core::DocumentPtr sample(R& r) { auto d = core::makeDocument(r.below(2) ? core::DocumentChoice::timewise : core::DocumentChoice::partwise); return d; }
string tree(const ::ezxml::XElement& e, int depth) { string o = "<" + e.getName(); for (auto a = e.attributesBegin(), z = e.attributesEnd(); a != z; ++a) o += " " + a->getName() + "=" + a->getValue(); o += ">"; if (depth > 6) return o; auto b = e.begin(), z = e.end(); if (b == z) o += e.getValue(); for (; b != z; ++b) o += tree(*b, depth + 1); return o + "</>"; }
string one(uint64_t k) {
    R r{k * 2654435761u + 17}; string o;
    switch (k % 24) {
    case 0: for (int i = 0; i < 5; i++) { auto s = static_cast<api::SoundID>(r.below(890)); string t = api::SoundIDToString(s); o += t + (api::SoundIDFromString(t) == s ? "," : "!,"); } break;
    case 1: o = to_string((int)api::SoundIDFromString("no.such.sound")) + api::SoundIDToString(api::SoundID::unspecified) + api::SoundIDToString(api::SoundID::errorBadString); break;
    case 2: o = api::Version::getString() + to_string(api::Version::getVersionMajor()) + to_string(api::Version::getVersionMinor()) + to_string(api::Version::getVersionPatch()); break;
    case 3: { auto s = makeScore(r.below(20), false), t = s; t.sort(); o = to_string(s.getNumMeasures()) + "," + to_string(s.getNumStavesPerSystem()) + (s == t ? "=" : "#"); for (int i = 0; i < 6; i++) { api::MeasureLocation m; m.partIndex = (int)r.below(4) - 1; m.staffIndex = (int)r.below(4) - 1; m.measureIndex = (int)r.below(5) - 1; o += m.isValid(s) ? "y" : "n"; } if (!s.parts.empty()) { auto it = api::findPart(s.parts, s.parts.back().uniqueId); o += to_string(it - s.parts.begin()); } break; }
    case 4: for (int i = 0; i < 12; i++) { auto m = static_cast<api::MarkType>(r.below(120)); api::MarkData d(m); o += d.name + "," + api::getCustomMarkName(m) + (api::isMarkOrnament(m) ? "o" : "") + (api::isMarkPedal(m) ? "p" : "") + (api::isMarkTechnical(m) ? "t" : "") + (api::isMarkArticulation(m) ? "a" : "") + (api::isMarkTremolo(m) ? "T" : "") + (api::isMarkDynamic(m) ? "d" : "") + (api::isMarkFermata(m) ? "f" : "") + to_string(api::numTremoloSlashes(m)) + ";"; } o += to_string((int)api::getMarkTypeFromCustomString(api::markStringCustomAccentTenuto)); break;
    case 5: { api::PitchData p; for (int i = -3; i <= 3; i++) { p.alter = i; p.showAccidental(); o += to_string((int)p.accidental) + ","; } p.hideAccidental(); o += to_string((int)p.accidental); break; }
    case 6: for (int i = 0; i < 4; i++) { int a = r.below(256), b = r.below(256), c = r.below(256); core::Color x(a, b, c), y(c, a, b, a), z(core::toString(x)); o += str(x) + str(y) + str(z); try { core::Color w(num(r)); o += str(w); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { o += e.what(); } } break;
    case 7: for (int i = 0; i < 4; i++) { core::Date d(1900 + (int)r.below(300), 1 + (int)r.below(12), 1 + (int)r.below(31)); o += str(d) + to_string(d.getWeekday()) + (d.isLeapYear() ? "L" : "-") + to_string(d.daysInMonth()); core::Date e(core::toString(d)); o += d == e ? "=" : "#"; d.addDays((int)r.below(900) - 450); o += str(d); d.addMonths((int)r.below(30)); o += str(d); d.addYears((int)r.below(9)); o += str(d); o += d < e ? "<" : ">"; o += core::Date().parse(num(r)) ? "y" : "n"; } break;
    case 8: for (int i = 0; i < 5; i++) { core::Decimal d; string t = num(r); o += (d.parse(t) ? "y" : "n") + str(d) + core::toString(d) + ","; core::PositiveDecimal p; core::Percent q; core::NonNegativeDecimal n; p.parse(t); q.parse(t); n.parse(t); o += str(p) + str(q) + str(n); } break;
    case 9: for (int i = 0; i < 5; i++) { core::PreciseDecimal p((short)(1 + r.below(8)), (short)(r.below(8)), (double)((int)r.below(200000) - 100000) / (1 + r.below(700))); o += p.toString() + ","; } break;
    case 10: for (int i = 0; i < 5; i++) { string t = num(r); core::Integer a; core::StaffLine b; core::Midi128 c; core::NumberLevel d; core::PositiveInteger e; core::OctaveValue f; a.parse(t); b.parse(t); c.parse(t); d.parse(t); e.parse(t); f.parse(t); o += str(a) + str(b) + str(c) + str(d) + str(e) + str(f); } break;
    case 11: for (int i = 0; i < 4; i++) { core::FontSize f; string t = r.below(2) ? num(r) : core::toString(static_cast<core::CssFontSize>(r.below(7))); o += (f.parse(t) ? "y" : "n") + str(f); core::NumberOrNormal n; n.parse(r.below(3) ? num(r) : "normal"); o += str(n); core::YesNoNumber y; o += y.parse(r.below(2) ? num(r) : "yes") ? "y" : "n"; o += str(y); core::PositiveIntegerOrEmpty e; e.parse(num(r)); o += str(e); } break;
    case 12: { core::CommaSeparatedText t(num(r) + "," + num(r) + ", a b ,c"); o = str(t) + to_string(t.getValues().size()); core::CommaSeparatedListOfPositiveIntegers p; p.parse("1,2, 3"); o += str(p); p.parse(num(r)); o += str(p); break; }
    case 13: o = en<core::DynamicsEnum>(r, [](const string& s) { return core::parseDynamicsEnum(s); }, 22) + en<core::AccidentalValue>(r, [](const string& s) { return core::parseAccidentalValue(s); }, 40); break;
    case 14: o = en<core::KindValue>(r, [](const string& s) { return core::parseKindValue(s); }, 33) + en<core::NoteTypeValue>(r, [](const string& s) { return core::parseNoteTypeValue(s); }, 14) + en<core::ClefSign>(r, [](const string& s) { return core::parseClefSign(s); }, 7); break;
    case 15: o = en<core::NoteheadValue>(r, [](const string& s) { return core::parseNoteheadValue(s); }, 20) + en<core::BarStyleEnum>(r, [](const string& s) { return core::parseBarStyleEnum(s); }, 11) + en<core::LineType>(r, [](const string& s) { return core::parseLineType(s); }, 4); break;
    case 16: o = en<core::StepEnum>(r, [](const string& s) { return core::parseStepEnum(s); }, 7) + en<core::YesNo>(r, [](const string& s) { return core::parseYesNo(s); }, 2) + en<core::AboveBelow>(r, [](const string& s) { return core::parseAboveBelow(s); }, 2) + en<core::Valign>(r, [](const string& s) { return core::parseValign(s); }, 4); break;
    case 17: { auto e = [&](const string& t) { core::ModeValue m = core::parseModeValue(t); o += str(m); core::DynamicsValue d = core::parseDynamicsValue(t); o += str(d); core::DistanceType x = core::parseDistanceType(t); o += str(x); core::LineWidthType l = core::parseLineWidthType(t); o += str(l); }; e("major"); e("ppp"); e("beam"); e("made up " + num(r)); break; }
    case 18: { auto d = sample(r); Out os; d->toStream(os); o = os.s(); break; }
    case 19: { auto d = sample(r); d->convertContents(); Out os; d->toStream(os); d->convertContents(); d->toStream(os); o = os.s(); break; }
    case 20: case 21: { string x = "<?xml version=\"1.0\"?><a n=\"" + to_string(r.below(1000)) + "\"><b>te&amp;xt</b><c k='v'/>"; for (uint32_t i = 0, n = r.below(30); i < n; i++) x += "<d" + to_string(i) + " q=\"" + to_string(r.below(99)) + "\">&lt;" + to_string(i) + "</d" + to_string(i) + ">"; x += "</a>"; std::istringstream is(x); auto d = ::ezxml::XFactory::makeXDoc(); d->loadStream(is); o = tree(*d->getRoot(), 0); Out os; d->saveStream(os); o += os.s(); break; }
    case 22: { auto d = ::ezxml::XFactory::makeXDoc(); d->setXmlVersion(::ezxml::XmlVersion::onePointZero); auto root = d->getRoot(); root->setName("r"); for (uint32_t i = 0; i < 1 + r.below(6); i++) { auto c = root->appendChild("n" + to_string(i)); c->setValue("v<" + num(r)); c->appendAttribute("a")->setValue(num(r) + "\"&"); } Out os; d->saveStream(os); o = os.s(); break; }
    default: { auto s = makeScore(r.below(30), false); auto t = makeScore(r.below(30), false); o += s == t ? "=" : "#"; s.parts = t.parts; s.sort(); o += s.parts == t.parts ? "=" : "#"; o += to_string(s.getNumMeasures()); break; }
    }
    return o;
}
}
std::string valueCall(uint64_t k) { return one(k); }
