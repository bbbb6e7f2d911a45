// Seeded generator of client-built scores.
#include "scoregen.h"
#include <algorithm>
using namespace mx::api; using sim::Rng;
static thread_local bool hard;              // text and numbers that are awkward to store
static std::string word(Rng& r) {
    static const char* w[] = {"allegro", "dolce", "cresc.", "A & B", "x<y", "\"q\"", "pizz.", "\xC3\xA9t\xC3\xA9", "1.", "Fine", "solo", "a  b", "II."};
    static const char* h[] = {"two\nlines", "two\r\nlines", "tab\there", " lead", "trail ", "]]>", "<b>", "&amp;", "&#65;", "'s", "\xE2\x99\xAD\xF0\x9D\x84\x9E", "a,b;c", "-", "--", "<!-- x -->", "<?pi?>", "0", "\xC2\xA0", " ", "\n", "l\ro\rne", "%d%s", "\xD0\x96\xE4\xB8\xAD"};
    return hard && r.chance(45) ? h[r.below(23)] : w[r.below(13)];
}
static double num(Rng& r, double lo, double hi) { double u = (double)(r.below(1u << 30)) / (1u << 30); double v = lo + u * (hi - lo); int k = hard ? r.below(5) : 1 + r.below(2); static const double p[] = {1, 10, 100, 1000, 1e6}; if (k == 4 && r.chance(50)) return v; return (double)(long long)(v * p[k]) / p[k]; }
static PositionData pos(Rng& r) { PositionData p; if (r.chance(30)) { p.isDefaultXSpecified = true; p.defaultX = num(r, -20, 200); } if (r.chance(30)) { p.isDefaultYSpecified = true; p.defaultY = num(r, -2000, 200); } if (r.chance(20)) { p.isRelativeXSpecified = true; p.relativeX = num(r, -5, 5); } if (r.chance(10)) { p.isRelativeYSpecified = true; p.relativeY = num(r, -50, 50); } if (r.chance(30)) p.placement = r.chance(50) ? Placement::above : Placement::below; if (r.chance(8)) p.horizontalAlignmnet = (HorizontalAlignment)r.below(4); if (r.chance(8)) p.verticalAlignment = (VerticalAlignment)r.below(5); return p; }
static ColorData color(Rng& r) { ColorData c; c.red = r.below(256); c.green = r.below(256); c.blue = r.below(256); if (r.chance(30)) { c.isAlphaSpecified = true; c.alpha = r.below(256); } return c; }
static FontData font(Rng& r) { FontData f; if (r.chance(40)) { f.sizeType = FontSizeType::point; f.sizePoint = num(r, 6, 40); } else if (r.chance(20)) { f.sizeType = FontSizeType::css; f.sizeCss = (CssSize)r.below(7); } if (r.chance(30)) f.style = FontStyle::italic; if (r.chance(30)) f.weight = FontWeight::bold; if (r.chance(20)) f.fontFamily.push_back("Maestro"); if (r.chance(8)) f.fontFamily.push_back("Times New Roman"); if (r.chance(8)) f.underline = r.range(0, 3); return f; }
static LineData line(Rng& r) { LineData l; if (r.chance(40)) l.lineType = (LineType)r.below(5); if (r.chance(20)) l.lineHook = (LineHook)r.below(6); if (r.chance(15)) { l.isDashLengthSpecified = true; l.dashLength = num(r, 1, 20); } if (r.chance(15)) { l.isSpaceLengthSpecified = true; l.spaceLength = num(r, 1, 20); } return l; }
static PrintData prn(Rng& r) { PrintData p; if (r.chance(20)) p.printObject = r.chance(50) ? Bool::yes : Bool::no; if (r.chance(20)) { p.isColorSpecified = true; p.color = color(r); } if (r.chance(20)) p.fontData = font(r); return p; }
static SpannerStart spanner(Rng& r, int t) { SpannerStart s; s.numberLevel = r.range(1, 3); s.tickTimePosition = t; s.positionData = pos(r); if (r.chance(40)) s.lineData = line(r); return s; }
ScoreData makeScore(uint64_t seed, bool withIds) {
    Rng r(seed * 7919 + 13); ScoreData s; hard = r.chance(35);
    s.musicXmlVersion = MusicXmlVersion::ThreePointZero; s.musicXmlType = r.chance(25) ? "timewise" : "partwise";
    s.ticksPerQuarter = r.chance(50) ? 4 : r.chance(50) ? 12 : 960; int tpq = s.ticksPerQuarter;
    if (r.chance(60)) s.workTitle = "Work " + std::to_string(seed) + " " + word(r); if (r.chance(40)) s.movementTitle = "Mvt " + word(r); if (r.chance(30)) s.workNumber = "op. " + std::to_string(r.below(200));
    if (r.chance(30)) s.movementNumber = std::to_string(r.below(9)); if (r.chance(50)) s.composer = "C " + word(r); if (r.chance(30)) s.lyricist = "L " + word(r); if (r.chance(30)) s.arranger = word(r); if (r.chance(30)) s.copyright = "(c) " + word(r);
    if (r.chance(50)) { s.encoding.encodingDate.year = 2000 + r.below(30); s.encoding.encodingDate.month = 1 + r.below(12); s.encoding.encodingDate.day = 1 + r.below(28); }
    if (r.chance(50)) s.encoding.encoder = "enc " + word(r); if (r.chance(40)) s.encoding.software.push_back("soft " + word(r));
    if (r.chance(20)) s.encoding.miscelaneousFields.emplace_back("k" + std::to_string(r.below(9)), word(r));
    if (r.chance(30)) { PageTextData p; p.text = "page " + word(r); p.pageNumber = 1 + r.below(3); p.positionData = pos(r); p.fontData = font(r); if (r.chance(50)) p.description = "title"; s.pageTextItems.push_back(p); }
    bool big = seed % 5 == 0; int np = big ? r.range(1, 3) : r.chance(70) ? 1 : 2, nm = big ? r.range(1, 3) : r.range(1, 2);
    int beats = r.range(2, 4);
    for (int p = 0; p < np; p++) {
        PartData pd; pd.uniqueId = r.chance(30) ? "Piano-" + std::to_string(p) : "P" + std::to_string(p + 1); pd.name = "Part " + word(r); if (r.chance(50)) pd.abbreviation = "Pt." + std::to_string(p); if (r.chance(30)) pd.displayName = "D " + word(r);
        if (withIds && r.chance(75)) { auto& md = pd.instrumentData.midiData; md.channel = 1 + r.below(16); if (r.chance(50)) md.program = 1 + r.below(128); }      // the library makes up an id
        else if (r.chance(60)) { pd.instrumentData.name = "Instr " + word(r); pd.instrumentData.soundID = r.chance(50) ? SoundID::keyboardPiano : SoundID::pluckGuitar; if (!withIds || r.chance(20)) pd.instrumentData.uniqueId = "I" + std::to_string(p + 1) + "u"; pd.instrumentData.midiData.channel = 1 + r.below(16); if (r.chance(50)) pd.instrumentData.midiData.program = 1 + r.below(128); if (r.chance(50)) { pd.instrumentData.midiData.volume = r.range(0, 100); pd.instrumentData.midiData.isVolumeSpecified = true; } }
        if (r.chance(15)) { pd.displayNamePrintData = prn(r); pd.displayNamePositionData = pos(r); pd.displayAbbreviation = word(r); } if (hard && r.chance(30)) { auto& md = pd.instrumentData.midiData; md.virtualLibrary = word(r); md.virtualName = word(r); md.name = word(r); md.device = word(r); md.bank = 1 + r.below(100); md.isPanSpecified = true; md.pan = num(r, -90, 90); md.isElevationSpecified = true; md.elevation = num(r, -90, 90); } if (r.chance(15)) pd.instrumentData.abbreviation = word(r); if (r.chance(15)) pd.instrumentData.soloOrEnsemble = (SoloOrEnsemble)r.below(3);
        if (r.chance(20)) pd.transposition = TransposeData(-2, -1);
        int nst = r.chance(big ? 50 : 20) ? 2 : 1, nv = r.chance(big ? 50 : 25) ? 2 : 1;
        for (int m = 0; m < nm; m++) {
            MeasureData md; md.number = std::to_string(m + 1); md.timeSignature.beats = beats; md.timeSignature.beatType = 4; md.timeSignature.isImplicit = m > 0; if (r.chance(20)) md.width = num(r, 100, 400); if (r.chance(5)) md.implicit = r.chance(50) ? Bool::yes : Bool::no; if (r.chance(4)) md.multiMeasureRest = r.range(1, 4); if (r.chance(5)) md.measureNumbering = (MeasureNumbering)r.below(4); if (r.chance(5)) md.nonControlling = Bool::yes; if (r.chance(8)) md.timeSignature.symbol = (TimeSignatureSymbol)r.below(3);
            if (m == 0 && r.chance(60)) { KeyData k; k.fifths = r.range(-6, 6); if (r.chance(50)) k.mode = KeyMode::minor; md.keys.push_back(k); } else if (m == 0 && r.chance(12)) { KeyData k; for (int z = r.range(1, 3); z > 0; z--) k.nonTraditional.emplace_back((Step)r.below(7), r.range(-1, 1), 0.0, Accidental::none); md.keys.push_back(k); }
            if (r.chance(25)) { BarlineData b; b.barlineType = m == nm - 1 ? BarlineType::lightHeavy : BarlineType::lightLight; b.location = HorizontalAlignment::right; b.tickTimePosition = beats * tpq; if (r.chance(40)) b.repeat = true; if (r.chance(30)) { b.endingType = (EndingType)(1 + r.below(3)); b.endingNumber = r.range(1, 3); } md.barlines.push_back(b); }
            for (int st = 0; st < nst; st++) {
                StaffData sd;
                if (m == 0) { ClefData c; if (st) c.setBass(); else if (r.chance(20)) c.setAlto(); else c.setTreble(); sd.clefs.push_back(c); }
                for (int d = 0, nd = r.range(0, 2); d < nd; d++) {
                    DirectionData dd; dd.tickTimePosition = r.below(beats) * tpq; dd.placement = r.chance(50) ? Placement::above : Placement::below;
                    if (r.chance(6)) dd.isStaffValueSpecified = false; if (r.chance(6)) dd.voice = r.range(1, 4);
                    switch (r.below(13)) {
                        case 0: { WordsData w; w.text = word(r); w.positionData = pos(r); w.fontData = font(r); if (r.chance(25)) { w.isColorSpecified = true; w.colorData = color(r); } dd.words.push_back(w); break; }
                        case 1: { MarkData mk(r.chance(50) ? MarkType::p : MarkType::fff); mk.tickTimePosition = dd.tickTimePosition; dd.marks.push_back(mk); break; }
                        case 2: { WedgeStart w; w.wedgeType = r.chance(50) ? WedgeType::crescendo : WedgeType::diminuendo; w.positionData = pos(r); if (r.chance(30)) { w.isSpreadSpecified = true; w.spread = num(r, 0, 30); } if (r.chance(30)) w.lineData = line(r); if (r.chance(20)) w.numberLevel = r.range(1, 6); dd.wedgeStarts.push_back(w); break; }
                        case 3: { WedgeStop w; dd.wedgeStops.push_back(w); break; }
                        case 4: { TempoData t; t.tempoType = TempoType::beatsPerMinute; t.beatsPerMinute.durationName = DurationName::quarter; t.beatsPerMinute.dots = 0; t.beatsPerMinute.beatsPerMinute = r.range(30, 240); dd.tempos.push_back(t); break; }
                        case 5: { SegnoData g; if (r.chance(40)) { g.positionData = pos(r); g.isColorSpecified = true; g.colorData = color(r); } dd.segnos.push_back(g); break; }
                        case 6: { CodaData g; if (r.chance(40)) g.positionData = pos(r); dd.codas.push_back(g); break; }
                        case 7: { OttavaStart o; o.spannerStart = spanner(r, dd.tickTimePosition); o.ottavaType = (OttavaType)(1 + r.below(4)); dd.ottavaStarts.push_back(o); break; }
                        case 8: { SpannerStop o; o.numberLevel = r.range(1, 3); o.tickTimePosition = dd.tickTimePosition; if (r.chance(50)) dd.ottavaStops.push_back(o); else dd.bracketStops.push_back(o); break; }
                        case 9: { dd.bracketStarts.push_back(spanner(r, dd.tickTimePosition)); break; }
                        case 10: { ChordData c; c.root = (Step)r.below(7); c.rootAlter = r.range(-1, 1); c.chordKind = (ChordKind)(1 + r.below(31)); if (r.chance(40)) c.text = word(r); if (r.chance(30)) { c.bass = (Step)r.below(7); c.bassAlter = r.range(-1, 1); } if (r.chance(30)) { Extension x; x.extensionType = (ExtensionType)r.below(3); x.extensionAlter = (ExtensionAlter)r.below(5); x.extensionNumber = (ExtensionNumber)r.below(10); c.extensions.push_back(x); } if (r.chance(20)) c.useSymbols = Bool::yes; c.positionData = pos(r); dd.chords.push_back(c); break; }
                        case 11: { int z = 1 + r.below(100); MarkData mk((MarkType)z); mk.tickTimePosition = dd.tickTimePosition; if (hard) mk.name = word(r); dd.marks.push_back(mk); break; }
                        default: { RehearsalData h; h.text = word(r); dd.rehearsals.push_back(h); }
                    }
                    sd.directions.push_back(dd);
                }
                for (int v = 0; v < nv; v++) {
                    VoiceData vd; int t = 0;
                    while (t < beats * tpq) {
                        NoteData n; int k = r.below(4); int len = tpq; DurationName dn = DurationName::quarter;
                        if (k == 0) { len = tpq / 2; dn = DurationName::eighth; } else if (k == 1 && t + 2 * tpq <= beats * tpq) { len = 2 * tpq; dn = DurationName::half; } else if (k == 2) { len = tpq / 4; dn = DurationName::dur16th; }
                        if (t + len > beats * tpq) { len = beats * tpq - t; dn = DurationName::quarter; }
                        n.tickTimePosition = t; n.durationData.durationName = dn; n.durationData.durationTimeTicks = len; n.userRequestedVoiceNumber = v + 1;
                        n.isRest = r.chance(15); if (!n.isRest) { n.pitchData.step = (Step)r.below(7); n.pitchData.octave = r.range(2, 6); n.pitchData.alter = r.range(-1, 1); if (r.chance(20)) n.pitchData.accidental = Accidental::sharp; n.stem = r.chance(50) ? Stem::up : r.chance(50) ? Stem::down : Stem::unspecified; if (r.chance(20)) n.notehead = Notehead::diamond;
                            if (r.chance(20)) n.noteAttachmentData.marks.push_back(MarkData(r.chance(50) ? MarkType::accent : MarkType::staccato)); if (r.chance(8)) n.noteAttachmentData.marks.push_back(MarkData(r.chance(50) ? MarkType::trillMark : MarkType::fermata)); if (r.chance(8)) n.noteAttachmentData.marks.push_back(MarkData(MarkType::upBow));
                            if (r.chance(8)) { CurveStart c(CurveType::slur); c.numberLevel = 1; n.noteAttachmentData.curveStarts.push_back(c); } else if (r.chance(8)) { CurveStop c(CurveType::slur); c.numberLevel = 1; n.noteAttachmentData.curveStops.push_back(c); }
                            if (dn == DurationName::eighth && r.chance(40)) n.beams.push_back(r.chance(50) ? Beam::begin : Beam::end); n.positionData = pos(r); if (r.chance(8)) n.printData = prn(r); if (r.chance(8)) n.isTieStart = true; if (r.chance(8)) n.isTieStop = true; if (r.chance(6)) { MarkData mk((MarkType)(1 + r.below(140))); mk.tickTimePosition = t; mk.positionData = pos(r); n.noteAttachmentData.marks.push_back(mk); } if (r.chance(6)) n.notehead = (Notehead)r.below(26); if (r.chance(6)) n.pitchData.accidental = (Accidental)(1 + r.below(30)); if (hard && r.chance(15)) n.pitchData.cents = num(r, -50, 50); if (r.chance(5)) { CurveStart c(r.chance(50) ? CurveType::slur : CurveType::tie); c.numberLevel = r.range(1, 6); c.curvePoints.positionData = pos(r); if (r.chance(50)) { c.curvePoints.isBezierXSpecified = true; c.curvePoints.bezierX = num(r, -10, 10); } c.placement = r.chance(50) ? Placement::above : Placement::unspecified; if (r.chance(30)) c.lineData = line(r); if (r.chance(30)) { c.isColorSpecified = true; c.colorData = color(r); } n.noteAttachmentData.curveStarts.push_back(c); } if (r.chance(5)) { TupletStart ts; ts.numberLevel = 1; ts.actualNumber = 3; ts.normalNumber = 2; ts.actualDurationName = ts.normalDurationName = DurationName::eighth; ts.bracket = r.chance(50) ? Bool::yes : Bool::no; n.noteAttachmentData.tupletStarts.push_back(ts); } else if (r.chance(5)) { TupletStop ts; ts.numberLevel = 1; n.noteAttachmentData.tupletStops.push_back(ts); } if (r.chance(6)) { n.miscData.push_back("m" + std::to_string(r.below(9))); if (r.chance(50)) n.miscData.push_back(hard ? "a b" : "k"); } if (r.chance(6)) { n.durationData.timeModificationActualNotes = 3; n.durationData.timeModificationNormalNotes = 2; n.durationData.timeModificationNormalType = dn; } if (r.chance(5)) n.durationData.durationDots = 1; }
                        vd.notes.push_back(n);
                        if (!n.isRest && r.chance(12)) { NoteData c = n; c.isChord = true; c.pitchData.octave = n.pitchData.octave == 6 ? 5 : n.pitchData.octave + 1; c.noteAttachmentData = NoteAttachmentData(); c.beams.clear(); vd.notes.push_back(c); }
                        t += len;
                    }
                    sd.voices[v] = vd;
                }
                md.staves.push_back(sd);
            }
            pd.measures.push_back(md);
        }
        s.parts.push_back(pd);
    }
    if (np > 1 && r.chance(40)) { PartGroupData g; g.firstPartIndex = 0; g.lastPartIndex = np - 1; g.name = hard ? word(r) : "Grp"; if (r.chance(40)) { g.displayName = word(r); g.abbreviation = word(r); g.displayAbbreviation = word(r); } g.number = 1; g.bracketType = BracketType::bracket; s.partGroups.push_back(g); }
    if (r.chance(30)) { LayoutData l(r.chance(50), r.chance(50)); if (r.chance(50)) { l.system.layout.margins = LeftRight(); l.system.layout.margins->left = num(r, 0, 100); l.system.layout.margins->right = num(r, 0, 100); } if (r.chance(50)) l.system.layout.systemDistance = num(r, 0, 200); if (r.chance(30)) l.page.pageNumber = word(r); s.layout[r.below(nm)] = l; }
    if (r.chance(25)) { s.defaults.scalingMillimeters = num(r, 5, 10); s.defaults.scalingTenths = 40; if (r.chance(60)) s.defaults.pageLayout.size = SizeData(num(r, 100, 3000), num(r, 100, 3000)); if (r.chance(40)) s.defaults.systemLayout.topSystemDistance = num(r, 0, 100); if (r.chance(40)) { AppearanceData a; a.appearanceType = (AppearanceType)r.below(4); a.appearanceSubType = a.appearanceType == AppearanceType::LineWidth ? "stem" : a.appearanceType == AppearanceType::NoteSize ? "cue" : a.appearanceType == AppearanceType::Distance ? "hyphen" : word(r); a.value = num(r, 0, 100); s.defaults.appearance.push_back(a); } }
    if (r.chance(15)) s.publisher = word(r);
    return s;
}
// What a client does to score data it got from a document before it builds a new document from it.
void editScore(ScoreData& s, uint64_t seed) {
    for (auto& p : s.parts) for (auto& m : p.measures) for (auto& st : m.staves) for (auto& d : st.directions) d.tempos.erase(std::remove_if(d.tempos.begin(), d.tempos.end(), [](const TempoData& t) { return t.tempoType != TempoType::beatsPerMinute; }), d.tempos.end());      // "not implemented", it says
    if (!seed) return; Rng r(seed * 6364136223846793005ull + 29); hard = r.chance(35); int n = r.range(1, 6);
    auto part = [&]() -> PartData* { return s.parts.empty() ? nullptr : &s.parts[r.below(s.parts.size())]; };
    auto meas = [&]() -> MeasureData* { auto* p = part(); return !p || p->measures.empty() ? nullptr : &p->measures[r.below(p->measures.size())]; };
    auto staff = [&]() -> StaffData* { auto* m = meas(); return !m || m->staves.empty() ? nullptr : &m->staves[r.below(m->staves.size())]; };
    auto voice = [&]() -> VoiceData* { auto* t = staff(); if (!t || t->voices.empty()) return nullptr; auto i = t->voices.begin(); std::advance(i, r.below(t->voices.size())); return &i->second; };
    for (int i = 0; i < n; i++) switch (r.below(24)) {
        case 0: s.musicXmlType = r.chance(50) ? "timewise" : "partwise"; break;
        case 1: if (auto* p = part()) if (!p->measures.empty()) { p->measures.push_back(p->measures[r.below(p->measures.size())]); } break;
        case 2: if (auto* p = part()) if (!p->measures.empty()) p->measures.erase(p->measures.begin() + r.below(p->measures.size())); break;
        case 3: if (!s.parts.empty() && s.parts.size() < 5) { auto p = s.parts[r.below(s.parts.size())]; p.uniqueId = r.chance(70) ? "Q" + std::to_string(s.parts.size()) : r.chance(50) ? "" : p.uniqueId; s.parts.push_back(p); } break;
        case 4: if (s.parts.size() > 1) std::swap(s.parts.front(), s.parts.back()); break;
        case 5: if (auto* m = meas()) if (!m->staves.empty()) { if (r.chance(50)) m->staves.push_back(m->staves.back()); else m->staves.pop_back(); } break;
        case 6: if (auto* v = voice()) if (!v->notes.empty()) v->notes.erase(v->notes.begin() + r.below(v->notes.size())); break;
        case 7: if (auto* v = voice()) if (!v->notes.empty()) { auto c = v->notes[r.below(v->notes.size())]; c.tickTimePosition += r.range(-2, 8); v->notes.push_back(c); } break;
        case 8: if (auto* v = voice()) for (auto& x : v->notes) x.userRequestedVoiceNumber = r.range(-1, 6); break;
        case 9: if (auto* t = staff()) { t->voices[r.range(0, 6)] = t->voices.empty() ? VoiceData() : t->voices.begin()->second; } break;
        case 10: if (auto* t = staff()) { ClefData c; switch (r.below(5)) { case 0: c.setBass(); break; case 1: c.setAlto(); break; case 2: c.setTenor(); break; case 3: c.setSoprano(); break; default: c.setTreble(); } c.tickTimePosition = r.range(0, 4 * s.ticksPerQuarter); c.location = (ClefLocation)r.below(3); t->clefs.push_back(c); } break;
        case 11: if (auto* t = staff()) { KeyData k; k.fifths = r.range(-7, 7); k.tickTimePosition = r.range(0, 4 * s.ticksPerQuarter); t->keys.push_back(k); } break;
        case 12: if (auto* m = meas()) { KeyData k; k.fifths = r.range(-7, 7); k.cancel = r.range(-2, 2); k.tickTimePosition = r.chance(50) ? 0 : r.range(0, 4 * s.ticksPerQuarter); m->keys.push_back(k); } break;
        case 13: if (auto* m = meas()) { m->timeSignature.beats = r.range(1, 12); m->timeSignature.beatType = 1 << r.below(5); m->timeSignature.isImplicit = r.chance(40); } break;
        case 14: if (auto* t = staff()) { DirectionData d; d.tickTimePosition = r.range(0, 4 * s.ticksPerQuarter); WordsData w; w.text = word(r); w.positionData = pos(r); w.fontData = font(r); d.words.push_back(w); d.wedgeStops.push_back(WedgeStop()); t->directions.push_back(d); if (r.chance(50)) std::swap(t->directions.front(), t->directions.back()); } break;
        case 15: if (auto* m = meas()) { BarlineData b; b.barlineType = (BarlineType)(1 + r.below(10)); b.location = (HorizontalAlignment)r.below(4); b.tickTimePosition = r.range(0, 4 * s.ticksPerQuarter); b.repeat = r.chance(40); m->barlines.push_back(b); } break;
        case 16: s.sort(); break;
        case 17: { LayoutData l(r.chance(50), r.chance(50)); if (r.chance(60)) { l.system.layout.margins = LeftRight(); l.system.layout.margins->left = num(r, -10, 100); l.system.layout.margins->right = num(r, 0, 100); } if (r.chance(50)) l.system.layout.topSystemDistance = num(r, 0, 200); s.layout[r.range(0, 4)] = l; break; }
        case 18: { PartGroupData g; g.firstPartIndex = 0; g.lastPartIndex = s.parts.empty() ? 0 : (int)s.parts.size() - 1; g.number = r.range(1, 3); g.bracketType = (BracketType)r.below(5); s.partGroups.push_back(g); break; }
        case 19: s.encoding.encodingDate.year = r.range(1, 9999); s.encoding.encodingDate.month = r.range(0, 13); s.encoding.encodingDate.day = r.range(0, 32); break;
        case 20: if (auto* v = voice()) for (auto& x : v->notes) { if (r.chance(30)) x.isChord = !x.isChord; if (r.chance(20)) x.noteType = (NoteType)r.below(3); if (r.chance(20)) x.isRest = !x.isRest; if (r.chance(20)) x.durationData.durationDots = r.below(4); if (r.chance(20)) { x.durationData.timeModificationActualNotes = r.range(1, 9); x.durationData.timeModificationNormalNotes = r.range(1, 9); } } break;
        case 21: s.ticksPerQuarter = r.chance(50) ? s.ticksPerQuarter * 2 : r.range(1, 64); break;
        case 22: if (auto* p = part()) { p->instrumentData = InstrumentData(); p->instrumentData.name = word(r); p->name = word(r); } break;
        case 23: { int k = r.below(4); (k == 0 ? s.workTitle : k == 1 ? s.movementTitle : k == 2 ? s.composer : s.copyright) = word(r); break; }
    }
}
