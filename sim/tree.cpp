// Histories of edits on XML trees. The model is a plain tree of names, texts and attributes; every edit that returns is applied to it, an edit that throws is not.
#include "tree.h"
#include "ezxml/XFactory.h"
#include <sstream>
#include <fstream>
using namespace ezxml; using sim::OutLib;
static std::string text(long long k, long long len) {      // characters that a writer has to take care of, at both ends, too
    static const char* bits[] = {"a", "text", " ", "&", "<", ">", "\"", "'", "\n", "\t", "\xC3\xA9", "\xE2\x99\xAD", "\xF0\x9D\x84\x9E", "]", "=", "&amp;", "0", "\r", "--", "?"};
    std::string s; uint64_t x = (uint64_t)k * 0x9E3779B97F4A7C15ull + 12345; int n = k < 0 ? 0 : 1 + (x >> 40) % 6; for (int i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += bits[(x >> 33) % 20]; }
    if (len > 0) s += std::string(len, 'x'); return s;
}
static std::string fresh(const Op& o) { std::string s = "m" + o.str("x", "0"); if (o.has("len")) s += std::string(o.num("len"), 'n'); return s; }
static void show(const TreeModel& m, int id, std::string& s) {
    const TNode& n = m.n.at(id); if (n.pi) { s += "<?" + n.name + " " + n.text + "?>\n"; return; }
    s += "<" + n.name; for (auto& a : n.at) s += " " + a.name + "=[" + a.value + "]"; s += ">[" + n.text + "]\n"; for (int k : n.kids) show(m, k, s); s += "</" + n.name + ">\n";
}
static void look(XElement& e, std::string& s, int depth) {
    if (e.getIsProcessingInstruction()) { s += "<?" + e.getName() + " " + e.getValue() + "?>\n"; return; }
    s += "<" + e.getName(); auto ae = e.attributesEnd(); for (auto it = e.attributesBegin(); it != ae; ++it) s += " " + it->getName() + "=[" + it->getValue() + "]";
    s += ">[" + e.getValue() + "]\n"; auto en = e.end(); if (depth < 200 && e.getValue().empty()) for (auto it = e.beginWithProcessingInstructions(); it != en; ++it) look(*it, s, depth + 1); s += "</" + e.getName() + ">\n";
}
static void showDecl(const TDecl& d, std::string& s) { s += std::string("[") + (d.eleven ? "1.1" : "1.0") + (d.has ? d.alone ? " yes" : " no" : "") + "]"; if (d.dtd) s += "[" + d.dtdv + "]"; s += "\n"; }
static void lookDecl(const XDoc& d, TDecl& t) { t.eleven = d.getXmlVersion() == XmlVersion::onePointOne; t.has = d.getHasStandaloneAttribute(); t.alone = d.getIsStandalone(); t.dtd = d.getHasDoctypeDeclaration(); std::string v = d.getDoctypeValue(); OutLib ol; t.dtdv = v.c_str(); }
static int count(const std::string& s, const char* w) { int n = 0; for (size_t i = 0; (i = s.find(w, i)) != std::string::npos; i++) n++; return n; }
static int build(TreeModel& m, XElement& e, int up, bool& mixed) {       // the model of a tree just loaded
    int id; { OutLib ol; id = m.next++; m.n[id].up = up; }
    { std::string nm = e.getName(), v = e.getValue(); bool pi = e.getIsProcessingInstruction(); OutLib ol; TNode& n = m.n[id]; n.name = nm.c_str(); n.text = v.c_str(); n.pi = pi; if (pi) return id; }
    auto ae = e.attributesEnd(); for (auto it = e.attributesBegin(); it != ae; ++it) { std::string nm = it->getName(), v = it->getValue(); OutLib ol; int a = m.next++; m.n[id].at.push_back({a, nm.c_str(), v.c_str()}); }
    if (!e.getValue().empty()) return id;       // what stands beside a text is not shown by the XML layer
    auto en = e.end(); for (auto it = e.beginWithProcessingInstructions(); it != en; ++it) { int k = build(m, *it, id, mixed); OutLib ol; m.n[id].kids.push_back(k); }
    return id;
}
static void drop(TreeDoc& D, int id) {       // an element is gone: so are the handles below it
    std::vector<TreeHandle> gone; std::vector<TreeAHandle> agone;
    { OutLib ol; std::vector<int> todo{id}; while (!todo.empty()) { int k = todo.back(); todo.pop_back(); for (int c : D.m.n[k].kids) todo.push_back(c); D.m.n.erase(k); }
      std::vector<TreeHandle> h; for (auto& x : D.h) (D.m.n.count(x.node) ? h : gone).push_back(x); D.h.swap(h); std::vector<TreeAHandle> a; for (auto& x : D.a) (D.m.n.count(x.node) ? a : agone).push_back(x); D.a.swap(a); }
    gone.clear(); agone.clear();
}
static void keep(TreeDoc& D, const XElementPtr& p, int node) { OutLib ol; if (D.h.size() < 40) D.h.push_back({p, node}); else { size_t i = node % D.h.size(); XElementPtr old = D.h[i].p; D.h[i] = {p, node}; sim::InLib il; old.reset(); } }
static std::string differs(const std::string& what, const std::string& got, const std::string& want) { OutLib ol; if (got == want) return ""; return what + " answered '" + got.substr(0, 60) + "', the history of the tree makes it '" + want.substr(0, 60) + "'"; }
bool treeLive(TreeState& S, const Op& o) { return S.d[o.num("d", 0) & 7].ok; }
std::string treeActual(TreeState& S, const Op& o) { TreeDoc& D = S.d[o.num("d", 0) & 7]; std::string s; TDecl t; lookDecl(*D.d, t); showDecl(t, s); look(*D.d->getRoot(), s, 0); OutLib ol; t = TDecl(); return std::string(s.c_str(), s.size()); }
std::string treeExpected(TreeState& S, const Op& o) { TreeDoc& D = S.d[o.num("d", 0) & 7]; std::string s; showDecl(D.m.decl, s); show(D.m, D.m.root, s); return s; }
static std::string adopt(TreeDoc& D, const XDocPtr& d) {       // model and handles of a document just loaded
    auto root = d->getRoot(); TreeModel m; bool mixed = false; try { lookDecl(*d, m.decl); int r = build(m, *root, -1, mixed); m.root = r; } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { mixed = true; }     // text beside elements: the XML layer does not show such content
    if (mixed) { OutLib ol; D.ok = false; return ""; }
    XDocPtr old; std::vector<TreeHandle> h; std::vector<TreeAHandle> a; { OutLib ol; old = D.d; D.d = d; std::swap(D.m, m); D.ok = true; h.swap(D.h); a.swap(D.a); } h.clear(); a.clear(); old.reset(); { OutLib ol; m = TreeModel(); } keep(D, root, D.m.root); return "";
}
std::string treeOp(TreeState& S, const Op& o, const std::string& dir) {
    TreeDoc& D = S.d[o.num("d", 0) & 7]; std::string m = o.str("m"), bad; long long n = o.num("n", 0);
    if (o.k == "tload") { std::string bytes; if (o.has("doc")) { OutLib ol; bytes = docBytes(o.str("doc")); } XDocPtr d = XFactory::makeXDoc(); if (o.has("doc")) {
            if (o.num("file", 0)) { std::string p = dir + "/l" + o.str("d", "0") + ".xml"; { OutLib ol; std::ofstream f(p, std::ios::binary); f << bytes; } d->loadFile(p); XDocPtr c = XFactory::makeXDoc(); std::istringstream is(bytes); c->loadStream(is); std::string got, want; TDecl t; lookDecl(*d, t); showDecl(t, got); look(*d->getRoot(), got, 0); lookDecl(*c, t); showDecl(t, want); look(*c->getRoot(), want, 0); if (got != want) return "the tree loaded from a file is not the one its bytes make"; }
            else { std::istringstream is(bytes); d->loadStream(is); } } auto r = adopt(D, d); OutLib ol; D.dtds = count(bytes, "<!DOCTYPE"); size_t a = bytes.find("<?"), b = a == std::string::npos ? a : bytes.find("<?", a + 1); D.hidden = b != std::string::npos || bytes.find("<![CDATA[") != std::string::npos || bytes.find('\0') != std::string::npos || (a != std::string::npos && bytes.compare(a, 5, "<?xml")); return r; }
    if (!D.ok) return "";
    if (o.k == "tsave") {       // what is saved is loaded as the same tree; with go=1 the history goes on with the loaded one
        if (o.num("enc", 0)) D.d->setEncoding(o.num("enc") == 2 ? Encoding::utfSixteen : Encoding::utfEight);
        XDocPtr c = XFactory::makeXDoc();
        bool bom = o.num("bom", 0); if (o.has("bom")) D.d->setDoWriteByteOrderMark(bom);
        if (o.num("file", 0)) { std::string p = dir + "/t" + o.str("d", "0") + ".xml"; D.d->saveFile(p);
            if (o.has("rerr") || o.has("reof") || o.has("oom") || o.has("ooms")) c->loadFile(p); else try { c->loadFile(p); } catch (const std::exception& x) { return std::string("saveFile() returned normally, but what is in the file cannot be loaded: ") + x.what(); } }
        else { std::ostringstream os; os.exceptions(std::ios::badbit); D.d->saveStream(os); std::string b = os.str(); if (o.has("bom") && bom != (b.compare(0, 3, "\xEF\xBB\xBF") == 0 || b.compare(0, 2, "\xFF\xFE") == 0)) return "setDoWriteByteOrderMark() does not show in what is saved"; if (count(b, "<!DOCTYPE") > std::max(1, D.dtds)) return "what is saved has two document type declarations"; std::istringstream is(b); c->loadStream(is); }
        std::string got, want; TDecl t; lookDecl(*c, t); { OutLib ol; showDecl(t, got); showDecl(D.m.decl, want); t = TDecl(); } look(*c->getRoot(), got, 0); { OutLib ol; show(D.m, D.m.root, want); size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; if (got.compare(want) != 0) bad = "the tree loaded from what was saved is another one: ..." + want.substr(i > 20 ? i - 20 : 0, 60) + "... became ..." + got.substr(i > 20 ? i - 20 : 0, 60); }
        if (!bad.empty() && D.hidden) { OutLib ol; for (auto& x : D.m.n) if (!x.second.text.empty() && x.second.text.find_first_not_of(" \t\r\n") == std::string::npos) bad.clear(); }      // white space beside instructions is taken for layout by whoever loads it
        if (!bad.empty()) return bad; return o.num("go", 0) ? adopt(D, c) : "";
    }
    if (o.k == "td") {          // what stands before the root
        TDecl& t = D.m.decl; XDoc& d = *D.d; bool on = n & 1;
        if (m == "version") { d.setXmlVersion(on ? XmlVersion::onePointOne : XmlVersion::onePointZero); t.eleven = on; }
        else if (m == "hasalone") { d.setHasStandaloneAttribute(on); t.has = on; if (!on) t.alone = false; }
        else if (m == "alone") { d.setIsStandalone(on); t.has = true; t.alone = on; }
        else if (m == "hasdtd") { if (on && !t.dtd) return ""; d.setHasDoctypeDeclaration(on); OutLib ol; t.dtd = on; if (!on) t.dtdv.clear(); }
        else if (m == "dtd") { std::string v; { OutLib ol; v = fresh(o); if (n & 2) v += " PUBLIC \"-//a//b\" \"http://c/d.dtd\""; } d.setDoctypeValue(v); OutLib ol; t.dtd = true; t.dtdv = v; }
        return "";
    }
    if (o.k == "ta") {          // an attribute
        TreeAHandle h; { OutLib ol; if (D.a.empty()) return ""; h = D.a[n % D.a.size()]; } TAttr* a = nullptr; { OutLib ol; for (auto& x : D.m.n[h.node].at) if (x.id == h.attr) a = &x; if (!a) return ""; }
        if (m == "name") return differs("an attribute's getName()", h.p->getName(), a->name); if (m == "value") return differs("an attribute's getValue()", h.p->getValue(), a->value);
        if (m == "null") return h.p->getIsNull() ? "an attribute of a live tree says it is null" : "";
        if (m == "setvalue") { std::string v; { OutLib ol; v = text(o.num("x"), o.num("len", 0)); } h.p->setValue(v); OutLib ol; a->value = v; return ""; }
        if (m == "setname") { std::string v; { OutLib ol; v = fresh(o); } h.p->setName(v); OutLib ol; a->name = v; return ""; }
        return "";
    }
    TreeHandle h; { OutLib ol; if (D.h.empty()) return ""; h = D.h[n % D.h.size()]; } XElement& e = *h.p; TNode* N = &D.m.n[h.node]; int k = (int)o.num("k", 0);
    if (m == "root") { auto r = D.d->getRoot(); keep(D, r, D.m.root); return differs("the root's getName()", r->getName(), D.m.n[D.m.root].name); }
    if (m == "name") return differs("getName()", e.getName(), N->name);
    if (m == "value") return differs("getValue()", e.getValue(), N->text);
    if (m == "null") return e.getIsNull() ? "an element of a live tree says it is null" : "";
    if (m == "pi") return e.getIsProcessingInstruction() != N->pi ? "getIsProcessingInstruction() is wrong" : "";
    if (m == "doc") return e.getDoc() != D.d ? "getDoc() gave another document" : "";
    if (m == "clone") { auto c = e.clone(); keep(D, c, h.node); return ""; }
    if (m == "next") {
        if (h.node == D.m.root) return ""; auto c = e.getNextSibling(); int nx = -1; { OutLib ol; auto& ks = D.m.n[N->up].kids; for (size_t i = 0; i + 1 < ks.size(); i++) if (ks[i] == h.node) nx = ks[i + 1]; }
        if (!c != (nx < 0)) return nx < 0 ? "getNextSibling() of the last child gave an element" : "getNextSibling() gave nothing, but there is a next sibling"; if (!c) return ""; bad = differs("the next sibling's getName()", c->getName(), D.m.n[nx].name); if (bad.empty()) keep(D, c, nx); return bad;
    }
    if (m == "parent") { if (h.node == D.m.root) return ""; auto c = e.getParent(); if (!c) return "getParent() gave nothing"; bad = differs("the parent's getName()", c->getName(), D.m.n[N->up].name); if (bad.empty()) keep(D, c, N->up); return bad; }
    if (N->pi) return "";
    if (m == "type") {
        bool kids = false; { OutLib ol; for (int c : N->kids) kids |= !D.m.n[c].pi; } auto want = !N->text.empty() ? XElementType::text : kids ? XElementType::element : XElementType::empty; std::string g = toString(e.getType()), w = toString(want); return differs("getType()", g, w);
    }
    if (m == "child" || m == "childpi") { if (!N->text.empty() && D.hidden) return "";       // the k-th child, among all or among the elements only
        auto it = m == "child" ? e.begin() : e.beginWithProcessingInstructions(); auto en = e.end(); std::vector<int> ks; { OutLib ol; for (int c : N->kids) if (m == "childpi" || !D.m.n[c].pi) ks.push_back(c); }
        size_t i = 0; for (; it != en; ++it, ++i) { if (i >= ks.size()) { OutLib ol; ks = {}; return "an iterator shows more children than there are"; } bad = differs("a child's getName()", it->getName(), D.m.n[ks[i]].name); if (!bad.empty()) break; if ((int)i == k) { auto c = it->clone(); keep(D, c, ks[i]); } }
        if (bad.empty() && o.num("back", 0) && i == ks.size() && i > 0) {      // and back again, from the end and with the other operators
            auto b = en; bool end = m == "child"; if (!end) { b = e.beginWithProcessingInstructions(); for (size_t j = 0; j + 1 < i; j++) b++; } else --b;
            for (size_t j = i; j-- > 0 && bad.empty(); ) { bad = differs("an iterator going back: a child's getName()", (*b).getName(), D.m.n[ks[j]].name); if (j) { auto c = b--; if (bad.empty()) bad = differs("the iterator before it went back: getName()", c->getName(), D.m.n[ks[j]].name); if (bad.empty() && c == b) bad = "an iterator equals the one it was before it went back"; } }
        }
        bool few = bad.empty() && i < ks.size(); { OutLib ol; std::vector<int>().swap(ks); } return few ? "an iterator shows fewer children than there are" : bad;
    }
    if (m == "attr") {
        auto it = e.attributesBegin(), en = e.attributesEnd(); size_t i = 0; for (; it != en; ++it, ++i) { if (i >= N->at.size()) return "an iterator shows more attributes than there are"; bad = differs("an attribute's getName()", it->getName(), N->at[i].name); if (bad.empty()) bad = differs("an attribute's getValue()", it->getValue(), N->at[i].value); if (!bad.empty()) return bad; }
        if (i < N->at.size()) return "an iterator shows fewer attributes than there are"; if (!o.num("back", 0) || !i) return "";
        auto b = e.attributesBegin(); for (size_t j = 0; j < i; j++) { auto c = b++; bad = differs("the attribute iterator before it went on: getName()", (*c).getName(), N->at[j].name); if (!bad.empty()) return bad; } if (b != en) return "an attribute iterator behind the last attribute is not the end"; b--;
        for (size_t j = i; j-- > 0; ) { bad = differs("an attribute iterator going back: getName()", (*b).getName(), N->at[j].name); if (bad.empty()) bad = differs("an attribute iterator going back: getValue()", b->getValue(), N->at[j].value); if (!bad.empty()) return bad; if (j) { auto c = j & 1 ? b-- : b; if (c == b) --b; if (c == b) return "an attribute iterator equals the one it was before it went back"; } }
        return "";
    }
    if (m == "setvalue" && !N->text.empty() && D.hidden && o.num("x") < 0) return "";
    std::string f, v; { OutLib ol; f = fresh(o); v = text(o.num("x"), o.num("len", 0)); }
    if (m == "setname") { e.setName(f); OutLib ol; N->name = f; return ""; }
    if (m == "setvalue") { if (!N->kids.empty()) { bool kids = false; { OutLib ol; for (int c : N->kids) kids |= !D.m.n[c].pi; } if (!kids) return ""; try { e.setValue(v); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { return ""; } return "setValue() put text beside child elements"; } e.setValue(v); OutLib ol; N->text = v; return ""; }
    auto made = [&](int up) { OutLib ol; int id = D.m.next++; TNode x; x.up = up; x.name = f; D.m.n[id] = x; return id; };
    if (m == "append" || m == "prepend") { if (!N->text.empty()) return ""; auto c = m == "append" ? e.appendChild(f) : e.prependChild(f); int id = made(h.node); { OutLib ol; auto& ks = D.m.n[h.node].kids; ks.insert(m == "append" ? ks.end() : ks.begin(), id); } keep(D, c, id); return ""; }
    if (m == "insert") { if (h.node == D.m.root) return ""; auto c = e.insertSiblingAfter(f); int up = N->up, id = made(up); { OutLib ol; auto& ks = D.m.n[up].kids; size_t i = 0; while (ks[i] != h.node) i++; ks.insert(ks.begin() + i + 1, id); } keep(D, c, id); return ""; }
    if (m == "remove") {        // removes the first child of that name
        if (o.num("none", 0)) return e.removeChild("no-such-child") ? "removeChild() claims to have removed a child that does not exist" : ""; int id = -1; std::string nm; { OutLib ol; if (N->kids.empty()) return ""; nm = D.m.n[N->kids[k % N->kids.size()]].name; for (int c : N->kids) if (id < 0 && D.m.n[c].name == nm) id = c; }
        bool b = e.removeChild(nm); { OutLib ol; auto& ks = N->kids; for (size_t i = 0; i < ks.size(); i++) if (ks[i] == id) { ks.erase(ks.begin() + i); break; } } drop(D, id); return b ? "" : "removeChild() says it removed nothing";
    }
    if (m == "aappend" || m == "aprepend") { auto c = m == "aappend" ? e.appendAttribute(f) : e.prependAttribute(f); OutLib ol; int id = D.m.next++; auto& at = N->at; at.insert(m == "aappend" ? at.end() : at.begin(), TAttr{id, f, ""}); if (D.a.size() < 40) D.a.push_back({c, h.node, id}); return ""; }
    if (m == "aset") { if (N->at.empty()) return ""; size_t i = k % N->at.size(); auto it = e.attributesBegin(); for (size_t j = 0; j < i; j++) ++it; it->setValue(v); OutLib ol; N->at[i].value = v; return ""; }
    if (m == "aremove") {
        if (N->at.empty()) return ""; size_t i = k % N->at.size(); { OutLib ol; for (size_t j = 0; j < i; j++) if (N->at[j].name == N->at[i].name) i = j; } auto it = e.attributesBegin(); for (size_t j = 0; j < i; j++) ++it; e.removeAttribute(it); std::vector<TreeAHandle> gone; { OutLib ol; int id = N->at[i].id; N->at.erase(N->at.begin() + i); std::vector<TreeAHandle> a; for (auto& x : D.a) (x.attr == id ? gone : a).push_back(x); D.a.swap(a); } gone.clear(); return "";
    }
    return "";
}
void treeClear(TreeState& S) { sim::InLib il; for (auto& D : S.d) { std::vector<TreeHandle> h; std::vector<TreeAHandle> a; XDocPtr d; { OutLib ol; h.swap(D.h); a.swap(D.a); d.swap(D.d); D.m = TreeModel(); D.ok = false; } } }
