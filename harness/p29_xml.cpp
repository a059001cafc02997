// P29: XML documents against a plain tree: edits, printing, parsing, damaged text.
#include "vh.hpp"
#include <fstream>
#include <memory>
#include "nrlib/tinyxml/tinyxml.h"
enum T { ELEM, TEXT, CDAT, COMM, UNKN, DECL, DOC };
struct N { T t; std::string v; std::vector<std::pair<std::string, std::string>> at; std::vector<std::shared_ptr<N>> ch; };
typedef std::shared_ptr<N> P;
static P mk(T t, const std::string& v) { P p(new N); p->t = t; p->v = v; return p; }
static P clone(const P& p) { P q = mk(p->t, p->v); q->at = p->at; for (auto& c : p->ch) q->ch.push_back(clone(c)); return q; }
static std::string name(vh::Rng& r) { static const char* A[] = {"a", "b", "grid", "_x", "seismic-data", "ns:item", "x.1", "Item"}; if (r.b(.7)) return A[r.i(0, 7)]; std::string s(1, "abcXYZ_"[r.i(0, 6)]); for (long n = r.i(0, 12); n > 0; n--) s += "abcdefgXYZ0123456789_-.:"[r.i(0, 23)]; return s; }
static std::string utf(vh::Rng& r) { static const char* U[] = {"\xc3\xa5", "\xc3\x86", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf0\x90\x80\x80", "\xee\x80\x80"}; return U[r.i(0, 9)]; }
static bool g_ent = false;  // write some of them by number
// text without white space at its ends and without runs of it, unless attr
static std::string text(vh::Rng& r, bool attr, bool plain) { std::string s; long n = r.i(attr ? 0 : 1, r.b(.05) ? 300 : 14); for (long q = 0; q < n; q++) { double u = r.u(); if (u < .12) s += " "; else if (u < .3 && !plain) s += "&<>\"'"[r.i(0, 4)]; else if (u < .35 && !plain) s += utf(r); else if (u < .37 && !plain) s += (char)r.i(1, 31); else s += "abcxyzABC0123456789#;,.=/!?-[]()"[r.i(0, 31)]; }
  if (plain) { for (size_t p; (p = s.find("--")) != std::string::npos;) s[p] = 'x'; for (size_t p; (p = s.find("]]")) != std::string::npos;) s[p] = 'x'; for (char& c : s) if (c == '>' || c == '<') c = '+'; if (!s.empty() && s.back() == '-') s.back() = 'y'; if (!s.empty() && s.back() == ']') s.back() = 'y'; }
  for (size_t p; (p = s.find("&#")) != std::string::npos;) s[p + 1] = 'n';
  if (!attr) { std::string c; for (char x : s) if (!(x == ' ' && (c.empty() || c.back() == ' '))) c += x; while (!c.empty() && c.back() == ' ') c.pop_back(); s = c.empty() ? "t" : c; if (s[0] == 1 || (s[0] > 8 && s[0] < 14)) s = "u" + s; } return s; }
static P tree(vh::Rng& r, int depth) {
  P e = mk(ELEM, name(r)); for (long q = r.b(.5) ? 0 : r.i(1, 4); q > 0; q--) { std::string n = name(r); bool dup = false; for (auto& a : e->at) dup = dup || a.first == n; if (!dup) e->at.push_back({n, text(r, true, false)}); }
  for (long q = depth > 0 ? r.i(0, 4) : 0; q > 0; q--) { double u = r.u(); bool lt = !e->ch.empty() && e->ch.back()->t == TEXT; if (u < .5) e->ch.push_back(tree(r, depth - 1)); else if (u < .75 && !lt) e->ch.push_back(mk(TEXT, text(r, false, false))); else if (u < .85 && !lt) e->ch.push_back(mk(CDAT, text(r, true, true) + "<&>")); else if (u < .95) e->ch.push_back(mk(COMM, text(r, true, true))); else e->ch.push_back(mk(UNKN, "!ELEMENT " + name(r))); }
  return e;
}
static P doc(vh::Rng& r) { P d = mk(DOC, ""); if (r.b(.6)) { P x = mk(DECL, ""); x->at = {{"version", "1.0"}, {"encoding", r.b(.7) ? "UTF-8" : ""}, {"standalone", r.b(.3) ? "yes" : ""}}; d->ch.push_back(x); } if (r.b(.2)) d->ch.push_back(mk(UNKN, "!DOCTYPE x SYSTEM 'a.dtd'")); if (r.b(.3)) d->ch.push_back(mk(COMM, " head " + text(r, true, true))); d->ch.push_back(tree(r, (int)r.i(0, 4))); if (r.b(.2)) d->ch.push_back(mk(COMM, "end")); return d; }
static TiXmlNode* real(const P& p) {
  TiXmlNode* n = 0; if (p->t == ELEM) { TiXmlElement* e = new TiXmlElement(p->v.c_str()); for (auto& a : p->at) e->SetAttribute(a.first, a.second); n = e; } else if (p->t == TEXT || p->t == CDAT) { TiXmlText* t = new TiXmlText(p->v); t->SetCDATA(p->t == CDAT); n = t; } else if (p->t == COMM) n = new TiXmlComment(p->v.c_str()); else if (p->t == UNKN) { n = new TiXmlUnknown(); n->SetValue(p->v); } else if (p->t == DECL) n = new TiXmlDeclaration(p->at[0].second, p->at[1].second, p->at[2].second); else n = new TiXmlDocument();
  for (auto& c : p->ch) n->LinkEndChild(real(c)); return n;
}
static long size(const P& p) { long s = 1; for (auto& c : p->ch) s += size(c); return s; }
static int type(T t) { return t == ELEM ? TiXmlNode::ELEMENT : t == TEXT || t == CDAT ? TiXmlNode::TEXT : t == COMM ? TiXmlNode::COMMENT : t == UNKN ? TiXmlNode::UNKNOWN : t == DECL ? TiXmlNode::DECLARATION : TiXmlNode::DOCUMENT; }
static bool same(const P& p, const TiXmlNode* n, const std::string& k) {
  bool ok = n->Type() == type(p->t); VH_CHECK(ok, k + "-type", "type %d, expected %d", n->Type(), type(p->t)); if (!ok) return false;
  if (p->t == DECL) { const TiXmlDeclaration* d = n->ToDeclaration(); VH_CHECK(d->Version() == p->at[0].second && d->Encoding() == p->at[1].second && d->Standalone() == p->at[2].second, k + "-declaration", "%s %s %s", d->Version(), d->Encoding(), d->Standalone()); }
  else if (p->t != DOC) { ok = n->ValueStr() == p->v; VH_CHECK(ok, k + "-value", "'%s', expected '%s'", n->Value(), p->v.c_str()); if (p->t == TEXT || p->t == CDAT) VH_CHECK(n->ToText()->CDATA() == (p->t == CDAT), k + "-cdata", "%s", p->v.c_str()); }
  if (p->t == ELEM) { const TiXmlElement* e = n->ToElement(); size_t c = 0; for (const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next(), c++) { bool o = c < p->at.size() && a->Name() == p->at[c].first && a->ValueStr() == p->at[c].second; VH_CHECK(o, k + "-attribute", "attribute %zu %s='%s', expected %s", c, a->Name(), a->Value(), c < p->at.size() ? (p->at[c].first + "='" + p->at[c].second + "'").c_str() : "none"); ok = ok && o; } VH_CHECK(c == p->at.size(), k + "-attributes", "%zu, expected %zu", c, p->at.size()); size_t b = p->at.size(); for (const TiXmlAttribute* a = e->LastAttribute(); a && b; a = a->Previous()) VH_CHECK(a->Name() == p->at[--b].first, k + "-attribute-back", "%s", a->Name());
    for (auto& a : p->at) VH_CHECK(e->Attribute(a.first) && *e->Attribute(a.first) == a.second && e->Attribute(a.first.c_str()) == a.second, k + "-attribute-find", "%s", a.first.c_str()); VH_CHECK(!e->Attribute("no-such"), k + "-attribute-none", "found");
    const char* t = e->GetText(); bool ht = !p->ch.empty() && (p->ch[0]->t == TEXT || p->ch[0]->t == CDAT); VH_CHECK((t != 0) == ht && (!ht || t == p->ch[0]->v), k + "-get-text", "%s", t ? t : "none"); }
  size_t c = 0; const TiXmlNode* last = 0; for (const TiXmlNode* x = n->FirstChild(); x; x = x->NextSibling(), c++) { VH_CHECK(x->Parent() == n && x->PreviousSibling() == last, k + "-links", "child %zu", c); if (c < p->ch.size()) ok = same(p->ch[c], x, k) && ok; last = x; } VH_CHECK(c == p->ch.size() && n->LastChild() == last && n->NoChildren() == p->ch.empty(), k + "-children", "%zu children, expected %zu", c, p->ch.size()); return ok && c == p->ch.size();
}
static void lookups(vh::Rng& r, const P& p, const TiXmlNode* n) {  // by name, against the list
  std::vector<const TiXmlNode*> x; for (const TiXmlNode* q = n->FirstChild(); q; q = q->NextSibling()) x.push_back(q); if (x.size() != p->ch.size()) return;
  std::string w = p->ch.empty() || r.b(.1) ? "nothing" : p->ch[r.i(0, (long)p->ch.size() - 1)]->v; const TiXmlNode *f = 0, *l = 0; const TiXmlElement *fe = 0, *ae = 0; int idx = 0, seen = 0; std::vector<const TiXmlNode*> it; for (size_t q = 0; q < x.size(); q++) { if (p->ch[q]->t != COMM) seen++; if (p->ch[q]->t == ELEM && !ae) ae = x[q]->ToElement(); if (p->ch[q]->t != DECL && p->ch[q]->v == w) { if (!f) { f = x[q]; idx = seen; } l = x[q]; it.push_back(x[q]); if (!fe && p->ch[q]->t == ELEM) fe = x[q]->ToElement(); } } if (!f) idx = seen; if (w.empty()) return; int gi = -1;
  VH_CHECK(n->FirstChild(w) == f && n->LastChild(w) == l && n->FirstChildElement(w) == fe && n->FirstChildElement() == ae && n->FirstChild(w.c_str(), gi) == f && gi == idx, "find-child", "%s: index %d, expected %d", w.c_str(), gi, idx);
  const TiXmlNode* q = 0; size_t c = 0; while ((q = n->IterateChildren(w, q)) && c < 99) { VH_CHECK(c < it.size() && q == it[c], "iterate-named", "%zu", c); c++; } VH_CHECK(c == it.size(), "iterate-named", "%zu of %zu", c, it.size()); q = 0; c = 0; while ((q = n->IterateChildren(q)) && c < 999) { VH_CHECK(c < x.size() && q == x[c], "iterate", "%zu", c); c++; }
  if (!x.empty()) { size_t a = r.i(0, (long)x.size() - 1); const TiXmlNode *nx = 0, *pv = 0; const TiXmlElement *ne = 0, *nn = 0; for (size_t b = 0; b < x.size(); b++) { bool m = p->ch[b]->t != DECL && p->ch[b]->v == w; if (b < a && m) pv = x[b]; if (b > a && m && !nx) nx = x[b]; if (b > a && p->ch[b]->t == ELEM) { if (!ne) ne = x[b]->ToElement(); if (m && !nn) nn = x[b]->ToElement(); } } VH_CHECK(x[a]->NextSibling(w) == nx && x[a]->PreviousSibling(w) == pv && x[a]->NextSiblingElement() == ne && x[a]->NextSiblingElement(w) == nn, "siblings", "%s at %zu of %zu", w.c_str(), a, x.size()); }
  vh::stat("lookups"); for (size_t c2 = 0; c2 < x.size(); c2++) if (r.b(.5)) lookups(r, p->ch[c2], x[c2]);
}
static void pick(vh::Rng& r, P& p, TiXmlNode*& n) { while (r.b(.7)) { std::vector<size_t> e; for (size_t q = 0; q < p->ch.size(); q++) if (p->ch[q]->t == ELEM) e.push_back(q); if (e.empty()) return; size_t c = e[r.i(0, (long)e.size() - 1)]; TiXmlNode* x = n->FirstChild(); for (size_t q = 0; q < c && x; q++) x = x->NextSibling(); if (!x) return; p = p->ch[c]; n = x; } }
static TiXmlNode* child(TiXmlNode* n, size_t c) { TiXmlNode* x = n->FirstChild(); while (c-- && x) x = x->NextSibling(); return x; }
static void edit(vh::Rng& r) {
  P root = tree(r, (int)r.i(0, 3)); std::unique_ptr<TiXmlNode> d(real(root)); uint64_t h = 3; for (int q = (int)r.i(1, 25); q > 0; q--) {
    P p = root; TiXmlNode* n = d.get(); pick(r, p, n); TiXmlElement* e = n->ToElement(); int op = (int)r.i(0, 9); h = vh::mix(h, op * 100 + p->ch.size()); P x = r.b(.5) ? tree(r, 1) : r.b() ? mk(TEXT, text(r, false, false)) : mk(COMM, "c"); std::unique_ptr<TiXmlNode> y(real(x)); size_t c = p->ch.empty() ? 0 : r.i(0, (long)p->ch.size() - 1); TiXmlNode* w = child(n, c);
    if (op == 0) { TiXmlNode* z = n->InsertEndChild(*y); VH_CHECK(z && z == n->LastChild(), "insert", "end"); p->ch.push_back(x); } else if (op == 1) { n->LinkEndChild(y.release()); p->ch.push_back(x); }
    else if (op == 2 && w) { TiXmlNode* z = n->InsertBeforeChild(w, *y); VH_CHECK(z && z->NextSibling() == w, "insert", "before"); p->ch.insert(p->ch.begin() + c, x); } else if (op == 3 && w) { TiXmlNode* z = n->InsertAfterChild(w, *y); VH_CHECK(z && z->PreviousSibling() == w, "insert", "after"); p->ch.insert(p->ch.begin() + c + 1, x); }
    else if (op == 4 && w) { n->ReplaceChild(w, *y); p->ch[c] = x; } else if (op == 5 && w) { VH_CHECK(n->RemoveChild(w), "remove", "refused"); p->ch.erase(p->ch.begin() + c); }
    else if (op == 6) { std::string a = r.b(.4) && !p->at.empty() ? p->at[r.i(0, (long)p->at.size() - 1)].first : name(r), v; if (r.b(.4)) { int i = (int)r.i(-2147483648L, 2147483647L); if (r.b()) e->SetAttribute(a, i); else e->SetAttribute(a.c_str(), i); v = std::to_string(i); int g = 0; VH_CHECK(e->QueryIntAttribute(a, &g) == TIXML_SUCCESS && g == i, "int-attribute", "%d, expected %d", g, i); } else if (r.b(.3)) { double i = r.n() * r.logu(1e-3, 1e3); e->SetDoubleAttribute(a.c_str(), i); double g = 0; VH_CHECK(e->QueryDoubleAttribute(a, &g) == TIXML_SUCCESS && std::fabs(g - i) <= 1e-5 * std::fabs(i) + 1e-6, "double-attribute", "%g, expected %g", g, i); v = *e->Attribute(a); } else { v = text(r, true, false); e->SetAttribute(a, v); } bool f = false; for (auto& b : p->at) if (b.first == a) { b.second = v; f = true; } if (!f) p->at.push_back({a, v}); }
    else if (op == 7) { std::string a = p->at.empty() || r.b(.2) ? "none" : p->at[r.i(0, (long)p->at.size() - 1)].first; e->RemoveAttribute(a); for (size_t b = 0; b < p->at.size(); b++) if (p->at[b].first == a) { p->at.erase(p->at.begin() + b); break; } int g; VH_CHECK(e->QueryIntAttribute(a, &g) == TIXML_NO_ATTRIBUTE, "removed-attribute", "%s", a.c_str()); }
    else if (op == 8) { p->v = name(r); n->SetValue(p->v); } else if (op == 9 && r.b(.2)) { n->Clear(); p->ch.clear(); }
    if (r.b(.3)) same(root, d.get(), "edit"); if (r.b(.3)) lookups(r, root, d.get());
  }
  same(root, d.get(), "edited"); std::unique_ptr<TiXmlNode> c(d->Clone()); TiXmlElement k("other"); k.SetAttribute("old", "1"); k.LinkEndChild(new TiXmlText("old")); k = *d->ToElement(); TiXmlElement cc(*d->ToElement()); d->ToElement()->SetAttribute("changed", "1"); d->Clear(); same(root, c.get(), "clone"); same(root, &k, "assigned"); same(root, &cc, "copied"); vh::sig(h); vh::stat("edits");
}
static std::string esc(vh::Rng& r, const std::string& s, char quote) { std::string o; static const char* E[] = {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"}; for (size_t at = 0; at < s.size(); at++) { unsigned char c = s[at]; const char* w = strchr("&<>\"'", c); if (g_ent && c >= 0xc2 && r.b(.3)) { int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1; unsigned long u = c & (0x3f >> n); for (int q = 0; q < n; q++) u = u << 6 | ((unsigned char)s[++at] & 0x3f); o += vh::fmt(r.b() ? "&#%lu;" : r.b() ? "&#x%lx;" : "&#x%lX;", u); } else if (c < 32 || (c < 128 && c != ' ' && r.b(.03))) o += r.b() ? vh::fmt("&#%d;", c) : vh::fmt("&#x%s%x;", r.b(.3) ? "0" : "", c); else if (c && w) { bool raw = (quote && *w != quote && *w != '<' && *w != '&' && r.b()) || (!quote && (*w == '"' || *w == '\'') && r.b()); o += raw ? std::string(1, c) : std::string(E[w - "&<>\"'" < 5 ? strchr("&<>\"'", c) - strchr("&<>\"'", '&') : 0]); } else o += c; } return o; }
static std::string ws(vh::Rng& r, bool must) { static const char* W[] = {" ", "\n", "  ", " \n ", "\r\n", "\t"}; return must ? W[r.i(0, 5)] : r.b(.7) ? "" : W[r.i(0, 5)]; }
static void put(vh::Rng& r, const P& p, std::string& o) {
  if (p->t == ELEM) { o += "<" + p->v; for (auto& a : p->at) { char q = r.b() ? '"' : '\''; o += ws(r, true) + a.first + ws(r, false) + "=" + ws(r, false) + q + esc(r, a.second, q) + q; } o += ws(r, false); if (p->ch.empty() && r.b()) { o += "/>"; return; } o += ">"; for (auto& c : p->ch) { bool t = c->t == TEXT; o += ws(r, false); put(r, c, o); if (t) o += ws(r, false); } if (p->ch.empty() || r.b()) o += ws(r, false); o += "</" + p->v + ws(r, false) + ">"; }
  else if (p->t == TEXT) { std::string s; for (char c : p->v) s += c; std::string e = esc(r, s, 0), f; for (char c : e) if (c == ' ') f += ws(r, true); else f += c; o += f; } else if (p->t == CDAT) o += "<![CDATA[" + p->v + "]]>"; else if (p->t == COMM) o += "<!--" + p->v + "-->"; else if (p->t == UNKN) o += "<" + p->v + ">";
  else if (p->t == DECL) { o += "<?xml"; const char* N_[] = {"version", "encoding", "standalone"}; for (int q = 0; q < 3; q++) if (!p->at[q].second.empty()) o += ws(r, true) + N_[q] + "=\"" + p->at[q].second + "\""; o += ws(r, false) + "?>"; } else for (auto& c : p->ch) { put(r, c, o); o += ws(r, false); }
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static void file(vh::Rng& r) {
  P m = doc(r); std::unique_ptr<TiXmlNode> n(real(m)); TiXmlDocument* d = n->ToDocument(); std::string f = vh::path("x.xml"); int how = (int)r.i(0, 3); std::string s; TiXmlDocument q; vh::stat("roundtrips");
  bool cd = false; std::function<void(const P&)> any = [&](const P& p) { if (p->t == CDAT) cd = true; for (auto& c : p->ch) any(c); }; any(m);
  if (how == 0) { s << *n; q.Parse(s.c_str()); } else if (how == 1) { TiXmlPrinter pr; if (r.b()) pr.SetIndent("  "); else if (r.b()) pr.SetStreamPrinting(); d->Accept(&pr); s = pr.CStr(); VH_CHECK(pr.Size() == s.size(), "printer-size", "%zu", pr.Size()); q.Parse(s.c_str()); } else if (how == 2) { VH_CHECK(d->SaveFile(f.c_str()), "save", "failed"); VH_CHECK(q.LoadFile(f.c_str()), "load", "%s", q.ErrorDesc()); s = slurp(f); remove(f.c_str()); } else { s << *n; std::istringstream in(s); if (cd || m->ch.back()->t != ELEM) q.Parse(s.c_str()); else in >> q; }
  VH_CHECK(!q.Error(), "parse", "%s at %d,%d", q.ErrorDesc(), q.ErrorRow(), q.ErrorCol()); if (how == 2) for (size_t x = 0; x + 1 < s.size(); x++) if (s[x] == '\0') VH_CHECK(false, "null", "a null in the file"); same(m, &q, how == 0 ? "stream" : how == 1 ? "printer" : how == 2 ? "saved" : "in"); if (!q.Error()) lookups(r, m, &q);
  TiXmlDocument c(q), c2; c2 = q; q.Clear(); same(m, &c, "copy"); same(m, &c2, "assign"); vh::sig(vh::hs(s)); vh::sample(s.substr(0, 150));
}
static void layout(vh::Rng& r) {  // text written here
  P m = doc(r); std::string s; bool fl = r.b(.3), u8 = r.b(); g_ent = !fl && u8; put(r, m, s); g_ent = false; TiXmlDocument q; std::string f = vh::path("y.xml"); if (fl) { if (r.b(.5)) s = "\xef\xbb\xbf" + s; spit(f, s); VH_CHECK(q.LoadFile(f.c_str()), "load", "%s", q.ErrorDesc()); remove(f.c_str()); } else q.Parse(s.c_str(), 0, u8 ? TIXML_ENCODING_UTF8 : TIXML_DEFAULT_ENCODING); VH_CHECK(!q.Error(), "parse", "%s at %d,%d", q.ErrorDesc(), q.ErrorRow(), q.ErrorCol()); same(m, &q, "layout"); vh::stat("layouts");
  // rows and columns of the elements in text with one kind of line end and no tabs
  std::string t; std::vector<std::pair<int, int>> at; int row = 1, col = 1; auto app = [&](const std::string& x) { t += x; for (char c : x) if (c == '\n') { row++; col = 1; } else col++; }; long k = r.i(1, 12); app(std::string(r.i(0, 3), '\n')); at.push_back({row, col}); app("<top>"); for (long e = 0; e < k; e++) { app(std::string(r.i(0, 3), r.b() ? '\n' : ' ')); at.push_back({row, col}); app(r.b() ? "<e a='1'/>" : "<e>text</e>"); } app("</top>"); TiXmlDocument z; z.Parse(t.c_str()); const TiXmlElement* e = z.FirstChildElement(); VH_CHECK(e && e->Row() == at[0].first && e->Column() == at[0].second, "position", "%d %d, expected %d %d", e ? e->Row() : -1, e ? e->Column() : -1, at[0].first, at[0].second); size_t c = 1; if (e) for (e = e->FirstChildElement(); e; e = e->NextSiblingElement(), c++) VH_CHECK(c < at.size() && e->Row() == at[c].first && e->Column() == at[c].second, "position", "%zu: %d %d", c, e->Row(), e->Column()); VH_CHECK(c == at.size(), "position", "%zu", c); vh::sig(vh::hs(s));
}
static void damaged(vh::Rng& r) {
  P m = doc(r); std::string s; bool must = false; size_t from = 0, to = 0; for (auto& c : m->ch) { size_t b = s.size(); put(r, c, s); if (c->t == ELEM) { from = b; to = s.size(); } s += ws(r, false); }
  int k = (int)r.i(0, 4); if (k == 0) { s.resize(r.i((long)from + 1, (long)to - 1)); must = true; } else if (k == 1) { for (long q = r.i(1, 6); q > 0 && !s.empty(); q--) s[r.i(0, (long)s.size() - 1)] = (char)r.i(1, 255); } else if (k == 2) { for (long q = r.i(1, 3); q > 0 && !s.empty(); q--) { size_t a = r.i(0, (long)s.size() - 1), b = r.i(1, 12); s.erase(a, b); } } else if (k == 3) { static const char* J[] = {"<", ">", "</", "<!--", "<![CDATA[", "<?xml", "&", "&#", "&#x", "\xef\xbb\xbf", "\xef", "\xf0", "'", "\"", "=", "&#xFFFFFFFF;", "&#99999999999;", "<?xml ", "/>", "\xef\xbf\xbe", "&#x41"}; for (long q = r.i(1, 4); q > 0; q--) s.insert(r.i(0, (long)s.size()), J[r.i(0, 20)]); } else { s.clear(); for (long q = r.i(0, 40); q > 0; q--) s += r.b(.6) ? "<>/!-?[]='\"& ax\n"[r.i(0, 15)] : (char)r.i(1, 255); }
  // an own copy of exactly the text, so that reading on is seen
  std::unique_ptr<char[]> b(new char[s.size() + 1]); memcpy(b.get(), s.c_str(), s.size() + 1); TiXmlDocument q; static const TiXmlEncoding E[] = {TIXML_DEFAULT_ENCODING, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY}; q.Parse(b.get(), 0, E[r.i(0, 2)]); if (must) VH_CHECK(q.Error(), "truncated", "text cut off inside the document was accepted: %s", s.c_str()); if (q.Error()) VH_CHECK(q.ErrorId() > 0 && q.ErrorDesc()[0], "error", "%d", q.ErrorId());
  TiXmlDocument c(q); std::string o; o << q; std::string o2; o2 << c; if (o.find('\0') == std::string::npos && o.find("&#x00;") == std::string::npos) VH_CHECK(o == o2, "damaged-copy", "%s\n---\n%s", o.c_str(), o2.c_str()); if (r.b(.1)) { std::string f = vh::path("z.xml"); spit(f, s); TiXmlDocument z; z.LoadFile(f.c_str()); remove(f.c_str()); } vh::stat(q.Error() ? "rejected" : "accepted"); vh::eval(); vh::sig(vh::hs(s));
}
int main(int argc, char** argv) { return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) { if (m == "edit") edit(r); else if (m == "file") file(r); else if (m == "layout") layout(r); else damaged(r); }); }
