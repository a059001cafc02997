// P13: text parsing, tokenising, ASCII arrays and tables against reference implementations.
#include "vh.hpp"
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/serialize.hpp"
#include "nrlib/iotools/stringtools.hpp"
#include "nrlib/iotools/tabularfile.hpp"
#include <fstream>
#include <sstream>
using namespace NRLib;
static std::string vis(const std::string& s) { std::string o; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } return o.size() > 300 ? o.substr(0, 300) + "..." : o; }
#define CS(x) vis(x).c_str()
static const char WS[] = " \t\n\r\f\v";
static bool ws(char c) { return c && strchr(WS, c); }
static std::string space(vh::Rng& r, bool some, const char* set = WS) { std::string s; int n = (int)r.i(some ? 1 : 0, r.b(.2) ? 6 : 2); int k = (int)strlen(set); for (int i = 0; i < n; i++) s += set[r.b(.5) ? 0 : r.i(0, k - 1)]; return s; }
static std::string word(vh::Rng& r, bool quote = false) { static const char A[] = "abzAZ059_-+.,;:!?#%&/()=*'<>|@"; std::string s; int n = (int)r.i(1, r.b(.1) ? 40 : 6); for (int i = 0; i < n; i++) s += r.b(.05) ? (char)r.i(128, 255) : (quote && r.b(.1)) ? '"' : A[r.i(0, (long)sizeof A - 2)]; return s; }

template <class T> static bool accepts(const std::string& s, T& x, bool& it) { it = IsType<T>(s); try { x = ParseType<T>(s); return true; } catch (NRLib::Exception&) { return false; } }
template <class T> static void good(const std::string& s, T v, const char* n) { T x = T(); bool it, ok = accepts(s, x, it); VH_CHECK(ok && it && x == v, "parse-number", "\"%s\" as %s: accepted %d IsType %d", CS(s), n, ok, it); vh::sig(s.substr(0, 6) + n); }
template <class T> static void bad(const std::string& s, const char* n) { T x = T(); bool it, ok = accepts(s, x, it); VH_CHECK(!ok && !it, "parse-accepts-non-number", "\"%s\" as %s: ParseType accepted %d IsType %d", CS(s), n, ok, it); vh::stat("rejections"); }
template <class T> static void ints(vh::Rng& r, const char* n) {
  typedef std::numeric_limits<T> L; bool sg = L::is_signed;
  T v = r.b(.3) ? (r.b() ? L::max() : L::min()) : (T)(r.next() >> r.i(0, 63));
  if (!sg && r.b(.2)) v = 0;
  std::ostringstream o; o << v; std::string s = o.str();
  if (r.b(.1) && v >= 0) s = "+" + s;
  if (r.b(.1)) { bool neg = s[0] == '-' || s[0] == '+'; s.insert(neg ? 1 : 0, std::string((size_t)r.i(1, 3), '0')); }
  good<T>(s, v, n);
  std::string j = s + std::string(1, "abcxyz%$#,;:!.*/"[r.i(0, 15)]); bad<T>(j, n); bad<T>(s + (r.b() ? " 1" : "-3"), n); bad<T>("", n); bad<T>(r.b() ? "x" + s : "-", n);
  // out of range
  std::string big = L::is_signed && r.b() ? "-" : ""; big += std::to_string((unsigned long long)L::max()); big += std::string((size_t)r.i(1, 3), '0' + (char)r.i(0, 9)); bad<T>(big, n);
  if (L::digits < 63) bad<T>(std::to_string((long long)L::max() + r.i(1, 1000)), n);
  VH_CHECK(ToString(v) == o.str(), "to-string", "%s gives %s", o.str().c_str(), ToString(v).c_str());
}
template <class T> static void reals(vh::Rng& r, const char* n, int dig, double lo, double hi) {
  T v = (T)(r.b(.1) ? 0.0 : r.b(.3) ? (double)r.i(-1000, 1000) : (r.b() ? -1 : 1) * r.logu(lo, hi)); char b[400];
  switch (r.i(0, 2)) { case 0: snprintf(b, sizeof b, "%.*g", dig, (double)v); break; case 1: snprintf(b, sizeof b, "%.*e", dig, (double)v); break; default: snprintf(b, sizeof b, r.b() ? "%+.*E" : "%.*e", dig + 3, (double)v); }
  good<T>(b, v, n); bad<T>(std::string(b) + "abcxyz%$#,;:!*/"[r.i(0, 14)], n); bad<T>(std::string(b) + (r.b() ? " 1" : "-"), n); bad<T>("", n); bad<T>(std::string("x") + b, n); bad<T>(r.b() ? "-" : ".", n); bad<T>(std::string(b) + ".1.", n);
  bad<T>(sizeof(T) == 4 ? (r.b() ? "1e39" : "-4e38") : (r.b() ? "1e309" : "-2e308"), n);
  int p = (int)r.i(0, 12); double w = (double)v; if (std::fabs(w) < 1e15) { snprintf(b, sizeof b, "%.*f", p, w); VH_CHECK(ToString(v, p) == b, "to-string", "ToString(%.17g, %d) = %s, expected %s", w, p, ToString(v, p).c_str(), b); }
  snprintf(b, sizeof b, "%g", w); VH_CHECK(ToString(v) == b, "to-string", "ToString(%.17g) = %s, expected %s", w, ToString(v).c_str(), b);
}
static void numbers(vh::Rng& r, long) {
  ints<int>(r, "int"); ints<short>(r, "short"); ints<long>(r, "long"); ints<unsigned>(r, "unsigned"); ints<size_t>(r, "size_t"); ints<long long>(r, "long long");
  reals<double>(r, "double", 17, 1e-300, 1e300); reals<float>(r, "float", 9, 1e-37, 1e37);
  bad<int>("1.5", "int"); bad<int>("1e3", "int");
  std::string s = word(r); if (r.b()) s += space(r, true) + word(r); VH_CHECK(ParseType<std::string>(s) == s, "parse-string", "\"%s\"", CS(s));
  vh::stat("number_rounds");
}

static std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && ws(s[i])) i++; size_t j = i; while (j < s.size() && !ws(s[j])) j++; if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "]"; return s; }
static std::string replaceAll(const std::string& t, const std::string& a, const std::string& b) { std::string o; size_t i = 0; while (i < t.size()) { if (t.compare(i, a.size(), a) == 0) { o += b; i += a.size(); } else o += t[i++]; } return o; }
static void strings(vh::Rng& r, long) {
  { std::string s = space(r, false); int n = (int)r.i(0, 8); for (int i = 0; i < n; i++) s += word(r, true) + space(r, i + 1 < n || r.b()); auto g = GetTokens(s); VH_CHECK(g == split(s), "tokens", "\"%s\" gives %s", CS(s), CS(join(g))); vh::sig(vh::fmt("tok%d/%zu", n, s.size())); }
  { // quoted tokens
    std::string s = space(r, false, " \t"); std::vector<std::string> e; int n = (int)r.i(0, 6);
    for (int i = 0; i < n; i++) {
      if (r.b()) { std::string q; int m = (int)r.i(0, 3); for (int k = 0; k < m; k++) q += (r.b() ? space(r, false, " \t") : "") + word(r); if (r.b(.3)) q += " "; if (r.b(.2)) q = " " + q; e.push_back(q); s += "\"" + q + "\""; vh::stat("quoted_tokens"); }
      else { e.push_back(word(r)); s += e.back(); }
      s += space(r, i + 1 < n || r.b(), " \t");
    }
    auto g = GetQuotedTokens(s); VH_CHECK(g == e, "quoted-tokens", "\"%s\" gives %s, expected %s", CS(s), CS(join(g)), CS(join(e)));
    // an unterminated quote must come to an end, by a result or an error
    try { GetQuotedTokens(s + " \"" + word(r)); } catch (std::exception&) {} vh::eval(); vh::stat("unterminated_quotes");
  }
  { std::string s = std::string((size_t)r.i(0, 3), ' ') + (r.b(.2) ? "" : word(r)) + (r.b() ? " " + word(r) : "") + (r.b(.2) ? "\t" : "") + std::string((size_t)r.i(0, 3), ' '); size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); std::string e = a == s.npos ? "" : s.substr(a, b - a + 1); VH_CHECK(Chomp(s) == e, "chomp", "\"%s\" gives \"%s\"", CS(s), CS(Chomp(s))); }
  { std::string s = word(r) + space(r, false) + word(r), e = s; for (char& c : e) if (c >= 'a' && c <= 'z') c = (char)(c - 32); VH_CHECK(Uppercase(s) == e, "uppercase", "\"%s\" gives \"%s\"", CS(s), CS(Uppercase(s))); }
  { static const char A[] = "aabc, "; std::string t, a, b; int n = (int)r.i(0, 20); for (int i = 0; i < n; i++) t += A[r.i(0, 5)]; n = (int)r.i(1, 3); for (int i = 0; i < n; i++) a += A[r.i(0, 5)]; n = (int)r.i(0, 4); for (int i = 0; i < n; i++) b += A[r.i(0, 5)];
    if (r.b(.3)) { t = word(r) + "," + word(r) + ",," + word(r); a = ","; b = r.b() ? " " : ""; }
    std::string g = t; Substitute(g, a, b); std::string e = replaceAll(t, a, b);
    VH_CHECK(g == e, "substitute", "\"%s\": \"%s\" -> \"%s\" gives \"%s\", expected \"%s\"", CS(t), CS(a), CS(b), CS(g), CS(e)); vh::sig("sub" + a + ">" + b); }
  { auto nm = [&] { std::string s; int n = (int)r.i(1, 6); for (int i = 0; i < n; i++) s += "abcXYZ019_- "[r.i(0, 11)]; return s; };
    std::string dir = r.b() ? "" : (r.b() ? "/" : "") + nm() + (r.b() ? "/" + nm() : ""), stem = nm() + (r.b(.3) ? "." + nm() : ""), ext = r.b(.7) ? "." + nm() : "";
    if (ext.empty() && stem.find('.') != stem.npos) stem = stem.substr(0, stem.find('.'));
    std::string f = (dir.empty() ? "" : dir + "/") + stem + ext;
    VH_CHECK(GetPath(f) == dir && GetStem(f) == stem && GetExtension(f) == ext && RemovePath(f) == stem + ext, "path-parts", "\"%s\": path \"%s\" stem \"%s\" extension \"%s\"", f.c_str(), GetPath(f).c_str(), GetStem(f).c_str(), GetExtension(f).c_str());
    std::string e2 = nm(); VH_CHECK(ReplaceExtension(f, e2) == (dir.empty() ? "" : dir + "/") + stem + "." + e2 && AddExtension(f, e2) == f + "." + e2, "extension", "\"%s\" with \"%s\": \"%s\" and \"%s\"", f.c_str(), e2.c_str(), ReplaceExtension(f, e2).c_str(), AddExtension(f, e2).c_str());
    std::string pre = "p" + nm(); if (f[0] != '/') VH_CHECK(PrependDir(pre, f) == pre + "/" + f && PrependDir("", f) == f && PrependDir(pre + "/", f) == pre + "/" + f, "prepend", "\"%s\" + \"%s\" = \"%s\"", pre.c_str(), f.c_str(), PrependDir(pre, f).c_str()); }
  vh::stat("string_rounds");
}

template <class T> static T rnd(vh::Rng& r);
template <> int rnd<int>(vh::Rng& r) { return (int)(r.b() ? r.i(-2147483648L, 2147483647L) : r.i(-9, 9)); }
template <> double rnd<double>(vh::Rng& r) { return r.b(.2) ? (double)r.i(-999, 999) : r.n() * r.logu(1e-30, 1e30); }
template <> float rnd<float>(vh::Rng& r) { return (float)(r.b(.2) ? (double)r.i(-999, 999) : r.n() * r.logu(1e-20, 1e20)); }
template <> std::string rnd<std::string>(vh::Rng& r) { return word(r); }
template <class T> static std::string str(const T& t) { std::ostringstream o; o.precision(std::numeric_limits<T>::max_digits10 ? std::numeric_limits<T>::max_digits10 : 17); o << t; return o.str(); }
template <class T, bool FAST> static void arrays(vh::Rng& r, const char* nm) {
  size_t n = (size_t)r.i(0, r.b(.1) ? 200 : 12); std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(rnd<T>(r));
  // the library's own layout
  { int per = (int)r.i(1, 8); std::ostringstream o; o.precision(17); WriteAsciiArray(o, v.begin(), v.end(), per); std::string e; std::ostringstream q; q.precision(17); for (size_t i = 0; i < n; i++) { q << v[i] << ' '; if ((i + 1) % per == 0) q << '\n'; } VH_CHECK(o.str() == q.str(), "ascii-write", "%zu %s, %d per line", n, nm, per);
    std::istringstream in(o.str()); std::vector<T> g(n); int line = 0; ReadAsciiArray(in, g.begin(), n, line); VH_CHECK(g == v, "ascii-array", "library layout, %s", nm); }
  // any layout
  const char* W = FAST ? " \n\r\f\t" : WS; std::string s = space(r, false, W); std::vector<size_t> end; std::vector<int> lines; for (size_t i = 0; i < n; i++) { lines.push_back((int)std::count(s.begin(), s.end(), '\n')); s += str(v[i]); end.push_back(s.size()); if (i + 1 < n || r.b()) s += space(r, true, W); }
  int line = (int)r.i(0, 100), l0 = line; std::vector<T> g(n);
  { std::istringstream in(s); try { ReadAsciiArray(in, g.begin(), n, line); VH_CHECK(g == v, "ascii-array", "%zu %s from \"%s\"", n, nm, CS(s)); if (n) VH_CHECK(line == l0 + lines[n - 1], "line-count", "line %d, expected %d in \"%s\"", line, l0 + lines[n - 1], CS(s)); } catch (NRLib::Exception& e) { VH_CHECK(false, "ascii-array-rejected", "%zu %s from \"%s\": %s", n, nm, CS(s), e.what()); } }
  auto fast = [&](int kind, const std::string& t, std::vector<T>& g, size_t m) -> bool {
    try {
      if (kind == 0) { std::istringstream in(t); auto e = ReadAsciiArrayFast(in, g.begin(), m); VH_CHECK(e == g.begin() + m, "returned-iterator", "kind 0"); }
      else if (kind == 1) { std::istringstream in("skip\n" + t); std::string d; std::getline(in, d); auto e = ReadAsciiArrayFastRestOfFile(in, g.begin(), m); VH_CHECK(e == g.begin() + m, "returned-iterator", "kind 1"); }
      else { std::string c = t; auto e = ParseAsciiArrayFast(c, g.begin(), m); VH_CHECK(e == g.begin() + m, "returned-iterator", "kind 2"); }
      return true;
    } catch (NRLib::Exception&) { return false; }
  };
  static const char* K[] = {"ReadAsciiArrayFast", "ReadAsciiArrayFastRestOfFile", "ParseAsciiArrayFast"};
  if (FAST) for (int k = 0; k < 3; k++) {
    std::vector<T> h(n); bool ok = fast(k, s, h, n); VH_CHECK(ok && h == v, ok ? "ascii-array-fast" : "ascii-array-fast-rejected", "%s: %zu %s from \"%s\"", K[k], n, nm, CS(s));
    // more elements asked for than there are
    size_t m = n + (size_t)r.i(1, 3); std::vector<T> z(m); VH_CHECK(!fast(k, s, z, m), "short-array-accepted", "%s: %zu of %zu %s from \"%s\"", K[k], m, n, nm, CS(s)); vh::stat("short_arrays");
    if (n > 1) { size_t c = (size_t)r.i(0, (long)n - 2); std::vector<T> y(n); VH_CHECK(!fast(k, s.substr(0, end[c]), y, n), "short-array-accepted", "%s: cut after %zu of %zu %s: \"%s\"", K[k], c + 1, n, nm, CS(s.substr(0, end[c]))); }
  }
  { std::istringstream in(s); std::vector<T> z(n + 1); int l = 0; bool ok = true; try { ReadAsciiArray(in, z.begin(), n + 1, l); } catch (NRLib::Exception&) { ok = false; } VH_CHECK(!ok, "short-array-accepted", "ReadAsciiArray: %zu of %zu %s", n + 1, n, nm); }
  if (FAST && n) { size_t c = (size_t)r.i(0, (long)n - 1); std::string t = (c ? s.substr(0, end[c - 1]) + " " : "") + "xyz" + s.substr(end[c]); std::istringstream in(t); std::vector<T> z(n); int l = 0; bool ok = true; try { ReadAsciiArray(in, z.begin(), n, l); } catch (NRLib::Exception&) { ok = false; } VH_CHECK(!ok, "malformed-array-accepted", "ReadAsciiArray: \"%s\"", CS(t)); std::vector<T> y(n); VH_CHECK(!fast(0, t, y, n), "malformed-array-accepted", "ReadAsciiArrayFast: \"%s\"", CS(t)); vh::stat("malformed_arrays"); }
  vh::stat("array_elements", (long)n); vh::sig(vh::fmt("arr%s/%zu", nm, n));
}

static void lines(vh::Rng& r, long) {
  // tokens, lines, comments
  std::string s = space(r, false); int n = (int)r.i(0, 8); std::vector<std::string> tok; std::vector<int> ln;
  for (int i = 0; i < n; i++) { ln.push_back((int)std::count(s.begin(), s.end(), '\n')); tok.push_back(word(r)); s += tok.back(); if (i + 1 < n || r.b()) s += space(r, true); }
  { std::istringstream in(s); int l = 3; std::string t = "stale"; for (int i = 0; i < n; i++) { ReadNextToken(in, t, l); VH_CHECK(t == tok[i] && l == 3 + ln[i], "next-token", "token %d of \"%s\" is \"%s\" on line %d", i, CS(s), CS(t), l); } ReadNextToken(in, t, l); VH_CHECK(t == "" && !in.good(), "token-at-end", "\"%s\" after the last token of \"%s\"", CS(t), CS(s)); bool th = false; try { ReadNext<std::string>(in, l); } catch (EndOfFile&) { th = true; } VH_CHECK(th, "read-past-end", "no error in \"%s\"", CS(s)); }
  { std::istringstream in(s); int l = 0; for (int i = 0; i < n; i++) { VH_CHECK(!CheckEndOfFile(in), "end-of-file", "reported before token %d of \"%s\"", i, CS(s)); std::string t = ReadNext<std::string>(in, l); VH_CHECK(t == tok[i], "next-token", "after CheckEndOfFile: \"%s\"", CS(t)); if (!in.good()) break; } if (in.good()) VH_CHECK(CheckEndOfFile(in), "end-of-file", "not reported at the end of \"%s\"", CS(s)); }
  std::vector<std::string> L; int m = (int)r.i(0, 7); for (int i = 0; i < m; i++) L.push_back(r.b(.4) ? space(r, false, " \t\r") : space(r, false, " \t") + word(r) + (r.b() ? " " + word(r) : "") + space(r, false, " \t\r"));
  std::string t; for (int i = 0; i < m; i++) t += L[i] + (i + 1 < m || r.b() ? "\n" : "");
  auto blank = [](const std::string& x) { return x.find_first_not_of(WS) == x.npos; };
  { std::istringstream in(t); int l = 0; std::string x; for (int i = 0; i < m; i++) { if (blank(L[i])) continue; bool ok = (bool)GetNextNonEmptyLine(in, l, x); VH_CHECK(ok && x == L[i] && l == i + 1, "next-line", "line %d of \"%s\": \"%s\" as line %d", i + 1, CS(t), CS(x), l); } bool ok = (bool)GetNextNonEmptyLine(in, l, x); VH_CHECK(!ok && x == "", "line-at-end", "\"%s\" after the last line of \"%s\"", CS(x), CS(t)); }
  { std::istringstream in(t); std::string e; for (auto& x : L) if (!blank(x)) e = x; std::string g = FindLastNonEmptyLine(in); VH_CHECK(g == e, "last-line", "\"%s\" in \"%s\"", CS(g), CS(t)); }
  if (m) { std::istringstream in(t); int l = 5; bool th = false; try { DiscardRestOfLine(in, l, true); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th == !blank(L[0]) && l == 6, "discard-line", "first line \"%s\": error %d line %d", CS(L[0]), th, l); std::istringstream in2(t); l = 5; DiscardRestOfLine(in2, l, false); std::string x, e = m > 1 ? L[1] : ""; std::getline(in2, x); VH_CHECK(x == e && l == 6, "discard-line", "next line \"%s\", expected \"%s\"", CS(x), CS(e)); }
  { // comments
    std::string c; int q = (int)r.i(0, 4), nl = 0; for (int i = 0; i < q; i++) { c += space(r, false) + "#" + (r.b() ? word(r) + " # " : "") + "\n"; } c += space(r, false); nl = (int)std::count(c.begin(), c.end(), '\n'); std::string w = "z" + word(r); std::istringstream in(c + w + "\nrest"); int l = 0; SkipComments(in, '#', l); std::string g; in >> g; VH_CHECK(g == w && l == nl, "skip-comments", "\"%s\": next token \"%s\" line %d, expected \"%s\" line %d", CS(c + w), CS(g), l, CS(w), nl); std::istringstream in2(c); SkipComments(in2, '#', l); vh::eval(); }
  { // quoted
    std::string c; std::vector<std::string> e; std::vector<int> nl; int q = (int)r.i(0, 4); for (int i = 0; i < q; i++) { c += space(r, false) + (r.b(.3) ? word(r) + " " : ""); for (char& x : c) if (x == '\'') x = '.'; std::string w = r.b(.15) ? "" : word(r) + (r.b() ? " " + word(r) : ""); for (char& x : w) if (x == '\'') x = '"'; if (r.b(.1)) w = "\n" + w; c += "'" + w + "'"; e.push_back(w); std::string cc = c; nl.push_back(0); int k = 0; for (char x : cc) k += x == '\n'; nl.back() = k; }
    // quotes of earlier entries stay in place
    std::string full; full = c; { size_t p = 0; (void)p; }
    std::istringstream in(full); int l = 0; std::vector<std::string> exp; { size_t p = 0; while ((p = full.find('\'', p)) != full.npos) { size_t z = full.find('\'', p + 1); if (z == full.npos) break; exp.push_back(full.substr(p + 1, z - p - 1)); p = z + 1; } }
    size_t p = 0; for (size_t i = 0; i < exp.size(); i++) { std::string g; p = full.find('\'', p); p = full.find('\'', p + 1) + 1; ReadNextQuoted(in, '\'', g, l); VH_CHECK(g == exp[i] && l == (int)std::count(full.begin(), full.begin() + p, '\n'), "next-quoted", "entry %zu of \"%s\": \"%s\" on line %d", i, CS(full), CS(g), l); }
    bool th = false; std::string g; try { ReadNextQuoted(in, '\'', g, l); } catch (EndOfFile&) { th = true; } VH_CHECK(th, "quoted-past-end", "\"%s\" in \"%s\"", CS(g), CS(full)); vh::stat("quoted_entries", (long)exp.size()); }
  vh::stat("line_rounds"); vh::sig(vh::fmt("ln%d/%zu/%zu", m, s.size(), t.size()));
}

static void tables(vh::Rng& r, long) {
  { std::vector<int> v; int n = (int)r.i(0, 9); for (int i = 0; i < n; i++) v.push_back(rnd<int>(r)); std::stringstream s; SerializeVector(v, s); std::vector<int> g; DeserializeVector(s, g); VH_CHECK(g == v, "serialize", "%d integers", n);
    std::vector<std::vector<size_t> > w, h; int m = (int)r.i(0, 5); for (int i = 0; i < m; i++) { w.push_back(std::vector<size_t>()); int k = (int)r.i(0, 4); for (int q = 0; q < k; q++) w.back().push_back((size_t)r.next() >> r.i(0, 60)); } std::stringstream t; Serialize2dVector(w, t); t << "#\n99\n"; Deserialize2dVector(t, h, '#'); VH_CHECK(h == w, "serialize-2d", "%d rows", m); std::string rest; std::getline(t, rest); VH_CHECK(rest == "99", "serialize-2d", "end marker not consumed exactly: \"%s\"", CS(rest)); }
  size_t nc = (size_t)r.i(1, 6), nr = (size_t)r.i(1, 15); std::vector<std::vector<double> > c(nc); std::string f = vh::path("table.txt"); std::ofstream o(f.c_str());
  int hd = (int)r.i(0, 3); size_t first = 1; for (int i = 0; i < hd; i++) { if (r.b(.2)) o << "\n"; else o << "h" << word(r) << " " << word(r) << "\n"; first++; }
  int shortrow = r.b(.3) && nr > 1 && nc > 1 ? (int)r.i(1, (long)nr - 1) : -1;
  for (size_t i = 0; i < nr; i++) { size_t k = (int)i == shortrow ? (size_t)r.i(1, (long)nc - 1) : nc; o << space(r, false, " \t"); for (size_t j = 0; j < k; j++) { double v = rnd<double>(r); if (v == 0 || v == -999) v = 1; c[j].push_back(v); o << (j ? space(r, true, " \t") : "") << str(v); } if (r.b(.2)) o << " "; if (i + 1 < nr || r.b()) o << "\n"; if (r.b(.1)) o << "  \n"; else if (i + 1 == nr && r.b(.3)) o << "\n"; }
  o.close();
  for (int k = 0; k < 2; k++) {
    TabularFile t; bool th = false; std::string w; try { if (k) t = TabularFile(f); else t = TabularFile(f, first, nc, true); } catch (NRLib::Exception& e) { th = true; w = e.what(); }
    if (shortrow >= 0) { VH_CHECK(th, "short-row-accepted", "row %d of %zu has fewer than %zu columns", shortrow, nr, nc); vh::stat("short_rows"); continue; }
    VH_CHECK(!th, "table-rejected", "%zu x %zu: %s", nr, nc, w.c_str()); if (th) continue;
    VH_CHECK(t.GetNColumns() == nc, "table-columns", "%zu", t.GetNColumns()); for (size_t j = 0; j < nc && j < t.GetNColumns(); j++) VH_CHECK(t.GetColumn(j) == c[j], "table-values", "column %zu of %zu, %zu rows, read %zu", j, nc, nr, t.GetColumn(j).size());
  }
  { std::ofstream e(vh::path("empty.txt").c_str()); if (r.b()) e << "\n \n"; e.close(); bool th = false; try { TabularFile t(vh::path("empty.txt")); } catch (NRLib::Exception&) { th = true; } VH_CHECK(th, "empty-table-accepted", "a file without data"); }
  vh::stat("tables"); vh::sig(vh::fmt("tab%zu/%zu/%d", nc, nr, hd));
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& m) {
    if (m == "num") numbers(r, c); else if (m == "str") strings(r, c); else if (m == "line") lines(r, c); else if (m == "tab") tables(r, c);
    else { arrays<int, true>(r, "int"); arrays<double, true>(r, "double"); arrays<float, true>(r, "float"); arrays<std::string, false>(r, "string"); }
  });
}
