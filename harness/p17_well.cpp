// P17: wells: logs through edits and files.
#include "vh.hpp"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <memory>
#include <set>
#include <nrlib/exception/exception.hpp>
#include <nrlib/well/laswell.hpp>
#include <nrlib/well/norsarwell.hpp>
#include <sys/stat.h>
#include <nrlib/well/rmswell.hpp>
#include <nrlib/well/well.hpp>
#include <nrlib/well/welloperations.hpp>
using namespace NRLib;
typedef std::vector<double> VD;
typedef std::vector<int> VI;

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }
static std::vector<std::string> split(const std::string& l) { std::istringstream s(l); std::vector<std::string> v; std::string t; while (s >> t) v.push_back(t); return v; }
static std::vector<std::string> lines(const std::string& d) { std::istringstream s(d); std::vector<std::string> v; std::string t; while (std::getline(s, t)) { if (!t.empty() && t.back() == '\r') t.pop_back(); v.push_back(t); } return v; }
static std::string num(double v, int p = 17) { char b[64]; snprintf(b, sizeof b, "%.*g", p, v); return b; }
template <class F> static bool throws(F f) { try { f(); } catch (Exception&) { return true; } return false; }

struct Model {
  std::map<std::string, VD> c; std::map<std::string, VI> d; std::string name; double rm = -999; int im = -999;
};

static void same(const Well& w, const Model& m, const char* what, double rel, double abs_ = 0) {
  VH_CHECK(w.GetWellName() == m.name, "well-name", "%s: name %s expected %s", what, w.GetWellName().c_str(), m.name.c_str());
  VH_CHECK(w.GetNContLog() == m.c.size() && w.GetNlog() == m.c.size() + m.d.size(), "well-count", "%s: %zu continuous of %zu logs, expected %zu of %zu", what, w.GetNContLog(), w.GetNlog(), m.c.size(), m.c.size() + m.d.size());
  VH_CHECK(w.GetContMissing() == m.rm && w.GetIntMissing() == m.im, "well-missing-code", "%s: missing codes %g %d expected %g %d", what, w.GetContMissing(), w.GetIntMissing(), m.rm, m.im);
  VH_CHECK(w.IsMissing(m.rm) && w.IsMissing(m.im) && !w.IsMissing(m.rm * 0.5 + 1) && !w.IsMissing(m.im + 1), "well-ismissing", "%s", what);
  for (auto& p : m.c) {
    if (!w.HasContLog(p.first)) { vh::viol("well-log-lost", vh::fmt("%s: continuous log %s is lost", what, p.first.c_str())); continue; }
    const VD& g = w.GetContLog(p.first); const VD& e = p.second;
    VH_CHECK(g.size() == e.size() && w.GetContLogLength(p.first) == e.size(), "well-length", "%s: log %s has %zu values, expected %zu", what, p.first.c_str(), g.size(), e.size());
    for (size_t i = 0; i < e.size() && i < g.size(); ++i) {
      VH_CHECK(w.IsMissing(g[i]) == (e[i] == m.rm), "well-missing", "%s: log %s value %zu: %.10g expected %.10g", what, p.first.c_str(), i, g[i], e[i]);
      VH_CHECK(vh::close(g[i], e[i], rel, abs_), "well-value", "%s: log %s value %zu: %.12g expected %.12g", what, p.first.c_str(), i, g[i], e[i]);
      VH_CHECK(w.GetContValue(i, p.first) == g[i], "well-lookup", "%s", what);
    }
    VH_CHECK(w.IsMissing(w.GetContValue(e.size() + 3, p.first)), "well-beyond", "%s: a value beyond the end is not missing", what);
    VH_CHECK(!w.HasDiscLog(p.first) || m.d.count(p.first), "well-kind", "%s: log %s is discrete", what, p.first.c_str());
  }
  for (auto& p : m.d) {
    if (!w.HasDiscLog(p.first)) { vh::viol("well-log-lost", vh::fmt("%s: discrete log %s is lost", what, p.first.c_str())); continue; }
    const VI& g = w.GetDiscLog(p.first);
    VH_CHECK(g == p.second, "well-disc", "%s: discrete log %s differs", what, p.first.c_str());
    for (size_t i = 0; i < g.size(); ++i) VH_CHECK(w.GetDiscValue(i, p.first) == g[i], "well-disc-lookup", "%s", what);
    VH_CHECK(w.IsMissing(w.GetDiscValue(g.size() + 1, p.first)), "well-disc-beyond", "%s", what);
    VH_CHECK(!w.HasContLog(p.first) || m.c.count(p.first), "well-kind", "%s: log %s is continuous", what, p.first.c_str());
  }
  VH_CHECK(!w.HasContLog("nolog") && !w.HasDiscLog("nolog") && w.IsMissing(w.GetContValue(0, "nolog")) && w.IsMissing(w.GetDiscValue(0, "nolog")), "well-unknown", "%s: unknown log", what);
}

static VD rcont(vh::Rng& r, size_t n, double miss, double pm) { VD v(n); for (double& x : v) x = r.b(pm) ? miss : r.u(-200, 200); return v; }
static VI rdisc(vh::Rng& r, size_t n, int miss, double pm) { VI v(n); for (int& x : v) x = r.b(pm) ? miss : (int)r.i(0, 6); return v; }

static void edit(vh::Rng& r, Well& w, Model& m, size_t n, int steps, bool file) {
  std::vector<std::string> pool = {"GR", "RHOB", "FACIES", "VP", "VS", "NEWLOG", "PHI"};
  if (!file) { pool.push_back("Vp"); pool.push_back("facies"); }
  for (int s = 0; s < steps; ++s) {
    std::string k = r.pick(pool);
    switch (r.i(0, 6)) {
      case 0: if (file && m.d.count(k)) break; { VD v = rcont(r, n, m.rm, 0.2); w.AddContLog(k, v); m.c[k] = v; } break;
      case 1: if (file && m.c.count(k)) break; { VI v = rdisc(r, n, m.im, 0.2); w.AddDiscLog(k, v); m.d[k] = v; } break;
      case 2: w.RemoveContLog(k); m.c.erase(k); break;
      case 3: w.RemoveDiscLog(k); m.d.erase(k); break;
      case 4: if (m.c.count(k) && n) { size_t i = r.i(0, n - 1); double v = r.u(-9, 9); w.SetContValue(v, i, k); m.c[k][i] = v; } break;
      case 5: if (m.d.count(k) && n) { size_t i = r.i(0, n - 1); int v = r.i(0, 9); w.SetDiscValue(v, i, k); m.d[k][i] = v; } break;
      default: if (m.c.count(k) && n) { size_t i = r.i(0, n - 1); w.GetContLog(k)[i] = 7.5; m.c[k][i] = 7.5; }
    }
  }
}

static void t_edit(vh::Rng& r) {
  Model m; m.name = "W" + std::to_string(r.i(0, 99)); size_t n = r.i(1, 20);
  std::unique_ptr<Well> w;
  switch (r.i(0, 2)) {
    case 0: w.reset(new Well()); m.name = ""; break;
    case 1: m.rm = r.pick(VD{-999, -999.25, 1e30, 0}); m.im = r.pick(VI{-999, -1, 0}); w.reset(new Well(m.name, m.rm, m.im)); break;
    default: m.c["GR"] = rcont(r, n, m.rm, 0.2); m.d["FACIES"] = rdisc(r, n, m.im, 0.2); w.reset(new Well(m.c, m.d, m.name));
  }
  VH_CHECK(w->GetNData() == 0 && !w->IsDeviated() && w->GetNumberOfNonMissingData() == 0, "well-initial", "a new well has %d data and deviated=%d", w->GetNData(), (int)w->IsDeviated());
  for (int k = 0; k < 4; ++k) {
    edit(r, *w, m, n, r.i(1, 12), false);
    if (r.b(0.3)) { m.name = "N" + std::to_string(r.i(0, 9)); w->SetWellName(m.name); }
    if (r.b(0.2)) { Well c(*w); same(c, m, "copy", 0); Well a; a = *w; same(a, m, "assigned", 0); edit(r, c, *std::unique_ptr<Model>(new Model(m)), n, 5, false); }
    same(*w, m, "after edits", 0);
    for (auto& p : m.d) {  // names of codes of a plain well: the codes in use
      std::map<int, std::string> e; for (int x : p.second) if (x != m.im) e[x] = std::to_string(x);
      VH_CHECK(w->GetDiscNames(p.first) == e, "well-discnames", "names of codes of %s", p.first.c_str());
    }
    vh::sig(vh::mix(m.c.size() * 100 + m.d.size(), vh::hs(m.name + std::to_string(n))));
  }
  if (r.b()) {
    w->MakeLogsUppercase(); Model u = m; u.c.clear(); u.d.clear();
    auto up = [](std::string s) { for (char& c : s) c = toupper(c); return s; };
    for (auto& p : m.c) u.c[up(p.first)] = p.second;  // on a collision the later name wins
    for (auto& p : m.d) u.d[up(p.first)] = p.second;
    same(*w, u, "uppercase", 0);
  }
  if (r.b(0.3)) { double v = r.i(-9999, 0); w->SetMissing(v); VH_CHECK(w->GetContMissing() == v && w->GetIntMissing() == (int)v, "well-setmissing", "SetMissing(%g)", v); }
  w->SetXPos0(1.5); w->SetYPos0(2.5); w->SetNumberOfData(4); w->SetNumberOfNonMissingData(3); w->SetDeviated(true);
  VH_CHECK(w->GetXPos0() == 1.5 && w->GetYPos0() == 2.5 && w->GetNData() == 4 && w->GetNumberOfNonMissingData() == 3 && w->IsDeviated(), "well-fields", "fields");
}

// ---- RMS ------------------------------------------------------------------
struct RmsLog { std::string name; bool disc; std::string unit, scale; std::map<int, std::string> codes; };
struct RmsFile { std::string l1, l2, name; double x, y; std::vector<RmsLog> logs; std::vector<VD> rows; };

static bool parse_rms(const std::string& d, RmsFile& f) {  // independent reader
  std::vector<std::string> L = lines(d); if (L.size() < 4) return false;
  f.l1 = L[0]; f.l2 = L[1]; std::vector<std::string> t = split(L[2]); if (t.size() < 3) return false;
  f.name = t[0]; f.x = atof(t[1].c_str()); f.y = atof(t[2].c_str()); size_t n = atoi(L[3].c_str());
  if (L.size() < 4 + n) return false;
  for (size_t i = 0; i < n; ++i) {
    RmsLog g; t = split(L[4 + i]); if (t.empty()) return false; g.name = t[0]; g.disc = t.size() > 1 && t[1] == "DISC";
    if (g.disc) for (size_t k = 2; k + 1 < t.size(); k += 2) g.codes[atoi(t[k].c_str())] = t[k + 1];
    else { if (t.size() > 1) g.unit = t[1]; if (t.size() > 2) g.scale = t[2]; }
    f.logs.push_back(g);
  }
  for (size_t i = 4 + n; i < L.size(); ++i) { VD row; for (auto& s : split(L[i])) row.push_back(atof(s.c_str())); if (row.empty()) continue; if (row.size() != n + 3) return false; f.rows.push_back(row); }
  return true;
}

static void same_file(const RmsFile& f, const Model& m, double x, double y, const char* what, const std::set<std::string>& tables = std::set<std::string>()) {
  VH_CHECK(f.name == m.name, "rms-name", "%s: %s", what, f.name.c_str());
  VH_CHECK(vh::close(f.x, x, 1e-7, 1e-7) && vh::close(f.y, y, 1e-7, 1e-7), "rms-position", "%s: %.10g %.10g expected %.10g %.10g", what, f.x, f.y, x, y);
  VH_CHECK(f.logs.size() + 3 == m.c.size() + m.d.size(), "rms-logs", "%s: %zu logs expected %zu", what, f.logs.size(), m.c.size() + m.d.size() - 3);
  for (size_t c = 0; c < f.logs.size() + 3; ++c) {
    std::string k = c == 0 ? "X" : c == 1 ? "Y" : c == 2 ? "Z" : f.logs[c - 3].name; bool disc = c >= 3 && f.logs[c - 3].disc;
    if (disc ? !m.d.count(k) : !m.c.count(k)) { vh::viol("rms-log-kind", vh::fmt("%s: unexpected log %s", what, k.c_str())); continue; }
    size_t n = disc ? m.d.at(k).size() : m.c.at(k).size();
    VH_CHECK(f.rows.size() == n, "rms-rows", "%s: %zu rows expected %zu", what, f.rows.size(), n);
    for (size_t i = 0; i < n && i < f.rows.size(); ++i) { double e = disc ? m.d.at(k)[i] : m.c.at(k)[i]; VH_CHECK(vh::close(f.rows[i][c], e, 1e-7, 0), "rms-cell", "%s: %s[%zu] %.10g expected %.10g", what, k.c_str(), i, f.rows[i][c], e); }
    if (disc) for (int v : m.d.at(k)) if (v != m.im && !(v > 6 && tables.count(k))) VH_CHECK(f.logs[c - 3].codes.count(v), "rms-code", "%s: code %d of %s has no name", what, v, k.c_str());
  }
}

static void t_rms(vh::Rng& r) {
  std::string f = vh::path("w.rmswell"), g = vh::path("w2.rmswell");
  Model m; m.name = "well-" + std::to_string(r.i(0, 999)); size_t n = r.i(1, 25);
  bool utm = r.b(); double x0 = utm ? r.u(4e5, 6e5) : r.u(-500, 500), y0 = utm ? r.u(6e6, 7e6) : r.u(-500, 500);
  VD X(n), Y(n), Z(n); for (size_t i = 0; i < n; ++i) { X[i] = x0 + i * 0.25; Y[i] = y0 - i * 0.5; Z[i] = 1000 + i * 0.125; }
  m.c["X"] = X; m.c["Y"] = Y; m.c["Z"] = Z;
  std::vector<std::string> pool = {"gr", "RHOB", "Facies", "VP", "Zone", "phi", "SW", "perm"}; size_t nl = r.i(0, pool.size());
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.i(0, i - 1)]);
  std::vector<RmsLog> L; double pm = r.b(0.3) ? 0 : 0.3;
  auto up = [](std::string s) { for (char& c : s) c = toupper(c); return s; };
  for (size_t i = 0; i < nl; ++i) {
    RmsLog l; l.name = pool[i]; l.disc = r.b(0.4);
    if (l.disc) { for (int k = 0; k < 7; ++k) l.codes[k] = "code" + std::to_string(k * 11); m.d[up(l.name)] = rdisc(r, n, -999, r.b(0.1) ? 1.0 : pm); }
    else { if (r.b(0.8)) { l.unit = "UNK" + std::to_string(i); l.scale = r.b() ? "lin" : "log"; } m.c[up(l.name)] = rcont(r, n, -999, r.b(0.1) ? 1.0 : pm); }
    L.push_back(l);
  }
  { std::ofstream o(f); o << "1.0\nsome text here\n" << m.name << " " << num(x0) << " " << num(y0) << (r.b() ? " 25.0" : "") << "\n" << nl << "\n";
    for (auto& l : L) { o << l.name; if (l.disc) { o << " DISC"; for (auto& c : l.codes) o << " " << c.first << " " << c.second; } else if (!l.unit.empty()) o << " " << l.unit << " " << l.scale; o << "\n"; }
    for (size_t i = 0; i < n; ++i) {
      o << num(X[i]) << " " << num(Y[i]) << " " << num(Z[i]);
      for (auto& l : L) { if (l.disc) { int v = m.d[up(l.name)][i]; if (r.b(0.2)) { char b[40]; snprintf(b, sizeof b, "%.7e", (double)v); o << " " << b; } else o << " " << v; } else o << (r.b(0.1) ? "\t" : " ") << num(m.c[up(l.name)][i]); }
      if (i + 1 < n || r.b(0.8)) o << "\n";
    } }
  int fmt = r.b() ? Well::RMS : 99;
  std::unique_ptr<Well> w0(r.b(0.3) ? Well::ReadWell(f, fmt) : new RMSWell(f));
  RMSWell* w = dynamic_cast<RMSWell*>(w0.get()); VH_CHECK(w != 0, "rms-type", "not an RMS well"); if (!w) return;
  same(*w, m, "RMS file", 1e-15);
  VH_CHECK((size_t)w->GetNData() == n && w->GetXPos0() == x0 && w->GetYPos0() == y0, "rms-header", "data %d position %.12g %.12g", w->GetNData(), w->GetXPos0(), w->GetYPos0());
  for (auto& l : L) if (l.disc) VH_CHECK(w->GetDiscNames(up(l.name)) == l.codes, "rms-codes", "code names of %s", l.name.c_str());
  w->WriteToFile(g);
  RmsFile p; VH_CHECK(parse_rms(slurp(g), p), "rms-written", "written file cannot be parsed"); same_file(p, m, x0, y0, "written");
  VH_CHECK(p.l1 == "1.0" && p.l2 == "some text here", "rms-lines", "first lines lost");
  for (size_t i = 0; i < L.size() && i < p.logs.size(); ++i) VH_CHECK(p.logs[i].name == up(L[i].name) && p.logs[i].disc == L[i].disc && p.logs[i].unit == L[i].unit && p.logs[i].scale == L[i].scale && p.logs[i].codes == L[i].codes, "rms-logdef", "definition of log %zu (%s)", i, L[i].name.c_str());
  { RMSWell b(g); same(b, m, "RMS round trip", 1e-7); for (auto& l : L) if (l.disc) VH_CHECK(b.GetDiscNames(up(l.name)) == l.codes, "rms-codes2", "code names of %s", l.name.c_str()); }
  vh::sig(vh::hs(slurp(g))); vh::stat("RMS files");
  // edits, then files
  std::set<std::string> tables; for (auto& l : L) if (l.disc) tables.insert(up(l.name));  // these keep the table of their file
  Model e = m; edit(r, *w, e, n, r.i(1, 8), true); same(*w, e, "edited RMS well", 1e-15);
  w->WriteToFile(g); { RmsFile q; VH_CHECK(parse_rms(slurp(g), q), "rms-written", "written file cannot be parsed"); same_file(q, e, x0, y0, "written after edits", tables); RMSWell b(g); same(b, e, "RMS round trip after edits", 1e-7);
    for (auto& d : e.d) { auto nm = w->GetDiscNames(d.first); for (int v : d.second) if (v != e.im && !(v > 6 && tables.count(d.first))) VH_CHECK(nm.count(v), "rms-codes3", "code %d of %s", v, d.first.c_str()); } }
  // conversion of a general well
  Well plain(e.c, e.d, e.name); RMSWell c(plain); same(c, e, "converted", 0); c.WriteToFile(g);
  { RmsFile q; VH_CHECK(parse_rms(slurp(g), q), "rms-written", "written file cannot be parsed"); same_file(q, e, X[0], Y[0], "written after conversion"); for (auto& l : q.logs) VH_CHECK(!l.codes.count(e.im), "rms-code-missing", "the missing code has a name"); RMSWell b(g); same(b, e, "RMS round trip after conversion", 1e-7); }
  // a file cut inside its header or inside a row raises an error
  std::string d = slurp(f); size_t hdr = 0; for (size_t k = 0; k < 4 + nl; ++k) hdr = d.find('\n', hdr) + 1;
  for (int t = 0; t < 3; ++t) { size_t lim = d.rfind('\n', d.find('\n', d.find('\n') + 1) - 1); (void)lim; size_t cut = r.i(0, 20); spit(f, d.substr(0, cut)); VH_CHECK(throws([&] { RMSWell x(f); }), "rms-cut-header", "header cut to %zu bytes accepted", cut); }
  { size_t row = r.i(0, n - 1), at = hdr; for (size_t k = 0; k < row; ++k) at = d.find('\n', at) + 1; size_t end = d.find('\n', at); if (end == std::string::npos) end = d.size(); std::string line = d.substr(at, end - at); size_t sp = line.find_last_of(" \t"); spit(f, d.substr(0, at + sp)); VH_CHECK(throws([&] { RMSWell x(f); }), "rms-cut-row", "a row without its last value was accepted"); }
  std::remove(f.c_str()); VH_CHECK(throws([&] { RMSWell x(f); }), "rms-nofile", "missing file accepted"); std::remove(g.c_str());
}

// ---- LAS ------------------------------------------------------------------
struct Las { std::map<std::string, std::string> well, version; std::vector<std::string> names, units, comments, param, other; std::vector<VD> rows; };
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static bool parse_las(const std::string& d, Las& f) {
  char sec = 0; std::vector<double> acc; bool wrap = false;
  for (std::string l : lines(d)) {
    if (trim(l).empty() || l[0] == '#') continue;
    if (l[0] == '~') { sec = toupper(l[1]); wrap = f.version["WRAP"] == "YES"; continue; }
    if (sec == 'A') { for (char& c : l) if (c == ',') c = ' '; for (auto& t : split(l)) acc.push_back(atof(t.c_str())); if (!wrap && acc.size() != f.names.size()) return false; if (acc.size() >= f.names.size()) { if (acc.size() != f.names.size()) return false; f.rows.push_back(acc); acc.clear(); } continue; }
    if (sec == 'P') { f.param.push_back(trim(l)); continue; } if (sec == 'O') { f.other.push_back(trim(l)); continue; }
    size_t dot = l.find('.'), sp = l.find(' ', dot), col = l.find(':', sp); if (dot == std::string::npos || col == std::string::npos) return false;
    std::string key = trim(l.substr(0, dot)), unit = trim(l.substr(dot + 1, sp - dot - 1)), val = trim(l.substr(sp, col - sp)), com = trim(l.substr(col + 1));
    if (sec == 'C') { f.names.push_back(key); f.units.push_back(unit); f.comments.push_back(com); } else if (sec == 'W') { f.well[key] = val; if (key == "STRT") f.well["unit"] = unit; } else if (sec == 'V') f.version[key] = val; else return false;
  }
  return acc.empty();
}

static void t_las(vh::Rng& r) {
  std::string f = vh::path("w.las"), g = vh::path("w2.las");
  size_t n = r.i(1, 25); Model m; m.name = r.b(0.8) ? "NO 34/" + std::to_string(r.i(0, 99)) : "plain"; m.rm = -999.25; m.im = -999;
  double start = std::floor(r.u(1, 3000) * 8) / 8, step = r.pick(VD{0.5, 0.125, 1, 2, 0.1524});
  if (r.b(0.4)) {  // made in memory
    bool time = r.b(); std::string unit = time ? "MS" : "M";
    LasWell w(m.name, n, start, step, time ? LasWell::Time : LasWell::Depth, unit, "comp", "field", "loc", "2020-01-01", "uwi-7");
    std::string key = time ? "TIME" : "DEPT"; VD dep(n); for (size_t i = 0; i < n; ++i) dep[i] = start + i * step; m.c[key] = dep;
    same(w, m, "new LAS well", 1e-14); std::vector<std::string> order = {key}; std::map<std::string, std::string> un, co; un[key] = unit;
    int k = r.i(0, 5); for (int i = 0; i < k; ++i) { std::string nm = "L" + std::to_string(r.i(0, 3)); if (!m.c.count(nm)) order.push_back(nm); m.c[nm] = rcont(r, n, m.rm, 0.2); un[nm] = "u" + std::to_string(i); co[nm] = "comment " + std::to_string(i); w.AddLog(nm, un[nm], co[nm], m.c[nm]); VH_CHECK(w.GetLogUnit(nm) == un[nm], "las-unit", "unit of %s", nm.c_str()); }
    if (r.b(0.3)) { VD v = rcont(r, n, m.rm, 0.2); w.AddContLog("EXTRA", v); m.c["EXTRA"] = v; order.push_back("EXTRA"); un["EXTRA"] = ""; }
    if (r.b(0.3) && order.size() > 1) { size_t a = r.i(1, order.size() - 1); w.RemoveContLog(order[a]); m.c.erase(order[a]); order.erase(order.begin() + a); }
    same(w, m, "LAS well with logs", 1e-14);
    LasWell cp(w); cp.WriteToFile(g, {"a comment", "another"});
    Las p; VH_CHECK(parse_las(slurp(g), p), "las-written", "written file cannot be parsed");
    VH_CHECK(p.names == order, "las-order", "%zu curves, expected %zu", p.names.size(), order.size());
    for (size_t i = 0; i < p.names.size(); ++i) VH_CHECK(p.units[i] == un[p.names[i]] && p.comments[i] == co[p.names[i]], "las-curve", "curve %s: unit %s comment %s", p.names[i].c_str(), p.units[i].c_str(), p.comments[i].c_str());
    VH_CHECK(p.well["WELL"] == m.name && p.well["COMP"] == "comp" && p.well["FLD"] == "field" && p.well["LOC"] == "loc" && p.well["DATE"] == "2020-01-01" && p.well["UWI"] == "uwi-7" && p.well["unit"] == unit, "las-info", "well information");
    VH_CHECK(vh::close(atof(p.well["STRT"].c_str()), start, 0, 1e-5) && vh::close(atof(p.well["STEP"].c_str()), step, 0, 1e-5) && vh::close(atof(p.well["STOP"].c_str()), start + (n - 1.0) * step, 0, 1e-5) && atof(p.well["NULL"].c_str()) == m.rm, "las-range", "start %s stop %s step %s null %s", p.well["STRT"].c_str(), p.well["STOP"].c_str(), p.well["STEP"].c_str(), p.well["NULL"].c_str());
    VH_CHECK(p.rows.size() == n, "las-rows", "%zu rows", p.rows.size());
    for (size_t i = 0; i < p.rows.size(); ++i) for (size_t j = 0; j < p.names.size(); ++j) if (m.c.count(p.names[j])) VH_CHECK(vh::close(p.rows[i][j], m.c[p.names[j]][i], 0, 6e-4), "las-cell", "%s[%zu] %g expected %g", p.names[j].c_str(), i, p.rows[i][j], m.c[p.names[j]][i]);
    LasWell b(g); same(b, m, "LAS round trip", 0, 6e-4); VH_CHECK((size_t)b.GetNData() == n, "las-ndata", "data"); for (auto& q : order) VH_CHECK(b.GetLogUnit(q) == un[q], "las-unit2", "unit of %s", q.c_str());
    vh::sig(vh::hs(slurp(g))); vh::stat("LAS wells made");
    std::remove(g.c_str()); return;
  }
  // somebody else's file
  m.rm = r.pick(VD{-999.25, -999, -9999, -999.5}); m.im = (int)m.rm; size_t nl = r.i(1, 6); bool wrap = r.b(0.3), comma = !wrap && r.b(0.2), given = r.b(0.7), crlf = false, xy = r.b(); double px = r.u(4e5, 6e5), py = r.u(6e6, 7e6);
  std::vector<std::string> names = {"DEPT"}, units = {"M"}, coms = {"depth"}; for (size_t i = 1; i < nl; ++i) { names.push_back("C" + std::to_string(i) + (r.b() ? "x" : "")); units.push_back(r.b(0.8) ? "U" + std::to_string(i) : ""); coms.push_back(r.b() ? "curve no " + std::to_string(i) : ""); }
  VD dep(n); for (size_t i = 0; i < n; ++i) dep[i] = start + i * step; m.c["DEPT"] = dep; for (size_t i = 1; i < nl; ++i) { m.c[names[i]] = rcont(r, n, m.rm, 0.2); for (double& x : m.c[names[i]]) if (x != m.rm) x = std::round(x * 1000) / 1000; }
  std::vector<std::string> par, oth; for (int i = r.i(0, 3); i > 0; --i) par.push_back("PAR" + std::to_string(i) + " .x 12 : text"); for (int i = r.i(0, 2); i > 0; --i) oth.push_back("other text " + std::to_string(i));
  std::string e = crlf ? "\r\n" : "\n"; std::ostringstream o; o.precision(12);
  auto version = [&] { o << "~Version information" << e << " VERS. 2.0 : CWLS" << e << " WRAP. " << (wrap ? "YES" : "NO") << " : wrap" << e; if (comma) o << " DLM . COMMA : d" << e; };
  auto well = [&] { o << "~Well" << e; if (given) o << "STRT.M " << start << " : s" << e << "STOP.M " << start + (n - 1.0) * step << " : e" << e << "STEP.M " << step << " : i" << e; o << "NULL. " << m.rm << " : n" << e << "WELL. " << m.name << " : name" << e << "SRVC. some company : c" << e; if (xy) o << "XWELL. " << px << " : x" << e << "YWELL. " << py << " : y" << e; };
  auto param = [&] { if (!par.empty()) { o << "~Parameters" << e; for (auto& s : par) o << s << e; } if (!oth.empty()) { o << "~Other" << e; for (auto& s : oth) o << s << e; } };
  if (r.b(0.3)) o << "# comment" << e << e; version(); if (r.b()) o << "# c" << e << e; well(); bool early = r.b(); if (early) param();
  o << "~Curve" << e; for (size_t i = 0; i < nl; ++i) o << names[i] << " ." << units[i] << " : " << coms[i] << e; if (!early) param();
  o << "~A data" << e; size_t lastrow = 0;
  for (size_t i = 0; i < n; ++i) { lastrow = o.str().size(); for (size_t j = 0; j < nl; ++j) { if (wrap && j == 1) o << e; else if (wrap && j > 1 && r.b(0.3)) o << e; else if (j) o << (comma ? "," : " "); o << m.c[names[j]][i]; } o << e; if (r.b(0.05)) o << (r.b() ? "" : "\r") << e; }
  std::string d = o.str(); spit(f, d);
  int fmt = 99; std::unique_ptr<Well> w0(r.b(0.3) ? Well::ReadWell(f, fmt) : new LasWell(f)); LasWell* w = dynamic_cast<LasWell*>(w0.get()); VH_CHECK(w != 0, "las-type", "not a LAS well"); if (!w) return;
  same(*w, m, "LAS file", 1e-10, 1e-9); VH_CHECK((size_t)w->GetNData() == n, "las-ndata", "%d data expected %zu", w->GetNData(), n);
  if (xy) VH_CHECK(vh::close(w->GetXPos0(), px, 1e-11, 0) && vh::close(w->GetYPos0(), py, 1e-11, 0), "las-position", "position %.10g %.10g", w->GetXPos0(), w->GetYPos0());
  for (size_t i = 0; i < nl; ++i) VH_CHECK(w->GetLogUnit(names[i]) == units[i], "las-unit", "unit of %s is %s", names[i].c_str(), w->GetLogUnit(names[i]).c_str());
  w->WriteToFile(g, {}); Las p; VH_CHECK(parse_las(slurp(g), p), "las-written", "written file cannot be parsed");
  VH_CHECK(p.names == names && p.units == units && p.comments == coms, "las-curves", "curves"); VH_CHECK(p.param == par, "las-param", "%zu parameter lines expected %zu", p.param.size(), par.size()); VH_CHECK(p.other == oth, "las-other", "%zu other lines expected %zu", p.other.size(), oth.size());
  VH_CHECK(p.well["WELL"] == m.name && p.well["SRVC"] == "some company" && atof(p.well["NULL"].c_str()) == m.rm, "las-info", "name %s", p.well["WELL"].c_str());
  { LasWell b(g); same(b, m, "LAS file round trip", 0, 6e-4); if (xy) VH_CHECK(vh::close(b.GetXPos0(), px, 1e-9, 0) && vh::close(b.GetYPos0(), py, 1e-9, 0), "las-position2", "position %.10g %.10g", b.GetXPos0(), b.GetYPos0()); }
  vh::sig(vh::hs(d)); vh::stat("LAS files");
  // damaged files
  if (given && n > 2) { size_t cut = r.i(0, lastrow > 0 ? lastrow - 1 : 0); spit(f, d.substr(0, cut)); VH_CHECK(throws([&] { LasWell x(f); }), "las-cut", "a file cut to %zu of %zu bytes was accepted", cut, d.size()); }
  if (!wrap && nl > 1) { size_t at = d.find("~A"); at = d.find('\n', at) + 1; std::string h = d.substr(0, at), b = d.substr(at); size_t q = b.find_first_of(" ,"); if (q != std::string::npos) { if (r.b()) b = b.substr(0, q) + b.substr(b.find('\n')); else b = b.substr(0, q + 1) + "abc" + b.substr(q + 1); spit(f, h + b); VH_CHECK(throws([&] { LasWell x(f); }), "las-bad-value", "a short row or unreadable value was accepted"); } }
  for (const char* s : {"~V", "~W", "~C"}) if (r.b(0.2)) { std::string q = d; size_t a = q.find(s); q.insert(r.b() ? q.find("~A") : a, std::string(s) + "\nVERS. 2.0 : x\n"); spit(f, q); VH_CHECK(throws([&] { LasWell x(f); }), "las-twice", "a file with two %s was accepted", s); }
  for (const char* s : {"~V", "~W", "~C"}) if (r.b(0.3)) { std::string q = d; size_t a = q.find(s); q[a + 1] = 'X'; spit(f, q); VH_CHECK(throws([&] { LasWell x(f); }), "las-section", "a file without %s was accepted", s); }
  std::remove(f.c_str()); VH_CHECK(throws([&] { LasWell x(f); }), "las-nofile", "missing file accepted"); std::remove(g.c_str());
}

// ---- Norsar -----------------------------------------------------------------
static void t_norsar(vh::Rng& r) {
  mkdir(vh::path("nw").c_str(), 0755); bool sub = r.b(); std::string dir = sub ? "nw/" : ""; std::string f = vh::path(dir + "w.nwh"), tf = vh::path(dir + "w.nwt"); double miss = r.pick(VD{-999, -999.25, -9999}); Model m; m.rm = miss; m.im = (int)miss;
  double px = r.u(4e5, 6e5), py = r.u(6e6, 7e6); size_t nt = r.i(1, 15), ntp = r.i(1, 4), mdcol = r.i(0, ntp - 1), nsec = r.i(0, 2);
  std::vector<std::string> tn; for (size_t i = 0; i < ntp; ++i) tn.push_back(i == mdcol ? "MD" : std::string("Tr") + char('a' + i));
  auto mds = [&](size_t n) { VD v(n); double z = r.i(0, 20) * 0.5; for (double& x : v) { x = z; z += r.i(1, 4) * 0.5; } return v; };
  std::ostringstream o; o.precision(12);
  o << "[Version information]\nVERSION 1000\nFORMAT ASCII\n[Well information]\nMDMIN m 0\nMDMAX m 100\nMDMINSTEP m 0.5\nMDMAXSTEP m 2\nUTMX m " << px << "\nUTMY m " << py << "\nEKB m 25\nUNDEFVAL none " << miss << "\n[Well track data information]\nNUMMD " << nt << "\nNUMPAR " << ntp << "\n";
  for (auto& s : tn) o << s << " unit" << s << "\n"; o << "[Well log data information]\n";
  // rows by depth: depth -> column name -> value
  std::map<double, std::map<std::string, double>> rows; auto up = [](std::string s) { for (char& c : s) c = toupper(c); return s; };
  { VD md = mds(nt); std::ofstream t(tf); t.precision(12); t << "header\n"; for (size_t i = 0; i < nt; ++i) { for (size_t c = 0; c < ntp; ++c) { double v = c == mdcol ? md[i] : r.b(0.1) ? miss : std::round(r.u(-99, 99) * 100) / 100; t << v << " "; rows[md[i]][up(tn[c])] = v; } t << "\n"; } }
  std::vector<std::string> all; for (auto& s : tn) all.push_back(up(s)); std::vector<std::string> lf; std::map<std::string, std::string> un; for (auto& s : tn) un[s] = "unit" + s;
  for (size_t s = 0; s < nsec; ++s) {
    size_t nl = r.i(1, 15), np = r.i(1, 4), mc = r.i(0, np - 1); std::string fn = "w_log" + std::to_string(s) + ".n0" + std::to_string(s); lf.push_back(vh::path(dir + fn));
    o << "LOGNAME sec" << s << "\nFILENAME " << fn << "\nNUMMD " << nl << "\nNUMPAR " << np << "\n"; std::vector<std::string> ln; for (size_t i = 0; i < np; ++i) { ln.push_back(i == mc ? "MD" : std::string("Lg") + char('a' + i) + std::to_string(s)); o << ln.back() << " unit" << ln.back() << "\n"; if (i != mc) { all.push_back(up(ln.back())); un[ln.back()] = "unit" + ln.back(); } }
    VD md = mds(nl); std::ofstream t(vh::path(dir + fn)); t.precision(12); t << "header\nheader\n"; for (size_t i = 0; i < nl; ++i) { for (size_t c = 0; c < np; ++c) { double v = c == mc ? md[i] : r.b(0.1) ? miss : std::round(r.u(-99, 99) * 100) / 100; t << v << " "; if (c != mc) rows[md[i]][up(ln[c])] = v; else rows[md[i]]["MD"] = v; } t << "\n"; }
  }
  spit(f, o.str());
  for (auto& k : all) m.c[k] = VD(); for (auto& row : rows) for (auto& k : all) m.c[k].push_back(row.second.count(k) ? row.second[k] : miss);
  int fmt = Well::RMS; std::unique_ptr<Well> w0(r.b() ? Well::ReadWell(f, fmt) : new NorsarWell(f)); NorsarWell* w = dynamic_cast<NorsarWell*>(w0.get()); VH_CHECK(w != 0, "norsar-type", "not a Norsar well"); if (!w) return;
  m.name = w->GetWellName(); same(*w, m, "Norsar files", 1e-12);
  VH_CHECK((size_t)w->GetNData() == rows.size() && vh::close(w->GetXPosOrigin(), px, 1e-11, 0) && vh::close(w->GetYPosOrigin(), py, 1e-11, 0) && w->GetXPos0() == w->GetXPosOrigin() && w->GetYPos0() == w->GetYPosOrigin(), "norsar-header", "%d data", w->GetNData());
  for (auto& u : un) VH_CHECK(w->GetLogUnit(u.first) == u.second, "norsar-unit", "unit of %s is %s", u.first.c_str(), w->GetLogUnit(u.first).c_str()); VH_CHECK(w->GetLogUnit("nolog") == "", "norsar-unit-unknown", "unit");
  vh::sig(vh::hs(o.str())); vh::stat("Norsar files");
  std::string d = slurp(tf); size_t p = d.find_last_not_of(" \n"); p = d.find_last_of(" \n", p); spit(tf, d.substr(0, p + 1)); VH_CHECK(throws([&] { NorsarWell x(f); }), "norsar-cut", "a track without its last value was accepted"); spit(tf, d);
  { std::string h = o.str(); h[0] = 'x'; spit(f, h); VH_CHECK(throws([&] { NorsarWell x(f); }), "norsar-version", "wrong first line accepted"); h = o.str(); h[h.find("1000")] = '2'; spit(f, h); VH_CHECK(throws([&] { NorsarWell x(f); }), "norsar-version", "wrong version accepted"); }
  std::remove(tf.c_str()); spit(f, o.str()); VH_CHECK(throws([&] { NorsarWell x(f); }), "norsar-notrack", "missing track accepted"); std::remove(f.c_str()); for (auto& s : lf) std::remove(s.c_str());
}

// ---- blocking ---------------------------------------------------------------
static void t_block(vh::Rng& r) {
  size_t nx = r.i(1, 4), ny = r.i(1, 4), nz = r.i(1, 8); StormContGrid g(Volume(0, 0, 0, nx * 10.0, ny * 10.0, nz * 2.0, 0), nx, ny, nz);
  size_t n = r.i(1, 30); Model m; m.name = "b"; m.rm = r.pick(VD{-999, -999.25}); m.im = r.pick(VI{-999, -1});
  std::vector<std::array<size_t, 3>> cell; VD x(n), y(n), z(n); size_t ci = r.i(0, nx - 1), cj = r.i(0, ny - 1); double zz = r.u(0.01, nz * 2.0 - 0.01);
  for (size_t i = 0; i < n; ++i) { if (r.b(0.2)) { ci = r.i(0, nx - 1); cj = r.i(0, ny - 1); } if (r.b(0.5)) zz = r.u(0.01, nz * 2.0 - 0.01); x[i] = (ci + r.u(0.05, 0.95)) * 10; y[i] = (cj + r.u(0.05, 0.95)) * 10; z[i] = zz; }
  m.c["x"] = x; m.c["y"] = y; m.c["z"] = z; m.c["v"] = rcont(r, n, m.rm, 0.3);
  std::vector<size_t> order; std::vector<size_t> idx(n); for (size_t i = 0; i < n; ++i) { idx[i] = (size_t)(x[i] / 10) + nx * (size_t)(y[i] / 10) + nx * ny * (size_t)(z[i] / 2); if (std::find(order.begin(), order.end(), idx[i]) == order.end()) order.push_back(idx[i]); }
  VI f(n); for (size_t i = 0; i < n; ++i) f[i] = r.b(0.2) ? m.im : (int)(idx[i] % 5); m.d["f"] = f;  // one facies per cell
  Well w(m.name, m.rm, m.im); for (auto& p : m.c) w.AddContLog(p.first, p.second); for (auto& p : m.d) w.AddDiscLog(p.first, p.second);
  Well b; BlockWell(w, g, b); Model e; e.rm = m.rm; e.im = m.im; e.name = "bblocked";
  for (auto& p : m.c) for (size_t o : order) { long double s = 0; int k = 0; for (size_t i = 0; i < n; ++i) if (idx[i] == o && p.second[i] != m.rm) { s += p.second[i]; ++k; } e.c[p.first].push_back(k ? (double)(s / k) : m.rm); }
  for (size_t o : order) { int v = m.im; for (size_t i = 0; i < n; ++i) if (idx[i] == o && f[i] != m.im) v = f[i]; e.d["f"].push_back(v); }
  same(b, e, "blocked", 1e-12, 1e-10); vh::sig(vh::mix(order.size(), vh::hd(x[0]))); vh::stat("blocked wells");
}

int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) {
    if (m == "edit") t_edit(r); else if (m == "rms") t_rms(r); else if (m == "las") t_las(r); else if (m == "norsar") t_norsar(r); else t_block(r);
  });
}
