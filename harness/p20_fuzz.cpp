// Damaged files of every kind, given to every reader: normal return or exception, nothing else.
#include "vh.hpp"
#include <csignal>
#include <fstream>
#include <memory>
#include <new>
#include <sys/stat.h>
#include <sys/time.h>
#include <nrlib/exception/exception.hpp>
#include <nrlib/flens/nrlib_flens.hpp>
#include <nrlib/iotools/fileio.hpp>
#include <nrlib/iotools/stringtools.hpp>
#include <nrlib/iotools/tabularfile.hpp>
#include <nrlib/segy/segy.hpp>
#include <nrlib/segy/segygeometry.hpp>
#include <nrlib/segy/segytrace.hpp>
#include <nrlib/segy/traceheader.hpp>
#include <nrlib/stormgrid/stormcontgrid.hpp>
#include <nrlib/stormgrid/stormfaciesgrid.hpp>
#include <nrlib/surface/regularsurface.hpp>
#include <nrlib/surface/regularsurfacerotated.hpp>
#include <nrlib/surface/surfaceio.hpp>
#include <nrlib/well/laswell.hpp>
#include <nrlib/well/norsarwell.hpp>
#include <nrlib/well/rmswell.hpp>
#include <nrlib/well/well.hpp>

using namespace NRLib;

// A request for a lot of memory fails as it would on a small machine.
static const size_t CAP = size_t(256) << 20;
void* operator new(size_t n) { if (n > CAP) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o.write(d.data(), d.size()); }

static const char* const WORDS[] = {"-1", "0", "1", "2", "-2", "3", "7", "255", "65536", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "99999999999999999999", "1e10", "1e30", "-1e30", "1e308", "1e400", "nan", "inf", "-inf", "1e-30", "0.0", "-0.0", "abc", "x1", "1x", "", "-999", "-999.25", "\"", "~", "#", "[", "]", ":", ".", ",", "DISC", "~A", "1.5", "0x10", "--1", "1 2 3 4 5 6 7 8 9", "..", "NO", "YES"};
static std::string mutate(vh::Rng& r, std::string d, bool text) {
  int n = r.b(0.6) ? 1 : (int)r.i(1, 6);
  for (int k = 0; k < n; ++k) {
    size_t L = d.size(); int op = (int)r.i(0, 13); if (!L) op = 13;
    size_t at = L ? r.i(0, r.b(0.5) ? L - 1 : std::min<size_t>(L - 1, 400)) : 0;
    switch (op) {
      case 0: d[at] = (char)r.i(0, 255); break;
      case 1: d[at] = (char)(d[at] ^ (1 << r.i(0, 7))); break;
      case 2: d.resize(at); break;
      case 3: d.erase(at, r.i(1, r.b() ? 4 : 200)); break;
      case 4: { std::string s = d.substr(at, r.i(1, r.b() ? 8 : 400)); d.insert(r.i(0, d.size()), s); break; }
      case 5: { std::string s; for (long q = r.i(1, r.b() ? 8 : 300); q > 0; --q) s += (char)(text && r.b(0.7) ? r.i(32, 126) : r.i(0, 255)); d.insert(at, s); break; }
      case 6: case 7: case 8: if (text) {  // replace a token
          size_t a = d.find_first_not_of(" \t\r\n,", at); if (a == std::string::npos) break; while (a > 0 && !isspace((unsigned char)d[a - 1])) --a; size_t e = d.find_first_of(" \t\r\n,", a); if (e == std::string::npos) e = L;
          d.replace(a, e - a, WORDS[r.i(0, sizeof WORDS / sizeof *WORDS - 1)]); break; }
        // a word of binary data
        { static const uint32_t W[] = {0, 1, 2, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x10000, 0x00010001, 0x7f800000, 0xff800000, 0x7fc00000, 5, 3, 0x3f800000, 0xfffffffeu}; uint32_t w = r.b(0.8) ? W[r.i(0, sizeof W / sizeof *W - 1)] : (uint32_t)r.next(); bool big = r.b(0.7); int sz = r.b() ? 4 : 2; if (r.b()) at &= ~size_t(1);
          for (int q = 0; q < sz && at + q < L; ++q) d[at + q] = (char)(w >> 8 * (big ? sz - 1 - q : q)); break; }
      case 9: case 10: {  // lines: delete, repeat, swap
          size_t a = d.rfind('\n', at); a = a == std::string::npos ? 0 : a + 1; size_t e = d.find('\n', at); e = e == std::string::npos ? L : e + 1; if (e - a > 2000) break; std::string s = d.substr(a, e - a);
          int w = (int)r.i(0, 3); if (w == 0) d.erase(a, e - a); else if (w == 1) d.insert(a, s); else if (w == 2) { d.erase(a, e - a); size_t p = d.find('\n', r.i(0, d.size())); d.insert(p == std::string::npos ? d.size() : p + 1, s); } else d.insert(a, "\n"); break; }
      case 11: if (L) { size_t a = r.i(0, L - 1), e = a + r.i(1, 60); std::string s = d.substr(a, e - a); d.replace(at, s.size(), s); } break;
      case 12: if (text) for (long q = r.i(1, 20); q > 0; --q) d[r.i(0, L - 1)] = (char)r.i(0, 255); else d[at] = 0; break;
      case 13: if (L > 3 && !r.b(0.02)) d.resize(r.i(0, L)); else { d.clear(); for (long q = r.i(0, 300); q > 0; --q) d += (char)r.i(0, 255); } break;
    }
  }
  return d;
}

static int n_ok, n_ex; static std::string first_what;
template <class F> static bool attempt(const char* what, F f) {
  bool ok = false; first_what = what;
  struct itimerval it = {{0, 0}, {30, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
  try { f(); ok = true; }
  catch (std::bad_alloc&) { vh::stat(std::string(what) + ": refused memory"); }
  catch (std::exception&) {}
  catch (...) { vh::viol(std::string("foreign-exception:") + what, "something that is not an exception object was thrown"); }
  struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &off, 0);
  vh::eval(); vh::stat(std::string(what) + (ok ? ": result" : ": exception")); (ok ? n_ok : n_ex)++;
  vh::sig(vh::mix(vh::hs(what), ok));
  return ok;
}
static void too_long(int) {
  std::string m = "V\ttime-limit:" + first_what + "\tcase " + std::to_string(vh::curcase()) + ": reader used more than 30 s of processor time on a small file\n";
  if (write(1, m.data(), m.size()) < 0) {} _exit(78);
}

static std::string num(vh::Rng& r, double a, double b, int prec = 4) { char t[64]; snprintf(t, sizeof t, "%.*f", prec, r.u(a, b)); return t; }
template <class S> static void use_surf(S& s) { if (s.GetN() && s.GetN() < 100000) { s.Min(); s.Max(); s.Avg(); s.GetZ(s.GetXMin(), s.GetYMin()); } }

static void t_surf(vh::Rng& r) {
  size_t ni = r.i(1, 6), nj = r.i(1, 6); double dx = r.i(1, 8) * 5, dy = r.i(1, 8) * 5, x0 = r.i(0, 500), y0 = r.i(0, 500);
  std::string f = vh::path("s.irap"), d; int kind = (int)r.i(0, 2);
  if (kind < 2) {
    RegularSurface<double> s(x0, y0, dx * (ni > 1 ? ni - 1 : 1), dy * (nj > 1 ? nj - 1 : 1), std::max<size_t>(ni, 2), std::max<size_t>(nj, 2), 0.0);
    for (size_t i = 0; i < s.GetN(); ++i) s(i) = r.b(0.1) ? s.GetMissingValue() : r.u(-50, 50);
    if (kind == 0) WriteIrapClassicAsciiSurf(s, r.u(0, 3), f); else WriteStormBinarySurf(s, f);
    d = slurp(f);
  } else {
    std::ostringstream o; o << "NORSAR General Grid Format v1.0\n2\nX (m)\nY (m)\nFFT-grid\n1\nlabel\n1 1\n" << ni << " " << nj << "\n" << dx << " " << dy << "\n" << x0 << " " << y0 << "\n" << (r.b() ? 0.0 : 12.5) << "\n-999.25\n" << (r.b() ? "s.Sgri" : r.b() ? "" : "s.Sgri  rest") << "\n0\n"; d = o.str();
    std::string b(4 * ni * nj, '\0'); for (char& c : b) c = (char)r.i(0, 255); if (r.b(0.3)) b = mutate(r, b, false); spit(vh::path("s.Sgri"), b);
  }
  if (r.b(0.95)) d = mutate(r, d, kind != 1 || r.b(0.7)); spit(f, d);
  attempt("FindSurfaceFileType", [&] { FindSurfaceFileType(f); });
  attempt("FindHufsaTrends", [&] { FindHufsaTrends(f); });
  attempt("RegularSurface(file)", [&] { RegularSurface<double> s(f); use_surf(s); });
  attempt("RegularSurface<float>(file)", [&] { RegularSurface<float> s(f); use_surf(s); });
  attempt("RegularSurfaceRotated(file)", [&] { RegularSurfaceRotated<double> s(f); if (s.GetN() < 100000) { s.Min(); s.Max(); s.GetZ(x0, y0); } });
  attempt("Irap surface", [&] { RegularSurface<double> s; double a; ReadIrapClassicAsciiSurf(f, s, a); use_surf(s); });
  attempt("Storm surface", [&] { RegularSurface<float> s; ReadStormBinarySurf(f, s); use_surf(s); });
  attempt("Sgri surface", [&] { RegularSurface<double> s; double a; ReadSgriSurf(f, s, a); use_surf(s); });
  attempt("Sgri surfaces", [&] { std::vector<std::string> lab; if (r.b()) lab = {"X", "Y"}; auto v = ReadMultipleSgriSurf(f, lab); for (auto& s : v) if (s.GetN() < 10000) s.Min(); });
  std::remove(f.c_str()); std::remove(vh::path("s.Sgri").c_str());
}

static void t_cube(vh::Rng& r) {
  size_t nx = r.i(1, 4), ny = r.i(1, 4), nz = r.i(1, 4); std::string f = vh::path("c.storm"); int kind = (int)r.i(0, 4);
  std::unique_ptr<Volume> v;
  if (r.b()) v.reset(new Volume(10, 20, 30, nx * 10.0, ny * 10.0, nz * 2.0, r.b() ? 0 : 0.3));
  else { RegularSurface<double> t(0, 0, 200, 200, 3, 3, 100.0), b(0, 0, 200, 200, 3, 3, 120.0); v.reset(new Volume(10, 20, nx * 10.0, ny * 10.0, t, b, 0.2)); }
  std::vector<std::string> extra; bool text = kind & 1;
  if (kind < 2) { StormContGrid g(*v, nx, ny, nz); for (size_t i = 0; i < g.GetN(); ++i) g(i) = (float)r.n(); g.SetFormat(text ? StormContGrid::STORM_ASCII : StormContGrid::STORM_BINARY); g.WriteToFile(f); }
  else if (kind < 4) { StormFaciesGrid g(*v, nx, ny, nz); int nf = (int)r.i(1, 4), nb = (int)r.i(1, 4); std::vector<std::string> names; std::vector<int> body; for (int k = 0; k < nf; ++k) names.push_back("f" + std::to_string(k)); for (int k = 0; k < nb; ++k) body.push_back((int)r.i(0, nf - 1)); g.SetFaciesNames(names); g.SetBodyFacies(body); g.SetMissingCode(-999); for (size_t i = 0; i < g.GetN(); ++i) g(i) = r.b(0.1) ? -999 : (int)r.i(0, nb - 1); g.SetFormat(text ? StormFaciesGrid::STORM_ASCII : StormFaciesGrid::STORM_BINARY); g.WriteToFile(f); }
  else { text = true; std::ostringstream o; o << "NORSAR General Grid Format v1.0\n3\nX (m)\nY (m)\nT (ms)\nFFT-grid\n1\nlabel\n1 1 1\n" << nx << " " << ny << " " << nz << "\n10 10 2\n0 0 100\n" << (r.b() ? 0 : 15) << " 0\n-999.25\n" << (r.b() ? "c.Sgri" : "") << "\n0\n"; spit(f, o.str()); std::string b(4 * nx * ny * nz, '\0'); for (char& c : b) c = (char)r.i(0, 255); if (r.b(0.3)) b = mutate(r, b, false); spit(vh::path("c.Sgri"), b); }
  for (const char* n : {"_top.storm", "_bot.storm", "_top.irap", "_bot.irap", "_top", "_bot"}) extra.push_back(f + n);
  std::string d = slurp(f);
  if (r.b(0.95)) d = mutate(r, d, text || r.b(0.7)); spit(f, d);
  attempt("FindGridFileType", [&] { FindGridFileType(f); });
  Endianess en = r.b() ? END_BIG_ENDIAN : END_LITTLE_ENDIAN;
  attempt("StormContGrid", [&] { StormContGrid g(f, en); if (g.GetN() < 100000) { double s = 0; for (size_t i = 0; i < g.GetN(); ++i) s += g(i); } });
  attempt("StormFaciesGrid", [&] { StormFaciesGrid g(f, en); long s = 0; if (g.GetN() < 100000) for (size_t i = 0; i < g.GetN(); ++i) s += (long)g(i); });
  attempt("StormContGrid read", [&] { StormContGrid g; g.ReadFromFile(f, r.b(), en); });
  std::remove(f.c_str()); std::remove(vh::path("c.Sgri").c_str());
}

static void p16(std::string& b, size_t o, int v) { b[o] = (char)(v >> 8); b[o + 1] = (char)v; }
static void p32(std::string& b, size_t o, long v) { for (int k = 0; k < 4; ++k) b[o + k] = (char)(v >> (24 - 8 * k)); }
static void t_segy(vh::Rng& r) {
  int nil = (int)r.i(1, 4), nxl = (int)r.i(1, 4); size_t nz = r.i(1, 12); int fmt = r.pick(std::vector<int>{1, 2, 3, 5}); size_t ds = fmt == 3 ? 2 : 4; int kind = (int)r.i(0, 5); std::string f = vh::path("t.segy");
  TraceHeaderFormat tf(r.pick(std::vector<int>{TraceHeaderFormat::SEISWORKS, TraceHeaderFormat::IESX, TraceHeaderFormat::SIP, TraceHeaderFormat::CHARISMA, TraceHeaderFormat::SIPX, TraceHeaderFormat::HESS}));
  std::string h(3600, '\0'); for (int k = 0; k < 3200; k++) h[k] = '\x40'; h[0] = '\xc3'; p16(h, 3216, 4000); p16(h, 3220, (int)nz); p16(h, 3224, fmt);
  size_t first = h.size();
  for (int i = 0; i < nil; ++i) for (int j = 0; j < nxl; ++j) {
    std::string b(240 + ds * nz, '\0'); p16(b, 114, (int)nz); p16(b, 116, 4000); p16(b, tf.GetScalCoLoc() > 0 ? tf.GetScalCoLoc() - 1 : 70, 1);
    p32(b, tf.GetUtmxLoc() - 1, 1000 + 25 * i); p32(b, tf.GetUtmyLoc() - 1, 2000 + 25 * j); p32(b, tf.GetInlineLoc() - 1, 10 + i); p32(b, tf.GetCrosslineLoc() - 1, 20 + j);
    for (size_t k = 240; k < b.size(); ++k) b[k] = (char)r.i(0, 255); h += b;
  }
  std::string d = h;
  if (r.b(0.95)) { int w = (int)r.i(0, 3); if (w == 0) d = mutate(r, d, false); else if (w == 1) { std::string q = mutate(r, d.substr(3200, 400), false); d.replace(3200, 400, q); } else if (w == 2) { size_t t = r.i(0, nil * nxl - 1), a = first + t * (240 + ds * nz); std::string q = mutate(r, d.substr(a, 240), false); d.replace(a, 240, q); } else for (long k = r.i(1, 5); k > 0; --k) { size_t t = r.i(0, nil * nxl - 1), a = first + t * (240 + ds * nz); const size_t loc[] = {114, 116, 70, 108, size_t(tf.GetUtmxLoc() - 1), size_t(tf.GetUtmyLoc() - 1), size_t(tf.GetInlineLoc() - 1), size_t(tf.GetCrosslineLoc() - 1)}; size_t o = a + loc[r.i(0, 7)]; for (int q = (int)r.i(1, 4); q > 0; --q) d[o + q - 1] = (char)(r.b() ? 0xff : r.i(0, 255)); } }
  (void)kind; spit(f, d);
  attempt("SegY find format", [&] { SegY::FindTraceHeaderFormat(f); });
  attempt("SegY count", [&] { SegY::FindNumberOfTraces(f, r.b() ? &tf : 0); });
  attempt("SegY geometry", [&] { std::unique_ptr<SegyGeometry> g(SegY::FindGridGeometry(f, r.b(0.8) ? &tf : 0)); if (g) { int il, xl; g->FindILXL(1010.0, 2010.0, il, xl); } });
  bool small = r.b();
  attempt("SegY read", [&] { SegY s(f, 0.0f, tf); std::unique_ptr<Volume> v(new Volume(990, 1990, 0, 60, 60, small ? 20 : 1000, 0)); s.ReadAllTraces(r.b() ? v.get() : 0, r.b() ? 0 : 10, r.b(), r.b()); s.CreateRegularGrid(); for (size_t i = 0; i < s.GetNTraces() && i < 50; ++i) {} double x = r.u(990, 1100), y = r.u(1990, 2100); s.GetValue(x, y, r.u(0, 40)); });
  attempt("SegY auto", [&] { SegY s(f, 0.0f); s.ReadAllTraces(0, 10); s.CreateRegularGrid(); });
  attempt("SegY one by one", [&] { SegY s(f, 0.0f, tf); for (int k = 0; k < 40; ++k) { std::unique_ptr<SegYTrace> t(s.GetNextTrace(r.b() ? 0 : 10, 0, r.b())); if (!t) break; } });
  attempt("SegY lookup", [&] { SegY s(f, 0.0f, tf); s.FindAndSetGridGeometry(); std::vector<float> td; s.GetTraceData((int)r.i(10, 14), (int)r.i(20, 24), td); });
  std::remove(f.c_str());
}

static void t_well(vh::Rng& r) {
  int kind = (int)r.i(0, 2); std::string f, d; size_t n = r.i(1, 8); std::ostringstream o; std::vector<std::string> rm;
  if (kind == 0) { f = vh::path("w.rmswell"); int nl = (int)r.i(0, 4); o << "1.0\ntext\nwell-1 " << num(r, 0, 1e5) << " " << num(r, 0, 1e6) << "\n" << nl << "\n"; for (int i = 0; i < nl; ++i) { if (r.b()) o << "L" << i << " DISC 0 a 1 b 2 c\n"; else if (r.b()) o << "L" << i << " UNK lin\n"; else o << "L" << i << "\n"; } for (size_t i = 0; i < n; ++i) { for (int c = 0; c < nl + 3; ++c) o << (r.b(0.1) ? "-999" : r.b() ? num(r, 0, 3, 0) : num(r, -10, 1000)) << " "; o << "\n"; } }
  else if (kind == 1) { f = vh::path("w.las"); int nl = (int)r.i(1, 4); bool wrap = r.b(0.3), comma = !wrap && r.b(0.3), given = r.b(0.7); o << "~Version\n VERS. 2.0 : v\n WRAP. " << (wrap ? "YES" : "NO") << " : w\n"; if (comma) o << " DLM . COMMA : d\n"; o << "# c\n~Well\n"; if (given) o << "STRT.M 100 : s\nSTOP.M " << 100 + (n - 1) * 0.5 << " : e\nSTEP.M 0.5 : i\n"; o << "NULL. -999.25 : n\nWELL. name : n\nXWELL. 1000 : x\n~Curve\n"; for (int i = 0; i < nl; ++i) o << (i ? "C" + std::to_string(i) : "DEPT") << " .U : text\n"; if (r.b()) o << "~Parameters\nP .x 1 : t\n~Other\nfree text\n"; o << "~A data\n"; for (size_t i = 0; i < n; ++i) { for (int c = 0; c < nl; ++c) o << (c ? (comma ? "," : wrap ? "\n" : " ") : "") << (c ? num(r, -9, 9) : std::to_string(100 + i * 0.5)); o << "\n"; } }
  else { f = vh::path("w.nwh"); o << "[Version information]\nVERSION 1000\nFORMAT ASCII\n[Well information]\nMDMIN m 0\nMDMAX m 100\nMDMINSTEP m 0.5\nMDMAXSTEP m 2\nUTMX m 1000\nUTMY m 2000\nEKB m 25\nUNDEFVAL none -999.25\n[Well track data information]\nNUMMD " << n << "\nNUMPAR 3\nMD m\nTWT ms\nTVD m\n[Well log data information]\n"; bool lg = r.b(); if (lg) o << "LOGNAME sec\nFILENAME w_log.n00\nNUMMD " << n << "\nNUMPAR 2\nMD m\nGR api\n";
    std::ostringstream t, l; t << "header\n"; l << "h\nh\n"; for (size_t i = 0; i < n; ++i) { t << i * 0.5 << " " << num(r, 0, 9) << " " << num(r, 0, 9) << "\n"; l << i * 0.5 << " " << num(r, 0, 9) << "\n"; }
    std::string ts = t.str(), ls = l.str(); if (r.b(0.3)) ts = mutate(r, ts, true); if (r.b(0.3)) ls = mutate(r, ls, true); spit(vh::path("w.nwt"), ts); spit(vh::path("w_log.n00"), ls); rm = {vh::path("w.nwt"), vh::path("w_log.n00")}; }
  d = o.str(); if (r.b(0.95)) d = mutate(r, d, true); spit(f, d);
  auto use = [&](Well& w) { size_t k = 0; for (auto& l : w.GetContLog()) { for (double x : l.second) k += w.IsMissing(x); } for (auto& l : w.GetDiscLog()) for (int x : l.second) k += w.IsMissing(x); };
  attempt("RMS well", [&] { RMSWell w(f); use(w); });
  attempt("LAS well", [&] { LasWell w(f); use(w); });
  attempt("Norsar well", [&] { NorsarWell w(f); use(w); });
  attempt("ReadWell", [&] { int fm = (int)r.i(0, 5); std::unique_ptr<Well> w(Well::ReadWell(f, fm)); if (w) use(*w); });
  std::remove(f.c_str()); for (auto& s : rm) std::remove(s.c_str());
}

static void t_table(vh::Rng& r) {
  std::string f = vh::path("t.dat"); std::ostringstream o; size_t nr = r.i(1, 6), nc = r.i(1, 5); if (r.b()) o << "a header line\nand another\n"; for (size_t i = 0; i < nr; ++i) { for (size_t j = 0; j < nc; ++j) o << num(r, -99, 99) << (r.b(0.1) ? "\t" : " "); o << "\n"; } std::string d = o.str(); if (r.b(0.95)) d = mutate(r, d, true); spit(f, d);
  attempt("TabularFile", [&] { TabularFile t(f); for (size_t i = 0; i < t.GetNColumns(); ++i) t.GetColumn(i); });
  attempt("TabularFile given", [&] { TabularFile t(f, r.i(0, 3), r.i(1, 6), r.b()); });
  attempt("matrix file", [&] { Matrix m = ReadMatrixFromFile(f, (int)nr, (int)nc, r.b() ? MatrixAscii : MatrixBinary); });
  attempt("vector file", [&] { Vector m = ReadVectorFromFile(f, (int)(nr * nc), r.b() ? MatrixAscii : MatrixBinary); });
  attempt("ASCII array", [&] { std::ifstream i(f); int l = 0; std::vector<double> v(nr * nc); ReadAsciiArray(i, v.begin(), v.size(), l); });
  attempt("ASCII array fast", [&] { std::ifstream i(f); std::vector<float> v(nr * nc); ReadAsciiArrayFast(i, v.begin(), v.size()); });
  attempt("ASCII array fast int", [&] { std::ifstream i(f); std::vector<int> v(nr * nc); ReadAsciiArrayFast(i, v.begin(), v.size()); });
  attempt("binary arrays", [&] { std::ifstream i(f, std::ios::binary); std::vector<double> v(r.i(0, 20)); ReadBinaryDoubleArray(i, v.begin(), v.size(), r.b() ? END_BIG_ENDIAN : END_LITTLE_ENDIAN); std::vector<float> w(r.i(0, 20)); ReadBinaryFloatArray(i, w.begin(), w.size()); std::vector<short> s(r.i(0, 9)); ReadBinaryShortArray(i, s.begin(), s.size()); std::vector<int> q(r.i(0, 9)); ReadBinaryIntArray(i, q.begin(), q.size()); std::vector<float> ib(r.i(0, 9)); ReadBinaryIbmFloatArray(i, ib.begin(), ib.size()); });
  attempt("tokens", [&] { std::ifstream i(f); int l = 0; for (int k = 0; k < 2000; ++k) { if (CheckEndOfFile(i)) break; switch (r.i(0, 5)) { case 0: ReadNext<int>(i, l); break; case 1: ReadNext<double>(i, l); break; case 2: ReadNext<std::string>(i, l); break; case 3: DiscardRestOfLine(i, l, r.b()); break; case 4: SkipComments(i, '#', l); break; default: { std::string s; ReadNextQuoted(i, '"', s, l); } } } });
  attempt("last line", [&] { std::ifstream i(f); FindLastNonEmptyLine(i, r.i(1, 300)); std::ifstream j(f); IgnoreComment(j, '#'); });
  attempt("text", [&] { GetTokens(d); std::string s = d; Uppercase(s); Chomp(s); Substitute(s, "1", "22"); GetQuotedTokens(d); });
  std::remove(f.c_str());
}

static void cs(vh::Rng& r, long, const std::string& mode) {
  if (mode == "surf") t_surf(r); else if (mode == "cube") t_cube(r); else if (mode == "segy") t_segy(r); else if (mode == "well") t_well(r); else t_table(r);
  vh::sig(r.next());
}
int main(int argc, char** argv) { signal(SIGVTALRM, too_long); return vh::run(argc, argv, cs); }
