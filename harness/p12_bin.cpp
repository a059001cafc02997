// P12: binary number I/O against an independent encoder, on every stream kind, with every cut.
#include "vh.hpp"
#include "nrlib/iotools/fileio.hpp"
#include "nrlib/iotools/bigfile.hpp"
#include <fstream>
#include <functional>
#include <sstream>
using namespace NRLib;
typedef unsigned char u8;
enum Kind { SHORT, INT, FLOAT, DOUBLE, IBM };
static const int SZ[] = {2, 4, 4, 8, 4};
static const char* NM[] = {"short", "int", "float", "double", "ibm"};

static uint64_t bits(vh::Rng& r, Kind k) {
  int nb = 8 * SZ[k]; uint64_t m = nb == 64 ? ~0ull : (1ull << nb) - 1;
  if (k == IBM) {  // a finite normal float, or zero
    float f; uint32_t u;
    switch (r.i(0, 5)) {
      case 0: f = 0; break;
      case 1: f = (float)std::ldexp(r.u(1, 2), (int)r.i(-125, 126)); break;
      case 2: f = (float)std::ldexp(1.0, (int)r.i(-125, 127)); break;
      case 3: f = (float)r.i(-100000, 100000); break;
      case 4: f = std::nextafterf((float)std::ldexp(1.0, (int)r.i(-120, 126)), r.b() ? 0.f : 1e38f); break;
      default: f = (float)(r.n() * 1000);
    }
    if (r.b()) f = -f;
    if (f == 0) f = 0;
    std::memcpy(&u, &f, 4); return u;
  }
  switch (r.i(0, 4)) {
    case 0: return r.next() & m;
    case 1: { static const uint64_t S[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x8000000000000000ull, 0x7ff0000000000001ull, 0x7ff8000000000000ull, 0x000fffffffffffffull, 0x7fefffffffffffffull, 0x0010000000000000ull, 0x7f800000, 0xff800000, 0x7f800001, 0x7fc00000, 0x007fffff, 0x00800000, 0x7f7fffff};
      return S[r.i(0, 26)] & m; }
    case 2: return (1ull << r.i(0, nb - 1)) & m;
    case 3: { uint64_t x = 0; for (int i = 0; i < SZ[k]; i++) x = (x << 8) | (r.b(.3) ? 0xff : r.b(.3) ? 0x80 : (uint64_t)r.i(0, 255)); return x; }
    default: { if (k == DOUBLE) { double d = r.n() * r.logu(1e-300, 1e300); uint64_t x; std::memcpy(&x, &d, 8); return x; }
      if (k == FLOAT) { float d = (float)(r.n() * r.logu(1e-42, 1e38)); uint32_t x; std::memcpy(&x, &d, 4); return x; } return r.next() & m; }
  }
}
static void enc(std::string& o, uint64_t x, int n, Endianess e) { for (int i = 0; i < n; i++) o += (char)((x >> (8 * (e == END_BIG_ENDIAN ? n - 1 - i : i))) & 0xff); }
static uint64_t dec(const char* p, int n, Endianess e) { uint64_t x = 0; for (int i = 0; i < n; i++) x |= (uint64_t)(u8)p[i] << (8 * (e == END_BIG_ENDIAN ? n - 1 - i : i)); return x; }
// value of an IBM System/360 single, and its spacing
static long double ibmval(uint32_t u, long double* ulp = 0) { int E = (int)((u >> 24) & 0x7f) - 64; long double s = std::ldexp(1.0L, 4 * E - 24); if (ulp) *ulp = s; return ((u >> 31) ? -1.0L : 1.0L) * (u & 0xffffff) * s; }
template <class T> static T val(uint64_t b) { T t; std::memcpy(&t, &b, sizeof t); return t; }
template <class T> static uint64_t raw(T t) { uint64_t b = 0; std::memcpy(&b, &t, sizeof t); return b; }

template <class F> static void wr1(F& f, Kind k, uint64_t b, Endianess e, bool def) {
  switch (k) {
    case SHORT: def ? WriteBinaryShort(f, val<short>(b)) : WriteBinaryShort(f, val<short>(b), e); break;
    case INT: def ? WriteBinaryInt(f, val<int>(b)) : WriteBinaryInt(f, val<int>(b), e); break;
    case FLOAT: def ? WriteBinaryFloat(f, val<float>(b)) : WriteBinaryFloat(f, val<float>(b), e); break;
    case DOUBLE: def ? WriteBinaryDouble(f, val<double>(b)) : WriteBinaryDouble(f, val<double>(b), e); break;
    default: def ? WriteBinaryIbmFloat(f, val<float>(b)) : WriteBinaryIbmFloat(f, val<float>(b), e);
  }
}
template <class T> static std::vector<T> vec(const std::vector<uint64_t>& b) { std::vector<T> v; for (uint64_t x : b) v.push_back(val<T>(x)); return v; }
template <class F> static void wrN(F& f, Kind k, const std::vector<uint64_t>& b, Endianess e) {
  switch (k) {
    case SHORT: { auto v = vec<short>(b); WriteBinaryShortArray(f, v.begin(), v.end(), e); break; }
    case INT: { auto v = vec<int>(b); WriteBinaryIntArray(f, v.begin(), v.end(), e); break; }
    case FLOAT: { auto v = vec<float>(b); WriteBinaryFloatArray(f, v.begin(), v.end(), e); break; }
    case DOUBLE: { auto v = vec<double>(b); WriteBinaryDoubleArray(f, v.begin(), v.end(), e); break; }
    default: { auto v = vec<float>(b); WriteBinaryIbmFloatArray(f, v.begin(), v.end(), e); }
  }
}
template <class F> static uint64_t rd1(F& f, Kind k, Endianess e) {
  switch (k) {
    case SHORT: return raw(ReadBinaryShort(f, e));
    case INT: return raw(ReadBinaryInt(f, e));
    case FLOAT: return raw(ReadBinaryFloat(f, e));
    case DOUBLE: return raw(ReadBinaryDouble(f, e));
    default: return raw(ReadBinaryIbmFloat(f, e));
  }
}
template <class T> static std::vector<uint64_t> raws(const std::vector<T>& v) { std::vector<uint64_t> b; for (T x : v) b.push_back(raw(x)); return b; }
template <class F> static std::vector<uint64_t> rdN(F& f, Kind k, size_t n, Endianess e) {
  switch (k) {
    case SHORT: { std::vector<short> v(n); ReadBinaryShortArray(f, v.begin(), n, e); return raws(v); }
    case INT: { std::vector<int> v(n); ReadBinaryIntArray(f, v.begin(), n, e); return raws(v); }
    case FLOAT: { std::vector<float> v(n); ReadBinaryFloatArray(f, v.begin(), n, e); return raws(v); }
    case DOUBLE: { std::vector<double> v(n); ReadBinaryDoubleArray(f, v.begin(), n, e); return raws(v); }
    default: { std::vector<float> v(n); ReadBinaryIbmFloatArray(f, v.begin(), n, e); return raws(v); }
  }
}
struct Item { Kind k; Endianess e; uint64_t b; size_t off; };
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p.c_str(), std::ios::binary); f.write(s.data(), s.size()); }

static void checkItem(const Item& it, uint64_t got, const std::string& bytes, const char* how) {
  if (it.k != IBM) { VH_CHECK(got == it.b, "read-back", "%s %s: wrote bits %lx, read %lx (%s)", NM[it.k], it.e == END_BIG_ENDIAN ? "big" : "little", it.b, got, how); return; }
  float in = val<float>(it.b), out = val<float>(got);
  long double ulp, s = ibmval((uint32_t)dec(bytes.data() + it.off, 4, it.e), &ulp);
  VH_CHECK((long double)out == s, "ibm-decode", "bits %08lx are %.9Lg, read as %.9g (%s)", dec(bytes.data() + it.off, 4, it.e), s, out, how);
  VH_CHECK(std::fabs((long double)in - out) <= std::fabs((long double)in) * 9.5367431640625e-07L, "ibm-round-trip", "%.9g read back as %.9g (%s)", in, out, how);
}

template <class F> static void readAll(F& f, vh::Rng& r, const std::vector<Item>& items, const std::string& bytes, size_t cut, const char* how) {
  size_t i = 0;
  while (i < items.size()) {
    // a run of equal kinds may be read as an array
    size_t j = i + 1; while (j < items.size() && items[j].k == items[i].k && items[j].e == items[i].e) j++;
    size_t n = r.b() ? 1 : (size_t)r.i(1, (long)(j - i)); bool arr = r.b();
    if (r.b(.05)) { rdN(f, items[i].k, 0, items[i].e); vh::stat("empty_array_reads"); }
    size_t endoff = items[arr ? i + n - 1 : i].off + SZ[items[i].k];
    bool must = endoff <= cut;
    std::vector<uint64_t> got; bool threw = false; std::string what;
    try { if (arr) got = rdN(f, items[i].k, n, items[i].e); else { got.push_back(rd1(f, items[i].k, items[i].e)); n = 1; } }
    catch (NRLib::Exception& e) { threw = true; what = e.what(); }
    if (!must) { VH_CHECK(threw, "truncated-file-read-without-error", "%s: %s %s at offset %zu..%zu of a file of %zu bytes gave a value", how, arr ? "array of" : "single", NM[items[i].k], items[i].off, endoff, cut); vh::stat("truncated_reads"); return; }
    VH_CHECK(!threw, "intact-read-failed", "%s: %s %s at offset %zu: %s", how, arr ? "array of" : "single", NM[items[i].k], items[i].off, what.c_str());
    if (threw) return;
    for (size_t q = 0; q < n; q++) checkItem(items[i + q], got[q], bytes, how);
    i += n;
  }
}

static void streams(vh::Rng& r, long c) {
  std::string file = vh::path("bin.dat"), ref; std::vector<Item> items;
  std::ostringstream ss; std::ofstream of; BigFile bf; std::fstream fs;
  int wk = (int)r.i(0, 3);
  if (wk == 1) OpenWrite(of, file, std::ios::out | std::ios::binary); else if (wk == 2) bf.OpenWrite(file); else if (wk == 3) OpenWrite(fs, file, std::ios::out | std::ios::binary);
  int ops = (int)r.i(1, 8);
  for (int q = 0; q < ops; q++) {
    Kind k = (Kind)r.i(0, 4); Endianess e = r.b() ? END_BIG_ENDIAN : END_LITTLE_ENDIAN; bool arr = r.b(), def = e == END_BIG_ENDIAN && r.b();
    size_t n = arr ? (r.b(.1) ? 0 : r.b(.006) ? (size_t)r.i(1000, 300000) : (size_t)r.i(1, 20)) : 1;
    std::vector<uint64_t> b; for (size_t i = 0; i < n; i++) b.push_back(bits(r, k));
    auto go = [&](auto& f) { if (arr) wrN(f, k, b, e); else wr1(f, k, b[0], e, def); };
    if (wk == 0) go(ss); else if (wk == 1) go(of); else if (wk == 2) go(bf); else go(fs);
    for (uint64_t x : b) { items.push_back(Item{k, e, x, ref.size()}); if (k == IBM) ref += "????"; else enc(ref, x, SZ[k], e); }
    vh::sig(vh::fmt("w%d/%s/%d/%zu", wk, NM[k], e, n));
  }
  of.close(); bf.close(); fs.close();
  std::string bytes = wk == 0 ? ss.str() : slurp(file);
  VH_CHECK(bytes.size() == ref.size(), "file-size", "%zu bytes written, expected %zu", bytes.size(), ref.size());
  if (bytes.size() != ref.size()) return;
  for (const Item& it : items) {
    if (it.k != IBM) VH_CHECK(!bytes.compare(it.off, SZ[it.k], ref, it.off, SZ[it.k]), "file-bytes", "%s bits %lx are not stored as the %s endian representation", NM[it.k], it.b, it.e == END_BIG_ENDIAN ? "big" : "little");
    else {
      uint32_t u = (uint32_t)dec(bytes.data() + it.off, 4, it.e); long double ulp, v = ibmval(u, &ulp); float in = val<float>(it.b);
      if (in == 0) VH_CHECK((u & 0xffffff) == 0, "ibm-encode", "zero stored as %08x", u);
      else VH_CHECK(((u >> 20) & 0xf) != 0 && std::fabs(v - (long double)in) < ulp, "ibm-encode", "%.9g stored as %08x = %.9Lg", in, u, v);
    }
  }
  vh::stat("values_written", (long)items.size());
  if (wk == 0) spit(file, bytes);
  int cuts = (int)r.i(1, 6);
  for (int q = 0; q <= cuts; q++) {
    size_t cut = q == 0 ? bytes.size() : bytes.empty() ? 0 : (r.b(.5) ? (size_t)r.i(0, (long)bytes.size() - 1) : bytes.size() - (size_t)r.i(1, std::min<long>(8, (long)bytes.size())));
    std::string t = bytes.substr(0, cut);
    int rk = (int)r.i(0, 3);
    if (rk == 0) { std::istringstream f(t); readAll(f, r, items, bytes, cut, "string stream"); }
    else {
      if (q) spit(file, t);
      if (rk == 1) { std::ifstream f; OpenRead(f, file, std::ios::in | std::ios::binary); readAll(f, r, items, bytes, cut, "file stream"); }
      else if (rk == 2) { BigFile f; f.OpenRead(file); VH_CHECK(f.FileSize() == (long long)cut, "size", "BigFile::FileSize %lld for %zu bytes", f.FileSize(), cut); readAll(f, r, items, bytes, cut, "BigFile"); }
      else { std::fstream f; OpenRead(f, file, std::ios::in | std::ios::binary); readAll(f, r, items, bytes, cut, "fstream"); }
      VH_CHECK(FindFileSize(file) == cut, "size", "FindFileSize %llu for %zu bytes", FindFileSize(file), cut);
    }
    vh::stat("readings");
  }
  // float arrays may be delivered as doubles
  for (Endianess e : {END_BIG_ENDIAN, END_LITTLE_ENDIAN}) {
    size_t n = (size_t)r.i(0, 9); std::string b; std::vector<uint64_t> x; for (size_t i = 0; i < n; i++) { x.push_back(bits(r, FLOAT)); enc(b, x.back(), 4, e); }
    std::istringstream f(b); std::vector<double> d(n); ReadBinaryFloatArray(f, d.begin(), n, e);
    for (size_t i = 0; i < n; i++) VH_CHECK(vh::close(d[i], val<float>(x[i]), 0, 0), "float-array-as-double", "%.9g delivered as %.17g", val<float>(x[i]), d[i]);
  }
  if (c < 2) vh::sample(vh::fmt("%zu values, %zu bytes via writer %d", items.size(), bytes.size(), wk));
}

static void buffers(vh::Rng& r, long) {
  for (int q = 0; q < 50; q++) {
    char g[16]; for (char& x : g) x = (char)r.next(); char s[16]; std::memcpy(s, g, 16); int o = (int)r.i(1, 8);
    uint64_t b = bits(r, (Kind)r.i(0, 1)); std::string w; int n = 4; const char* nm = "";
    switch (r.i(0, 3)) {
      case 0: n = 2; enc(w, b & 0xffff, 2, END_BIG_ENDIAN); WriteInt16BE(g + o, (short)b); nm = "WriteInt16BE"; break;
      case 1: n = 2; enc(w, b & 0xffff, 2, END_BIG_ENDIAN); WriteUInt16BE(g + o, (unsigned short)b); nm = "WriteUInt16BE"; break;
      case 2: enc(w, b & 0xffffffff, 4, END_BIG_ENDIAN); WriteInt32BE(g + o, (int)b); nm = "WriteInt32BE"; break;
      default: enc(w, b & 0xffffffff, 4, END_BIG_ENDIAN); WriteUInt32BE(g + o, (unsigned)b); nm = "WriteUInt32BE";
    }
    VH_CHECK(!std::memcmp(g + o, w.data(), n), "buffer-bytes", "%s(%lx) gave %02x%02x", nm, b, (u8)g[o], (u8)g[o + 1]);
    VH_CHECK(!std::memcmp(g, s, o) && !std::memcmp(g + o + n, s + o + n, 16 - o - n), "buffer-neighbours", "%s wrote outside its %d bytes", nm, n);
    char p[8]; for (char& x : p) x = (char)(r.b(.2) ? (r.b() ? 0xff : 0x80) : r.next());
    uint32_t e4 = (uint32_t)dec(p, 4, END_BIG_ENDIAN); uint16_t e2 = (uint16_t)dec(p, 2, END_BIG_ENDIAN);
    short s2; int s4; unsigned short u2; unsigned u4; float f;
    ParseInt16BE(p, s2); ParseInt32BE(p, s4); ParseUInt16BE(p, u2); ParseUInt32BE(p, u4); ParseIEEEFloatBE(p, f);
    VH_CHECK(s2 == (short)e2 && u2 == e2 && s4 == (int)e4 && u4 == e4 && raw(f) == e4, "buffer-parse", "bytes of %08x parsed as %d %u %d %u %08lx", e4, s2, u2, s4, u4, raw(f));
    // IBM: every number whose value is in the normal range of a float, normalised or not
    uint32_t u = (uint32_t)((r.b() ? 0x80000000u : 0) | ((uint32_t)r.i(0x40 - 30, 0x40 + 31) << 24) | (r.b(.1) ? 0 : r.b(.2) ? (1u << r.i(0, 23)) : (uint32_t)(r.next() & 0xffffff) >> (r.b(.3) ? r.i(0, 23) : 0)));
    long double v = ibmval(u);
    if (v == 0 || (std::fabs(v) >= 1.2e-38L && std::fabs(v) <= 3.4e38L)) {
      std::string t; enc(t, u, 4, END_BIG_ENDIAN); ParseIBMFloatBE(t.data(), f);
      VH_CHECK((long double)f == v, "ibm-decode", "%08x is %.9Lg, parsed as %.9g", u, v, f); vh::stat("ibm_patterns");
    } else if (std::fabs(v) > 3.5e38L) { std::string t; enc(t, u, 4, END_BIG_ENDIAN); ParseIBMFloatBE(t.data(), f); VH_CHECK(!std::isfinite(f) || std::fabs(f) > 3.4e38f, "ibm-decode", "%08x is %.9Lg, parsed as %.9g", u, v, f); }
  }
  vh::stat("buffer_rounds", 50); vh::sig(r.next() % 997);
}

static void files(vh::Rng& r, long) {
  std::string d = vh::path(vh::fmt("d%ld", r.i(0, 1000000))), a = d + "/x/y/a.bin", b = d + "/x/b.bin";
  auto fails = [&](std::function<void()> f) { try { f(); return 0; } catch (IOError&) { return 1; } catch (NRLib::Exception&) { return 2; } catch (std::exception&) { return 3; } };
  VH_CHECK(!FileExists(a), "file-exists", "file reported before it was written");
  VH_CHECK(fails([&] { std::ifstream f; OpenRead(f, a); }) == 1, "open-missing", "ifstream"); VH_CHECK(fails([&] { std::fstream f; OpenRead(f, a); }) == 1, "open-missing", "fstream");
  VH_CHECK(fails([&] { BigFile f; f.OpenRead(a); }) == 1, "open-missing", "BigFile"); VH_CHECK(fails([&] { FindFileSize(a); }) == 1, "open-missing", "FindFileSize");
  VH_CHECK(fails([&] { std::ofstream f; OpenWrite(f, a, std::ios::out, false); }) == 1, "open-without-directory", "ofstream"); VH_CHECK(fails([&] { BigFile f; f.OpenWrite(a, true, false); }) == 1, "open-without-directory", "BigFile");
  VH_CHECK(!FileExists(d), "directory-created", "refused open created the directory");
  std::string data; size_t n = (size_t)r.i(0, r.b(.02) ? 3000000 : 5000); for (size_t i = 0; i < n; i++) data += (char)r.next();
  int k = (int)r.i(0, 2);
  if (k == 0) { std::ofstream f; OpenWrite(f, a, std::ios::out | std::ios::binary); f.write(data.data(), n); }
  else if (k == 1) { BigFile f; f.OpenWrite(a); size_t q = f.write(data.data(), n); VH_CHECK(q == n, "bigfile-write", "%zu of %zu", q, n); }
  else { CreateDirIfNotExists(a); std::fstream f; OpenWrite(f, a, std::ios::out | std::ios::binary); f.write(data.data(), n); }
  VH_CHECK(FileExists(a) && slurp(a) == data && FindFileSize(a) == n, "file-contents", "%zu bytes via %d", n, k);
  VH_CHECK(fails([&] { std::ifstream f; OpenRead(f, d); }) == 1 && fails([&] { BigFile f; f.OpenRead(d); }) == 1 && fails([&] { std::ofstream f; OpenWrite(f, d); }) == 1 && fails([&] { BigFile f; f.OpenWrite(d); }) == 1, "open-directory", "a directory was opened as a file");
  CopyFile(a, b, false); VH_CHECK(slurp(b) == data && slurp(a) == data, "copy", "%zu bytes", n);
  VH_CHECK(fails([&] { CopyFile(a, b, false); }) != 0, "copy-overwrites", "existing file overwritten without permission");
  spit(a, "new"); VH_CHECK(fails([&] { CopyFile(a, b, false); }) != 0 && slurp(b) == data, "copy-overwrites", "existing file changed without permission");
  CopyFile(a, b, true); VH_CHECK(slurp(b) == "new", "copy", "overwriting copy");
  { // seek and tell
    BigFile f; spit(a, data); f.OpenRead(a);
    for (int q = 0; q < 6 && n > 20; q++) { long o = r.i(0, (long)n - 10); char buf[10]; f.seek(o, SEEK_SET); VH_CHECK(f.tell() == o, "tell", "%ld", o); size_t m = f.read(buf, 10); VH_CHECK(m == 10 && !std::memcmp(buf, data.data() + o, 10) && f.tell() == o + 10 && f.good(), "seek-read", "offset %ld", o); }
    std::vector<char> big(n + 10); f.seek(0, SEEK_SET); size_t m = f.read(big.data(), n + 10); VH_CHECK(m == n && f.eof() && !f.good() && !f.bad(), "read-past-end", "%zu of %zu", m, n); f.clear(); VH_CHECK(!f.eof(), "clear", "eof after clear");
  }
  RemoveFile(b); VH_CHECK(!FileExists(b), "remove", "file still there"); RemoveFile(b);
  RemoveFile(a); rmdir((d + "/x/y").c_str()); rmdir((d + "/x").c_str()); rmdir(d.c_str());
  vh::stat("file_rounds"); vh::sig(vh::fmt("f%d/%zu", k, n));
}
int main(int argc, char** argv) {
  return vh::run(argc, argv, [](vh::Rng& r, long c, const std::string& m) { if (m == "buf") buffers(r, c); else if (m == "file") files(r, c); else streams(r, c); });
}
