// P28: a log kit with random streams, levels, phases, buffering; every message goes where it was asked for, once, in order.
#include "vh.hpp"
#include <fstream>
#include <iostream>
#include <memory>
#include "nrlib/exception/exception.hpp"
#include "nrlib/iotools/logkit.hpp"
#include "nrlib/iotools/logstream.hpp"
using namespace NRLib;
static const int LV[] = {1, 2, 4, 8, 16, 32, 64};
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Rec : LogStream {  // a stream of the caller
  std::string* o; bool* gone; Rec(int l, std::string* s, bool* g) : LogStream(l), o(s), gone(g) {} Rec(const std::vector<int>& l, bool ig, std::string* s, bool* g) : LogStream(l, ig), o(s), gone(g) {}
  ~Rec() { *gone = true; } void LogMessage(int l, const std::string& m) { if (ShouldLog(l)) *o += m; } void LogMessage(int l, int p, const std::string& m) { if (ShouldLog(l, p)) *o += m; } void UpdateProgress(double p, const std::string& m) { *o += vh::fmt("<%.3f ", p) + m + ">"; }
};
struct Sink {  // model
  int kind;  // 0 file, 1 screen, 2 caller's
  std::vector<int> lv; int full; std::string want, file, got; bool open = true, gone = false, prog = false; LogStream* s = 0;
  bool takes(int l, int p) const { if (p < 0 || p >= (int)lv.size()) return l & full; return l & lv[p]; }
  void msg(int l, int p, const std::string& m) { if (takes(l, p)) { if (prog) { want += "\n\n"; prog = false; } want += m; } }
  void progress(double x, const std::string& m) { if (kind == 2) want += vh::fmt("<%.3f ", x) + m + ">"; if (kind == 1) { if (!prog) want += "  0%       20%       40%       60%       80%      100%\n  |    |    |    |    |    |    |    |    |    |    |\n"; prog = true; int h = 1 + (int)(x * 50); want += "\r  " + std::string(h, '^') + std::string(52 - h, ' ') + m; } }
};
static std::string text(vh::Rng& r) { std::string s; long n = r.b(.03) ? r.i(900, 6000) : r.b(.1) ? 0 : r.i(1, 40); for (long q = 0; q < n; q++) s += r.b(.05) ? '\n' : r.b(.03) ? '%' : (char)r.i(32, 126); if (r.b()) s += "\n"; return s; }
static void log(vh::Rng& r) {
  std::ostringstream cap; struct Redirect { std::streambuf* o; ~Redirect() { std::cout.rdbuf(o); } } red{std::cout.rdbuf(cap.rdbuf())};
  std::vector<std::unique_ptr<Sink>> all; std::vector<Sink*> live; Sink* screen = 0; int screens = 0; std::string sc; size_t base = 0; bool buf = false; struct B { int l, p; std::string t; }; std::vector<B> held; std::string pre[65]; int n0[65], n[65]; for (int q = 0; q < 65; q++) { LogKit::SetPrefix("", q); n0[q] = LogKit::GetNMessages(q); n[q] = 0; }
  auto levels = [&]() { return r.b(.5) ? (1 << r.i(1, 7)) - 1 : (int)r.i(0, 127); };
  auto vec = [&](Sink& s, bool ig) { s.lv.resize(r.i(0, 5)); s.full = 0; for (int& x : s.lv) { x = levels(); if (!ig) s.full |= x; } };
  auto dump = [&](Sink& s) { if (buf) for (auto& b : held) s.msg(b.l, b.p, b.t); };
  auto send = [&](int l, int p, const std::string& t) { std::string m = pre[l] + t; n[l]++; for (auto* s : live) s->msg(l, p, m); if (buf) held.push_back({l, p, m}); };
  auto check = [&](const char* w) { std::string scr; for (auto& s : all) { if (s->kind == 0) { std::string g = slurp(s->file); VH_CHECK(g == s->want, "file", "%s: a file has %zu characters, expected %zu", w, g.size(), s->want.size()); } else if (s->kind == 2) { VH_CHECK(s->got == s->want, "stream", "%s: a stream has %zu characters, expected %zu", w, s->got.size(), s->want.size()); VH_CHECK(s->gone == !s->open, "released", "%s: stream released %d, expected %d", w, s->gone, !s->open); } }
    for (int l : LV) VH_CHECK(LogKit::GetNMessages(l) - n0[l] == n[l], "count", "%s: %d messages at level %d, expected %d", w, LogKit::GetNMessages(l) - n0[l], l, n[l]); };
  // screen output is one text in the order of the messages: the model appends what the screen stream would add
  std::string screen_all; auto track = [&](const std::function<void()>& f) { size_t a = screen ? screen->want.size() : 0; Sink* s = screen; f(); if (s && s == screen) screen_all += s->want.substr(a); };
  int ops = (int)r.i(1, 40), files = 0; uint64_t h = 7;
  for (int q = 0; q < ops; q++) {
    int op = (int)r.i(0, 12); h = vh::mix(h, op);
    if (op == 0 && files < 6) { auto s = std::make_unique<Sink>(); s->kind = 0; s->file = vh::path("l" + std::to_string(files++) + ".log"); std::ofstream(s->file) << "old text"; int k = (int)r.i(0, 3); h = vh::mix(h, k);
      if (k == 0) { int l = levels(); s->full = l; LogKit::SetFileLog(s->file, l); } else if (k == 1) { int l = levels(); s->full = l; s->lv = {0, l}; LogKit::SetFileLog(s->file, l, false); } else if (k == 2) { bool ig = r.b(); vec(*s, ig); LogKit::SetFileLog(s->file, s->lv, ig); } else { int l = levels(), p = r.b(.1) ? 999 : (int)r.i(0, 6); bool ig = r.b(); s->lv.assign(1000, 0); s->lv[p] = l; s->full = ig ? 0 : l; LogKit::SetFileLog(s->file, l, p, ig); }
      dump(*s); live.push_back(s.get()); all.push_back(std::move(s)); vh::stat("files"); }
    else if (op == 1) { auto s = std::make_unique<Sink>(); s->kind = 1; int k = (int)r.i(0, 2); if (k == 0) { s->full = levels(); LogKit::SetScreenLog(s->full); } else if (k == 1) { int l = levels(); s->full = l; s->lv = {0, l}; LogKit::SetScreenLog(l, false); } else { bool ig = r.b(); vec(*s, ig); LogKit::SetScreenLog(s->lv, ig); } if (screen) { for (auto& x : live) if (x == screen) x = s.get(); screen->open = false; } else live.push_back(s.get()); screen = s.get(); all.push_back(std::move(s)); screens++; vh::stat("screens"); }
    else if (op == 2 && all.size() < 12) { auto s = std::make_unique<Sink>(); s->kind = 2; if (r.b()) { s->full = levels(); s->s = new Rec(s->full, &s->got, &s->gone); } else { bool ig = r.b(); vec(*s, ig); s->s = new Rec(s->lv, ig, &s->got, &s->gone); } LogKit::AddLogStream(s->s); dump(*s); live.push_back(s.get()); all.push_back(std::move(s)); vh::stat("own_streams"); }
    else if (op == 3 && r.b(.5)) { std::vector<size_t> c; for (size_t x = 0; x < live.size(); x++) if (live[x]->kind == 2) c.push_back(x); if (!c.empty()) { size_t x = c[r.i(0, (long)c.size() - 1)]; LogKit::RemoveLogStream(live[x]->s); live[x]->open = false; live.erase(live.begin() + x); vh::stat("removed"); } else { int dummy; bool g; std::string o; Rec x(1, &o, &g); LogKit::RemoveLogStream(&x); (void)dummy; } }
    else if (op == 4 && r.b(.4)) { LogKit::StartBuffering(); buf = true; held.clear(); vh::stat("bufferings"); }
    else if (op == 5 && r.b(.3)) { LogKit::EndBuffering(); buf = false; held.clear(); }
    else if (op == 6 && r.b(.4)) { int l = LV[r.i(0, 6)]; pre[l] = r.b(.3) ? "" : "WARNING " + std::to_string(r.i(1, 9)) + ": "; LogKit::SetPrefix(pre[l], l); }
    else if (op == 7 && r.b(.4)) { int l = LV[r.i(0, 6)]; std::string t(r.b(.2) ? r.i(85, 130) : r.i(0, 60), 'x'); int bl = std::max(0, 100 - (int)t.size() - 10); std::string ru(100, '*'), b(bl / 2, ' '); track([&] { send(l, -1, "\n" + ru + "\n"); send(l, -1, "*****" + b + t + b + (bl % 2 ? " " : "") + "*****\n"); send(l, -1, ru + "\n"); }); LogKit::WriteHeader(t, (LogKit::MessageLevels)l); vh::stat("headers"); }
    else if (op == 8 && r.b(.5)) { double x = r.b(.2) ? 0 : r.b(.2) ? 1 : r.u(); std::string t = r.b(.3) ? "" : "step " + std::to_string(q); track([&] { for (auto* s : live) s->progress(x, t); }); LogKit::UpdateProgress(x, t); vh::stat("progress"); }
    else if (op == 9 && r.b(.15)) { LogKit::EndLog(); for (auto* s : live) s->open = false; live.clear(); screen = 0; buf = false; held.clear(); vh::stat("ended"); }
    else { int l = LV[r.i(0, 6)], p = (int)r.i(0, 7); std::string t = text(r); int k = (int)r.i(0, 3); if (k == 0) { track([&] { send(l, -1, t); }); LogKit::LogMessage(l, t); } else if (k == 1) { track([&] { send(l, p, t); }); LogKit::LogMessage(l, p, t); } else if (k == 2) { int a = (int)r.i(-999, 999); double d = r.n() * 1e3; std::string e = t + std::to_string(a); char bb[64]; snprintf(bb, 64, " %8.3f|", d); e += bb; track([&] { send(l, -1, e); }); LogKit::LogFormatted(l, "%s%d %8.3f|", t.c_str(), a, d); } else { std::string e = "a" + t + "%"; track([&] { send(l, p, e); }); LogKit::LogFormatted(l, p, "a%s%%", t.c_str()); } vh::stat("messages"); h = vh::mix(h, l * 10 + k); }
    if (r.b(.2)) check("history"); VH_CHECK(cap.str() == screen_all, "screen", "the screen has %zu characters, expected %zu", cap.str().size(), screen_all.size());
  }
  check("end"); LogKit::EndLog(); for (auto* s : live) s->open = false; live.clear(); check("closed"); for (auto& s : all) if (s->kind == 0) remove(s->file.c_str()); vh::sig(h);
}
// a file that cannot be opened
static void faults(vh::Rng& r) {
  std::string f = vh::path("nodir/x.log"), g = vh::path("y.log"); bool t = false; std::string got; bool gone = false; if (r.b()) LogKit::StartBuffering(); LogKit::AddLogStream(new Rec(127, &got, &gone));
  // a missing directory cannot be made where a file of that name is in the way
  std::ofstream(vh::path("nodir")) << "x"; try { LogKit::SetFileLog(f, 127); } catch (std::exception&) { t = true; } VH_CHECK(t, "unwritable", "a log file that cannot be written was accepted"); LogKit::SetFileLog(g, 3); LogKit::LogMessage(LogKit::Warning, "after\n"); VH_CHECK(got == "after\n" && slurp(g) == "after\n", "after-failure", "%zu %zu", got.size(), slurp(g).size()); LogKit::EndLog(); VH_CHECK(gone, "released", "stream kept"); remove(vh::path("nodir").c_str()); remove(g.c_str()); vh::sig(vh::mix(3, r.i(0, 100)));
}
int main(int argc, char** argv) { return vh::run(argc, argv, [](vh::Rng& r, long, const std::string& m) { if (m == "faults") faults(r); else log(r); }); }
