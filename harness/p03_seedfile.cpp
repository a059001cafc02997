// P03: seed files and start seed bookkeeping in the C++ API, against a model.
#include "vh.hpp"
#include "nrlib/exception/exception.hpp"
#include "nrlib/random/random.hpp"
#include "nrlib/random/randomgenerator.hpp"
#include <fstream>
#include <sys/stat.h>
using namespace NRLib;
using vh::fmt;

struct Model { bool set = false; unsigned long start = 0; std::vector<double> pend; };
// Reference stream: an independent generator object, advanced in lock step.
static RandomGenerator* refg = 0;

static std::string slurp(const std::string& p) { std::ifstream f(p.c_str()); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& c) { std::ofstream f(p.c_str()); f << c; }

// One process handles many cases, so the unset state is only reachable in the first one.
static bool fresh = true;
static std::string file_in_use;

static void run(vh::Rng& r, long c, const std::string&) {
  if (fresh) {
    fresh = false;
    bool thrown = false;
    try { Random::GetStartSeed(); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "unset-seed-reported", "GetStartSeed() did not throw in a fresh process");
    RandomGenerator g; thrown = false;
    try { g.GetStartSeed(); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "unset-seed-reported", "RandomGenerator without a seed reports one");
    std::string m = vh::path("missing.seed"); thrown = false;
    try { Random::Initialize(m); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "missing-seed-file-accepted", "no exception");
    thrown = false;
    try { Random::GetStartSeed(); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "failed-load-sets-seed", "a failed load set a seed");
    std::string bad = vh::path("bad0.seed"); spit(bad, "abc");
    thrown = false;
    try { Random::Initialize(bad); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "malformed-seed-file-accepted", "no exception");
    thrown = false;
    try { Random::GetStartSeed(); } catch (Exception&) { thrown = true; }
    VH_CHECK(thrown, "failed-load-sets-seed", "a malformed file set a seed");
    Random::WriteSeedToFile();
    VH_CHECK(access(m.c_str(), F_OK) != 0 && slurp(bad) == "abc", "seed-file-written-unasked", "a failed seed file is written to");
  }
  unsigned long start = (unsigned long)r.i(0, 4294967295L);
  if (r.b(0.1)) start = r.pick(std::vector<unsigned long>{0, 1, 4294967295ul, 4294967296ul, 18446744073709551615ul});
  Random::Initialize(start);
  RandomGenerator ref(start);
  std::string log = fmt("init(%lu)", start);
  std::string kinds;
  int nops = (int)r.i(3, 25);
  for (int i = 0; i < nops; i++) {
    int k = (int)r.i(0, 9);
    if (k <= 2) {
      int n = (int)r.i(1, 900);
      bool ok = true;
      for (int q = 0; q < n && ok; q++) {
        int w = (int)r.i(0, 3);
        double a = w == 0 ? Random::Unif01() : w == 1 ? Random::Unif01Open() : w == 2 ? Random::Norm01() : (double)Random::DrawUint32();
        double b = w == 0 ? ref.Unif01() : w == 1 ? ref.Unif01Open() : w == 2 ? ref.Norm01() : (double)ref.DrawUint32();
        ok = a == b;
      }
      VH_CHECK(ok, "stream-differs-from-start-seed", "%s: shared stream is not that of its start seed", log.c_str());
      vh::stat("draws_compared", n); kinds += 'd';
    } else if (k == 3) {
      start = (unsigned long)r.i(0, 4294967295L); Random::Initialize(start); ref = RandomGenerator(start); log += fmt(" init(%lu)", start); kinds += 'i';
    } else if (k == 4) {  // load from a seed file
      std::string f = vh::path(fmt("s%ld_%d.seed", c, i));
      unsigned long v = (unsigned long)r.i(0, 4294967295L);
      spit(f, r.pick(std::vector<std::string>{"", " ", "\n"}) + std::to_string(v) + r.pick(std::vector<std::string>{"", "\n", "\r\n", " trailing"}));
      std::string before = slurp(f);
      Random::Initialize(f); start = v; ref = RandomGenerator(start); file_in_use = f; log += fmt(" load(%lu)", v); kinds += 'l';
      VH_CHECK(slurp(f) == before, "seed-file-written-unasked", "%s: loading changed the file", log.c_str());
    } else if (k == 5) {  // failing load
      std::string f = vh::path("bad.seed");
      int w = (int)r.i(0, 3);
      if (w == 0) { f = vh::path("does/not/exist"); }
      else spit(f, w == 1 ? "" : w == 2 ? "x12" : "99999999999999999999999999");
      bool thrown = false;
      try { Random::Initialize(f); } catch (Exception&) { thrown = true; }
      VH_CHECK(thrown, "bad-seed-file-accepted", "%s: kind %d", log.c_str(), w);
      log += fmt(" badload(%d)", w); kinds += 'b';
      VH_CHECK(Random::GetStartSeed() == start, "failed-load-changes-seed", "%s: reported seed %lu, expected %lu", log.c_str(), Random::GetStartSeed(), start);
      start = Random::GetStartSeed();
    } else if (k == 6 && !file_in_use.empty()) {
      std::string f = file_in_use;
      bool broken = r.b(0.2);
      if (broken) { unlink(f.c_str()); mkdir(f.c_str(), 0700); }
      bool thrown = false;
      RandomGenerator save(ref);
      try { Random::WriteSeedToFile(); } catch (Exception&) { thrown = true; }
      if (broken) {
        VH_CHECK(thrown, "seed-write-failure-silent", "%s", log.c_str());
        rmdir(f.c_str()); kinds += 'B';
      } else {
        unsigned long want = ref.DrawUint32();
        unsigned long got = strtoul(slurp(f).c_str(), 0, 10);
        VH_CHECK(!thrown && got == want && want == got, "saved-seed", "%s: file has %lu, the stream continues with %lu", log.c_str(), got, want);
        VH_CHECK(got != start, "saved-seed-repeats", "%s: the saved seed is the current one", log.c_str());
        kinds += 'w'; log += " save";
        if (r.b()) { Random::Initialize(f); start = got; ref = RandomGenerator(start); log += " reload"; kinds += 'r'; }
      }
      vh::stat("seed_files_saved");
    } else if (k == 7) {
      RandomGenerator g((unsigned long)r.i(0, 1000)); for (int q = 0; q < 50; q++) g.Norm01();
      VH_CHECK(g.GetStartSeed() <= 1000, "own-seed", "x"); kinds += 'o';
      RandomGenerator h; h.Initialize(); RandomGenerator h2(h.GetStartSeed());
      VH_CHECK(h.Unif01() == h2.Unif01() && h.Norm01() == h2.Norm01() && h.DrawUint32() == h2.DrawUint32(), "automatic-seed-not-replayable", "RandomGenerator");
    } else if (k == 8) {
      Random::Initialize(); start = Random::GetStartSeed(); ref = RandomGenerator(start); log += " auto"; kinds += 'a';
    }
    VH_CHECK(Random::GetStartSeed() == start, "seed-report", "%s: reported %lu expected %lu", log.c_str(), Random::GetStartSeed(), start);
  }
  bool ok = Random::Unif01() == ref.Unif01() && Random::DrawUint32() == ref.DrawUint32();
  VH_CHECK(ok, "stream-differs-from-start-seed", "%s: at the end", log.c_str());
  vh::sig(kinds);
  vh::sample(log);
}
int main(int argc, char** argv) { return vh::run(argc, argv, run); }
