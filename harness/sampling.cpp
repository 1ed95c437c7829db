// Random sampling of index subsets, with the random source owned by the harness.
//
// Every answer the random source can give (up to equivalence) is enumerated: for a pool of at
// most n indices an answer only matters through its residue / its fraction, so the L =
// lcm(1..n) representative 31-bit values stand for all of them, each for an equally large
// class.  Counting how often each sample results is therefore an exact probability.
#include "mc.hpp"
#include <opengv/types.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
using namespace mc;

static int lcmUpTo(int n) { int l = 1; for (int i = 2; i <= n; i++) { int a = l, b = i; while (b) { int t = a % b; a = b; b = t; } l = l / a * i; } return l; }
static int repr(long long j, int L)
{
  // value with residue j modulo L and, up to L/2^31, fraction j/L of the range
  long long base = (j * 2147483648ll) / L;
  base = (base + L - 1) / L * L;
  if (base + j > 2147483647ll) base -= L;
  return (int)(base + j);
}

struct Script
{
  Chooser *ch = nullptr;
  int L = 1;
  std::vector<int> goodness;  // answers to isSampleGood, afterwards the last one
  size_t goodAsked = 0;
  int drawn = 0;
  int fixed = -1;             // constant answer instead of a choice
  std::vector<int> fixedSeq;
  size_t fixedPos = 0;
  std::vector<std::vector<std::vector<int>>> seen; // samples isSampleGood was asked about
  int next()
  {
    drawn++;
    if (drawn > 100000) throw Diverged("runaway draw");
    if (fixedPos < fixedSeq.size()) return fixedSeq[fixedPos++];
    if (fixed >= 0) return fixed;
    return repr(ch->choose(L), L);
  }
  bool good(const std::vector<std::vector<int>> &s)
  {
    seen.push_back(s);
    size_t i = goodAsked++;
    if (goodness.empty()) return true;
    return goodness[i < goodness.size() ? i : goodness.size() - 1] != 0;
  }
};

typedef opengv::sac::SampleConsensusProblem<int> SB;
typedef opengv::sac::MultiSampleConsensusProblem<int> MB;
struct S1 : SB
{
  Script &sc; int ss; bool custom;
  S1(Script &s, int k, bool c = true, bool rs = false) : SB(rs), sc(s), ss(k), custom(c) {}
  bool isSampleGood(const std::vector<int> &s) const override { if (!custom) return SB::isSampleGood(s); return sc.good({s}); }
  int getSampleSize() const override { return ss; }
  bool computeModelCoefficients(const std::vector<int> &, int &m) const override { m = 0; return true; }
  void optimizeModelCoefficients(const std::vector<int> &, const int &a, int &b) override { b = a; }
  void getSelectedDistancesToModel(const int &, const std::vector<int> &i, std::vector<double> &s) const override { for (int x : i) s.push_back(x); }
};
struct S2 : MB
{
  Script &sc; std::vector<int> ss; bool custom;
  S2(Script &s, std::vector<int> k, bool c = true, bool rs = false) : MB(rs), sc(s), ss(k), custom(c) {}
  bool isSampleGood(const std::vector<std::vector<int>> &s) const override { if (!custom) return MB::isSampleGood(s); return sc.good(s); }
  std::vector<int> getSampleSizes() const override { return ss; }
  bool computeModelCoefficients(const std::vector<std::vector<int>> &, int &m) const override { m = 0; return true; }
  void optimizeModelCoefficients(const std::vector<std::vector<int>> &, const int &a, int &b) override { b = a; }
  void getSelectedDistancesToModel(const int &, const std::vector<std::vector<int>> &i, std::vector<std::vector<double>> &s) const override
  { s.resize(i.size()); for (size_t f = 0; f < i.size(); f++) for (int x : i[f]) s[f].push_back(x); }
};

// uniform view on both
struct Subject
{
  virtual ~Subject() {}
  virtual void own(Script &s) = 0;
  virtual void setUniform(const std::vector<int> &n) = 0;
  virtual void setIdx(const std::vector<std::vector<int>> &v) = 0;
  virtual std::vector<std::vector<int>> indices() = 0;
  virtual std::vector<std::vector<int>> get(int &it) = 0;   // {} when empty
  virtual void checks(int n) = 0;
  virtual void sizes(const std::vector<int> &k) = 0;
};
struct Single : Subject
{
  S1 p;
  Single(Script &s, const std::vector<int> &k, bool custom, bool rs = false) : p(s, k[0], custom, rs) {}
  void own(Script &s) override { p.rng_gen_.reset(new std::function<int()>([&s] { return s.next(); })); }
  void setUniform(const std::vector<int> &n) override { p.setUniformIndices(n[0]); }
  void setIdx(const std::vector<std::vector<int>> &v) override { p.setIndices(v[0]); }
  std::vector<std::vector<int>> indices() override { return {*p.getIndices()}; }
  std::vector<std::vector<int>> get(int &it) override { std::vector<int> s; p.getSamples(it, s); if (s.empty()) return {}; return {s}; }
  void checks(int n) override { p.max_sample_checks_ = n; }
  void sizes(const std::vector<int> &k) override { p.ss = k[0]; }
};
struct Multi : Subject
{
  S2 p;
  Multi(Script &s, const std::vector<int> &k, bool custom, bool rs = false) : p(s, k, custom, rs) {}
  void own(Script &s) override { p.rng_gen_.reset(new std::function<int()>([&s] { return s.next(); })); }
  void setUniform(const std::vector<int> &n) override { p.setUniformIndices(n); }
  void setIdx(const std::vector<std::vector<int>> &v) override { p.setIndices(v); }
  std::vector<std::vector<int>> indices() override { return *p.getIndices(); }
  std::vector<std::vector<int>> get(int &it) override { std::vector<std::vector<int>> s; p.getSamples(it, s); return s; }
  void checks(int n) override { p.max_sample_checks_ = n; }
  void sizes(const std::vector<int> &k) override { p.ss = k; }
};
static std::unique_ptr<Subject> mk(bool multi, Script &s, const std::vector<int> &k, bool custom, bool rs = false)
{
  if (multi) return std::unique_ptr<Subject>(new Multi(s, k, custom, rs));
  return std::unique_ptr<Subject>(new Single(s, k, custom, rs));
}
static std::string show(const std::vector<std::vector<int>> &v)
{ std::string s = "{"; for (auto &x : v) s += "[" + joinInts(x, ',') + "]"; return s + "}"; }

// every sample: right sizes, distinct, drawn from the pool
static bool sane(const std::vector<std::vector<int>> &s, const std::vector<std::vector<int>> &pool, const std::vector<int> &k, const char *where)
{
  if (s.size() != k.size()) { MC_FAIL("%s: sample for %zu frames, expected %zu", where, s.size(), k.size()); return false; }
  for (size_t f = 0; f < k.size(); f++)
  {
    if ((int)s[f].size() != k[f]) { MC_FAIL("%s: sample %s has the wrong size in frame %zu", where, show(s).c_str(), f); return false; }
    std::set<int> u(s[f].begin(), s[f].end());
    if (u.size() != s[f].size()) { MC_FAIL("%s: sample %s repeats an index", where, show(s).c_str()); return false; }
    for (int x : s[f])
      if (std::find(pool[f].begin(), pool[f].end(), x) == pool[f].end()) { MC_FAIL("%s: sample %s contains %d, not in the pool %s", where, show(s).c_str(), x, show(pool).c_str()); return false; }
  }
  return true;
}

static std::vector<std::vector<int>> poolOf(const std::vector<int> &n, int kind)
{
  std::vector<std::vector<int>> v(n.size());
  for (size_t f = 0; f < n.size(); f++)
    for (int i = 0; i < n[f]; i++)
      v[f].push_back(kind == 0 ? i : kind == 1 ? 3 * i + 7 + (int)f : kind == 2 ? 40 - 2 * i : (i * 5 + 2) % 11 + 20);
  return v;
}
static void load(Subject &s, const std::vector<int> &n, int kind)
{
  if (kind == 0) s.setUniform(n); else s.setIdx(poolOf(n, kind));
}

// exact distribution of one draw after `hist` earlier draws with fixed answers
static void distribution(bool multi, const std::vector<int> &n, const std::vector<int> &k, int kind, int hist)
{
  std::string key = fmt("dist:%s:n=%s:k=%s:pool=%d:hist=%d", multi ? "multi" : "single", joinInts(n).c_str(), joinInts(k).c_str(), kind, hist);
  if (!E().begin(key)) return;
  int nmax = 1; for (int x : n) nmax = std::max(nmax, x);
  int L = lcmUpTo(nmax);
  auto pool = poolOf(n, kind);
  double ways = 1;
  for (size_t f = 0; f < n.size(); f++) for (int i = 0; i < k[f]; i++) ways *= n[f] - i;
  std::map<std::vector<std::vector<int>>, uint64_t> cnt;
  uint64_t total = 0; bool ok = true, owned = true;
  enumerate([&](Chooser &c) {
    Script sc; sc.L = L; sc.ch = &c;
    auto s = mk(multi, sc, k, true);
    load(*s, n, kind);
    s->own(sc);
    Chooser dummy;
    for (int h = 0; h < hist; h++)
    {
      sc.fixed = 0; // two very different fixed histories
      if (hist > 1 || h % 2) sc.fixed = 2147483647 - 3 * h;
      int it = 5; auto r = s->get(it);
      if (!sane(r, pool, k, "history draw")) { ok = false; }
    }
    sc.fixed = -1;
    int it = 5;
    auto r = s->get(it);
    E().evaluations++; E().transitions++; total++;
    if (it != 5) { MC_FAIL("a successful draw changed the iteration counter to %d", it); ok = false; }
    if (!sane(r, pool, k, "draw")) { ok = false; return; }
    if (c.got.empty()) { int tot = 0; for (int x : k) tot += x; if (tot) owned = false; }
    cnt[r]++;
    if (s->indices() != pool) { MC_FAIL("drawing changed the index list to %s", show(s->indices()).c_str()); ok = false; }
    if (total == 1) E().sample(key + " first sample " + show(r));
  });
  E().counters["pool/sample shapes"]++;
  for (auto &c : cnt) E().outcome(mix(hashStr(key), hashStr(show(c.first))));
  if (!ok) return;
  if (!owned) { E().counters["random source not interceptable"]++; return; }
  if ((double)cnt.size() != ways) { MC_FAIL("only %zu of %.0f ordered samples can be drawn", cnt.size(), ways); return; }
  uint64_t lo = ~0ull, hi = 0;
  for (auto &c : cnt) { lo = std::min(lo, c.second); hi = std::max(hi, c.second); }
  if (lo != hi) MC_FAIL("samples are not equally likely: between %llu and %llu of %llu answer sequences", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)total);
  E().traces += cnt.size();
}

// large pools: one answer varies over all its classes, the others are fixed; each of the remaining
// indices has to be drawn equally often (judged only where one answer is consumed per index)
static void largePool(bool multi, const std::vector<int> &n, const std::vector<int> &k, int kind, int hist)
{
  std::string key = fmt("large:%s:n=%s:k=%s:pool=%d:hist=%d", multi ? "multi" : "single", joinInts(n).c_str(), joinInts(k).c_str(), kind, hist);
  if (!E().begin(key)) return;
  E().sample(key);
  std::vector<std::vector<int>> pool(n.size());
  for (size_t f = 0; f < n.size(); f++) for (int i = 0; i < n[f]; i++) pool[f].push_back(kind == 0 ? i : 3 * i + 7 + (int)f);
  int total = 0; std::vector<int> rest; for (size_t f = 0; f < n.size(); f++) for (int i = 0; i < k[f]; i++) { rest.push_back(n[f] - i); total++; }
  std::vector<std::set<int>> sets(pool.size()); for (size_t f = 0; f < pool.size(); f++) sets[f].insert(pool[f].begin(), pool[f].end());
  Script sc; auto s = mk(multi, sc, k, true); bool any = false;
  for (int pos = 0; pos < total; pos++)
  {
    long long L = rest[pos]; if (pos > 0 && L * rest[pos - 1] < 40000) L *= rest[pos - 1];
    std::map<std::vector<std::vector<int>>, int> cnt;
    for (long long a = 0; a < L; a++)
    {
      // a fresh start of the object: the list of indices is set again
      if (kind == 0) s->setUniform(n); else s->setIdx(pool);
      s->own(sc); sc.fixedPos = 0; sc.fixedSeq.clear(); sc.drawn = 0; sc.seen.clear(); sc.goodAsked = 0;
      for (int h = 0; h < hist; h++) for (int i = 0; i < total; i++) sc.fixedSeq.push_back((int)((i * 7919ll + h * 104729ll + 12345) * 48271 % 2147483647));
      for (int i = 0; i < total; i++) sc.fixedSeq.push_back(i == pos ? repr(a, (int)L) : (int)((i * 6700417ll + 99991) * 16807 % 2147483647));
      int it = 4; for (int h = 0; h < hist; h++) s->get(it);
      int before = sc.drawn; auto r = s->get(it); E().evaluations++; E().transitions++;
      if (sc.drawn - before != total) { E().counters["large pools drawn otherwise"]++; return; }
      if (it != 4) { MC_FAIL("the iteration counter was changed to %d", it); return; }
      for (size_t f = 0; f < k.size(); f++)
      {
        std::set<int> u; if ((int)r[f].size() != k[f]) { MC_FAIL("sample of the wrong size"); return; }
        for (int x : r[f]) { if (!sets[f].count(x)) { MC_FAIL("%d is not in the pool", x); return; } if (!u.insert(x).second) { MC_FAIL("sample %s repeats an index", show(r).c_str()); return; } }
      }
      cnt[r]++; any = true; E().outcome(mix(hashStr(key), hashStr(show(r))));
    }
    int lo = 1 << 30, hi = 0; for (auto &c : cnt) { lo = std::min(lo, c.second); hi = std::max(hi, c.second); }
    if ((int)cnt.size() != rest[pos]) { MC_FAIL("answer %d selects among %zu indices, %d are left", pos, cnt.size(), rest[pos]); return; }
    if (lo != hi) { MC_FAIL("answer %d: some indices are drawn %d times, others %d times, over all answers", pos, lo, hi); return; }
  }
  if (!any) return;
  if (s->indices() != pool) MC_FAIL("drawing changed the index list");
}

// quality test script, limit on attempts, insufficient pools
static void attempts(bool multi, const std::vector<int> &n, const std::vector<int> &k, int kind)
{
  for (int lim : {10, 1, 3, 0, 12})
  {
    // position of the first good answer (0 = at once); lim or more means never
    for (int first = 0; first <= lim + 1; first++)
      for (int again = 0; again < 2; again++)
      {
        std::string key = fmt("good:%s:n=%s:k=%s:pool=%d:lim=%d:first=%d:again=%d", multi ? "multi" : "single", joinInts(n).c_str(), joinInts(k).c_str(), kind, lim, first, again);
        if (!E().begin(key)) continue;
        auto pool = poolOf(n, kind);
        bool enough = true;
        for (size_t f = 0; f < n.size(); f++) if (n[f] < k[f]) enough = false;
        // the random answers: a rotating sequence, several phases
        for (int phase = 0; phase < 5; phase++)
        {
          Script sc;
          for (int i = 0; i < 2000; i++) sc.fixedSeq.push_back(phase == 4 ? 2147483647 : (int)(((long long)(i + 1) * 1103515245ll * (phase + 1) + phase * 12345) & 0x7fffffff));
          sc.goodness.assign(lim + 2, 0);
          for (size_t i = first; i < sc.goodness.size(); i++) sc.goodness[i] = 1;
          if (first > lim) sc.goodness.assign(1, 0);
          auto s = mk(multi, sc, k, true);
          if (lim != 10) s->checks(lim); // 10 is the documented default
          load(*s, n, kind);
          s->own(sc);
          if (again)
          {
            int it = 1; s->get(it); sc.goodAsked = 0; sc.seen.clear(); // second call on the same object
          }
          int it = 3;
          auto r = s->get(it);
          E().evaluations++; E().transitions += sc.seen.size() + 1;
          E().states.insert(mix(mix(first, lim), mix(enough, sc.seen.size())));
          E().outcome(mix(hashStr(key), hashStr(show(r))));
          if (!enough)
          {
            if (!r.empty()) MC_FAIL("a sample %s from a pool that is too small", show(r).c_str());
            if (it != std::numeric_limits<int>::max()) MC_FAIL("too few indices, but the iteration counter is %d", it);
            if (!sc.seen.empty()) MC_FAIL("samples were tried although the pool is too small");
            continue;
          }
          if (it != 3) MC_FAIL("the iteration counter was changed to %d", it);
          bool expectGood = first < lim;
          if (expectGood)
          {
            if ((int)sc.seen.size() != first + 1) MC_FAIL("%zu candidates were judged, the good one was number %d", sc.seen.size(), first + 1);
            if (!sane(r, pool, k, "accepted")) continue;
            if (!sc.seen.empty() && r != sc.seen.back()) MC_FAIL("returned %s, but the sample that passed the test was %s", show(r).c_str(), show(sc.seen.back()).c_str());
          }
          else
          {
            if (!r.empty()) MC_FAIL("no sample passed the quality test, but %s was returned", show(r).c_str());
            if ((int)sc.seen.size() != lim) MC_FAIL("%zu candidates were tried, the limit is %d", sc.seen.size(), lim);
          }
          for (auto &x : sc.seen) sane(x, pool, k, "candidate");
        }
      }
  }
}

// operation sequences: change of index sets between draws
static void operations(bool multi, int depth)
{
  // 0: draw, 1: uniform A, 2: uniform B (bigger), 3: list A, 4: list B, 5: too small pool, 6: other sample size, 7: empty pool
  const int NOP = 8;
  for (int len = 1; len <= depth; len++)
  {
    std::vector<int> base(len, NOP);
    product(base, [&](const std::vector<int> &ops) {
      bool anyDraw = false; for (int o : ops) anyDraw |= o == 0;
      if (!anyDraw || ops.back() != 0) return;
      std::string key = fmt("ops:%s:%s", multi ? "multi" : "single", joinInts(ops).c_str());
      if (!E().begin(key)) return;
      for (int src = 0; src < 4; src++)
      {
        Script sc;
        for (int i = 0; i < 400; i++) sc.fixedSeq.push_back(src == 3 ? 2147483647 : src == 0 ? 0 : (int)(((long long)(i + 3) * 22695477ll * (src + 2)) & 0x7fffffff));
        std::vector<int> k = multi ? std::vector<int>{2, 1} : std::vector<int>{3};
        std::vector<int> k2 = multi ? std::vector<int>{1, 3} : std::vector<int>{2};
        std::vector<int> nA = multi ? std::vector<int>{4, 3} : std::vector<int>{4}, nB = multi ? std::vector<int>{5, 6} : std::vector<int>{7},
                         nS = multi ? std::vector<int>{3, 0} : std::vector<int>{1}, n0 = multi ? std::vector<int>{0, 0} : std::vector<int>{0};
        auto s = mk(multi, sc, k, true);
        s->setUniform(nA);
        s->own(sc);
        std::vector<std::vector<int>> pool = poolOf(nA, 0);
        std::vector<int> kk = k;
        uint64_t h = hashStr(key);
        for (int o : ops)
        {
          E().transitions++;
          if (o == 0)
          {
            int it = 2; auto r = s->get(it);
            E().evaluations++;
            bool enough = true;
            for (size_t f = 0; f < kk.size(); f++) if ((int)pool[f].size() < kk[f]) enough = false;
            if (!enough) { if (!r.empty() || it != std::numeric_limits<int>::max()) MC_FAIL("pool %s cannot provide a sample, got %s", show(pool).c_str(), show(r).c_str()); }
            else { sane(r, pool, kk, "draw"); if (it != 2) MC_FAIL("iteration counter changed"); }
            h = mix(h, hashStr(show(r)));
          }
          else if (o == 6) { kk = kk == k ? k2 : k; s->sizes(kk); }
          else
          {
            if (o == 1) { s->setUniform(nA); pool = poolOf(nA, 0); }
            if (o == 2) { s->setUniform(nB); pool = poolOf(nB, 0); }
            if (o == 3) { pool = poolOf(nA, 1); s->setIdx(pool); }
            if (o == 4) { pool = poolOf(nB, 3); s->setIdx(pool); }
            if (o == 5) { s->setUniform(nS); pool = poolOf(nS, 0); }
            if (o == 7) { s->setUniform(n0); pool = poolOf(n0, 0); }
          }
          if (s->indices() != pool) { MC_FAIL("after the operations the index list is %s instead of %s", show(s->indices()).c_str(), show(pool).c_str()); break; }
          E().states.insert(mix(hashStr(show(pool)), mix(kk[0], 77)));
        }
        E().outcome(h);
      }
    });
  }
}

// objects built without a random seed behave identically; the default quality test accepts
static void determinism(bool multi, const std::vector<int> &n, const std::vector<int> &k)
{
  std::string key = fmt("seed:%s:n=%s:k=%s", multi ? "multi" : "single", joinInts(n).c_str(), joinInts(k).c_str());
  if (!E().begin(key)) return;
  Script sc;
  std::vector<std::vector<std::vector<std::vector<int>>>> runs;
  auto pool = poolOf(n, 0);
  for (int rep = 0; rep < 4; rep++)
  {
    auto s = mk(multi, sc, k, rep != 1, rep == 3);
    load(*s, n, 0);
    std::vector<std::vector<std::vector<int>>> seq;
    for (int d = 0; d < 40; d++)
    {
      int it = 1; auto r = s->get(it); E().evaluations++; E().transitions++;
      if (!sane(r, pool, k, rep == 3 ? "time seeded draw" : "fixed seed draw")) return;
      if (it != 1) MC_FAIL("iteration counter changed");
      seq.push_back(r);
    }
    if (rep < 3) runs.push_back(seq);
    E().outcome(mix(hashStr(key), rep));
  }
  for (size_t i = 1; i < runs.size(); i++)
    if (runs[i] != runs[0]) MC_FAIL("two objects built without a random seed draw different samples");
  double ways = 1; for (size_t f = 0; f < n.size(); f++) for (int i = 0; i < k[f]; i++) ways *= n[f] - i;
  std::set<std::vector<std::vector<int>>> u(runs[0].begin(), runs[0].end());
  if (ways >= 6 && u.size() < 2) MC_FAIL("40 draws in a row all gave the same sample");
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough;
  for (int kind = 0; kind < 4; kind++)
    for (int hist = 0; hist < 3; hist++)
    {
      for (int n = 1; n <= (T ? 8 : 7); n++)
      {
        double L = lcmUpTo(n);
        for (int k = 1; k <= n; k++)
          if (pow(L, k) <= (T ? 2e7 : 250000)) distribution(false, {n}, {k}, kind, hist);
      }
      for (int a = 1; a <= 4; a++)
        for (int b = 1; b <= 4; b++)
          for (int ka = 0; ka <= a; ka++)
            for (int kb = 0; kb <= b; kb++)
              if (ka + kb > 0 && pow(lcmUpTo(std::max(a, b)), ka + kb) <= (T ? 3e6 : 21000)) distribution(true, {a, b}, {ka, kb}, kind, hist);
      distribution(true, {3, 2, 3}, {1, 1, 1}, kind, hist);
      distribution(true, {2, 3, 1}, {2, 1, 1}, kind, hist);
    }
  for (int kind = 0; kind < (T ? 4 : 2); kind++)
  {
    for (int n = 0; n <= 9; n++)
      for (int k = 1; k <= 8; k++) attempts(false, {n}, {k}, kind);
    for (int a = 0; a <= 4; a++) for (int b = 0; b <= 4; b++)
      for (int ka = 0; ka <= 3; ka++) for (int kb = 0; kb <= 3; kb++)
        if (ka + kb > 0) attempts(true, {a, b}, {ka, kb}, kind);
  }
  for (int kind = 0; kind < 2; kind++) for (int hist = 0; hist < (T ? 4 : 2); hist++)
  {
    for (int n : {9, 16, 33, 64, 100, 128, 257, 500, 1000, 1025}) for (int k : {1, 2, 3, 5, 8, 17}) if (k <= n && (T || (long)n * k <= 2100)) largePool(false, {n}, {k}, kind, hist);
    for (int a : {12, 70, 200}) for (int b : {9, 65, 130}) { largePool(true, {a, b}, {2, 3}, kind, hist); largePool(true, {b, 20, a}, {1, 0, 2}, kind, hist); }
    largePool(true, std::vector<int>(12, 10), {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, kind, hist);
  }
  operations(false, T ? 6 : 5);
  operations(true, T ? 6 : 5);
  for (int n = 1; n <= 30; n++) for (int k = 1; k <= std::min(n, 17); k++) determinism(false, {n}, {k});
  for (int a = 1; a <= 6; a++) for (int b = 1; b <= 6; b++) determinism(true, {a, b, 5}, {a, b / 2, 2});
  return E().finish();
}
