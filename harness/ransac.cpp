// Consensus loops (Ransac, MultiRansac, Lmeds) against a reference model.
//
// The environment of the loop - the sampler, the hypothesis generator and the scores - is a
// scripted problem whose every answer is a choice point.  All answer sequences up to the
// stated depth are enumerated, for every configuration, over sequences of one or two runs of
// the same object.
#include "mc.hpp"
#include <opengv/types.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/Lmeds.hpp>
using namespace mc;

struct Runaway {};

// ---------------------------------------------------------------- scripted environment
struct Hyp { bool ok; std::vector<double> dist; std::vector<std::vector<int>> sample; };
struct Env
{
  Chooser *ch = nullptr;
  int depth = 0;          // free choices
  int tail = 0;           // what happens afterwards: 0 = fail, 1.. = distance pattern tail-1, -1 = empty
  int patterns = 0;
  std::function<std::vector<double>(int)> pattern;
  // per run
  std::vector<Hyp> hyps;  // in order, model id = index
  int samplesAsked = 0, emptied = 0, callbacks = 0, used = 0;
  int limit = 0;
  bool emptyAllowed = true;
  bool stopKind = true;   // sampling impossible (true) or merely without a good sample (false)
  void reset() { hyps.clear(); samplesAsked = emptied = callbacks = 0; }
  void tick() { if (++callbacks > limit) throw Runaway(); }
  int next() // -1 = no sample, 0 = generation fails, 1.. = hypothesis with pattern-1
  {
    if (used < depth)
    {
      used++;
      int n = patterns + 1 + (emptyAllowed ? 1 : 0);
      int c = ch->choose(n);
      // simplest first: patterns, then failure, then no sample
      if (c < patterns) return c + 1;
      if (c == patterns) return 0;
      return -1;
    }
    return tail;
  }
  int pendingEvent = 0;
};

static int sampleSerial;
static std::vector<std::vector<int>> makeSample(const std::vector<int> &sizes)
{
  std::vector<std::vector<int>> s(sizes.size());
  for (size_t f = 0; f < sizes.size(); f++)
    for (int i = 0; i < sizes[f]; i++) s[f].push_back(1000 + sampleSerial++);
  return s;
}

template <class Base> struct SingleProblem : Base
{
  Env &env; int sampleSize;
  SingleProblem(Env &e, int ss) : Base(false), env(e), sampleSize(ss) {}
  void getSamples(int &iterations, std::vector<int> &samples) override
  {
    env.tick(); env.samplesAsked++;
    env.pendingEvent = env.next();
    if (env.pendingEvent == -1)
    {
      env.emptied++; samples.clear(); if (env.stopKind) iterations = std::numeric_limits<int>::max(); return;
    }
    samples = makeSample({sampleSize})[0];
  }
  int getSampleSize() const override { return sampleSize; }
  bool computeModelCoefficients(const std::vector<int> &idx, int &m) const override
  {
    env.tick();
    if (env.pendingEvent == 0) { m = -777; return false; }
    m = (int)env.hyps.size();
    env.hyps.push_back({true, env.pattern(env.pendingEvent - 1), {idx}});
    return true;
  }
  void optimizeModelCoefficients(const std::vector<int> &, const int &a, int &b) override { b = a; }
  void getSelectedDistancesToModel(const int &m, const std::vector<int> &idx, std::vector<double> &sc) const override
  {
    env.tick();
    if (m < 0 || m >= (int)env.hyps.size()) { for (size_t i = 0; i < idx.size(); i++) sc.push_back(1e9); return; }
    const std::vector<double> &d = env.hyps[m].dist;
    const std::vector<int> &all = *this->indices_;
    if (idx == all && d.size() == all.size()) { sc.insert(sc.end(), d.begin(), d.end()); return; }
    for (int x : idx)
      for (size_t i = 0; i < all.size(); i++) if (all[i] == x && i < d.size()) sc.push_back(d[i]);
  }
};
struct MultiProblem : opengv::sac::MultiSampleConsensusProblem<int>
{
  Env &env; std::vector<int> sizes;
  MultiProblem(Env &e, std::vector<int> s) : opengv::sac::MultiSampleConsensusProblem<int>(false), env(e), sizes(s) {}
  void getSamples(int &iterations, std::vector<std::vector<int>> &samples) override
  {
    env.tick(); env.samplesAsked++;
    env.pendingEvent = env.next();
    if (env.pendingEvent == -1) { env.emptied++; samples.clear(); if (env.stopKind) iterations = std::numeric_limits<int>::max(); return; }
    samples = makeSample(sizes);
  }
  std::vector<int> getSampleSizes() const override { return sizes; }
  bool computeModelCoefficients(const std::vector<std::vector<int>> &idx, int &m) const override
  {
    env.tick();
    if (env.pendingEvent == 0) { m = -777; return false; }
    m = (int)env.hyps.size();
    env.hyps.push_back({true, env.pattern(env.pendingEvent - 1), idx});
    return true;
  }
  void optimizeModelCoefficients(const std::vector<std::vector<int>> &, const int &a, int &b) override { b = a; }
  void getSelectedDistancesToModel(const int &m, const std::vector<std::vector<int>> &idx, std::vector<std::vector<double>> &sc) const override
  {
    env.tick();
    sc.resize(idx.size());
    if (idx == *indices_ && m >= 0 && m < (int)env.hyps.size())
    {
      size_t flat = 0;
      for (size_t f = 0; f < idx.size(); f++) for (size_t i = 0; i < idx[f].size(); i++) sc[f].push_back(env.hyps[m].dist[flat++]);
      return;
    }
    for (size_t f = 0; f < idx.size(); f++)
      for (int x : idx[f])
      {
        double v = 1e9;
        if (m >= 0 && m < (int)env.hyps.size())
        {
          size_t flat = 0;
          for (size_t g = 0; g < indices_->size(); g++)
            for (size_t i = 0; i < (*indices_)[g].size(); i++, flat++)
              if (g == f && (*indices_)[g][i] == x) v = env.hyps[m].dist[flat];
        }
        sc[f].push_back(v);
      }
  }
};

// ------------------------------------------------------------------------ reference model
struct Cfg
{
  bool multi; std::vector<int> shape;   // correspondences per frame (one entry if not multi)
  std::vector<int> sizes;               // sample sizes per frame
  int maxIt; double prob, thr; int depth, tail, verb, runs;
};
static std::vector<std::vector<int>> indexSet(const Cfg &c)
{
  static const int val[] = {7, 2, 9, 4, 11, 3, 8, 21, 15, 6, 30, 5};
  std::vector<std::vector<int>> r(c.shape.size());
  int k = 0, N = 0; for (int x : c.shape) N += x;
  if (N > 12) { for (size_t f = 0; f < c.shape.size(); f++) for (int i = 0; i < c.shape[f]; i++, k++) r[f].push_back((k * 7919 + 5) % 10007); return r; }
  for (size_t f = 0; f < c.shape.size(); f++) for (int i = 0; i < c.shape[f]; i++) r[f].push_back(val[k++]);
  return r;
}
static int inl(const std::vector<double> &d, double thr) { int n = 0; for (double x : d) if (x < thr) n++; return n; }
static double kOf(int best, int N, int sample, double p)
{
  double w = double(best) / double(N);
  double q = 1.0 - std::pow(w, double(sample));
  q = std::max(std::numeric_limits<double>::epsilon(), q);
  q = std::min(1.0 - std::numeric_limits<double>::epsilon(), q);
  return std::log(1.0 - p) / std::log(q);
}

// distances of hypothesis pattern p over N correspondences: p is a bit mask of inliers; the
// others sit exactly on the threshold, just above it, far away, or are not a number
// (more than five correspondences: one pattern per inlier count, rotated)
// (many correspondences: a few inlier counts)
static int patternsOf(int N) { return N <= 5 ? 1 << N : N <= 12 ? N + 1 : 7; }
static std::vector<double> maskPattern(int p, int N, double thr)
{
  if (N > 12)
  {
    const int cnt[7] = {0, 1, N / 10, N / 3, N / 2 + 1, N - 1, N};
    std::vector<double> d(N); int step = N % 7 ? 7 : 11; if (N % step == 0) step = 1;
    const double outs[4] = {thr, thr * 1.0000001, 1e6, std::numeric_limits<double>::quiet_NaN()}, ins[3] = {0.0, thr * 0.9999999, thr * 0.5};
    for (int i = 0; i < N; i++) d[(int)(((long)i * step + 3 * p) % N)] = i < cnt[p] ? ins[i % 3] : outs[(i + p) % 4];
    return d;
  }
  if (N > 5)
  {
    int m = 0;
    for (int i = 0; i < p; i++) m |= 1 << ((i + 3 * p) % N);
    p = m;
  }
  std::vector<double> d(N);
  const double outs[4] = {thr, thr * 1.0000001, 1e6, std::numeric_limits<double>::quiet_NaN()};
  const double ins[3] = {0.0, thr * 0.9999999, thr * 0.5};
  for (int i = 0; i < N; i++) d[i] = (p >> i & 1) ? ins[(i + p) % 3] : outs[(i + p) % 4];
  return d;
}

struct Run { bool ret; int iterations; std::vector<std::vector<int>> model, inliers; int coeff; bool runaway; };

template <class R, class F> static Run doRun(R &r, int verb, F get)
{
  Run o; o.runaway = false; o.ret = false;
  try { o.ret = r.computeModel(verb); } catch (Runaway &) { o.runaway = true; }
  o.iterations = r.iterations_; o.coeff = r.model_coefficients_;
  get(o);
  return o;
}

static void checkRansac(const std::string &what, const Cfg &c, uint64_t cfgHash)
{
  int N = 0; for (int s : c.shape) N += s;
  int S = 0; for (int s : c.sizes) S += s;
  std::vector<std::vector<int>> idx = indexSet(c);
  enumerate([&](Chooser &ch) {
    E().evaluations++;
    sampleSerial = 0;
    Env env;
    env.ch = &ch; env.depth = c.depth; env.tail = c.tail; env.stopKind = c.maxIt % 2; env.patterns = patternsOf(N);
    env.pattern = [&](int p) { return maskPattern(p, N, c.thr); };
    std::unique_ptr<opengv::sac::Ransac<SingleProblem<opengv::sac::SampleConsensusProblem<int>>>> rs;
    std::unique_ptr<opengv::sac::MultiRansac<MultiProblem>> rm;
    if (c.multi)
    {
      rm.reset(new opengv::sac::MultiRansac<MultiProblem>(c.maxIt, c.thr, c.prob));
      rm->sac_model_.reset(new MultiProblem(env, c.sizes));
      rm->sac_model_->setIndices(idx);
    }
    else
    {
      rs.reset(new opengv::sac::Ransac<SingleProblem<opengv::sac::SampleConsensusProblem<int>>>(c.maxIt, c.thr, c.prob));
      rs->sac_model_.reset(new SingleProblem<opengv::sac::SampleConsensusProblem<int>>(env, c.sizes[0]));
      rs->sac_model_->setIndices(idx[0]);
    }
    for (int run = 0; run < c.runs; run++)
    {
      int usedBefore = env.used;
      env.reset();
      env.depth = usedBefore + c.depth;
      env.limit = 40 * c.maxIt + 400;
      Run o = c.multi
          ? doRun(*rm, c.verb, [&](Run &x) { x.model = rm->model_; x.inliers = rm->inliers_; })
          : doRun(*rs, c.verb, [&](Run &x) { x.model.clear(); if (!rs->model_.empty()) x.model = {rs->model_}; x.inliers = {rs->inliers_}; });
      E().traces++;
      std::string at = fmt("run %d, answers %s", run, ch.str().c_str());
      if (o.runaway) { MC_FAIL("the loop does not stop: %s", at.c_str()); return; }
      // reference
      int best = -1, bestCount = -1;
      for (size_t h = 0; h < env.hyps.size(); h++)
      {
        int n = inl(env.hyps[h].dist, c.thr);
        if (n > bestCount) { bestCount = n; best = (int)h; }
        E().states.insert(mix(mix(cfgHash, h * 64 + bestCount + 1), mix(best, env.samplesAsked - (int)env.hyps.size())));
        E().transitions++;
      }
      E().transitions += env.samplesAsked;
      E().outcome(mix(mix(cfgHash, hashInts(ch.got)), run));
      if (what == "result")
      {
        bool expect = best >= 0;
        if (o.ret != expect) { MC_FAIL("%s: success flag %d but %zu hypotheses were found in this run", at.c_str(), o.ret, env.hyps.size()); return; }
        std::vector<std::vector<int>> in(idx.size());
        size_t flat = 0;
        for (size_t f = 0; f < idx.size(); f++)
          for (int x : idx[f]) { if (best >= 0 && env.hyps[best].dist[flat] < c.thr) in[f].push_back(x); flat++; }
        if (!expect)
        {
          for (auto &v : o.inliers) if (!v.empty()) { MC_FAIL("%s: no hypothesis but %zu inliers reported", at.c_str(), v.size()); return; }
          continue;
        }
        if (o.coeff != best) { MC_FAIL("%s: returned hypothesis %d, expected %d (most inliers, earliest)", at.c_str(), o.coeff, best); return; }
        if (o.model != env.hyps[best].sample) { MC_FAIL("%s: reported sample does not belong to the returned hypothesis", at.c_str()); return; }
        if (o.inliers != in)
        {
          std::string s; for (auto &v : o.inliers) s += "[" + joinInts(v) + "]";
          MC_FAIL("%s: inliers %s are not those within the threshold of the returned hypothesis", at.c_str(), s.c_str()); return;
        }
      }
      else
      {
        // stopping rule
        int H = (int)env.hyps.size(), skips = env.samplesAsked - env.emptied - H;
        if (H > std::max(0, c.maxIt)) { MC_FAIL("%s: %d hypotheses evaluated, maximum is %d", at.c_str(), H, c.maxIt); return; }
        if (skips > 10 * std::max(0, c.maxIt)) { MC_FAIL("%s: %d failed hypotheses tolerated, maximum is %d", at.c_str(), skips, 10 * c.maxIt); return; }
        // replay the adaptive rule over what was observed
        double k = 1.0; int b = -1; bool ambiguous = false; bool early = false; int h = 0;
        // how many hypotheses does the rule require?
        for (h = 0; h < H; h++)
        {
          if (!(h < k)) { early = true; break; }
          int n = inl(env.hyps[h].dist, c.thr);
          if (n > b) { b = n; k = kOf(b, N, S, c.prob); }
          if (std::isfinite(k) && k < 1e6 && std::fabs(k - std::round(k)) < 1e-7) ambiguous = true;
        }
        if (ambiguous) { E().counters["ambiguous_k"]++; }
        else
        {
          if (early) { MC_FAIL("%s: %d hypotheses evaluated although %d reach the requested confidence", at.c_str(), H, h); return; }
          bool mayStop = !(H < k) || H >= c.maxIt || skips >= 10 * c.maxIt || env.emptied > 0;
          if (!mayStop) { MC_FAIL("%s: stopped after %d hypotheses and %d failures, confidence needs %g", at.c_str(), H, skips, k); return; }
        }
        if (env.emptied > 1) { MC_FAIL("%s: asked again after sampling was impossible", at.c_str()); return; }
        if (!env.emptied && o.iterations != H) { MC_FAIL("%s: reports %d iterations, %d hypotheses were evaluated", at.c_str(), o.iterations, H); return; }
      }
    }
  });
}

static void checkLmeds(const Cfg &c, int levels, uint64_t cfgHash)
{
  int N = c.shape[0];
  std::vector<int> idx = indexSet(c)[0];
  int np = 1; if (N > 5) np = 8; else for (int i = 0; i < N; i++) np *= levels;
  // distance alphabet: negative values are legal and clip to zero in the penalty
  const double val[4] = {0.5, c.thr, 2.0, -0.25};
  enumerate([&](Chooser &ch) {
    E().evaluations++;
    sampleSerial = 0;
    Env env;
    env.ch = &ch; env.tail = c.tail; env.stopKind = c.maxIt % 2; env.patterns = np + 1;
    env.pattern = [&](int p) {
      std::vector<double> d;
      if (p == np) return d;  // scores not available for this hypothesis
      if (N > 5)
      {
        // many scores: shuffled distinct values, the middle moved by one place, two groups of nearly half the size, ties, negative ones
        int step = N % 7 ? 7 : N % 11 ? 11 : 1;
        for (int i = 0; i < N; i++)
        {
          int r = (int)(((long)i * step + 13 * p + 2) % N); double v = 0.25 + 2.0 * r / N;
          if (p == 2) v = r < N / 2 ? 0.1 : 50; if (p == 3) v = r < N / 2 + 1 ? 0.7 : 50; if (p == 4) v = r < N / 2 - 1 ? 0.01 : 3;
          if (p == 5) v = 1; if (p == 6) v -= 1.25; if (p == 7) v = r == N / 2 ? 0.9 : r < N / 2 ? 0.3 : 4;
          if (p == 1) v += 1.0 / N;
          d.push_back(v);
        }
        return d;
      }
      for (int i = 0; i < N; i++) { d.push_back(val[p % levels]); p /= levels; }
      return d;
    };
    opengv::sac::Lmeds<SingleProblem<opengv::sac::SampleConsensusProblem<int>>> r(c.maxIt, c.thr, c.prob);
    r.sac_model_.reset(new SingleProblem<opengv::sac::SampleConsensusProblem<int>>(env, c.sizes[0]));
    r.sac_model_->setIndices(idx);
    for (int run = 0; run < c.runs; run++)
    {
      int usedBefore = env.used;
      env.reset();
      env.depth = usedBefore + c.depth;
      env.limit = 60 * c.maxIt + 400;
      Run o = doRun(r, c.verb, [&](Run &x) { x.model.clear(); if (!r.model_.empty()) x.model = {r.model_}; x.inliers = {r.inliers_}; });
      E().traces++;
      std::string at = fmt("run %d, answers %s", run, ch.str().c_str());
      if (o.runaway) { MC_FAIL("the loop does not stop: %s", at.c_str()); return; }
      int best = -1; double bestPen = 1e300; int scored = 0;
      for (size_t h = 0; h < env.hyps.size(); h++)
      {
        std::vector<double> d = env.hyps[h].dist;
        if (d.empty()) continue;
        scored++;
        for (double &x : d) { x = x < 0 ? 0 : x * x; }
        std::sort(d.begin(), d.end());
        double pen = N % 2 ? d[N / 2] : (d[N / 2 - 1] + d[N / 2]) / 2;
        if (pen < bestPen) { bestPen = pen; best = (int)h; }
        E().states.insert(mix(mix(cfgHash, h), mix((uint64_t)(bestPen * 1024), best)));
        E().transitions++;
      }
      E().transitions += env.samplesAsked;
      E().outcome(mix(mix(cfgHash, hashInts(ch.got)), run));
      if (o.ret != (best >= 0)) { MC_FAIL("%s: success flag %d but %d scored hypotheses", at.c_str(), o.ret, scored); return; }
      int skips = env.samplesAsked - env.emptied - scored;
      if (scored > c.maxIt) { MC_FAIL("%s: %d hypotheses scored, maximum is %d", at.c_str(), scored, c.maxIt); return; }
      if (skips > 10 * c.maxIt) { MC_FAIL("%s: %d failures tolerated, maximum %d", at.c_str(), skips, 10 * c.maxIt); return; }
      if (!(scored >= c.maxIt || skips >= 10 * c.maxIt || env.emptied)) { MC_FAIL("%s: gave up after %d hypotheses and %d failures", at.c_str(), scored, skips); return; }
      if (env.emptied > 1) { MC_FAIL("%s: asked again after sampling was impossible", at.c_str()); return; }
      if (best < 0)
      {
        if (!o.inliers[0].empty()) { MC_FAIL("%s: no hypothesis but %zu inliers reported", at.c_str(), o.inliers[0].size()); return; }
        continue;
      }
      if (o.coeff != best) { MC_FAIL("%s: returned hypothesis %d, expected %d (least median, earliest)", at.c_str(), o.coeff, best); return; }
      if (o.model != env.hyps[best].sample) { MC_FAIL("%s: reported sample does not belong to the returned hypothesis", at.c_str()); return; }
      std::vector<int> in;
      for (int i = 0; i < N; i++) if (env.hyps[best].dist[i] <= c.thr) in.push_back(idx[i]);
      if (o.inliers[0] != in) { MC_FAIL("%s: inliers [%s] expected [%s]", at.c_str(), joinInts(o.inliers[0]).c_str(), joinInts(in).c_str()); return; }
    }
  });
}

static void go(const std::string &what, const Cfg &c, int levels = 0)
{
  std::string key = fmt("%s;multi=%d;shape=%s;sizes=%s;max=%d;p=%g;thr=%g;depth=%d;tail=%d;verb=%d;runs=%d;lv=%d", what.c_str(), c.multi,
      joinInts(c.shape).c_str(), joinInts(c.sizes).c_str(), c.maxIt, c.prob, c.thr, c.depth, c.tail, c.verb, c.runs, levels);
  if (!E().begin(key)) return;
  uint64_t h = hashStr(key);
  E().sample(key);
  if (what == "lmeds") checkLmeds(c, levels, h); else checkRansac(what, c, h);
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  std::string what;
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  bool T = E().thorough;
  if (what == "lmeds")
  {
    for (int N : {1, 2, 3, 4, 5})
      for (int levels : {2, 4})
        for (int maxIt : {0, 1, 2, 3, 7})
          for (int runs : {1, 2})
            for (int tail : {-1, 0, 1, 2})
              for (double thr : {1.0, 0.5, 0.0})
              {
                double np = std::pow(levels, N) + 3;
                int depth = 0; double cost = 1;
                double cap = T ? 400000 : 30000;
                while (depth < 5 && std::pow(cost * np, runs) <= cap) { cost *= np; depth++; }
                if (depth == 0) continue;
                go("lmeds", {false, {N}, {1 + N % 3}, maxIt, 0.99, thr, depth, tail, (N + maxIt + runs) % 3, runs}, levels);
              }
    for (int N : {6, 7, 8, 9, 15, 16, 17, 32, 33, 50, 51, 100, 101, 256, 257, 1000, 1001}) for (int maxIt : {1, 2, 3, 20}) for (int runs : {1, 2}) for (int tail = -1; tail < 9; tail++)
      go("lmeds", {false, {N}, {1 + N % 3}, maxIt, 0.99, 1.0, runs == 1 ? (T ? 3 : 2) : 1, tail, 0, runs}, 2);
    if (E().begin("lmeds;nothreshold"))
    {
      Env env; Chooser ch; env.ch = &ch; env.tail = 1; env.patterns = 1; env.limit = 1000; env.pattern = [](int) { return std::vector<double>{1, 2, 3}; };
      opengv::sac::Lmeds<SingleProblem<opengv::sac::SampleConsensusProblem<int>>> r(5, std::numeric_limits<double>::max());
      r.sac_model_.reset(new SingleProblem<opengv::sac::SampleConsensusProblem<int>>(env, 1));
      r.sac_model_->setUniformIndices(3);
      if (r.computeModel()) MC_FAIL("succeeds although no threshold was set");
    }
    return E().finish();
  }
  struct Sh { bool multi; std::vector<int> shape, sizes; };
  std::vector<Sh> shapes = {{false, {1}, {1}}, {false, {2}, {1}}, {false, {3}, {2}}, {false, {3}, {5}}, {false, {4}, {3}}, {false, {2}, {8}}, {false, {5}, {1}},
      {true, {2}, {1}}, {true, {1, 2}, {1, 1}}, {true, {2, 1}, {0, 2}}, {true, {0, 3}, {0, 2}}, {true, {1, 0, 2}, {1, 0, 0}}, {true, {2, 2}, {1, 2}}, {true, {1, 1, 1, 1}, {1, 1, 1, 1}},
      {false, {9}, {4}}, {false, {12}, {8}}, {false, {12}, {2}}, {true, {4, 5}, {2, 3}}, {true, {3, 0, 5, 4}, {2, 2, 2, 2}}, {true, {6, 6}, {0, 6}}};
  // many correspondences and iterations
  std::vector<Sh> large = {{false, {20}, {3}}, {false, {64}, {5}}, {false, {100}, {3}}, {false, {257}, {8}}, {false, {1000}, {2}}, {false, {300}, {17}},
      {true, {40, 60}, {2, 3}}, {true, {33, 0, 129, 70}, {2, 2, 2, 2}}, {true, {300, 20}, {0, 6}}, {true, {9, 9, 9, 9, 9, 9, 9, 9, 9, 9}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}};
  for (auto &s : large) for (double prob : {0.99, 0.5, 0.999}) for (int maxIt : {1, 5, 50, 200, 1000, 5000}) for (int runs : {1, 2}) for (int tail = -1; tail < 7; tail++)
  {
    bool big = maxIt > 200; if (!T && big && (prob != 0.99 || runs == 2 || maxIt == 5000)) continue;
    go(what, {s.multi, s.shape, s.sizes, maxIt, prob, 1.0, (big ? 1 : 2) + (T ? 1 : 0) - (runs - 1), tail, 0, runs});
  }
  for (auto &s : shapes)
    for (double prob : {0.99, 0.5, 0.9, 0.999999, 0.0, 1.0})
      for (int maxIt : {0, 1, 2, 3, 4, 6, 40})
        for (double thr : {1.0, 1e-6})
          for (int runs : {1, 2})
            for (int tail : {-1, 0, 1, 2})
            {
              int N = 0; for (int x : s.shape) N += x;
              double np = patternsOf(N) + 2;
              int depth = 0; double cost = 1;
              double cap = T ? 300000 : (what == "result" ? 9000 : 9000);
              while (depth < 7 && std::pow(cost * np, runs) <= cap) { cost *= np; depth++; }
              if (depth == 0) depth = 1;
              if (thr < 1 && (prob != 0.99)) continue;
              go(what, {s.multi, s.shape, s.sizes, maxIt, prob, thr, depth, tail, (maxIt + runs + N) % 3, runs});
            }
  return E().finish();
}
