// The real sample-consensus problems: sample sizes, scores, hypotheses, complete runs.
#include "sacdata.hpp"
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/Lmeds.hpp>
using namespace mc;
using namespace sd;

// the C library's generator is replaced: the library under test uses it to choose start cameras
static std::vector<int> randScript; static size_t randPos; static int randCalls; static int randDefault = 0;
extern "C" int rand(void) noexcept
{
  randCalls++;
  if (randPos < randScript.size()) return randScript[randPos++];
  return randDefault;
}
static void script(std::vector<int> v, int def) { randScript = v; randPos = 0; randDefault = def; randCalls = 0; }

// ------------------------------------------------------------------ sample sizes (P05)
typedef std::function<std::vector<int>()> SizesFn;
struct MultiSubject { std::string name; int total; SizesFn sizes; std::function<std::vector<std::vector<int>>(int &)> draw; std::shared_ptr<void> keep; };
template <class P> static MultiSubject msub(const std::string &n, int total, std::shared_ptr<P> p, std::shared_ptr<void> keep)
{
  MultiSubject s; s.name = n; s.total = total; P *q = p.get();
  s.sizes = [q] { return q->getSampleSizes(); };
  s.draw = [q](int &it) { std::vector<std::vector<int>> v; q->getSamples(it, v); return v; };
  struct K { std::shared_ptr<P> p; std::shared_ptr<void> k; };
  s.keep = std::shared_ptr<void>(new K{p, keep});
  return s;
}
struct Adapters
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  std::shared_ptr<MultiScene> s;
  absolute_pose::NoncentralAbsoluteMultiAdapter abs; relative_pose::NoncentralRelativeMultiAdapter rel; relative_pose::CentralRelativeMultiAdapter cen;
  Adapters(std::shared_ptr<MultiScene> m) : s(m), abs(m->f, m->pts, m->off, m->rot), rel(m->f1, m->f2, m->off, m->rot), cen(m->f1, m->f2) {}
};
static std::vector<MultiSubject> multiSubjects(std::shared_ptr<MultiScene> m, bool given)
{
  std::vector<MultiSubject> v;
  auto a = std::shared_ptr<Adapters>(new Adapters(m));
  auto idx = m->all();
  typedef sr::MultiNoncentralRelativePoseSacProblem MR; typedef sa::MultiNoncentralAbsolutePoseSacProblem MA; typedef sr::MultiCentralRelativePoseSacProblem MC;
  for (int c = 0; c < 2; c++)
    v.push_back(msub(fmt("abs%d", c), 4, given ? std::shared_ptr<MA>(new MA(a->abs, idx, c)) : std::shared_ptr<MA>(new MA(a->abs, (bool)c)), a));
  const MR::algorithm_t alg[3] = {MR::SEVENTEENPT, MR::GE, MR::SIXPT}; const int tot[3] = {17, 8, 9};
  for (int c = 0; c < 2; c++)
    for (int k = 0; k < 3; k++)
      v.push_back(msub(fmt("rel%d.%d", c, k), c ? 8 : tot[k], given ? std::shared_ptr<MR>(new MR(a->rel, alg[k], idx, c, false)) : std::shared_ptr<MR>(new MR(a->rel, alg[k], c, false)), a));
  return v;
}
static void allocCase(const std::vector<int> &shape, int given)
{
  std::string key = fmt("alloc:shape=%s:given=%d", joinInts(shape).c_str(), given);
  if (!E().begin(key)) return;
  int N = shape.size();
  auto m = multiScene(shape, 4, rotations40()[5], V3(0.3, 1, -0.5), 3, 0);
  script({}, 0);
  // answers of the generator: extremes, every camera boundary +-1, and one value per residue/fraction class
  std::set<int> vals = {0, 1, 2, RAND_MAX, RAND_MAX - 1, RAND_MAX / 2};
  for (int i = 1; i < N; i++)
    for (int d = -1; d <= 1; d++) vals.insert((int)(((long long)i * 2147483648ll + N - 1) / N + d));
  std::vector<int> cls;
  for (int j = 0; j < N; j++) { long long b = ((long long)j * 2147483648ll / N + N - 1) / N * N; if (b + j > 2147483647ll) b -= N; cls.push_back((int)(b + j)); vals.insert((int)(b + j)); }
  for (auto &s : multiSubjects(m, given))
  {
    std::vector<std::vector<int>> per;
    for (int x : vals)
    {
      script({x}, x);
      std::vector<int> k = s.sizes();
      E().evaluations++; E().transitions++;
      if ((int)k.size() != N) { MC_FAIL("%s: sample sizes for %zu cameras instead of %d (rand=%d)", s.name.c_str(), k.size(), N, x); break; }
      int sum = 0, lo = 1 << 30, hi = 0;
      for (int y : k) { sum += y; lo = std::min(lo, y); hi = std::max(hi, y); }
      if (sum != s.total) { MC_FAIL("%s: sample sizes %s add up to %d instead of %d", s.name.c_str(), joinInts(k).c_str(), sum, s.total); break; }
      if (hi - lo > 1) { MC_FAIL("%s: sample sizes %s are not spread evenly", s.name.c_str(), joinInts(k).c_str()); break; }
      E().states.insert(mix(hashInts(k), hashStr(s.name)));
      E().outcome(mix(mix(hashStr(key), hashStr(s.name)), hashInts(k)));
    }
    // every camera gets the same share over the classes of answers
    std::vector<int> share(N, 0); bool called = true;
    for (int x : cls) { script({x}, x); std::vector<int> k = s.sizes(); if (!randCalls) called = false; if ((int)k.size() == N) for (int c = 0; c < N; c++) share[c] += k[c]; }
    E().traces++;
    if (called) { for (int c = 0; c < N; c++) if (share[c] != s.total) { MC_FAIL("%s: over all start cameras camera %d gets %d sample points, camera shares should all be %d", s.name.c_str(), c, share[c], s.total); break; } }
    else E().counters["start camera not from rand()"]++;
    // many draws in a row: the cameras with one more sample point change, whatever random source is used
    if (s.total % N && N <= 20)
    {
      const int D = 400; std::vector<int> more(N, 0); double p = (double)(s.total % N) / N; unsigned x = 12345u + N;
      for (int i = 0; i < D; i++) { x += 2654435769u; script({(int)(x >> 1)}, (int)(x >> 1)); std::vector<int> k = s.sizes(); E().evaluations++; if ((int)k.size() == N) for (int c = 0; c < N; c++) more[c] += k[c] > s.total / N; }
      for (int c = 0; c < N; c++) if (std::fabs(more[c] - D * p) > 6 * std::sqrt(D * p * (1 - p)) + 1) { MC_FAIL("%s: camera %d of %d gets the larger share in %d of %d draws", s.name.c_str(), c, N, more[c], D); break; }
    }
    // complete draws: the sample has those sizes and valid, distinct indices
    bool enough = true;
    for (int c : shape) if (c < (s.total + N - 1) / N) enough = false;
    for (int x : cls)
    {
      script({}, x);
      int it = 0; auto d = s.draw(it);
      E().evaluations++;
      if (d.empty()) { if (enough) MC_FAIL("%s: no sample although every camera has enough correspondences", s.name.c_str()); continue; }
      int sum = 0;
      for (size_t f = 0; f < d.size(); f++)
      {
        std::set<int> u(d[f].begin(), d[f].end()); sum += d[f].size();
        if (u.size() != d[f].size()) MC_FAIL("%s: repeated index in a sample", s.name.c_str());
        for (int y : d[f]) if (y < 0 || y >= shape[f]) MC_FAIL("%s: index %d of camera %zu does not exist", s.name.c_str(), y, f);
      }
      if (sum != s.total) MC_FAIL("%s: a sample with %d correspondences instead of %d", s.name.c_str(), sum, s.total);
    }
  }
  // fixed size per pair
  auto a = std::shared_ptr<Adapters>(new Adapters(m));
  for (int ss : {5, 8, 9, 1})
  {
    sr::MultiCentralRelativePoseSacProblem p1(a->cen, ss, false), p2(a->cen, m->all(), ss, false);
    for (auto *p : {&p1, &p2})
      if (p->getSampleSizes() != std::vector<int>(N, ss)) MC_FAIL("per-pair sample sizes %s instead of %d each", joinInts(p->getSampleSizes()).c_str(), ss);
    if (*p1.getIndices() != m->all() || *p2.getIndices() != m->all()) MC_FAIL("multi central problem is not built over all correspondences");
  }
  E().sample(key);
}
static void singleSizes()
{
  if (!E().begin("alloc:single")) return;
  auto as = absScene(12, 0, rotations40()[4], V3(1, 2, 3), 1, 1);
  auto rs = relScene(20, 3, rotations40()[4], V3(0.5, 0.2, -0.4), 1, 0);
  auto rc = relScene(20, 0, rotations40()[4], V3(0.5, 0.2, -0.4), 1, 0);
  auto aa = as->adapter(); auto ra = rs->adapter(), ca = rc->adapter();
  typedef sa::AbsolutePoseSacProblem A; typedef sr::CentralRelativePoseSacProblem C; typedef sr::NoncentralRelativePoseSacProblem N;
  auto expect = [&](const char *n, int got, int want) { E().evaluations++; E().transitions++; E().traces++; E().states.insert(hashStr(n)); E().outcome(hashStr(n));
    if (got != want) MC_FAIL("%s: sample size %d instead of %d", n, got, want); };
  for (int g = 0; g < 2; g++)
  {
    std::vector<int> ix = {3, 9, 1, 0, 7, 11, 10};
    auto mkA = [&](A::algorithm_t al) { return g ? std::unique_ptr<A>(new A(*aa, al, ix, false)) : std::unique_ptr<A>(new A(*aa, al, false)); };
    expect("abs TWOPT", mkA(A::TWOPT)->getSampleSize(), 2); expect("abs KNEIP", mkA(A::KNEIP)->getSampleSize(), 4); expect("abs GAO", mkA(A::GAO)->getSampleSize(), 4);
    expect("abs EPNP", mkA(A::EPNP)->getSampleSize(), 6); expect("abs GP3P", mkA(A::GP3P)->getSampleSize(), 4);
    auto mkC = [&](C::algorithm_t al) { return g ? std::unique_ptr<C>(new C(*ca, al, ix, false)) : std::unique_ptr<C>(new C(*ca, al, false)); };
    expect("rel STEWENIUS", mkC(C::STEWENIUS)->getSampleSize(), 8); expect("rel NISTER", mkC(C::NISTER)->getSampleSize(), 8);
    expect("rel SEVENPT", mkC(C::SEVENPT)->getSampleSize(), 9); expect("rel EIGHTPT", mkC(C::EIGHTPT)->getSampleSize(), 9);
    for (int c = 0; c < 2; c++)
    {
      auto mkN = [&](N::algorithm_t al) { return g ? std::unique_ptr<N>(new N(*ra, al, ix, c, false)) : std::unique_ptr<N>(new N(*ra, al, c, false)); };
      expect(c ? "noncentral as central 17" : "noncentral SEVENTEENPT", mkN(N::SEVENTEENPT)->getSampleSize(), c ? 8 : 17);
      expect(c ? "noncentral as central ge" : "noncentral GE", mkN(N::GE)->getSampleSize(), 8);
      expect(c ? "noncentral as central six" : "noncentral SIXPT", mkN(N::SIXPT)->getSampleSize(), c ? 8 : 9);
    }
    for (int ss : {5, 10, 17}) expect("eigensolver", g ? sr::EigensolverSacProblem(*ca, ss, ix, false).getSampleSize() : sr::EigensolverSacProblem(*ca, ss, false).getSampleSize(), ss);
    expect("rotation only", g ? sr::RotationOnlySacProblem(*ca, ix, false).getSampleSize() : sr::RotationOnlySacProblem(*ca, false).getSampleSize(), 2);
    expect("translation only", g ? sr::TranslationOnlySacProblem(*ca, ix, false).getSampleSize() : sr::TranslationOnlySacProblem(*ca, false).getSampleSize(), 2);
    point_cloud::PointCloudAdapter pc(rc->pts, rs->pts);
    expect("point cloud", g ? sp::PointCloudSacProblem(pc, ix, false).getSampleSize() : sp::PointCloudSacProblem(pc, false).getSampleSize(), 3);
  }
}

// ------------------------------------------------------------------ scores (P09)
static double tolFor(double det) { return 1e-12 + 1e-13 / std::max(det * det, 1e-300); }
// models around the truth: 0 truth, then perturbed, translation reversed / zero-ish, unrelated
static transformation_t model(const M3 &R, const V3 &t, int k)
{
  switch (k)
  {
    case 0: return mkT(R, t);
    case 1: return mkT(R * smallRot(1, 0.01), t + V3(0.01, -0.02, 0.015));
    case 2: return mkT(R * smallRot(23, 0.2), t + V3(0.4, 0.3, -0.6));
    case 3: return mkT(R, -t);
    case 4: return mkT(rotations192()[37] * R, V3(-1.2, 0.4, 2.0));
    default: return mkT(rotations40()[12], V3(0.1, 0.05, -0.02));
  }
}
const int NMODEL = 6;
// index lists into a pool of n: empty, all arrangements up to length 2, rotations of the full list, repeats
static std::vector<std::vector<int>> lists(int n)
{
  std::vector<std::vector<int>> v; v.push_back({});
  if (n > 12)
  {
    for (int r : {0, 1, n / 2, n - 1}) for (int st : {1, 7}) { std::vector<int> a; for (int i = 0; i < n; i++) a.push_back((int)(((long)i * st + r) % n)); v.push_back(a); std::reverse(a.begin(), a.end()); v.push_back(a); a.resize(n - n / 3); v.push_back(a); }
    for (int i = 0; i < n; i += n / 9) v.push_back({i});
    return v;
  }
  for (int k = 1; k <= 2 && k <= n; k++) arrangements(n, k, [&](const std::vector<int> &a) { v.push_back(a); });
  for (int r = 0; r < n; r++) { std::vector<int> a; for (int i = 0; i < n; i++) a.push_back((i * (n % 2 ? 2 : 1) + r) % n); v.push_back(a); std::reverse(a.begin(), a.end()); v.push_back(a); }
  if (n > 2) { v.push_back({1, 1, 0, 2, 2, 1}); v.push_back({n - 1, n - 1}); }
  return v;
}
// one single-camera problem
template <class P, class M> static void scoreSingle(const std::string &name, P &p, int n, const M &m, const std::function<double(const M &, int, double &)> &ref)
{
  std::vector<double> r(n), tol(n);
  for (int i = 0; i < n; i++) { double det = 1; r[i] = ref(m, i, det); tol[i] = det < 1e-3 ? 1e300 : tolFor(det); if (det < 1e-3) E().counters["near-parallel rays skipped"]++; }
  for (auto &l : lists(n))
  {
    std::vector<double> s;
    p.getSelectedDistancesToModel(m, l, s);
    E().evaluations++;
    if (s.size() != l.size()) { MC_FAIL("%s: %zu scores for %zu correspondences", name.c_str(), s.size(), l.size()); return; }
    for (size_t i = 0; i < l.size(); i++)
      if (!(std::fabs(s[i] - r[l[i]]) <= tol[l[i]]) && tol[l[i]] < 1e299)
      { MC_FAIL("%s: score of correspondence %d (position %zu of the list) is %.12g, expected %.12g", name.c_str(), l[i], i, s[i], r[l[i]]); return; }
    E().outcome(mix(hashStr(E().key + name), hashInts(l)));
  }
  // inlier selection through the problem, for the whole pool and for sub-pools, thresholds hit exactly
  std::vector<std::vector<int>> pools = {iota(n), {}, {n - 1, 0, n / 2}};
  for (size_t pi = 0; pi < pools.size(); pi++)
  {
    if (pi == 1) { for (int i = n - 1; i >= 0; i -= 2) pools[1].push_back(i); }
    p.setIndices(pools[pi]);
    std::vector<double> own, all;
    p.getSelectedDistancesToModel(m, pools[pi], own);
    p.getDistancesToModel(m, all);
    if (all != own) { MC_FAIL("%s: distances of the whole pool differ from the selected ones", name.c_str()); return; }
    std::vector<double> ths = own; ths.push_back(0); ths.push_back(1e-9); ths.push_back(10); ths.push_back(1000);
    if (n > 12) { std::vector<double> f; for (size_t i = 0; i < ths.size(); i += ths.size() > 40 && i + 8 < ths.size() ? ths.size() / 17 : 1) f.push_back(ths[i]); ths = f; }
    for (double th : ths)
    {
      std::vector<int> in, want;
      p.selectWithinDistance(m, th, in);
      for (size_t i = 0; i < own.size(); i++) if (own[i] < th) want.push_back(pools[pi][i]);
      E().evaluations++;
      if (in != want) { MC_FAIL("%s: inliers [%s] for threshold %.12g, expected [%s]", name.c_str(), joinInts(in).c_str(), th, joinInts(want).c_str()); return; }
      if (p.countWithinDistance(m, th) != (int)want.size()) { MC_FAIL("%s: inlier count is not the number of inliers", name.c_str()); return; }
    }
  }
  p.setIndices(iota(n));
}
template <class P, class M> static void scoreMulti(const std::string &name, P &p, const std::vector<int> &shape, const M &m, const std::function<double(const M &, int, int, double &)> &ref)
{
  int nf = shape.size();
  std::vector<std::vector<double>> r(nf), tol(nf);
  for (int f = 0; f < nf; f++) for (int i = 0; i < shape[f]; i++) { double det = 1; r[f].push_back(ref(m, f, i, det)); tol[f].push_back(det < 1e-3 ? 1e300 : tolFor(det)); }
  std::vector<std::vector<std::vector<int>>> per(nf); std::vector<int> base;
  for (int f = 0; f < nf; f++)
  {
    per[f] = {{}, iota(shape[f])};
    if (shape[f] > 0) { per[f].push_back({shape[f] - 1}); std::vector<int> rev = iota(shape[f]); std::reverse(rev.begin(), rev.end()); per[f].push_back(rev); per[f].push_back({shape[f] / 2, 0, 0}); }
    if (nf > 8) per[f] = {f % 5 == 4 ? std::vector<int>() : iota(shape[f])};
    if (nf > 4 && per[f].size() > 2) per[f].erase(per[f].begin() + 2, per[f].end());
    base.push_back(per[f].size());
  }
  product(base, [&](const std::vector<int> &sel) {
    std::vector<std::vector<int>> l; for (int f = 0; f < nf; f++) l.push_back(per[f][sel[f]]);
    std::vector<std::vector<double>> s(nf);
    p.getSelectedDistancesToModel(m, l, s);
    E().evaluations++;
    for (int f = 0; f < nf; f++)
    {
      if (s[f].size() != l[f].size()) { MC_FAIL("%s: %zu scores for %zu correspondences of camera %d", name.c_str(), s[f].size(), l[f].size(), f); return; }
      for (size_t i = 0; i < l[f].size(); i++)
        if (tol[f][l[f][i]] < 1e299 && !(std::fabs(s[f][i] - r[f][l[f][i]]) <= tol[f][l[f][i]]))
        { MC_FAIL("%s: score of correspondence %d of camera %d is %.12g, expected %.12g", name.c_str(), l[f][i], f, s[f][i], r[f][l[f][i]]); return; }
    }
    E().outcome(mix(hashStr(E().key + name), hashInts(sel)));
  });
  std::vector<std::vector<int>> all; for (int k : shape) all.push_back(iota(k));
  std::vector<std::vector<int>> part = all; for (auto &v : part) { std::reverse(v.begin(), v.end()); if (v.size() > 1) v.pop_back(); }
  for (auto &pool : {all, part})
  {
    p.setIndices(pool);
    std::vector<std::vector<double>> own(nf), dist(nf);
    p.getSelectedDistancesToModel(m, pool, own);
    p.getDistancesToModel(m, dist);
    if (dist != own) { MC_FAIL("%s: distances of the whole pool differ from the selected ones", name.c_str()); return; }
    std::vector<double> ths = {0, 1e-9, 10, 1000}; for (auto &v : own) for (double x : v) ths.push_back(x);
    for (double th : ths)
    {
      std::vector<std::vector<int>> in, want(nf); int cnt = 0;
      p.selectWithinDistance(m, th, in);
      for (int f = 0; f < nf; f++) for (size_t i = 0; i < own[f].size(); i++) if (own[f][i] < th) { want[f].push_back(pool[f][i]); cnt++; }
      E().evaluations++;
      if (in != want) { MC_FAIL("%s: wrong inliers for threshold %.12g", name.c_str(), th); return; }
      if (p.countWithinDistance(m, th) != cnt) { MC_FAIL("%s: inlier count is not the number of inliers", name.c_str()); return; }
    }
  }
  p.setIndices(all);
}
static void scoreCase(int kind, int rg, int rot, int tr, int set, int shape, int mk, int n = 7)
{
  static const char *kn[] = {"absolute", "noncentral absolute", "central relative", "noncentral relative", "rotation only", "translation only", "eigensolver", "point cloud"};
  std::string key = fmt("score:%s:rig=%d:rot=%d:t=%d:set=%d:shape=%d:model=%d", kn[kind], rg, rot, tr, set, shape, mk) + (n == 7 ? "" : fmt(":n=%d", n));
  if (!E().begin(key)) return;
  M3 R = rotations192()[rot * 23 % 192]; V3 t = trans27(tr) * 0.7 + V3(0.05, -0.03, 0.02);
  transformation_t T = model(R, t, mk);
  if (kind <= 1)
  {
    auto s = absScene(n, kind == 0 ? rg % 2 : rg, R, t, set, shape); auto a = s->adapter();
    std::function<double(const transformation_t &, int, double &)> ref = [&](const transformation_t &M, int i, double &) { int c = s->cc[i]; return refAbs(M, s->pts[i], s->f[i], s->r.off[c], s->r.rot[c]); };
    for (auto al : {sa::AbsolutePoseSacProblem::KNEIP, sa::AbsolutePoseSacProblem::GAO, sa::AbsolutePoseSacProblem::EPNP, sa::AbsolutePoseSacProblem::TWOPT, sa::AbsolutePoseSacProblem::GP3P})
    { sa::AbsolutePoseSacProblem p(*a, al, false); scoreSingle(fmt("absolute algorithm %d", (int)al), p, n, T, ref); }
    return;
  }
  if (kind == 7)
  {
    points_t a1, a2; for (int i = 0; i < n; i++) { V3 p = localPoint(set, i, shape); a2.push_back(p); a1.push_back(R * p + t + 0.1 * V3(frac(9, i, set), frac(8, i, set), frac(7, i, set))); }
    point_cloud::PointCloudAdapter a(a1, a2); sp::PointCloudSacProblem p(a, false);
    std::function<double(const transformation_t &, int, double &)> ref = [&](const transformation_t &M, int i, double &) { return (a1[i] - M.block<3, 3>(0, 0) * a2[i] - M.col(3)).norm(); };
    scoreSingle("point cloud", p, n, T, ref);
    return;
  }
  int rk = kind == 3 ? rg : 0;
  auto s = relScene(n, rk, R, t, set, shape, kind == 3 && rg % 2);
  // measurements with errors: the second ray of every third correspondence is moved
  for (int i = 0; i < n; i += 3) s->f2[i] = (s->f2[i] + 0.05 * V3(frac(3, i, set), frac(4, i, set), frac(5, i, set))).normalized();
  auto a = s->adapter();
  a->setR12(R);
  std::function<double(const transformation_t &, int, double &)> ref = [&](const transformation_t &M, int i, double &det) {
    int c = s->c1[i], d = s->c2[i];
    return refRel(M.block<3, 3>(0, 0), M.col(3), s->f1[i], s->f2[i], s->r.off[c], s->r.rot[c], s->r.off[d], s->r.rot[d], det); };
  switch (kind)
  {
    case 2: { typedef sr::CentralRelativePoseSacProblem P; for (auto al : {P::STEWENIUS, P::NISTER, P::SEVENPT, P::EIGHTPT}) { P p(*a, al, false); scoreSingle(fmt("central relative algorithm %d", (int)al), p, n, T, ref); } break; }
    case 3: { typedef sr::NoncentralRelativePoseSacProblem P; for (auto al : {P::SEVENTEENPT, P::GE, P::SIXPT}) for (int c = 0; c < 2; c++) { P p(*a, al, c, false); scoreSingle(fmt("noncentral relative algorithm %d central=%d", (int)al, c), p, n, T, ref); } break; }
    case 4:
    {
      sr::RotationOnlySacProblem p(*a, false);
      std::function<double(const rotation_t &, int, double &)> rr = [&](const rotation_t &M, int i, double &) { return 1.0 - s->f1[i].dot(M * s->f2[i]); };
      rotation_t M = T.block<3, 3>(0, 0); scoreSingle("rotation only", p, n, M, rr); break;
    }
    case 5: { sr::TranslationOnlySacProblem p(*a, false); scoreSingle("translation only", p, n, T, ref); break; }
    case 6:
    {
      sr::EigensolverSacProblem p(*a, 5, false);
      std::function<double(const eigensolverOutput_t &, int, double &)> re = [&](const eigensolverOutput_t &M, int i, double &det) {
        return refRel(M.rotation, M.translation, s->f1[i], s->f2[i], V3::Zero(), M3::Identity(), V3::Zero(), M3::Identity(), det); };
      eigensolverOutput_t M; M.rotation = T.block<3, 3>(0, 0); M.translation = T.col(3);
      V3 tb = V3(9, 8, 7); M3 Rb = rotations40()[9]; a->sett12(tb); a->setR12(Rb);
      scoreSingle("eigensolver", p, n, M, re); break;
    }
  }
}
static void scoreMultiCase(const std::vector<int> &shape, int rg, int rot, int tr, int set, int mk)
{
  std::string key = fmt("scoremulti:shape=%s:rig=%d:rot=%d:t=%d:set=%d:model=%d", joinInts(shape).c_str(), rg, rot, tr, set, mk);
  if (!E().begin(key)) return;
  script({}, 0);
  M3 R = rotations192()[rot * 23 % 192]; V3 t = trans27(tr) * 0.7 + V3(0.05, -0.03, 0.02);
  auto m = multiScene(shape, rg, R, t, set, 0);
  for (auto &v : m->f2) for (size_t i = 0; i < v->size(); i += 2) (*v)[i] = ((*v)[i] + 0.05 * V3(frac(3, i, set), frac(4, i, set), frac(5, i, set))).normalized();
  Adapters a(m);
  transformation_t T = model(R, t, mk);
  for (int c = 0; c < 2; c++)
  {
    sa::MultiNoncentralAbsolutePoseSacProblem p(a.abs, (bool)c);
    scoreMulti<sa::MultiNoncentralAbsolutePoseSacProblem, transformation_t>("multi absolute", p, shape, T, [&](const transformation_t &M, int f, int i, double &) { return refAbs(M, (*m->pts[f])[i], (*m->f[f])[i], m->off[f], m->rot[f]); });
    typedef sr::MultiNoncentralRelativePoseSacProblem P;
    for (auto al : {P::SEVENTEENPT, P::GE, P::SIXPT})
    {
      P q(a.rel, al, c, false);
      scoreMulti<P, transformation_t>("multi noncentral relative", q, shape, T, [&](const transformation_t &M, int f, int i, double &det) {
        return refRel(M.block<3, 3>(0, 0), M.col(3), (*m->f1[f])[i], (*m->f2[f])[i], m->off[f], m->rot[f], m->off[f], m->rot[f], det); });
    }
  }
  sr::MultiCentralRelativePoseSacProblem p(a.cen, 8, false);
  transformations_t M; for (size_t f = 0; f < shape.size(); f++) M.push_back(model(R, t, (mk + f) % NMODEL));
  scoreMulti<sr::MultiCentralRelativePoseSacProblem, transformations_t>("multi central relative", p, shape, M, [&](const transformations_t &M, int f, int i, double &det) {
    return refRel(M[f].block<3, 3>(0, 0), M[f].col(3), (*m->f1[f])[i], (*m->f2[f])[i], V3::Zero(), M3::Identity(), V3::Zero(), M3::Identity(), det); });
  E().sample(key);
}
// construction: pool of indices, reproducible sampling
template <class P> static void construct(const std::string &n, const std::function<P *(const std::vector<int> *)> &mk, int N, const std::vector<int> &ix)
{
  std::unique_ptr<P> a(mk(nullptr)), b(mk(nullptr)), c(mk(&ix)), d(mk(&ix));
  E().evaluations++;
  if (*a->getIndices() != iota(N)) { MC_FAIL("%s: built over [%s], not over all correspondences", n.c_str(), joinInts(*a->getIndices()).c_str()); return; }
  if (*c->getIndices() != ix) { MC_FAIL("%s: built over [%s], not over the given list", n.c_str(), joinInts(*c->getIndices()).c_str()); return; }
  for (int k = 0; k < 20; k++)
  {
    std::vector<int> s1, s2, s3, s4; int it = 0;
    a->getSamples(it, s1); b->getSamples(it, s2); c->getSamples(it, s3); d->getSamples(it, s4);
    if (s1 != s2 || s3 != s4) { MC_FAIL("%s: two problems without random seed draw different samples", n.c_str()); return; }
    if ((int)s1.size() != a->getSampleSize()) { MC_FAIL("%s: sample of %zu instead of %d", n.c_str(), s1.size(), a->getSampleSize()); return; }
    for (int x : s3) if (std::find(ix.begin(), ix.end(), x) == ix.end()) { MC_FAIL("%s: sample outside the given list", n.c_str()); return; }
    E().outcome(mix(hashStr(n), hashInts(s1)));
  }
}
static void constructAll()
{
  if (!E().begin("construct")) return;
  script({}, 0);
  auto as = absScene(12, 0, rotations40()[4], V3(1, 2, 3), 1, 1); auto aa = as->adapter();
  auto rs = relScene(25, 3, rotations40()[4], V3(0.5, 0.2, -0.4), 1, 0); auto ra = rs->adapter();
  auto rc = relScene(25, 0, rotations40()[4], V3(0.5, 0.2, -0.4), 1, 0); auto ca = rc->adapter();
  typedef sa::AbsolutePoseSacProblem A; typedef sr::CentralRelativePoseSacProblem C; typedef sr::NoncentralRelativePoseSacProblem N;
  typedef const std::vector<int> *I;
  std::vector<int> ix = {3, 9, 1, 0, 7, 11, 10, 5}, i2; for (int i = 24; i >= 2; i--) i2.push_back(i);
  for (auto al : {A::TWOPT, A::KNEIP, A::GAO, A::EPNP, A::GP3P}) construct<A>(fmt("absolute %d", (int)al), [&](I i) { return i ? new A(*aa, al, *i, false) : new A(*aa, al, false); }, 12, ix);
  for (auto al : {C::STEWENIUS, C::NISTER, C::SEVENPT, C::EIGHTPT}) construct<C>(fmt("central %d", (int)al), [&](I i) { return i ? new C(*ca, al, *i, false) : new C(*ca, al, false); }, 25, i2);
  for (auto al : {N::SEVENTEENPT, N::GE, N::SIXPT}) for (int c = 0; c < 2; c++) construct<N>(fmt("noncentral %d %d", (int)al, c), [&](I i) { return i ? new N(*ra, al, *i, c, false) : new N(*ra, al, c, false); }, 25, i2);
  construct<sr::EigensolverSacProblem>("eigensolver", [&](I i) { return i ? new sr::EigensolverSacProblem(*ca, 10, *i, false) : new sr::EigensolverSacProblem(*ca, 10, false); }, 25, i2);
  construct<sr::RotationOnlySacProblem>("rotation only", [&](I i) { return i ? new sr::RotationOnlySacProblem(*ca, *i, false) : new sr::RotationOnlySacProblem(*ca, false); }, 25, i2);
  construct<sr::TranslationOnlySacProblem>("translation only", [&](I i) { return i ? new sr::TranslationOnlySacProblem(*ca, *i, false) : new sr::TranslationOnlySacProblem(*ca, false); }, 25, i2);
  point_cloud::PointCloudAdapter pc(rc->pts, rs->pts);
  construct<sp::PointCloudSacProblem>("point cloud", [&](I i) { return i ? new sp::PointCloudSacProblem(pc, *i, false) : new sp::PointCloudSacProblem(pc, false); }, 25, i2);
  // multi problems
  for (auto &shape : std::vector<std::vector<int>>{{20}, {17, 19}, {18, 20, 19}, {6, 7, 8, 9, 10}})
  {
    auto m = multiScene(shape, 4, rotations40()[5], V3(0.3, 1, -0.5), 3, 0);
    Adapters a(m);
    auto all = m->all(), part = all; for (auto &v : part) { std::reverse(v.begin(), v.end()); v.pop_back(); }
    typedef sr::MultiNoncentralRelativePoseSacProblem P; typedef sa::MultiNoncentralAbsolutePoseSacProblem Q; typedef sr::MultiCentralRelativePoseSacProblem S;
    for (auto al : {P::SEVENTEENPT, P::GE, P::SIXPT})
      for (int c = 0; c < 2; c++)
      {
        P x(a.rel, al, c, false), y(a.rel, al, c, false), z(a.rel, al, part, c, false);
        if (*x.getIndices() != all || *z.getIndices() != part) MC_FAIL("multi noncentral relative problem is not built over the right pool");
        for (int k = 0; k < 10; k++) { std::vector<std::vector<int>> s1, s2; int it = 0; x.getSamples(it, s1); y.getSamples(it, s2); E().evaluations++; if (s1 != s2) { MC_FAIL("two multi noncentral problems without random seed draw different samples"); break; } }
      }
    for (int c = 0; c < 2; c++) { Q x(a.abs, (bool)c), z(a.abs, part, c); if (*x.getIndices() != all || *z.getIndices() != part) MC_FAIL("multi absolute problem is not built over the right pool"); }
    S x(a.cen, 5, false), y(a.cen, 5, false), z(a.cen, part, 5, false);
    if (*x.getIndices() != all || *z.getIndices() != part) MC_FAIL("multi central problem is not built over the right pool");
    for (int k = 0; k < 10; k++) { std::vector<std::vector<int>> s1, s2; int it = 0; x.getSamples(it, s1); y.getSamples(it, s2); if (s1 != s2) { MC_FAIL("two multi central problems without random seed draw different samples"); break; } }
  }
}

#include "sac_hyp.hpp"

int main(int argc, char **argv)
{
  E().init(argc, argv);
  std::string what;
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  bool T = E().thorough;
  if (what == "alloc")
  {
    singleSizes();
    for (int N = 1; N <= (T ? 40 : 20); N++)
      for (int g = 0; g < 2; g++)
      {
        allocCase(std::vector<int>(N, 18), g);
        std::vector<int> s; for (int f = 0; f < N; f++) s.push_back(f % 3 == 0 ? 3 : f % 3 == 1 ? 9 : 1); allocCase(s, g);
        s.clear(); for (int f = 0; f < N; f++) s.push_back((17 + N - 1) / N + f % 2); allocCase(s, g);
      }
  }
  if (what == "score")
  {
    constructAll();
    for (int kind = 0; kind < 8; kind++)
      for (int rg = 0; rg < NRIG; rg++)
        for (int rot = 0; rot < (T ? 24 : 8); rot++)
          for (int tr = 0; tr < 27; tr += (T ? 2 : 5))
            for (int shape = 0; shape < 3; shape++)
              for (int mk = 0; mk < NMODEL; mk++)
              {
                if ((kind == 2 || kind >= 4) && rg > 0) continue;
                if (kind == 0 && rg > 1) continue;
                scoreCase(kind, rg, rot, tr, (rot + tr) % 5, shape, mk);
              }
    for (int kind = 0; kind < 8; kind++) for (int rg = 0; rg < NRIG; rg++) for (int n : {1, 2, 3, 13, 33, 64, 100, 257, 600}) for (int mk = 0; mk < NMODEL; mk++) for (int rot = 0; rot < (T ? 8 : 2); rot++)
      if (!((kind == 2 || kind >= 4) && rg > 0) && !(kind == 0 && rg > 1)) scoreCase(kind, rg, rot, 3 + 4 * rot, rot % 5, n % 3, mk, n);
    for (auto &shape : std::vector<std::vector<int>>{{40, 25}, {90}, {12, 0, 70, 3}, {2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3}})
      for (int rg : {2, 3, 4, 5, 1}) for (int rot = 0; rot < (T ? 8 : 2); rot++) for (int mk = 0; mk < NMODEL; mk++) scoreMultiCase(shape, rg, rot, 3 + 4 * rot, rot % 5, mk);
    for (auto &shape : std::vector<std::vector<int>>{{4}, {3, 5}, {2, 0, 3}, {0, 2, 1}, {1, 2, 3, 4}, {1, 1, 1, 1, 1, 1}, {0, 3, 0, 2, 2, 1, 1}})
      for (int rg : {2, 3, 4, 5, 1})
        for (int rot = 0; rot < (T ? 12 : 4); rot++)
          for (int tr = 0; tr < 27; tr += (T ? 3 : 8))
            for (int mk = 0; mk < NMODEL; mk++) scoreMultiCase(shape, rg, rot, tr, (rot + tr) % 5, mk);
  }
  if (what == "hyp") hypAll(T);
  if (what == "e2e") e2eAll(T);
  return E().finish();
}
