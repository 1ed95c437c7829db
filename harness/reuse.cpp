// P28: an object that has been used before gives what a new one gives.
//  problems:  every sequence of operations on one consensus problem object, each result compared with a new object
//  consensus: every sequence of runs (other data, pool, threshold, limits, failing runs) of one Ransac / Lmeds / MultiRansac object
//  epnp, sturm: every sequence of operations on one solver object
//  live:      adapters follow the data they refer to; solving again after the data changed equals a new adapter
#include "calls.hpp"
#include <opengv/absolute_pose/modules/Epnp.hpp>
using namespace mc;
using namespace cl;

static bool T;
static void check(const Raw &want, const Raw &got, const std::string &what)
{
  std::string why; E().evaluations++; E().transitions++;
  if (!same(want, got, 0, &why)) MC_FAIL("%s: %s", what.c_str(), why.c_str());
  else E().outcome(mix(hashStr(E().key), hashStr(what)));
}
template <class P> void ownRng(P &p, unsigned seed = 12345u) { p.rng_gen_.reset(new std::function<int()>(std::bind(std::uniform_int_distribution<>(0, std::numeric_limits<int>::max()), std::mt19937(seed)))); }

static void putFlat(Raw &r, int x) { r.push_back(x); }
static void putFlat(Raw &r, const std::vector<int> &x) { r.push_back(-1); r.insert(r.end(), x.begin(), x.end()); }

// ---- uniform view on single and multi problems
typedef std::vector<std::vector<int>> Pool;
template <class P, bool MULTI> struct Tr;
template <class P> struct Tr<P, false>
{
  static void set(P &p, const Pool &v) { p.setIndices(v[0]); }
  static void uni(P &p, const Pool &v) { p.setUniformIndices(v[0].size()); }
  static Pool pool(P &p) { return {*p.getIndices()}; }
  static bool compute(P &p, const Pool &s, typename P::model_t &m) { return p.computeModelCoefficients(s[0], m); }
  static void opt(P &p, const Pool &s, const typename P::model_t &m, typename P::model_t &o) { p.optimizeModelCoefficients(s[0], m, o); }
  static Raw dist(P &p, const typename P::model_t &m, const Pool &s) { std::vector<double> d; p.getSelectedDistancesToModel(m, s[0], d); return d; }
  static Raw sel(P &p, const typename P::model_t &m, double thr) { std::vector<int> i; p.selectWithinDistance(m, thr, i); Raw r(i.begin(), i.end()); r.push_back(p.countWithinDistance(m, thr)); return r; }
  static Raw draw(P &p, int &it) { std::vector<int> s; p.getSamples(it, s); return Raw(s.begin(), s.end()); }
  static Pool sizes(P &p) { return {std::vector<int>(p.getSampleSize())}; }
};
template <class P> struct Tr<P, true>
{
  static void set(P &p, const Pool &v) { p.setIndices(v); }
  static void uni(P &p, const Pool &v) { std::vector<int> n; for (auto &x : v) n.push_back(x.size()); p.setUniformIndices(n); }
  static Pool pool(P &p) { return *p.getIndices(); }
  static bool compute(P &p, const Pool &s, typename P::model_t &m) { return p.computeModelCoefficients(s, m); }
  static void opt(P &p, const Pool &s, const typename P::model_t &m, typename P::model_t &o) { p.optimizeModelCoefficients(s, m, o); }
  static Raw dist(P &p, const typename P::model_t &m, const Pool &s) { std::vector<std::vector<double>> d(s.size()); p.getSelectedDistancesToModel(m, s, d); Raw r; for (auto &v : d) r.insert(r.end(), v.begin(), v.end()); return r; }
  static Raw sel(P &p, const typename P::model_t &m, double thr) { Pool i; p.selectWithinDistance(m, thr, i); Raw r; for (auto &v : i) { r.push_back(-1); r.insert(r.end(), v.begin(), v.end()); } r.push_back(p.countWithinDistance(m, thr)); return r; }
  static Raw draw(P &p, int &it) { Pool s; p.getSamples(it, s); Raw r; for (auto &v : s) { r.push_back(-1); r.insert(r.end(), v.begin(), v.end()); } return r; }
  static Pool sizes(P &p) { Pool r; for (int k : p.getSampleSizes()) r.push_back(std::vector<int>(k)); return r; }
};
// a sub-list of every frame: at least `least` entries of it, rotated by `by`
static Pool part(const Pool &all, const Pool &least, int by, int more)
{
  Pool r(all.size());
  for (size_t f = 0; f < all.size(); f++) for (int i = 0; i < std::min((int)all[f].size(), (int)least[f].size() + more); i++) r[f].push_back(all[f][(i + by) % all[f].size()]);
  return r;
}
// the sample that a camera-wise problem takes from a pool, by its own rules about sizes
template <class P, bool MULTI> void problem(const std::string &nm, World &w, World &w2, std::function<std::shared_ptr<P>(World &)> make, bool heavy)
{
  typedef Tr<P, MULTI> X; typedef typename P::model_t M;
  auto pre = [&] { randState = 17; w.reset(); w2.reset(); };
  pre();
  auto p0 = make(w); Pool all = X::pool(*p0);
  Pool k = X::sizes(*p0);
  Pool A = part(all, k, 0, 0), B = part(all, k, 2, 0), L = part(all, k, 1, 1), I = part(all, k, 1, 3), J = part(all, k, 3, 1000000); // J: as many as there are, in another order
  M m0; pre(); bool have = X::compute(*p0, A, m0); M m1 = m0;
  if (!have) { MC_FAIL("%s: no model for the first sample", nm.c_str()); return; }
  pre(); X::compute(*p0, B, m1);
  const int NOP = heavy && !T ? 8 : 10;
  auto op = [&](P &p, const Pool &pool, int o, bool drawn, bool uniform) {
    pre(); Raw r;
    switch (o)
    {
      case 0: case 1: { M m; bool ok = X::compute(p, o ? B : A, m); r.push_back(ok); if (ok) putM(r, m); break; }
      case 2: { M o2; X::opt(p, I, m1, o2); putM(r, o2); break; }
      case 3: r = X::dist(p, m1, L); break;
      case 4: r = X::sel(p, m0, 1e-3); break;
      case 5: { if (drawn) { if (uniform) X::uni(p, pool); else X::set(p, pool); } ownRng(p); for (int d = 0; d < 3; d++) { int it = d; Raw s = X::draw(p, it); r.push_back(it); r.insert(r.end(), s.begin(), s.end()); } break; }
      case 8: { M o1, o2; X::opt(p, part(all, k, 0, 4), m0, o1); pre(); X::opt(p, part(all, k, 2, 3), m0, o2); putM(r, o2); break; }
      case 9: r = X::sel(p, m1, 1e-1); break;
    }
    return r;
  };
  std::map<std::pair<Pool, int>, Raw> ref;
  auto fresh = [&](const Pool &pool, int o) -> const Raw & {
    auto key = std::make_pair(pool, o); auto it = ref.find(key);
    if (it != ref.end()) return it->second;
    auto p = make(w); X::set(*p, pool); ownRng(*p);
    return ref[key] = op(*p, pool, o, false, false);
  };
  int depth = heavy ? (T ? 4 : 3) : (T ? 5 : 4);
  for (int len = 1; len <= depth; len++)
    product(std::vector<int>(len, NOP), [&](const std::vector<int> &s) {
      if (s.back() == 6 || s.back() == 7) return;
      if (!E().begin(fmt("problem:%s:%s", nm.c_str(), joinInts(s, '.').c_str()))) return;
      E().tick();
      auto p = make(w); ownRng(*p, 99); Pool pool = all; bool drawn = false, uniform = true;
      for (int o : s)
      {
        if (o == 6) { pool = pool == J ? I : J; drawn = uniform = false; X::set(*p, pool); E().transitions++; }
        else if (o == 7) { pool = all; drawn = false; uniform = true; X::uni(*p, all); E().transitions++; }
        else { check(fresh(pool, o), op(*p, pool, o, drawn, uniform), fmt("%s: operation %d after others", nm.c_str(), o)); drawn |= o == 5; }
        if (X::pool(*p) != pool) MC_FAIL("%s: the pool is not the one that was set", nm.c_str());
        E().states.insert(mix(hashStr(nm), mix(hashInts(pool[0]), o)));
      }
    });
}
template <class C, class P, bool MULTI> void consensus(const std::string &nm, World &w, World &w2, std::function<std::shared_ptr<P>(World &)> make, double thr, int maxIt)
{
  typedef Tr<P, MULTI> X;
  struct Cfg { World *w; int pool; double thr; int it; double prob; };
  std::vector<Cfg> cfg = {{&w, 0, thr, maxIt, .99}, {&w2, 0, thr * 3, maxIt / 2 + 1, .6}, {&w, 1, thr * 100, maxIt, .9}, {&w, 2, thr, maxIt, .99}, {&w2, 0, 0.0, 3, .99}};
  auto pre = [&] { randState = 17; w.reset(); w2.reset(); };
  auto run = [&](C &c, P &p, std::shared_ptr<P> sp, const Pool &all, const Cfg &f) {
    pre();
    Pool pool = f.pool == 0 ? all : f.pool == 1 ? part(all, X::sizes(p), 1, 4) : Pool(all.size());
    X::set(p, pool); ownRng(p);
    c.sac_model_ = sp; c.threshold_ = f.thr; c.max_iterations_ = f.it; c.probability_ = f.prob;
    bool ok = c.computeModel(0); Raw r; r.push_back(ok);
    r.push_back(c.iterations_);
    if (ok) { Raw q; auto flat = [&](auto &v) { r.push_back(v.size()); for (auto &x : v) putFlat(r, x); }; flat(c.inliers_); flat(c.model_); putM(r, c.model_coefficients_); }
    return r;
  };
  std::vector<Raw> ref; std::vector<std::shared_ptr<P>> pr; std::vector<Pool> all;
  for (auto &f : cfg)
  {
    auto p = make(*f.w); all.push_back(X::pool(*p));
    C c(1, 1, .5); ref.push_back(run(c, *p, p, all.back(), f)); pr.push_back(make(*f.w));
  }
  if (ref[0][0] != 1) MC_FAIL("%s: the first configuration finds nothing", nm.c_str());
  int depth = T ? 5 : 4, n = cfg.size();
  for (int len = 1; len <= depth; len++)
    product(std::vector<int>(len, n), [&](const std::vector<int> &s) {
      if (!E().begin(fmt("consensus:%s:%s", nm.c_str(), joinInts(s, '.').c_str()))) return;
      E().tick();
      C c(7, 3., .5);
      std::shared_ptr<P> last;
      for (int o : s) { check(ref[o], run(c, *pr[o], pr[o], all[o], cfg[o]), fmt("%s: run with configuration %d", nm.c_str(), o)); E().states.insert(mix(hashStr(nm), o)); }
    });
}

// ---- EPnP object
static void epnpObject()
{
  typedef absolute_pose::modules::Epnp Ep;
  struct Set { points_t p; bearingVectors_t f; };
  std::vector<Set> sets;
  for (int k = 0; k < 3; k++) { auto s = absScene(k == 0 ? 6 : k == 1 ? 9 : 4, 0, rotations192()[11 + 50 * k], trans27(3 + k), 5 + k, 1); disturb(s->f, k, 1e-3); sets.push_back({s->pts, s->f}); }
  auto add = [&](Ep &e, int k) { for (size_t i = 0; i < sets[k].p.size(); i++) { V3 X = sets[k].p[i], f = sets[k].f[i]; e.add_correspondence(X[0], X[1], X[2], f[0], f[1], f[2]); } };
  auto solve = [&](Ep &e) { double R[3][3], t[3]; double err = e.compute_pose(R, t); Raw r{err}; for (auto &x : R) for (double y : x) r.push_back(y); for (double y : t) r.push_back(y); r.push_back(e.reprojection_error(R, t)); return r; };
  // 0,1,2 add set; 3 reset; 4 solve; 5 larger maximum and reset; 6 smaller maximum (no effect)
  int depth = T ? 8 : 7;
  const int NOP = 7;
  std::map<std::vector<int>, Raw> ref;
  for (int len = 1; len <= depth; len++)
    product(std::vector<int>(len, NOP), [&](const std::vector<int> &s) {
      if (s.back() != 4 || s[0] == 4 || s[0] == 3) return;
      std::vector<int> cur; int cap = 20, n = 0;
      for (size_t i = 0; i < s.size(); i++) // only legal sequences
      {
        int o = s[i];
        if (o < 3) { n += sets[o].p.size(); cur.push_back(o); if (n > cap) return; }
        if (o == 3 || o == 5) { n = 0; cur.clear(); }
        if (o == 5) { if (cap > 40) return; cap += 13; }
        if (o == 4 && n < 6) return;
        if (i && o == s[i - 1] && o >= 3) return;
      }
      if (!E().begin(fmt("epnp:%s", joinInts(s, '.').c_str()))) return;
      Ep e; e.set_maximum_number_of_correspondences(20); e.reset_correspondences(); cur.clear(); cap = 20;
      for (int o : s)
      {
        if (o < 3) { add(e, o); cur.push_back(o); }
        else if (o == 3) { e.reset_correspondences(); cur.clear(); }
        else if (o == 5) { cap += 13; e.set_maximum_number_of_correspondences(cap); e.reset_correspondences(); cur.clear(); }
        else if (o == 6) e.set_maximum_number_of_correspondences(6);
        else
        {
          auto it = ref.find(cur);
          if (it == ref.end()) { Ep g; g.set_maximum_number_of_correspondences(60); g.reset_correspondences(); for (int k : cur) add(g, k); it = ref.emplace(cur, solve(g)).first; }
          check(it->second, solve(e), "EPnP object");
        }
        E().states.insert(mix(hashInts(cur), cap));
      }
    });
}
// ---- Sturm object
static void sturmObject()
{
  std::vector<std::vector<double>> polys = {{1, 0, -7, 6}, {2, -3, -11, 3, 9}, {1, -3, -1, 4, 1, -1.5}, {1, 0, 1}, {3, 0.5, -4, 0.25, 1, -0.5, -0.05}};
  auto op = [](math::Sturm &s, int o) {
    Raw r;
    switch (o)
    {
      case 0: r = s.findRoots(); break;
      case 1: s.findRoots2(r); break;
      case 2: s.bracketRoots(r); break;
      case 3: r.push_back(s.evaluateChain(-1.5)); r.push_back(s.evaluateChain(0.3)); break;
      case 4: r.push_back(s.evaluateChain2(2.5)); r.push_back(s.evaluateChain2(-0.7)); break;
      case 5: r.push_back(s.computeLagrangianBound()); break;
      case 6: s.findRoots2(r, 1e-6, 1e-6); break;
      case 7: s.bracketRoots(r, 1e-4); break;
    }
    return r;
  };
  int depth = T ? 5 : 4;
  for (size_t k = 0; k < polys.size(); k++)
  {
    std::vector<Raw> ref; for (int o = 0; o < 8; o++) { math::Sturm s(polys[k]); ref.push_back(op(s, o)); }
    for (int len = 1; len <= depth; len++)
      product(std::vector<int>(len, 8), [&](const std::vector<int> &w) {
        if (!E().begin(fmt("sturm:%zu:%s", k, joinInts(w, '.').c_str()))) return;
        math::Sturm s(polys[k]);
        for (int o : w) { check(ref[o], op(s, o), fmt("Sturm object, operation %d", o)); E().states.insert(mix(k, o)); }
      });
  }
}
// ---- adapters follow the data they refer to
static void live()
{
  for (int m = 0; m < NABS; m++)
  {
    bool cen = absCentralOnly(m);
    auto sc = [&](int k) { auto s = absScene(absExactCount(m) ? absMin(m) + 1 : 12, cen ? 0 : 3, rotations192()[7 + 40 * k], trans27(4 + k), 20 + k, cen ? 1 : 0); disturb(s->f, k, 1e-3); return s; };
    const int K = 3; std::vector<std::shared_ptr<AbsScene>> S; std::vector<Raw> ref;
    auto go = [&](AA &a, int k) { a.setR(S[k]->R); a.sett(S[k]->t); randState = 17; return runAbs(m, a, 0).raw; };
    for (int k = 0; k < K; k++) { S.push_back(sc(k)); auto a = S[k]->adapter(); ref.push_back(go(*a, k)); }
    for (int len = 1; len <= (T ? 4 : 3); len++) product(std::vector<int>(len, K), [&](const std::vector<int> &w) {
      if (!E().begin(fmt("live:%s:%s", absName(m), joinInts(w, '.').c_str()))) return;
      auto s = sc(0); auto a = s->adapter();
      for (int k : w) { for (int i = 0; i < s->n; i++) { s->f[i] = S[k]->f[i]; s->pts[i] = S[k]->pts[i]; } check(ref[k], go(*a, k), fmt("%s after the data behind the adapter changed", absName(m))); }
    });
  }
  for (int m = 0; m < NREL; m++)
  {
    bool cen = relCentralOnly(m);
    auto sc = [&](int k) { auto s = relScene(relExactCount(m) ? relMin(m) : 18, cen ? 0 : 3, rotations192()[7 + 40 * k], trans27(4 + k), 20 + k, 0, true); disturb(s->f1, k, 1e-3); return s; };
    const int K = 3; std::vector<std::shared_ptr<RelScene>> S; std::vector<Raw> ref;
    auto go = [&](RA &a, int k) { a.setR12(S[k]->R * fromQuat(40, 1, -1, 1)); a.sett12(S[k]->t); randState = 17; return runRel(m, a, 0).raw; };
    for (int k = 0; k < K; k++) { S.push_back(sc(k)); auto a = S[k]->adapter(); ref.push_back(go(*a, k)); }
    for (int len = 1; len <= (T ? 4 : m == GE || m == GEW || m == SIXPT ? 2 : 3); len++) product(std::vector<int>(len, K), [&](const std::vector<int> &w) {
      if (!E().begin(fmt("live:%s:%s", relName(m), joinInts(w, '.').c_str()))) return;
      E().tick();
      auto s = sc(0); auto a = s->adapter();
      for (int k : w) { for (int i = 0; i < s->n; i++) { s->f1[i] = S[k]->f1[i]; s->f2[i] = S[k]->f2[i]; } check(ref[k], go(*a, k), fmt("%s after the data behind the adapter changed", relName(m))); }
    });
  }
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  T = E().thorough;
  epnpObject();
  sturmObject();
  live();
  World w(0, 7, 5, 0, 1e-4), w2(1, 90, 11, 2, 1e-4);
  typedef sa::AbsolutePoseSacProblem PA; typedef sr::CentralRelativePoseSacProblem PC; typedef sr::NoncentralRelativePoseSacProblem PN;
  typedef sr::RotationOnlySacProblem PR; typedef sr::TranslationOnlySacProblem PT; typedef sr::EigensolverSacProblem PE; typedef sp::PointCloudSacProblem PP;
  typedef sa::MultiNoncentralAbsolutePoseSacProblem MA; typedef sr::MultiNoncentralRelativePoseSacProblem MN;
  auto single = [&](const std::string &nm, auto make, double thr, int it, bool heavy) {
    typedef typename std::remove_reference<decltype(*make(w))>::type P;
    problem<P, false>(nm, w, w2, make, heavy);
    consensus<sac::Ransac<P>, P, false>(nm + " ransac", w, w2, make, thr, it);
    consensus<sac::Lmeds<P>, P, false>(nm + " lmeds", w, w2, make, thr, it);
  };
  auto multi = [&](const std::string &nm, auto make, double thr, int it, bool heavy) {
    typedef typename std::remove_reference<decltype(*make(w))>::type P;
    problem<P, true>(nm, w, w2, make, heavy);
    consensus<sac::MultiRansac<P>, P, true>(nm + " ransac", w, w2, make, thr, it);
  };
  const char *an[] = {"TWOPT", "KNEIP", "GAO", "EPNP", "GP3P"}; int i = 0;
  for (auto al : {PA::TWOPT, PA::KNEIP, PA::GAO, PA::EPNP, PA::GP3P}) single(std::string("abs ") + an[i++], [al](World &x) { return std::make_shared<PA>(al == PA::GP3P ? *x.an : *x.ac, al, false); }, 1e-5, 12, false);
  const char *cn[] = {"STEWENIUS", "NISTER", "SEVENPT", "EIGHTPT"}; i = 0;
  for (auto al : {PC::STEWENIUS, PC::NISTER, PC::SEVENPT, PC::EIGHTPT}) single(std::string("rel ") + cn[i++], [al](World &x) { return std::make_shared<PC>(*x.rc, al, false); }, 1e-5, 8, false);
  const char *nn[] = {"SIXPT", "GE", "SEVENTEENPT"}; i = 0;
  for (auto al : {PN::SIXPT, PN::GE, PN::SEVENTEENPT}) single(std::string("noncentral ") + nn[i++], [al](World &x) { return std::make_shared<PN>(*x.rn, al, false, false); }, 1e-4, 3, true);
  single("noncentral as central", [](World &x) { return std::make_shared<PN>(*x.rn, PN::SEVENTEENPT, true, false); }, 1e-2, 6, false);
  single("rotation only", [](World &x) { return std::make_shared<PR>(*x.rc, false); }, 1e-1, 10, false);
  single("translation only", [](World &x) { return std::make_shared<PT>(*x.rc, false); }, 1e-3, 10, false);
  single("eigensolver", [](World &x) { return std::make_shared<PE>(*x.rc, 10, false); }, 1e-3, 4, true);
  single("point cloud", [](World &x) { return std::make_shared<PP>(*x.pc, false); }, 1e-2, 10, false);
  multi("multi absolute", [](World &x) { return std::make_shared<MA>(*x.ma, false); }, 1e-5, 10, false);
  multi("multi absolute as central", [](World &x) { return std::make_shared<MA>(*x.ma, true); }, 1e-3, 10, false);
  multi("multi relative 17", [](World &x) { return std::make_shared<MN>(*x.mr, MN::SEVENTEENPT, false, false); }, 1e-3, 3, true);
  multi("multi relative sixpt", [](World &x) { return std::make_shared<MN>(*x.mr, MN::SIXPT, false, false); }, 1e-3, 3, true);
  return E().finish();
}
