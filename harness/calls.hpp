// Every operation of the library as one call without arguments on its own data, so that any two of
// them can be run one after the other (P22), interleaved (P21) or through different adapters (P08).
#ifndef VERIF_CALLS_HPP_
#define VERIF_CALLS_HPP_
#include "solvers.hpp"
#include "sacdata.hpp"
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/math/Sturm.hpp>
#include <opengv/math/roots.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/math/cayley.hpp>
#include <opengv/math/gauss_jordan.hpp>
#include <functional>

// the library draws from rand() in places; every call starts with the same sequence, per thread
static thread_local uint64_t randState = 1;
extern "C" int rand(void) noexcept { randState = randState * 6364136223846793005ull + 1442695040888963407ull; return (int)((randState >> 33) & 0x7fffffff); }

namespace cl
{
using namespace sv;
using namespace sd;
using mc::fmt;
typedef std::function<Raw()> Fn;
struct Call { std::string name; Fn run; bool writes; /* changes the priors of its adapter */ };

inline void disturb(bearingVectors_t &f, int set, double amount) { for (size_t i = 0; i < f.size(); i++) f[i] = (f[i] + amount * V3(frac(set, i, 71), frac(set, i, 72), frac(set, i, 73))).normalized(); }

struct World
{
  std::shared_ptr<AbsScene> sa1, sa2; std::shared_ptr<RelScene> sr1, sr2; std::shared_ptr<MultiScene> sm;
  std::unique_ptr<AA> ac, an; std::unique_ptr<RA> rc, rn;
  std::unique_ptr<absolute_pose::NoncentralAbsoluteMultiAdapter> ma;
  std::unique_ptr<relative_pose::NoncentralRelativeMultiAdapter> mr;
  std::unique_ptr<relative_pose::CentralRelativeMultiAdapter> mc_;
  points_t p1, p2; std::unique_ptr<point_cloud::PointCloudAdapter> pc;
  M3 R; V3 t; int set; bool frozen = false; // frozen: the priors stay as they are
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  void reset()
  {
    if (frozen) return;
    ac->setR(R * fromQuat(20, 1, -1, 1)); ac->sett(t + V3(.1, .1, -.1)); an->setR(R * fromQuat(20, 1, -1, 1)); an->sett(t + V3(.1, .1, -.1));
    rc->setR12(R * fromQuat(40, 1, -1, 1)); rc->sett12(t + V3(.05, .02, -.03)); rn->setR12(R * fromQuat(40, 1, -1, 1)); rn->sett12(t + V3(.05, .02, -.03));
    ma->setR(M3::Identity()); ma->sett(V3(0, 0, 0)); mr->setR12(R); mr->sett12(t); mc_->setR12(R); mc_->sett12(t);
    pc->setR12(R * fromQuat(40, 1, -1, 1)); pc->sett12(t + V3(.05, .02, -.03));
  }
  World(int set, int rot, int tr, int more = 0, double noise = 1e-3) : set(set)
  {
    R = rotations192()[rot % 192]; t = trans27(tr) + V3(.3, -.2, .1);
    sa1 = absScene(12 + more, 0, R, t, set, 1); sa2 = absScene(12 + more, 3, R, t, set, 0); sr1 = relScene(12 + more, 0, R, t, set, 0); sr2 = relScene(20 + more, 3, R, t, set, 0, true);
    sm = multiScene({6 + more, 5, 7, 6}, 3, R, t, set, 0);
    disturb(sa1->f, set, noise); disturb(sa2->f, set, noise); disturb(sr1->f1, set, noise); disturb(sr2->f2, set, noise);
    for (auto &f : sm->f) disturb(*f, set, noise);
    for (auto &f : sm->f1) disturb(*f, set + 1, noise);
    ac = sa1->adapter(); an = sa2->adapter(); rc = sr1->adapter(); rn = sr2->adapter();
    ma.reset(new absolute_pose::NoncentralAbsoluteMultiAdapter(sm->f, sm->pts, sm->off, sm->rot));
    mr.reset(new relative_pose::NoncentralRelativeMultiAdapter(sm->f1, sm->f2, sm->off, sm->rot));
    mc_.reset(new relative_pose::CentralRelativeMultiAdapter(sm->f1, sm->f2));
    for (int i = 0; i < 10 + more; i++) { p2.push_back(localPoint(set, i, 0)); p1.push_back(R * p2.back() + t + noise * V3(frac(set, i, 7), frac(set, i, 8), frac(set, i, 9))); }
    pc.reset(new point_cloud::PointCloudAdapter(p1, p2));
    reset();
  }
  // every number of the data
  Raw dump() const
  {
    Raw r;
    for (auto a : {ac.get(), an.get(), (AA *)ma.get()}) for (size_t i = 0; i < a->getNumberCorrespondences(); i++) { put(r, a->getBearingVector(i)); put(r, a->getPoint(i)); put(r, a->getCamOffset(i)); put(r, a->getCamRotation(i)); r.push_back(a->getWeight(i)); }
    for (auto a : {rc.get(), rn.get(), (RA *)mr.get()}) for (size_t i = 0; i < a->getNumberCorrespondences(); i++) { put(r, a->getBearingVector1(i)); put(r, a->getBearingVector2(i)); put(r, a->getCamOffset1(i)); put(r, a->getCamOffset2(i)); put(r, a->getCamRotation1(i)); put(r, a->getCamRotation2(i)); r.push_back(a->getWeight(i)); }
    for (size_t i = 0; i < pc->getNumberCorrespondences(); i++) { put(r, pc->getPoint1(i)); put(r, pc->getPoint2(i)); r.push_back(pc->getWeight(i)); }
    return r;
  }
  // the priors
  Raw priors() const
  {
    Raw r;
    for (auto a : {ac.get(), an.get(), (AA *)ma.get()}) { put(r, a->getR()); put(r, a->gett()); }
    for (auto a : {rc.get(), rn.get(), (RA *)mr.get(), (RA *)mc_.get()}) { put(r, a->getR12()); put(r, a->gett12()); }
    put(r, pc->getR12()); put(r, pc->gett12());
    return r;
  }
};
template <class M> void putM(Raw &r, const M &m) { put(r, m); }
inline void putM(Raw &r, const eigensolverOutput_t &o) { put(r, o.rotation); put(r, o.translation); }
template <class P, class A> void addSac(std::vector<Call> &v, const std::string &nm, World &w, A &ad, std::function<std::shared_ptr<P>(A &)> make, double thr, int maxIt, bool lmeds)
{
  typedef typename P::model_t M;
  auto pre = [&w] { randState = 17; w.reset(); };
  v.push_back({nm + " hypothesis", [pre, &ad, make] { pre(); auto p = make(ad); Raw r; std::vector<int> s(p->getSampleSize()); for (size_t i = 0; i < s.size(); i++) s[i] = i; M m; if (p->computeModelCoefficients(s, m)) putM(r, m); std::vector<double> d; if (!r.empty()) { p->getSelectedDistancesToModel(m, *p->getIndices(), d); r.insert(r.end(), d.begin(), d.end()); } return r; }, true});
  v.push_back({nm + (lmeds ? " lmeds" : " ransac"), [pre, &ad, make, thr, maxIt, lmeds] {
    pre(); auto p = make(ad); Raw r;
    auto go = [&](auto &c) { c.sac_model_ = p; bool ok = c.computeModel(0); r.push_back(ok); r.push_back(c.iterations_); if (ok) { for (int i : c.inliers_) r.push_back(i); for (int i : c.model_) r.push_back(i); putM(r, c.model_coefficients_); M o; p->optimizeModelCoefficients(c.inliers_, c.model_coefficients_, o); putM(r, o); } };
    if (lmeds) { sac::Lmeds<P> c(maxIt, thr, .9); go(c); } else { sac::Ransac<P> c(maxIt, thr, .9); go(c); }
    return r; }, true});
}
// heavy: complete consensus runs too
inline std::vector<Call> allCalls(World &w, bool sacRuns)
{
  std::vector<Call> v;
  auto pre = [&w] { randState = 17; w.reset(); };
  static const std::vector<int> three = {4, 0, 7}, two = {5, 2}, six = {7, 1, 4, 9, 0, 10}, five = {3, 8, 1, 10, 6}, eight = {3, 8, 1, 10, 6, 0, 11, 4}, ten = {3, 8, 1, 10, 6, 0, 9, 4, 2, 7}, eighteen = {3, 8, 1, 10, 6, 0, 9, 4, 2, 7, 11, 19, 13, 14, 15, 18, 17, 5};
  for (int m = 0; m < NABS; m++)
  {
    const std::vector<int> *ix = m == P2P ? &two : absExactCount(m) ? &three : m == UPNP ? &eight : &ten;
    World *q = &w;
    v.push_back({absName(m), [pre, q, m, ix] { pre(); return runAbs(m, absCentralOnly(m) ? *q->ac : *q->an, ix).raw; }, false});
    if (!absExactCount(m)) v.push_back({std::string(absName(m)) + " all", [pre, q, m] { pre(); return runAbs(m, absCentralOnly(m) ? *q->ac : *q->an, 0).raw; }, false});
  }
  for (int m = 0; m < NREL; m++)
  {
    const std::vector<int> *ix = m == TWOPT || m == TWOPT_ROT ? &two : m == ROTONLY ? &three : m == STEWENIUS || m == NISTER || m == KNEIP5 ? &five : m == SIXPT ? &six : m == SEVENTEEN ? &eighteen : &ten;
    World *q = &w;
    v.push_back({relName(m), [pre, q, m, ix] { pre(); return runRel(m, relCentralOnly(m) ? *q->rc : *q->rn, ix).raw; }, m == RELOPT});
    if (!relExactCount(m)) v.push_back({std::string(relName(m)) + " all", [pre, q, m] { pre(); return runRel(m, relCentralOnly(m) ? *q->rc : *q->rn, 0).raw; }, m == RELOPT});
  }
  v.push_back({"eigensolver rotation", [pre, &w] { pre(); Raw r; put(r, relative_pose::eigensolver(*w.rc)); put(r, relative_pose::eigensolver(*w.rc, eight)); return r; }, false});
  v.push_back({"threept_arun", [pre, &w] { pre(); Raw r; put(r, point_cloud::threept_arun(*w.pc)); put(r, point_cloud::threept_arun(*w.pc, three)); return r; }, false});
  v.push_back({"cloud optimize_nonlinear", [pre, &w] { pre(); Raw r; put(r, point_cloud::optimize_nonlinear(*w.pc)); put(r, point_cloud::optimize_nonlinear(*w.pc, five)); return r; }, true});
  v.push_back({"triangulate", [pre, &w] { pre(); Raw r; for (int i : three) { put(r, triangulation::triangulate(*w.rc, i)); put(r, triangulation::triangulate2(*w.rc, i)); } return r; }, false});
  v.push_back({"polynomials", [&w] {
    Raw r; for (int k = 0; k < 3; k++) { double a = frac(w.set, k, 1), b = frac(w.set, k, 2);
      for (double x : math::o3_roots(std::vector<double>{1., a, b, a * b - .3})) r.push_back(x);
      for (double x : math::o4_roots(std::vector<double>{1., a, b - 1, a * b, b * .2})) r.push_back(x);
      math::Sturm s(std::vector<double>{1., a, -3., b, 1., .2 * a}); for (double x : s.findRoots()) r.push_back(x); std::vector<double> q; s.findRoots2(q); r.insert(r.end(), q.begin(), q.end()); }
    return r; }, false});
  v.push_back({"rotations", [&w] { Raw r; put(r, math::rot2quaternion(w.R)); put(r, math::quaternion2rot(math::rot2quaternion(w.R))); put(r, math::rot2cayley(w.R)); put(r, math::cayley2rot(math::rot2cayley(w.R))); put(r, math::arun(w.R * M3(V3(3, 2, 1).asDiagonal()))); return r; }, false});
  v.push_back({"gauss_jordan", [&w] {
    std::vector<std::vector<double>> A(5, std::vector<double>(8)); std::vector<std::vector<double> *> P;
    for (int i = 0; i < 5; i++) for (int j = 0; j < 8; j++) A[i][j] = frac(w.set, i, j) + (i == j) * 2;
    for (auto &x : A) P.push_back(&x);
    math::gauss_jordan(P, 0); Raw r; for (auto p : P) r.insert(r.end(), p->begin(), p->end()); return r; }, false});
  double thr = 1e-5; int mi = sacRuns ? 30 : 3;
  {
    typedef sa::AbsolutePoseSacProblem P; const char *nm[] = {"TWOPT", "KNEIP", "GAO", "EPNP", "GP3P"};
    for (auto al : {P::TWOPT, P::KNEIP, P::GAO, P::EPNP, P::GP3P}) addSac<P, AA>(v, std::string("AbsolutePose ") + nm[al], w, al == P::GP3P ? *w.an : *w.ac, [al](AA &a) { return std::make_shared<P>(a, al, false); }, thr, mi, al == P::GAO);
  }
  {
    typedef sr::CentralRelativePoseSacProblem P; int k = 0;
    for (auto al : {P::STEWENIUS, P::NISTER, P::SEVENPT, P::EIGHTPT}) addSac<P, RA>(v, fmt("CentralRelative %d", k++), w, *w.rc, [al](RA &a) { return std::make_shared<P>(a, al, false); }, thr, mi, al == P::SEVENPT);
  }
  {
    typedef sr::NoncentralRelativePoseSacProblem P; int k = 0;
    for (auto al : {P::SIXPT, P::GE, P::SEVENTEENPT}) addSac<P, RA>(v, fmt("NoncentralRelative %d", k++), w, *w.rn, [al](RA &a) { return std::make_shared<P>(a, al, false, false); }, thr, std::min(mi, 4), false);
  }
  { typedef sr::RotationOnlySacProblem P; addSac<P, RA>(v, "RotationOnly", w, *w.rc, [](RA &a) { return std::make_shared<P>(a, false); }, 1e-2, mi, false); }
  { typedef sr::TranslationOnlySacProblem P; addSac<P, RA>(v, "TranslationOnly", w, *w.rc, [](RA &a) { return std::make_shared<P>(a, false); }, 1e-3, mi, false); }
  { typedef sr::EigensolverSacProblem P; addSac<P, RA>(v, "Eigensolver", w, *w.rc, [](RA &a) { return std::make_shared<P>(a, 10, false); }, thr, std::min(mi, 4), false); }
  { typedef sp::PointCloudSacProblem P; addSac<P, point_cloud::PointCloudAdapterBase>(v, "PointCloud", w, *w.pc, [](point_cloud::PointCloudAdapterBase &a) { return std::make_shared<P>(a, false); }, 1e-2, mi, false); }
  auto multi = [&](const std::string &nm, auto make) {
    v.push_back({nm, [pre, make, mi] {
      pre(); auto p = make(); typedef typename std::remove_reference<decltype(*p)>::type P; typedef typename P::model_t M; Raw r;
      p->rng_gen_.reset(new std::function<int()>(std::bind(std::uniform_int_distribution<>(0, std::numeric_limits<int>::max()), std::mt19937(12345u))));
      sac::MultiRansac<P> c(std::min(mi, 4), 1e-5, .9); c.sac_model_ = p; bool ok = c.computeModel(0); r.push_back(ok); r.push_back(c.iterations_);
      if (ok) { for (auto &x : c.inliers_) for (int i : x) r.push_back(i); put(r, c.model_coefficients_); M o; p->optimizeModelCoefficients(c.inliers_, c.model_coefficients_, o); put(r, o); }
      return r; }, true}); };
  World *q = &w;
  multi("multi absolute", [q] { return std::make_shared<sa::MultiNoncentralAbsolutePoseSacProblem>(*q->ma, false); });
  multi("multi absolute as central", [q] { return std::make_shared<sa::MultiNoncentralAbsolutePoseSacProblem>(*q->ma, true); });
  multi("multi relative 17", [q] { return std::make_shared<sr::MultiNoncentralRelativePoseSacProblem>(*q->mr, sr::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT, false, false); });
  multi("multi relative ge", [q] { return std::make_shared<sr::MultiNoncentralRelativePoseSacProblem>(*q->mr, sr::MultiNoncentralRelativePoseSacProblem::GE, false, false); });
  return v;
}
inline bool same(const Raw &a, const Raw &b, double tol, std::string *why = 0)
{
  if (a.size() != b.size()) { if (why) *why = fmt("%zu numbers instead of %zu", b.size(), a.size()); return false; }
  for (size_t i = 0; i < a.size(); i++)
    if (!((a[i] != a[i] && b[i] != b[i]) || a[i] == b[i] || std::fabs(a[i] - b[i]) <= tol * std::max(1.0, std::fabs(a[i])))) { if (why) *why = fmt("number %zu is %.17g instead of %.17g", i, b[i], a[i]); return false; }
  return true;
}
} // namespace cl
#endif
