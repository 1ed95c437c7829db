// P27: every operation ends, stays within its memory and gives a bounded number of candidates, whatever the data.
#include "solvers.hpp"
#include <opengv/triangulation/methods.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
using namespace mc;
using namespace sv;

static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
// arrangements of points / directions; entry i of arrangement a
static const int NARR = 19;
static V3 entry(int a, int i, int set)
{
  V3 g = localPoint(set, i, 0);
  switch (a)
  {
    case 0: return V3(1, 2, 3);                                   // all the same
    case 1: return V3::Zero();
    case 2: return V3(i + 1, 0, 0);                               // on one axis
    case 3: return V3(1 + i, 2 - i, 3 + 2 * i);                   // on one line
    case 4: return V3(i % 3, i / 3, 5);                           // grid on a plane
    case 5: { double c[] = {1, 0, 0, -1, 0, 0, 1}; return V3(c[i % 6], c[(i + 2) % 6], c[(i + 4) % 6]); } // axes
    case 6: return i % 2 ? V3(0, 0, 1) : V3(0, 0, -1);            // two opposite
    case 7: return V3(std::cos(i * 0.7), std::sin(i * 0.7), 0);   // circle around the origin
    case 8: return V3(std::cos(i * 0.7), std::sin(i * 0.7), 2);   // circle in front (and cylinder)
    case 9: return g * 1e150; 
    case 10: return g * 1e-150;
    case 11: return i == 2 ? V3(NaN, NaN, NaN) : g;
    case 12: return i == 1 ? V3(INF, 1, -INF) : g;
    case 13: return i < 3 ? V3(0, 0, 4) : g;                      // some equal
    case 14: return g.normalized();                               // on a sphere
    case 15: return V3(NaN, NaN, NaN);
    case 16: return V3(g[0], g[1], 0) * 1e-9 + V3(0, 0, 1);       // nearly the same
    case 17: return i % 2 ? V3(-g) : g;
    default: return g;                                            // general
  }
}
// quick: one rig and one number of correspondences for every pair of arrangements
static bool pick(int a, int b, int k, int more) { return (a + 2 * b) % 3 == k / 2 && (a + b) % 2 == more; }
static int bound(int s, bool rel) { if (!rel) return s <= P3P_GAO ? 4 : s == UPNP ? 16 : s == GP3P ? 8 : 1; return s == STEWENIUS || s == NISTER ? 10 : s == KNEIP5 ? 20 : s == SEVENPT ? 3 : s == SIXPT ? 64 : 1; }
template <class P> static void consensus(std::shared_ptr<P> p, const char *nm)
{
  for (int k = 0; k < 2; k++)
  {
    E().evaluations++; E().tick();
    if (k == 0) { sac::Ransac<P> r; r.sac_model_ = p; r.threshold_ = 1e-4; r.max_iterations_ = 4; bool ok = r.computeModel(); if (r.iterations_ > 5) MC_FAIL("%s: %d iterations", nm, r.iterations_); if (ok && r.model_.empty()) MC_FAIL("%s: success without a sample", nm); }
    else { sac::Lmeds<P> r; r.sac_model_ = p; r.threshold_ = 1e-4; r.max_iterations_ = 3; r.computeModel(); }
  }
}
int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  const int rigs[] = {0, 2, 4};
  // absolute: arrangement of the points x arrangement of the directions
  for (int a = 0; a < NARR; a++) for (int b = 0; b < NARR; b++) for (int k : rigs) for (int more = 0; more < (T ? 4 : 2); more++)
  {
    if (!T && !pick(a, b, k, more)) continue;
    if (!E().begin(fmt("abs:%d:%d:%d:%d", a, b, k, more))) continue;
    if (a == 0 && b == 0) E().sample(E().key);
    for (int s = 0; s < NABS; s++)
    {
      if (absCentralOnly(s) && k) continue;
      int n = std::max(absMin(s), s == ABSOPT ? 6 : 3) + (more ? 3 * more : 0); Rig r = rig(k, n);
      points_t p; bearingVectors_t f; std::vector<int> cc; int nc = r.off.size();
      for (int i = 0; i < n; i++)
      {
        p.push_back(entry(a, i, 3)); cc.push_back(i % nc);
        V3 d = b == 18 ? V3(r.rot[i % nc].transpose() * (p.back() - V3(1, 0, 1) - r.off[i % nc])) : entry(b, i, 7); // last: consistent with a pose
        f.push_back(b == 9 || b == 10 || !(d.norm() > 0) ? d : V3(d.normalized()));
      }
      std::unique_ptr<AA> ad; if (k == 0) ad.reset(new absolute_pose::CentralAbsoluteAdapter(f, p)); else ad.reset(new absolute_pose::NoncentralAbsoluteAdapter(f, cc, p, r.off, r.rot));
      for (int l = 0; l < 2; l++)
      {
        std::vector<int> ix = iota(n); std::reverse(ix.begin(), ix.end());
        Out o = runAbs(s, *ad, l ? &ix : nullptr); E().evaluations++; E().tick();
        if (o.count > bound(s, false)) MC_FAIL("%s: %d candidates", absName(s), o.count);
        E().outcome(mix(hashStr(E().key), s * 100 + o.count));
      }
    }
    using namespace sac_problems::absolute_pose; typedef AbsolutePoseSacProblem P;
    int n = 8 + more; Rig r = rig(k, n); points_t p; bearingVectors_t f; std::vector<int> cc; int nc = r.off.size();
    for (int i = 0; i < n; i++) { p.push_back(entry(a, i, 3)); cc.push_back(i % nc); V3 d = entry(b, i, 7); f.push_back(!(d.norm() > 0) ? d : V3(d.normalized())); }
    std::unique_ptr<AA> ad; if (k == 0) ad.reset(new absolute_pose::CentralAbsoluteAdapter(f, p)); else ad.reset(new absolute_pose::NoncentralAbsoluteAdapter(f, cc, p, r.off, r.rot));
    const P::algorithm_t al[] = {P::TWOPT, P::KNEIP, P::GAO, P::EPNP, P::GP3P};
    for (auto x : al) consensus(std::make_shared<P>(*ad, x, false), "absolute problem");
  }
  // relative: arrangement of the directions in both views
  for (int a = 0; a < NARR; a++) for (int b = 0; b <= NARR; b++) for (int k : rigs) for (int more = 0; more < (T ? 4 : 2); more++)
  {
    if (!T && !pick(a, b, k, more)) continue;
    if (!E().begin(fmt("rel:%d:%d:%d:%d", a, b, k, more))) continue;
    if (a == 0 && b == 0) E().sample(E().key);
    auto build = [&](int n, bearingVectors_t &f1, bearingVectors_t &f2, std::vector<int> &cc, Rig &r) {
      r = rig(k, n); int nc = r.off.size(); f1.clear(); f2.clear(); cc.clear();
      for (int i = 0; i < n; i++)
      {
        V3 p = entry(a, i, 3), q = b == NARR ? V3(rotations40()[7] * (p - V3(1, 0, 2))) : entry(b, i, b == a ? 3 : 7); int c = i % nc; cc.push_back(c);
        p = r.rot[c].transpose() * (p - r.off[c]); q = r.rot[c].transpose() * (q - r.off[c]);
        f1.push_back(!(p.norm() > 0) || a == 9 || a == 10 ? p : V3(p.normalized())); f2.push_back(!(q.norm() > 0) ? q : V3(q.normalized()));
      }
    };
    bearingVectors_t f1, f2; std::vector<int> cc; Rig r;
    auto mk = [&]() { return std::unique_ptr<RA>(k == 0 ? (RA *)new relative_pose::CentralRelativeAdapter(f1, f2) : (RA *)new relative_pose::NoncentralRelativeAdapter(f1, f2, cc, cc, r.off, r.rot)); };
    for (int s = 0; s < NREL; s++)
    {
      if (relCentralOnly(s) && k) continue;
      int n = std::max(relMin(s), s == RELOPT ? 6 : 2) + (relExactCount(s) ? 0 : 3 * more); build(n, f1, f2, cc, r); auto ad = mk();
      ad->sett12(V3(.1, .2, .3));
      for (int l = 0; l < 2; l++)
      {
        std::vector<int> ix = iota(n); std::reverse(ix.begin(), ix.end());
        if (l && (s == RELOPT || s == GE || s == GEW) && !T) continue;
        Out o = runRel(s, *ad, l ? &ix : nullptr); E().evaluations++; E().tick();
        if (o.count > bound(s, true)) MC_FAIL("%s: %d candidates", relName(s), o.count);
        E().outcome(mix(hashStr(E().key), s * 100 + o.count));
      }
      for (int i = 0; i < n; i++) { triangulation::triangulate(*ad, i); triangulation::triangulate2(*ad, i); E().evaluations += 2; }
    }
    using namespace sac_problems::relative_pose;
    build(k == 0 ? 10 + more : 19 + more, f1, f2, cc, r); auto ad = mk();
    if (k == 0)
    {
      typedef CentralRelativePoseSacProblem P; for (auto x : {P::STEWENIUS, P::NISTER, P::SEVENPT, P::EIGHTPT}) consensus(std::make_shared<P>(*ad, x, false), "central relative problem");
      consensus(std::make_shared<RotationOnlySacProblem>(*ad, false), "rotation problem"); consensus(std::make_shared<TranslationOnlySacProblem>(*ad, false), "translation problem");
      consensus(std::make_shared<EigensolverSacProblem>(*ad, 8, false), "eigensolver problem");
    }
    { typedef NoncentralRelativePoseSacProblem P; consensus(std::make_shared<P>(*ad, P::SEVENTEENPT, k == 0, false), "non-central relative problem"); if (more == 0) consensus(std::make_shared<P>(*ad, P::SIXPT, k == 0, false), "non-central relative problem"); if (T) consensus(std::make_shared<P>(*ad, P::GE, k == 0, false), "non-central relative problem"); }
  }
  // point clouds
  for (int a = 0; a < NARR; a++) for (int b = 0; b < NARR; b++)
  {
    if (!E().begin(fmt("cloud:%d:%d", a, b))) continue;
    for (int n : {3, 4, 9})
    {
      points_t p, q; for (int i = 0; i < n; i++) { p.push_back(entry(a, i, 3)); q.push_back(entry(b, i, b == a ? 3 : 7)); }
      point_cloud::PointCloudAdapter ad(p, q); std::vector<int> ix = iota(n); std::reverse(ix.begin(), ix.end());
      point_cloud::threept_arun(ad); point_cloud::threept_arun(ad, ix); point_cloud::optimize_nonlinear(ad); point_cloud::optimize_nonlinear(ad, ix); E().evaluations += 4;
      if (n > 3) consensus(std::make_shared<sac_problems::point_cloud::PointCloudSacProblem>(ad, false), "point cloud problem");
      E().outcome(mix(hashStr(E().key), n));
    }
  }
  return E().finish();
}
