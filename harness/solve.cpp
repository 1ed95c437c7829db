// Pose solvers on exact (and slightly disturbed) data: the true pose is found (P12 - P15).
// Every case is a block of scenes that differ in one parameter; a solver is either judged on
// every scene of the block, or (solvers with known numerical gaps) on the share of the block
// it must get right.
#include "solvers.hpp"
#include <opengv/absolute_pose/modules/main.hpp>
#include <algorithm>
using namespace mc;
using namespace sv;

struct Blk
{
  std::map<std::string, std::pair<int, int>> cnt; // name -> failed, total
  std::map<std::string, double> lim;              // name -> largest share that may fail
  std::map<std::string, std::string> ex;
  void strict(const std::string &nm, double e, double tol, const std::string &where)
  {
    E().evaluations++;
    if (getenv("MC_SHOW")) E().maxi(nm, e);
if (!(e < tol)) MC_FAIL("%s: error %g (%s)", nm.c_str(), e, where.c_str());
    else E().outcome(mix(hashStr(E().key), hashStr(nm + where)));
  }
  void share(const std::string &nm, double e, double tol, double limit, const std::string &where)
  {
    E().evaluations++;
    auto &c = cnt[nm]; c.second++; lim[nm] = limit;
    if (!(e < tol)) { c.first++; if (!ex.count(nm)) ex[nm] = where; }
    else E().outcome(mix(hashStr(E().key), hashStr(nm + where)));
  }
  void close()
  {
    for (auto &c : cnt)
    {
      double f = (double)c.second.first / c.second.second;
      if (getenv("MC_SHOW")) { E().maxi("share " + c.first, f); E().maxi("size " + c.first, -c.second.second); }
      if (f > lim[c.first] && c.second.first > 1) MC_FAIL("%s: wrong in %d of %d scenes of the block, e.g. %s", c.first.c_str(), c.second.first, c.second.second, ex[c.first].c_str());
    }
  }
};
static M3 skew(const V3 &v) { M3 S; S << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return S; }
static const std::vector<M3> &allRot()
{
  static std::vector<M3> v = [] { std::vector<M3> r = rotations40(); r.insert(r.end(), rotations192().begin(), rotations192().end()); return r; }();
  return v;
}
// smallest singular value of the derivative of the bearing vectors with respect to the pose
static double absCond(const AbsScene &s, const std::vector<int> &ix)
{
  Eigen::MatrixXd J(3 * ix.size(), 6);
  for (size_t k = 0; k < ix.size(); k++)
  {
    int i = ix[k], c = s.cc[i];
    V3 q = s.R.transpose() * (s.pts[i] - s.t), d = q - s.r.off[c];
    double n = d.norm(); V3 u = d / n;
    M3 P = (M3::Identity() - u * u.transpose()) / n;
    J.block<3, 3>(3 * k, 0) = P * skew(q) * 0.2; // rotation about the body origin, scaled
    J.block<3, 3>(3 * k, 3) = P;
  }
  return Eigen::JacobiSVD<Eigen::MatrixXd>(J).singularValues()[5];
}
// points on a small lattice in front of the camera (z 3..6) or around it
static V3 latticePoint(int set, int i, int shape)
{
  if (shape == 4) { V3 v; int k = 0; do { v = V3(lat(set, i, 10 + k, 3), lat(set, i, 50 + k, 3), lat(set, i, 90 + k, 3)); k++; } while (v.norm() < 1.9); return v; }
  return V3(lat(set, i, 1, 2), lat(set, i, 2, 2), 4 + lat(set, i, 3, 1));
}
static std::shared_ptr<AbsScene> latticeScene(int n, int rigKind, const M3 &R, const V3 &t, int set, int shape)
{
  auto s = absScene(n, rigKind, R, t, set, 0);
  for (int i = 0; i < n; i++)
  {
    int c = i % (int)s->r.off.size(); V3 l = latticePoint(set, i, shape);
    s->pts[i] = R * l + t; s->f[i] = (s->r.rot[c].transpose() * (l - s->r.off[c])).normalized();
  }
  return s;
}

// ---------------------------------------------------------------- absolute, minimal (P12)
static double bestPose(const Out &o, const transformation_t &T) { double e = 1e300; for (auto &X : o.poses) e = std::min(e, poseErr(X, T)); return e; }
static void p12(bool T)
{
  const auto &RR = allRot();
  for (int set = 0; set < (T ? 24 : 6); set++) for (int shape = 0; shape < 5; shape++) for (int tr = 0; tr < 27; tr += (T ? 1 : 2)) for (int rg = 0; rg < 2; rg++)
  {
    if (!E().begin(fmt("p3p:set=%d:shape=%d:t=%d:rig=%d", set, shape, tr, rg))) continue;
    Blk b;
    for (size_t r = 0; r < RR.size(); r++)
    {
      E().tick();
      V3 t = trans27(tr) * (set % 2 ? 3.0 : 1.0);
      auto s = shape < 3 ? absScene(5, rg, RR[r], t, set, shape) : latticeScene(5, rg, RR[r], t, set, shape);
      auto a = s->adapter();
      // pose of the camera itself
      transformation_t C; C.block<3, 3>(0, 0) = RR[r] * s->r.rot[0]; C.col(3) = RR[r] * s->r.off[0] + t;
      std::vector<std::vector<int>> tri = {{0, 1, 2}, {4, 2, 0}, {3, 1, 4}, {2, 0, 1}};
      for (size_t k = 0; k < tri.size(); k++)
      {
        auto &ix = tri[k];
        double c = absCond(*s, ix);
        bool col = false; { V3 A = s->pts[ix[1]] - s->pts[ix[0]], B = s->pts[ix[2]] - s->pts[ix[0]]; col = !(A.cross(B).norm() > 0.1 * A.norm() * B.norm()); }
        double sep = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) sep = std::min(sep, s->f[ix[i]].cross(s->f[ix[j]]).norm());
        if (c < 3e-3 || col || sep < 0.05) { E().counters["close to degenerate, not judged"]++; continue; }
        double tol = 1e-6 / (c * c) * 1e-2; // 1e-8/c^2: 1e-4 at c = 0.01
        std::string w = fmt("rot=%zu triple %s cond %g", r, joinInts(ix).c_str(), c);
        Out ok = runAbs(P3P_KNEIP, *a, &ix), og = runAbs(P3P_GAO, *a, &ix);
        if (shape < 3) b.strict("p3p_kneip", bestPose(ok, C), tol, w);
        if (shape < 3) b.strict("p3p_gao", bestPose(og, C), tol, w);
        // candidates are at most four, and proper poses
        if (ok.count > 4 || og.count > 4) MC_FAIL("%d and %d candidates", ok.count, og.count);
        for (auto &X : ok.poses) if (X.allFinite() && !isRotation(X.block<3, 3>(0, 0), 1e-6)) MC_FAIL("p3p_kneip: candidate is no pose (%s)", w.c_str());
        for (auto &X : og.poses) if (X.allFinite() && !isRotation(X.block<3, 3>(0, 0), 1e-6)) MC_FAIL("p3p_gao: candidate is no pose (%s)", w.c_str());
        // p2p, known orientation
        a->setR(C.block<3, 3>(0, 0));
        for (auto &two : std::vector<std::vector<int>>{{ix[0], ix[1]}, {ix[2], ix[0]}})
        {
          V3 A = s->f[two[0]], B = s->f[two[1]];
          if (A.cross(B).norm() < 0.1 || (s->pts[two[0]] - s->pts[two[1]]).norm() < 0.3) continue;
          b.strict("p2p", absError(P2P, runAbs(P2P, *a, &two), C), 1e-8, fmt("rot=%zu pair %s", r, joinInts(two).c_str()));
        }
      }
    }
    b.close();
  }
  for (int set = 0; set < (T ? 24 : 6); set++) for (int shape : {0, 1}) for (int tr = 0; tr < 27; tr += (T ? 1 : 3)) for (int rg : {2, 3, 4, 5})
  {
    if (!E().begin(fmt("gp3p:set=%d:shape=%d:t=%d:rig=%d", set, shape, tr, rg))) continue;
    Blk b;
    for (int r = 0; r < 192; r += 2)
    {
      E().tick();
      auto s = absScene(7, rg, rotations192()[r], trans27(tr), set, shape); auto a = s->adapter();
      for (auto &ix : std::vector<std::vector<int>>{{0, 1, 2}, {5, 3, 1}})
      {
        double c = absCond(*s, ix); if (c < 5e-3) { E().counters["close to degenerate, not judged"]++; continue; }
        b.share("gp3p", bestPose(runAbs(GP3P, *a, &ix), s->truth()), 1e-3, 0.3, fmt("rot=%d %s cond %g", r, joinInts(ix).c_str(), c));
      }
    }
    b.close();
  }
}

// ---------------------------------------------------------------- absolute, n points (P13)
static void noisy(AbsScene &s, int set, double amount)
{ for (int i = 0; i < s.n; i++) s.f[i] = (s.f[i] + amount * V3(frac(81, i, set), frac(82, i, set), frac(83, i, set))).normalized(); }
static void p13(bool T)
{
  const auto &RR = allRot();
  for (int set = 0; set < (T ? 16 : 4); set++) for (int tr = 0; tr < 27; tr += (T ? 1 : 2)) for (int n : {6, 7, 8, 10, 13, 20, 33})
  {
    if (!E().begin(fmt("npoint:set=%d:t=%d:n=%d", set, tr, n))) continue;
    Blk b;
    int step = (T ? 1 : n > 12 ? 4 : 2);
    for (size_t r = (set + tr + n) % step; r < RR.size(); r += step)
    {
      E().tick();
      V3 t = trans27(tr);
      bool generic = r >= 40;
      // a scattered list of indices into a larger scene, with wrong data elsewhere
      auto pick = [&](AbsScene &s, int n) {
        std::vector<int> ix = iota(s.n);
        std::sort(ix.begin(), ix.end(), [&](int a, int b) { return mix(a, set + 77) < mix(b, set + 77); });
        for (int i = n; i < s.n; i++) s.f[ix[i]] = V3(0, 0, 1);
        ix.resize(n); return ix; };
      for (int rg = 0; rg < NRIG; rg++)
      {
        auto all = absScene(n, rg, RR[r], t, set, 1), gen = absScene(n, rg, RR[r], t, set, 0);
        auto a1 = all->adapter(), a0 = gen->adapter();
        std::string w = fmt("rot=%zu rig=%d", r, rg);
        transformation_t C; C.block<3, 3>(0, 0) = RR[r] * all->r.rot[0]; C.col(3) = RR[r] * all->r.off[0] + t;
        if (rg < 2)
        {
          b.strict("epnp", bestPose(runAbs(EPNP, *a1, 0), C), 1e-6, w);
          auto two = absScene(2 * n + 4, rg, RR[r], t, set, 1); auto ix = pick(*two, n); auto at = two->adapter();
          b.strict("epnp indices", bestPose(runAbs(EPNP, *at, &ix), C), 1e-6, w);
          auto z = absScene(n, rg, RR[r], t, set, 1); noisy(*z, set, 1e-4); auto az = z->adapter();
          if (n >= 10) b.strict("epnp noise", bestPose(runAbs(EPNP, *az, 0), C), 0.1, w);
        }
        else
        {
          b.strict("gpnp", bestPose(runAbs(GPNP, *a0, 0), gen->truth()), 1e-3, w);
          if (r % 2) b.strict("gpnp front", bestPose(runAbs(GPNP, *a1, 0), gen->truth()), 1e-3, w);
          auto two = absScene(2 * n + 4, rg, RR[r], t, set, 0); auto ix = pick(*two, n); auto at = two->adapter();
          if (r % 2 == 0) b.strict("gpnp indices", bestPose(runAbs(GPNP, *at, &ix), gen->truth()), 1e-3, w);
        }
        if (rg >= 2 && n <= 8 && r % 4 == 1)
        {
          auto z = absScene(n, rg, RR[r], t, set, 0); noisy(*z, set * 37 + tr + 200 * r, 2e-3); auto az = z->adapter();
          b.share("gpnp noise", bestPose(runAbs(GPNP, *az, 0), z->truth()), 0.06, T ? 0.3 : 0.2, w);
        }
        if (generic && n >= 7 && (int)r % 4 == rg % 4)
        {
          b.strict("upnp", bestPose(runAbs(UPNP, *a0, 0), gen->truth()), 1e-3, w);
          auto z = absScene(n, rg, RR[r], t, set, 0); noisy(*z, set, 1e-4); auto az = z->adapter();
          if (n >= 10) b.strict("upnp noise", bestPose(runAbs(UPNP, *az, 0), gen->truth()), 0.1, w);
        }
      }
    }
    b.close();
  }
  // UPnP from few correspondences, and from points on a plane; EPnP from points on a plane
  for (int set = 0; set < (T ? 16 : 5); set++) for (int shape = 0; shape < 3; shape++) for (int n : {3, 4, 5, 6, 9}) for (int rg = 0; rg < NRIG; rg++) for (int tr = (set + n) % 3; tr < 27; tr += (T ? 3 : 9))
  {
    if (!E().begin(fmt("few:set=%d:shape=%d:n=%d:rig=%d:t=%d", set, shape, n, rg, tr))) continue;
    Blk b;
    for (size_t r = n < 5 ? 40 : 0; r < RR.size(); r += 2)
    {
      E().tick();
      auto s = absScene(n, rg, RR[r], trans27(tr), set, shape); auto a = s->adapter();
      std::string w = fmt("rot=%zu", r);
      Out o = runAbs(UPNP, *a, 0); double e = bestPose(o, s->truth());
      if (n == 3) b.share("upnp three", e, 1e-3, 0.2, w);
      else if (n == 4) { if (shape < 2) b.share("upnp four", e, 0.1, 0.5, w); }
      else b.strict("upnp", e, 1e-3, w);
      if (rg == 0 && shape == 2 && n == 9) b.share("epnp plane", bestPose(runAbs(EPNP, *a, 0), s->truth()), 1e-3, 0.45, w);
    }
    b.close();
  }
  // GPnP's search in null spaces of every dimension up to five
  for (int d = 0; d <= 5; d++) for (int set = 0; set < (T ? 24 : 8); set++) for (int tr = 0; tr < 27; tr += (T ? 1 : 3)) for (double mag : {0.1, 2., 8.})
  {
    if (!E().begin(fmt("gpnp null space:dim=%d:set=%d:t=%d:mag=%g", d, set, tr, mag))) continue;
    Blk b;
    for (int r = 0; r < 192; r += 6)
    {
      E().tick();
      M3 R = rotations192()[r]; V3 t = trans27(tr); M3 U = rotations192()[(r * 7 + set) % 192];
      V3 c0(frac(set, 1, 1), frac(set, 2, 1), 6 + frac(set, 3, 1));
      points_t c; c.push_back(c0); for (int i = 0; i < 3; i++) c.push_back(c0 + 15 * U.col(i));
      Eigen::Matrix<double, 12, 1> x; for (int i = 0; i < 4; i++) x.segment<3>(3 * i) = R.transpose() * (c[i] - t);
      Eigen::MatrixXd W(12, std::max(1, d)); for (int i = 0; i < 12; i++) for (int j = 0; j < W.cols(); j++) W(i, j) = frac(set * 100 + r, i, j);
      W = Eigen::HouseholderQR<Eigen::MatrixXd>(W).householderQ() * Eigen::MatrixXd::Identity(12, W.cols());
      Eigen::Matrix<double, 12, 12> V = Eigen::Matrix<double, 12, 12>::Zero();
      for (int j = 0; j < d; j++) { V.col(11 - j) = W.col(j); x -= mag * (0.3 + 0.7 * std::fabs(frac(set, r, 90 + j))) * (j % 2 ? 1 : -1) * W.col(j); }
      transformation_t P = T0(), C; C.block<3, 3>(0, 0) = R; C.col(3) = t;
      absolute_pose::modules::gpnp_main(x, V, c, P);
      b.strict("gpnp null space", poseErr(P, C), 1e-5, fmt("rot=%d", r));
    }
    b.close();
  }
}

// ---------------------------------------------------------------- relative, central (P14)
static double relCond(const RelScene &s, const std::vector<int> &ix) // derivative of the epipolar constraints wrt R and the direction of t
{
  Eigen::MatrixXd J(ix.size(), 5);
  V3 t = s.t.normalized(); V3 u = t.unitOrthogonal(), v = t.cross(u);
  for (size_t k = 0; k < ix.size(); k++)
  {
    V3 a = s.f1[ix[k]], b = s.R * s.f2[ix[k]];
    // a . (t x b) ; b -> b + w x b, t -> t + d
    V3 g = a.cross(t); // a.(t x (w x b)) = (a x t).(w x b) = w.(b x (a x t))
    J.block<1, 3>(k, 0) = b.cross(g).transpose();
    J(k, 3) = a.dot(u.cross(b)); J(k, 4) = a.dot(v.cross(b));
  }
  return Eigen::JacobiSVD<Eigen::MatrixXd>(J).singularValues()[4];
}
static void relNoise(RelScene &s, int set, double amount)
{ for (int i = 0; i < s.n; i++) { s.f1[i] = (s.f1[i] + amount * V3(frac(91, i, set), frac(92, i, set), frac(93, i, set))).normalized(); s.f2[i] = (s.f2[i] + amount * V3(frac(94, i, set), frac(95, i, set), frac(96, i, set))).normalized(); } }
static void p14(bool T)
{
  const auto &RR = allRot();
  for (int set = 0; set < (T ? 12 : 3); set++) for (int tr = 0; tr < 27; tr++) for (int shape = 0; shape < 3; shape++)
  {
    if (!E().begin(fmt("rel:set=%d:t=%d:shape=%d", set, tr, shape))) continue;
    Blk b;
    int step = T ? 1 : 2;
    V3 t = trans27(tr) * (set % 2 ? 0.7 : 1.0);
    for (size_t r = (set + tr) % step; r < RR.size(); r += step)
    {
      E().tick();
      auto s = relScene(24, 0, RR[r], t, set, shape); auto a = s->adapter();
      auto W = [&](const std::vector<int> &ix) { return fmt("rot=%zu [%s]", r, joinInts(ix).c_str()); };
      std::vector<int> all = iota(24);
      auto run = [&](int m, const std::vector<int> &ix) { return relError(m, runRel(m, *a, &ix), *s); };
      if (t.norm() > 0)
      {
        a->setR12(RR[r]);
        for (auto &ix : std::vector<std::vector<int>>{{0, 1}, {5, 3}, {23, 11}})
        {
          // the two epipolar planes must differ
          V3 n1 = s->f1[ix[0]].cross(RR[r] * s->f2[ix[0]]), n2 = s->f1[ix[1]].cross(RR[r] * s->f2[ix[1]]);
          if (n1.norm() < 0.02 || n2.norm() < 0.02 || n1.normalized().cross(n2.normalized()).norm() < 0.02) continue;
          b.strict("twopt", run(TWOPT, ix), 1e-8, W(ix));
        }
        a->setR12(M3::Identity());
        std::vector<std::vector<int>> five = {{0, 1, 2, 3, 4}, {9, 14, 3, 20, 7}, {22, 6, 1, 15, 12}};
        for (auto &ix : five)
        {
          double c = relCond(*s, ix);
          if (c < 2e-3) { E().counters["five points close to degenerate"]++; continue; }
          std::string w = W(ix) + fmt(" cond %g", c);
          Out st = runRel(STEWENIUS, *a, &ix), ni = runRel(NISTER, *a, &ix);
          // rotations about a coordinate axis make the null space degenerate now and then
          if (r >= 40) b.strict("fivept_stewenius", relError(STEWENIUS, st, *s), 1e-7 / (c * c), w);
          else b.share("fivept_stewenius special", relError(STEWENIUS, st, *s), 1e-7 / (c * c), 0.3, w);
          b.share("fivept_nister", relError(NISTER, ni, *s), 1e-8 / (c * c), 0.1, w);
          if (st.count > 10 || ni.count > 10) MC_FAIL("%d and %d essential matrices", st.count, ni.count);
          for (auto &M : ni.ess) for (int i : ix) if (M.allFinite() && !(std::fabs(s->f1[i].dot(M * s->f2[i])) < 1e-7 * M.norm())) { MC_FAIL("fivept_nister: epipolar error %g (%s)", std::fabs(s->f1[i].dot(M * s->f2[i])), w.c_str()); break; }
          if (shape != 2 && r % 4 == 0) b.share("fivept_kneip", run(KNEIP5, ix), 1e-4, T ? 0.85 : 0.4, w);
        }
        if (shape != 2)
        {
          // more than five points: least-squares null space
          for (int n : {6, 8, 24}) { auto ix = iota(n); b.strict("fivept_stewenius n>5", run(STEWENIUS, ix), 1e-4, W(ix)); b.share("fivept_nister n>5", run(NISTER, ix), 1e-4, 0.1, W(ix)); }
          for (auto &ix : std::vector<std::vector<int>>{iota(7), {20, 3, 17, 8, 11, 0, 14}, iota(9), all}) b.strict("sevenpt", run(SEVENPT, ix), 1e-6, W(ix));
          for (auto &ix : std::vector<std::vector<int>>{iota(8), {20, 3, 17, 8, 11, 0, 14, 23}, iota(11), all}) b.strict("eightpt", run(EIGHTPT, ix), 1e-6, W(ix));
          // eigenvalue minimisation from close starts
          if (r >= 40 && r % 3 == 0) for (int k = 0; k < 27; k += 2)
          {
            a->setR12(RR[r] * smallRot(k, 0.02));
            for (int m : {EIGEN, EIGENW}) b.share(relName(m), run(m, all), 1e-4, T ? 0.6 : 0.5, fmt("rot=%zu start=%d", r, k));
          }
          auto z = relScene(24, 0, RR[r], t, set, shape); relNoise(*z, set, 1e-4); auto az = z->adapter();
          b.strict("eightpt noise", relError(EIGHTPT, runRel(EIGHTPT, *az, 0), *s), 0.2, W(all));
        }
      }
      // rotation only
      auto q = relScene(24, 0, RR[r], V3(0, 0, 0), set, shape); auto aq = q->adapter();
      for (auto &ix : std::vector<std::vector<int>>{{0, 1}, {7, 2}, {13, 22}})
      {
        if (q->f1[ix[0]].cross(q->f1[ix[1]]).norm() < 0.02) continue;
        b.strict("twopt_rotationOnly", relError(TWOPT_ROT, runRel(TWOPT_ROT, *aq, &ix), *q), 1e-8, W(ix));
      }
      for (auto &ix : std::vector<std::vector<int>>{{0, 1, 2}, {7, 2, 19, 5}, all})
      {
        Eigen::MatrixXd F(3, ix.size()); for (size_t i = 0; i < ix.size(); i++) F.col(i) = q->f1[ix[i]];
        if (Eigen::JacobiSVD<Eigen::MatrixXd>(F).singularValues()[1] < 0.02) continue;
        b.strict("rotationOnly", relError(ROTONLY, runRel(ROTONLY, *aq, &ix), *q), 1e-8, W(ix));
      }
    }
    b.close();
  }
}

// ---------------------------------------------------------------- relative, non-central (P15)
static void p15(bool T)
{
  const auto &RR = allRot();
  for (int set = 0; set < (T ? 8 : 2); set++) for (int tr = 0; tr < 27; tr += (T ? 1 : 2)) for (int rg : {2, 3, 4, 5}) for (int cross = 0; cross < 2; cross++)
  {
    V3 t = trans27(tr + (T ? 0 : set % 2)); if (t.norm() == 0) continue;
    if (!E().begin(fmt("non:set=%d:t=%d:rig=%d:cross=%d", set, tr, rg, cross))) continue;
    Blk b;
    for (size_t r = 0; r < RR.size(); r += (T ? 2 : 4))
    {
      E().tick();
      auto s = relScene(40, rg, RR[r], t, set, 0, cross); auto a = s->adapter();
      auto w = fmt("rot=%zu", r);
      if (rg >= 3) for (auto &ix : std::vector<std::vector<int>>{iota(17), iota(17, 20), iota(25), iota(40)})
        {
        double e = relError(SEVENTEEN, runRel(SEVENTEEN, *a, &ix), *s);
        if (r >= 40) b.strict("seventeenpt", e, 1e-5, w + fmt(" n=%zu", ix.size()));
        else b.share("seventeenpt special", e, 1e-5, 0.6, w + fmt(" n=%zu", ix.size()));
      }
      if (r % 8 == 0 && rg >= 3) for (auto &ix : std::vector<std::vector<int>>{iota(6), {7, 30, 12, 25, 18, 3}})
        b.share("sixpt", relError(SIXPT, runRel(SIXPT, *a, &ix), *s), 1e-2, 0.85, w);
      if (r >= 40) for (int k = 0; k < 27; k += 13)
      {
        geOutput_t g; g.rotation = RR[r] * smallRot(k, 0.005);
        relative_pose::ge(*a, iota(40), g, false);
        double e = std::max(rotErr(g.rotation, RR[r]), vecErr(g.translation.block<3, 1>(0, 0) / g.translation[3], t));
        b.share("ge", e, 1e-3, 0.7, w + fmt(" start=%d", k));
      }
    }
    b.close();
  }
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  std::string what = "P12";
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  bool T = E().thorough;
  if (what == "P12") p12(T);
  if (what == "P13") p13(T);
  if (what == "P14") p14(T);
  if (what == "P15") p15(T);
  return E().finish();
}
