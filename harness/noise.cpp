// P35: what a disturbance of the data does to an estimate stays in proportion to the disturbance.
// The scale is the conditioning of the scene itself: the smallest singular value of the Jacobian of the exact
// directions (or angles between ray and epipolar plane) with respect to the pose.
#include "calls.hpp"
#include "judge.hpp"
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
using namespace mc;
using namespace cl;
typedef std::vector<int> VI; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;
// 1 / smallest singular value of the derivative of f at x = 0
static double cond(int np, std::function<VX(const VX &)> f, int &eqs)
{
  const double h = 1e-5; VX z = VX::Zero(np); MX J;
  for (int k = 0; k < np; k++) { VX a = z, b = z; a[k] += h; b[k] -= h; VX d = (f(a) - f(b)) / (2 * h); if (!k) J.resize(d.size(), np); J.col(k) = d; }
  eqs = J.rows(); double s = Eigen::JacobiSVD<MX>(J).singularValues()[np - 1]; return 1 / s;
}
static M3 exp3(const V3 &w) { double a = w.norm(); return a < 1e-300 ? M3(M3::Identity()) : Eigen::AngleAxisd(a, w / a).toRotationMatrix(); }
static double absCond(const AbsScene &s, bool fixedR)
{
  int m; return cond(fixedR ? 3 : 6, [&](const VX &x) { V3 t = s.t + x.head<3>(); M3 R = fixedR ? s.R : M3(s.R * exp3(x.tail<3>())); VX r(3 * s.n); for (int i = 0; i < s.n; i++) { int c = s.cc[i]; r.segment<3>(3 * i) = (s.r.rot[c].transpose() * (R.transpose() * (s.pts[i] - t) - s.r.off[c])).normalized(); } return r; }, m);
}
// kind 0 direction of translation and rotation, 1 full pose, 2 direction only, 3 rotation only (no translation)
static double relCond(const RelScene &s, int kind)
{
  int m; V3 u = s.t.norm() > 0 ? s.t.normalized() : V3(V3::UnitX()), p = u.unitOrthogonal(), q = u.cross(p);
  return cond(kind == 0 ? 5 : kind == 1 ? 6 : kind == 2 ? 2 : 3, [&](const VX &x) {
    M3 R = kind == 2 ? s.R : M3(s.R * exp3(kind == 3 ? V3(x.head<3>()) : V3(x.head<3>()))); V3 t = s.t;
    if (kind == 0) t = s.t.norm() * (u + x[3] * p + x[4] * q); if (kind == 1) t = s.t + x.tail<3>(); if (kind == 2) t = s.t.norm() * (u + x[0] * p + x[1] * q);
    VX r(kind == 3 ? 3 * s.n : s.n);
    for (int i = 0; i < s.n; i++)
    {
      V3 d1 = s.r.rot[s.c1[i]] * s.f1[i], d2 = R * (s.r.rot[s.c2[i]] * s.f2[i]);
      if (kind == 3) { r.segment<3>(3 * i) = d2; continue; }
      V3 b = t + R * s.r.off[s.c2[i]] - s.r.off[s.c1[i]]; r[i] = d1.dot(b.cross(d2).normalized());
    }
    return r; }, m);
}
int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  const auto &RR = rotations192(); const double eps[] = {1e-6, 1e-4, 1e-3, 5e-3};
  const int step = T ? 4 : 8;
  const int nsets = T ? 40 : 8;
  for (int ei = 0; ei < 4; ei++) for (int ni = 0; ni < 4; ni++)
  {
    double ep = eps[ei];
    for (int m : {P2P, P3P_KNEIP, P3P_GAO, GP3P, EPNP, GPNP, UPNP, ABSOPT}) for (int rg : {0, 3, 4})
    {
      if ((absCentralOnly(m) && rg) || ((m == GP3P || m == GPNP) && !rg) || (absExactCount(m) && ni)) continue;
      int least = m == P2P ? 2 : absExactCount(m) ? 3 : 6; int n = ni == 0 ? least : ni == 1 ? 10 : ni == 2 ? 30 : 100; if (m == GPNP && n < 10) n = 8;
      for (int shape : {0, 1, 2})
      {
        if (shape == 2 && (m == EPNP || m == GPNP || m == ABSOPT)) continue; // EPnP is not made for coplanar points
        if (!E().begin(fmt("%s:eps=%d:n=%d:rig=%d:shape=%d", absName(m), ei, n, rg, shape))) continue;
        Judge b;
        for (int set = 0; set < nsets; set++) for (int r = set * 3 % step; r < 192; r += step)
        {
          M3 R = RR[r]; V3 t = trans27((r + set * 5) % 27); int sd = set * 211 + r;
          auto s = absScene(n, rg, R, t, sd, shape); double k = absCond(*s, m == P2P); disturb(s->f, sd, ep); auto a = s->adapter();
          double unit = k * ep * std::sqrt(n); if (!(unit < 1e-2)) continue;
          if (m == P2P) { a->setR(R); }
          if (m == ABSOPT) { a->setR(R * smallRot(r % 27, 0.01)); a->sett(t + V3(.02, -.03, .01)); if (a->getR().trace() < -0.9) continue; }
          VI ix = iota(n); Out o = runAbs(m, *a, absExactCount(m) ? &ix : nullptr); double e = 1e300;
          if (m == P2P) e = o.trans.size() ? vecErr(o.trans[0], t) : e;
          else for (auto &P : o.poses) e = std::min(e, rotErr(P.block<3, 3>(0, 0), R) + vecErr(P.col(3), t));
          double K = m == GPNP ? 20 : 10, floor = m == ABSOPT ? 3e-4 : 1e-7;
          b.share(fmt("%s: error in proportion to the disturbance", absName(m)), e, K * unit + floor * (1 + k), m == GP3P ? 0.12 : 0.04, fmt("r=%d set=%d, unit %g", r, set, unit));
          if (getenv("MC_SHOW")) for (double x : {0.3, 1., 3., 10., 30., 100., 1000.}) b.share(fmt("%s n%d rig%d sh%d e%d K %g", absName(m), n, rg, shape, ei, x), e / unit, x, 1, "");
        }
        b.close(20);
      }
    }
    for (int m = 0; m < NREL; m++) for (int rg : {0, 3, 4})
    {
      bool cen = relCentralOnly(m); if ((cen && rg) || (!cen && !rg && m != RELOPT) || (relExactCount(m) && ni)) continue;
      int n = ni == 0 ? relMin(m) : ni == 1 ? 20 : ni == 2 ? 40 : 100; if (ni == 0 && (m == EIGEN || m == EIGENW || m == GE || m == GEW || m == RELOPT)) n = 12;
      if (!E().begin(fmt("%s:eps=%d:n=%d:rig=%d", relName(m), ei, n, rg))) continue;
      Judge b;
      for (int set = 0; set < nsets; set++) for (int r = set * 3 % step; r < 192; r += m == SIXPT || m == KNEIP5 ? 4 * step : step)
      {
        M3 R = RR[r]; V3 t = trans27((r + set * 5) % 27); if (t.norm() == 0) t = V3(0.5, 1, -0.5); bool ro = m == TWOPT_ROT || m == ROTONLY; if (ro) t.setZero(); int sd = set * 211 + r;
        bool local = m == EIGEN || m == EIGENW || m == GE || m == GEW; if (local) R = smallRot(r % 27, 0.1);
        auto s = relScene(n, rg, R, t, sd, 0, rg && m != SEVENTEEN); double k = relCond(*s, ro ? 3 : m == TWOPT ? 2 : rg ? 1 : 0); disturb(s->f1, sd, ep); disturb(s->f2, sd + 5, ep);
        double unit = k * ep * std::sqrt(2. * n); if (!(unit < 1e-2)) continue;
        std::vector<double> wt(n, 0.7); std::unique_ptr<RA> a; if (m == EIGENW || m == GEW) { if (rg == 0) a.reset(new relative_pose::CentralRelativeWeightingAdapter(s->f1, s->f2, wt)); else a = s->adapter(); } else a = s->adapter();
        a->setR12(m == TWOPT ? R : M3(R * smallRot(r % 27, 0.01))); a->sett12(t + V3(.01, -.02, .01)); if (m == RELOPT && a->getR12().trace() < -0.9) continue;
        VI ix = iota(n); Out o = runRel(m, *a, relExactCount(m) ? &ix : nullptr); double e = relError(m, o, *s);
        bool more = n > relMin(m); double K = m == STEWENIUS || m == NISTER ? 30 : m == EIGHTPT || m == SEVENPT || m == SEVENTEEN ? (more ? 5 : 30) : m == SIXPT ? 100 : 10, floor = m == RELOPT || m == GE || m == GEW ? 3e-4 : 1e-7;
        double lim = m == SIXPT ? 0.22 : m == NISTER || m == STEWENIUS ? (more ? 0.18 : 0.08) : m == GE || m == GEW ? (n < 40 ? 0.2 : 0.1) : m == SEVENPT ? 0.12 : m == EIGHTPT || m == RELOPT || m == KNEIP5 ? 0.06 : 0.03;
        b.share(fmt("%s: error in proportion to the disturbance", relName(m)), e, K * unit + floor * (1 + k), lim, fmt("r=%d set=%d, unit %g", r, set, unit));
        if (getenv("MC_SHOW")) for (double x : {0.3, 1., 3., 10., 30., 100., 1000.}) b.share(fmt("%s n%d rig%d e%d K %g", relName(m), n, rg, ei, x), e / unit, x, 1, "");
      }
      b.close(20);
    }
    for (int m = 0; m < 4; m++)
    {
      int n = m < 2 ? (ni == 0 ? (m ? 8 : 3) : ni == 1 ? 10 : ni == 2 ? 30 : 100) : 1; if (m > 1 && ni) continue;
      static const char *nm[] = {"arun", "cloud optimize", "triangulate", "triangulate2"};
      if (!E().begin(fmt("%s:eps=%d:n=%d", nm[m], ei, n))) continue;
      Judge b;
      for (int set = 0; set < nsets; set++) for (int r = set * 3 % step; r < 192; r += step)
      {
        M3 R = RR[r]; V3 t = trans27((r + set * 5) % 27); int sd = set * 211 + r, eqs; double e, unit;
        if (m < 2)
        {
          points_t p, p2; for (int i = 0; i < n; i++) { p2.push_back(localPoint(sd, i, 0)); p.push_back(R * p2.back() + t); }
          double k = cond(6, [&](const VX &x) { VX q(3 * n); for (int i = 0; i < n; i++) q.segment<3>(3 * i) = R * exp3(x.tail<3>()) * p2[i] + t + x.head<3>(); return q; }, eqs);
          for (int i = 0; i < n; i++) p[i] += 6 * ep * V3(frac(sd, i, 7), frac(sd, i, 8), frac(sd, i, 9));
          unit = k * 6 * ep * std::sqrt(n); if (!(unit < 1e-2)) continue;
          point_cloud::PointCloudAdapter a(p, p2, t + V3(.02, -.03, .01), R * smallRot(r % 27, 0.01)); if (m && a.getR12().trace() < -0.9) continue;
          transformation_t X = m ? point_cloud::optimize_nonlinear(a) : point_cloud::threept_arun(a); e = rotErr(X.block<3, 3>(0, 0), R) + vecErr(X.col(3), t);
        }
        else
        {
          if (t.norm() == 0) t = V3(0.5, 1, -0.5); auto s = relScene(1, 0, R, t, sd, r % 3 ? 0 : 1); V3 P = s->pts[0];
          double k = cond(3, [&](const VX &x) { VX q(6); V3 y = P + x; q.head<3>() = y.normalized(); q.tail<3>() = (R.transpose() * (y - t)).normalized(); return q; }, eqs);
          disturb(s->f1, sd, ep); disturb(s->f2, sd + 5, ep); unit = k * ep; if (!(unit < 0.5)) continue;
          auto a = s->adapter(); a->setR12(R); a->sett12(t); e = ((m == 2 ? triangulation::triangulate(*a, 0) : triangulation::triangulate2(*a, 0)) - P).norm();
        }
        b.share(fmt("%s: error in proportion to the disturbance", nm[m]), e, (m > 1 ? 10 : 4) * unit + (m == 1 ? 1e-5 : 1e-9), 0.02, fmt("r=%d set=%d, unit %g", r, set, unit));
        if (getenv("MC_SHOW")) for (double x : {0.3, 1., 3., 10., 30., 100., 1000.}) b.share(fmt("%s n%d e%d K %g", nm[m], n, ei, x), e / unit, x, 1, "");
      }
      b.close(20);
    }
  }
  return E().finish();
}
