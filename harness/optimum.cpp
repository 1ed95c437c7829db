// P31: estimates from many disturbed correspondences are the optimum of the error they are defined by.
// P32: what the eigenvalue solvers return besides the rotation belongs to that rotation.
#include "calls.hpp"
#include "judge.hpp"
#include <opengv/triangulation/methods.hpp>
using namespace mc;
using namespace cl;
static M3 skew(const V3 &v) { M3 S; S << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return S; }
static M3 rotv(const V3 &w) { double a = w.norm(); return a < 1e-14 ? M3(M3::Identity() + skew(w)) : M3(Eigen::AngleAxisd(a, w / a).toRotationMatrix()); }
typedef Eigen::Matrix<double, 9, 9> M9;
// the rotation that maximises sum of a . R b, by the largest eigenvalue of a 4x4 matrix (quaternions)
static double hornMax(const M3 &S) // S = sum a bT
{
  M3 M = S.transpose(); V3 d(M(1, 2) - M(2, 1), M(2, 0) - M(0, 2), M(0, 1) - M(1, 0)); Eigen::Matrix4d K;
  K(0, 0) = M.trace(); K.block<3, 1>(1, 0) = d; K.block<1, 3>(0, 1) = d.transpose(); K.block<3, 3>(1, 1) = M + M.transpose() - M.trace() * M3::Identity();
  return Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(K).eigenvalues()[3];
}
template <class V> static M3 spread(const V &a, const V &b, const std::vector<int> &ix)
{
  V3 ca(0, 0, 0), cb(0, 0, 0); for (int i : ix) { ca += a[i]; cb += b[i]; } ca /= ix.size(); cb /= ix.size();
  M3 S = M3::Zero(); for (int i : ix) S += (a[i] - ca) * (b[i] - cb).transpose(); return S;
}
static std::vector<int> pick(int n, int k) // some lists: all in order, backwards without some, rotated
{
  std::vector<int> v;
  if (k == 0) return iota(n);
  if (k == 1) { for (int i = n - 1; i >= 0; i--) if (n <= 8 || i % 4 != 1) v.push_back(i); return v; }
  for (int i = 0; i < n; i++) v.push_back((i * 7 + 3) % n);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); return v;
}
// relative decrease of the costs by small motions
template <class F> static double improve(const transformation_t &T, F cost, double step)
{
  double c0 = cost(T), w = 0;
  for (int k = 0; k < 12; k++)
  {
    transformation_t X = T; double d = (k % 2 ? 1 : -1) * step;
    if (k < 6) X.block<3, 3>(0, 0) = T.block<3, 3>(0, 0) * rotv(V3::Unit(k / 2) * d); else X.col(3) += V3::Unit((k - 6) / 2) * d;
    w = std::max(w, (c0 - cost(X)) / c0);
  }
  return c0 == c0 ? w : 1e300;
}
static double nrm(double x) { return x == x ? x : 1e300; }
static void optimum(bool T)
{
  const double noises[] = {1e-3, 1e-2, 5e-2};
  for (int ni = 0; ni < 3; ni++) for (int n : {3, 5, 6, 8, 9, 12, 30, 100}) for (int set = 0; set < (T ? 150 : 15); set++)
  {
    if (!E().begin(fmt("optimum:noise=%d:n=%d:set=%d", ni, n, set))) continue;
    if (set == 0 && n == 8) E().sample(E().key);
    double noise = noises[ni]; Judge b; const auto &RR = rotations192();
    for (int r = 0; r < 192; r += T ? 3 : 8)
    {
      M3 R = RR[(r + set) % 192]; V3 t = trans27((r + set * 5) % 27); double tr = R.trace(); int seed = set * 211 + r;
      // rotation only
      {
        auto q = relScene(n, r % 3 == 2 ? 1 : 0, R, V3(0, 0, 0), seed, 0); disturb(q->f1, seed, noise); disturb(q->f2, seed + 3, noise); auto a = q->adapter();
        for (int k = 0; k < 3; k++)
        {
          auto ix = pick(n, k); Out o = runRel(ROTONLY, *a, k ? &ix : 0); M3 C = a->getCamRotation1(0);
          M3 S = spread(q->f1, q->f2, ix); // one camera: the rotation of the camera
          M3 G = r % 3 == 2 ? o.rots[0] : o.rots[0];
          (void)C;
          double best = hornMax(S), got = (G.transpose() * S).trace();
          b.strict("rotationOnly", nrm((best - got) / S.norm()) + (isRotation(G, 1e-9) ? 0 : 1), 1e-12, fmt("r=%d list=%d", r, k));
        }
      }
      // point clouds
      {
        points_t p1, p2; for (int i = 0; i < n; i++) { p2.push_back(localPoint(seed, i, r % 3)); p1.push_back(R * p2.back() + t + 10 * noise * V3(frac(seed, i, 7), frac(seed, i, 8), frac(seed, i, 9))); }
        point_cloud::PointCloudAdapter pc(p1, p2);
        for (int k = 0; k < 3; k++)
        {
          auto ix = pick(n, k); transformation_t X = k ? point_cloud::threept_arun(pc, ix) : point_cloud::threept_arun(pc);
          M3 S = spread(p1, p2, ix), G = X.block<3, 3>(0, 0); V3 ca(0, 0, 0), cb(0, 0, 0); for (int i : ix) { ca += p1[i]; cb += p2[i]; }
          b.strict("arun rotation", nrm((hornMax(S) - (G.transpose() * S).trace()) / S.norm()) + (isRotation(G, 1e-9) ? 0 : 1), 1e-12, fmt("r=%d list=%d", r, k));
          b.strict("arun translation", vecErr(X.col(3), ca / ix.size() - G * cb / ix.size()), 1e-11, fmt("r=%d list=%d", r, k));
          // the refinement, started nearby, ends at the same costs
          if (tr > -0.9 && n >= 8)
          {
            auto cost = [&](const transformation_t &Y) { double c = 0; for (int i : ix) c += (p1[i] - Y.block<3, 3>(0, 0) * p2[i] - Y.col(3)).squaredNorm(); return c; };
            pc.setR12(R * smallRot((r + k) % 27, .05)); pc.sett12(t + V3(.1, -.1, .05)); transformation_t Y = k ? point_cloud::optimize_nonlinear(pc, ix) : point_cloud::optimize_nonlinear(pc);
            b.share(fmt("cloud refinement %g n %d", noise, n), cost(Y) / cost(X) - 1, 0.01, 0.3, fmt("r=%d list=%d", r, k));
          }
        }
      }
      // triangulation
      if (t.norm() > 0)
      {
        auto q = relScene(n, 0, R, t, seed, 0); disturb(q->f1, seed, noise); disturb(q->f2, seed + 3, noise); auto a = q->adapter(); a->setR12(R); a->sett12(t);
        for (int i = 0; i < n; i++)
        {
          V3 d1 = q->f1[i], d2 = R * q->f2[i]; double p = d1.dot(d2), den = 1 - p * p; if (den < 1e-3) continue;
          double s = (t.dot(d1) - p * t.dot(d2)) / den, u = (p * t.dot(d1) - t.dot(d2)) / den; V3 P = 0.5 * (s * d1 + t + u * d2);
          b.strict("triangulate2", vecErr(triangulation::triangulate2(*a, i), P) / (1 + P.norm()), 1e-9 / den, fmt("r=%d i=%d", r, i));
          Eigen::Matrix<double, 3, 4> P1, P2; P1 << M3::Identity(), V3::Zero(); P2 << R.transpose(), -R.transpose() * t; Eigen::Matrix<double, 6, 4> A; A << skew(q->f1[i]) * P1, skew(q->f2[i]) * P2;
          Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(A.transpose() * A); Eigen::Vector4d x = es.eigenvectors().col(0); V3 X = x.head<3>() / x[3]; double gap = es.eigenvalues()[1] - es.eigenvalues()[0];
          if (std::fabs(x[3]) > 0.02 && gap > 1e-3) b.strict("triangulate", vecErr(triangulation::triangulate(*a, i), X) / (1 + X.norm()), 1e-9 / gap / std::fabs(x[3]), fmt("r=%d i=%d", r, i));
        }
      }
      // essential matrix
      if (t.norm() > 0 && n >= 8)
      {
        auto q = relScene(n, 0, R, t, seed, 0); disturb(q->f1, seed, noise); disturb(q->f2, seed + 3, noise); auto a = q->adapter();
        for (int k = 0; k < 3; k++)
        {
          auto ix = pick(n, k); if (ix.size() < 8) continue; M9 A = M9::Zero();
          for (int i : ix) { Eigen::Matrix<double, 9, 1> x; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) x[3 * u + v] = q->f1[i][u] * q->f2[i][v]; A += x * x.transpose(); }
          Eigen::SelfAdjointEigenSolver<M9> es(A); M3 X; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) X(u, v) = es.eigenvectors()(3 * u + v, 0);
          Eigen::JacobiSVD<M3> sv(X, Eigen::ComputeFullU | Eigen::ComputeFullV); V3 d = sv.singularValues(); double gap = es.eigenvalues()[1] - es.eigenvalues()[0]; V3 keep = d;
          d[2] = 0; X = sv.matrixU() * d.asDiagonal() * sv.matrixV().transpose();
          if (gap > 1e-4 && keep[1] > 0.05 + keep[2]) b.strict("eightpt", essErr(runRel(EIGHTPT, *a, k ? &ix : 0).ess[0], X), 1e-9 / gap, fmt("r=%d list=%d", r, k));
          // null spaces of the five and seven point methods from more correspondences: their candidates lie in the span of the smallest eigenvectors
          for (int five = 0; five < 3; five++)
          {
            int m = five ? 4 : 2; double g2 = es.eigenvalues()[m] - es.eigenvalues()[m - 1]; if (g2 < 1e-4) continue;
            Out o = runRel(five == 2 ? NISTER : five ? STEWENIUS : SEVENPT, *a, k ? &ix : 0);
            for (auto &M : o.ess)
            {
              if (five == 1) continue; // complex candidates: below
              Eigen::Matrix<double, 9, 1> x; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) x[3 * u + v] = M(u, v);
              double out = 0; for (int j = m; j < 9; j++) out += std::pow(es.eigenvectors().col(j).dot(x.normalized()), 2);
              b.strict(five ? "fivept_nister null space" : "sevenpt null space", nrm(std::sqrt(out)), 1e-9 / g2, fmt("r=%d list=%d", r, k));
            }
            if (five == 1)
              for (auto &M : k ? relative_pose::fivept_stewenius(*a, ix) : relative_pose::fivept_stewenius(*a))
              {
                double out = 0, nn = M.norm(); for (int j = m; j < 9; j++) { std::complex<double> z = 0; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) z += es.eigenvectors()(3 * u + v, j) * M(u, v) / nn; out += std::norm(z); }
                b.strict("fivept_stewenius null space", nrm(std::sqrt(out)), 1e-9 / g2, fmt("r=%d list=%d", r, k));
              }
          }
        }
      }
      // relative refinement
      if (t.norm() > 0 && n >= 12 && tr > -0.9)
        for (int rg : {0, 3})
        {
          auto q = relScene(n, rg, R, t, seed, 0); disturb(q->f1, seed, noise); disturb(q->f2, seed + 3, noise); auto a = q->adapter();
          a->setR12(R * smallRot(r % 27, .01)); a->sett12(t + V3(.02, -.01, .02)); transformation_t X = runRel(RELOPT, *a, 0).poses[0];
          auto cost = [&](const transformation_t &Y) {
            double c = 0; M3 Q = Y.block<3, 3>(0, 0);
            for (int i = 0; i < n; i++)
            {
              V3 o1 = a->getCamOffset1(i), d1 = a->getCamRotation1(i) * q->f1[i], o2 = Y.col(3) + Q * a->getCamOffset2(i), d2 = Q * (a->getCamRotation2(i) * q->f2[i]), bb = o2 - o1;
              double p = d1.dot(d2), den = 1 - p * p, s = (bb.dot(d1) - p * bb.dot(d2)) / den, u = (p * bb.dot(d1) - bb.dot(d2)) / den; V3 P = .5 * (o1 + s * d1 + o2 + u * d2);
              double e = 2 - (P - o1).normalized().dot(d1) - (P - o2).normalized().dot(d2); c += e * e;
            }
            return c; };
          b.share(fmt("relative refinement rig %d noise %g n %d", rg, noise, n), improve(X, cost, 1e-4), 0.05, 0.25, fmt("r=%d", r));
        }
      // absolute
      for (int rg : {0, 1, 3, 4})
      {
        auto q = absScene(n, rg, R, t, seed, rg >= 3 ? 0 : 1); disturb(q->f, seed, noise); auto a = q->adapter();
        auto cost = [&](const transformation_t &Y) { double c = 0; for (int i = 0; i < n; i++) { V3 p = Y.block<3, 3>(0, 0).transpose() * (q->pts[i] - Y.col(3)) - q->r.off[q->cc[i]]; double e = 1 - p.normalized().dot(q->r.rot[q->cc[i]] * q->f[i]); c += e * e; } return c; };
        auto obj = [&](const transformation_t &Y) { double c = 0; for (int i = 0; i < n; i++) { V3 p = Y.block<3, 3>(0, 0).transpose() * (q->pts[i] - Y.col(3)) - q->r.off[q->cc[i]], f = q->r.rot[q->cc[i]] * q->f[i]; c += (p - f * f.dot(p)).squaredNorm(); } return c; };
        transformation_t X = q->truth(); bool haveOpt = n >= 8 && tr > -0.9;
        if (haveOpt)
        {
          a->setR(R * smallRot(r % 27, .02)); a->sett(t + V3(.05, .02, 0)); X = runAbs(ABSOPT, *a, 0).poses[0];
          b.share(fmt("absolute refinement rig %d noise %g n %d", rg, noise, n), improve(X, cost, 1e-4), 0.05, 0.25, fmt("r=%d", r));
        }
        if (n >= 5)
        {
          for (int k = 0; k < 2; k++)
          {
            auto U = runAbs(UPNP, *a, 0).poses; double best = 1e300; transformation_t B = X; for (auto &Y : U) if (obj(Y) < best) { best = obj(Y); B = Y; }
            if (k == 0)
            {
              b.share(fmt("upnp rig %d noise %g n %d: stationary", rg, noise, n), improve(B, obj, 1e-4), 0.02, 0.2, fmt("r=%d", r));
              if (ni < 2 || rg >= 3) b.share(fmt("upnp rig %d noise %g n %d: not worse than the truth or the refinement", rg, noise, n), best / std::min(obj(X), obj(q->truth())), 1.01, 0.25, fmt("r=%d", r));
              b.share(fmt("upnp rig %d noise %g n %d: first is best", rg, noise, n), U.empty() ? 1e300 : obj(U[0]) / best, 1.05, ni < 2 ? 0.2 : 0.5, fmt("r=%d", r));
              // every candidate: best translation for its rotation
              double w = 0; for (auto &Y : U) { double c0 = obj(Y); for (int j = 0; j < 6; j++) { transformation_t Z = Y; Z.col(3) += (j % 2 ? 1 : -1) * 1e-3 * V3::Unit(j / 2); w = std::max(w, (c0 - obj(Z)) / c0); } }
              b.share(fmt("upnp noise %g: translation of every candidate", noise), U.empty() ? 1e300 : w, 1e-6, 0.1, fmt("r=%d", r));
            }
          }
        }
      }
    }
    b.close(10);
  }
}
// adapters whose correspondences have weights
struct WCentral : relative_pose::CentralRelativeAdapter { using CentralRelativeAdapter::CentralRelativeAdapter; std::vector<double> w; double getWeight(size_t i) const override { return w[i]; } };
struct WNoncentral : relative_pose::NoncentralRelativeAdapter { using NoncentralRelativeAdapter::NoncentralRelativeAdapter; std::vector<double> w; double getWeight(size_t i) const override { return w[i]; } };
static void eigen(bool T)
{
  const double noises[] = {0, 1e-3, 1e-2, 5e-2};
  for (int ni = 0; ni < 4; ni++) for (int n : {6, 8, 12, 30, 100}) for (int set = 0; set < (T ? 150 : 15); set++)
  {
    if (!E().begin(fmt("eigen:noise=%d:n=%d:set=%d", ni, n, set))) continue;
    if (set == 0 && n == 8) E().sample(E().key);
    double noise = noises[ni]; Judge b; const auto &RR = rotations192();
    for (int r = 0; r < 192; r += T ? 3 : 8)
    {
      M3 R = RR[(r + set) % 192]; V3 t = trans27((r + set * 5) % 27); int seed = set * 211 + r; if (t.norm() == 0) t = V3(1, 2, -1); if (R.trace() < -0.9) continue;
      auto q = relScene(n, 0, R, t, seed, 0); disturb(q->f1, seed, noise); disturb(q->f2, seed + 3, noise); WCentral ac(q->f1, q->f2), *a = &ac;
      for (int i = 0; i < n; i++) ac.w.push_back(1 + 0.9 * frac(seed, i, 80));
      for (int k = 0; k < 6; k++) // the last three: weighted
      {
        bool ww = k >= 3; auto ix = pick(n, k % 3); std::string w = fmt("r=%d list=%d", r, k); if ((int)ix.size() < 5) continue;
        eigensolverOutput_t e; e.rotation = R * smallRot((r + k) % 27, 0.01); if (k % 3) relative_pose::eigensolver(*a, ix, e, ww); else relative_pose::eigensolver(*a, e, ww);
        double wn = 0; for (int i : ix) wn += ac.w[i] * ac.w[i]; wn = std::sqrt(wn);
        auto Mof = [&](const M3 &Q) { M3 M = M3::Zero(); for (int i : ix) { V3 g = q->f1[i].cross(Q * q->f2[i]); M += (ww ? ac.w[i] / wn : 1) * g * g.transpose(); } return M; };
        M3 M = Mof(e.rotation); Eigen::SelfAdjointEigenSolver<M3> es(M); V3 ev = es.eigenvalues(); // ascending
        double gap = (ev[1] - ev[0]) / ev[2]; cayley_t c = math::rot2cayley(e.rotation); double f = std::pow(1 + c.squaredNorm(), 2);
        b.strict("eigensolver rotation", (e.rotation * e.rotation.transpose() - M3::Identity()).norm(), 1e-9, w);
        b.strict("eigensolver order", std::max(e.eigenvalues[1] - e.eigenvalues[0], e.eigenvalues[2] - e.eigenvalues[1]) / e.eigenvalues[0], 1e-9, w);
        for (int j = 0; j < 3; j++)
        {
          b.strict("eigensolver eigenvalues", std::fabs(e.eigenvalues[j] / f - ev[2 - j]) / ev[2], 1e-9, w);
          double g = j == 0 ? ev[2] - ev[1] : j == 2 ? ev[1] - ev[0] : std::min(ev[2] - ev[1], ev[1] - ev[0]); g /= ev[2];
          if (g > 1e-4) b.strict("eigensolver eigenvectors", axisErr(e.eigenvectors.col(j), es.eigenvectors().col(2 - j)), 1e-9 / g, w);
          b.strict("eigensolver unit eigenvectors", std::fabs(e.eigenvectors.col(j).norm() - 1), 1e-9, w);
        }
        if (gap > 1e-4) b.strict("eigensolver translation axis", axisErr(e.translation, es.eigenvectors().col(0)), 1e-9 / gap, w);
        b.strict("eigensolver translation length", std::fabs(e.translation.norm() / std::sqrt(e.eigenvalues[0] * e.eigenvalues[0] + e.eigenvalues[1] * e.eigenvalues[1]) - 1), 1e-9, w);
        if (noise > 0) { double l = ev[0], imp = 0; for (int j = 0; j < 6; j++) imp = std::max(imp, (l - Eigen::SelfAdjointEigenSolver<M3>(Mof(e.rotation * rotv(V3::Unit(j % 3) * (j < 3 ? 1e-3 : -1e-3)))).eigenvalues()[0]) / l); b.share(fmt("eigensolver rotation is stationary, noise %g n %d", noise, n), imp, 0.05, 0.2, w); }
      }
      // generalized cameras
      for (int rg : {2, 3, 4, 5})
      {
        if (n < 8 || (r / 8 + rg) % 2) continue;
        auto s = relScene(n, rg, R, t, seed, 0, r % 3 == 1); disturb(s->f1, seed, noise); disturb(s->f2, seed + 3, noise); WNoncentral gc(s->f1, s->f2, s->c1, s->c2, s->r.off, s->r.rot), *g = &gc;
        for (int i = 0; i < n; i++) gc.w.push_back(1 + 0.9 * frac(seed, i, 80));
        for (int k = 0; k < 6; k++)
        {
          bool ww = k >= 3; auto ix = pick(n, k % 3); std::string w = fmt("r=%d rig=%d list=%d", r, rg, k); geOutput_t o; o.rotation = M3::Identity(); if (k % 3) relative_pose::ge(*g, ix, o, ww); else relative_pose::ge(*g, o, ww);
          double wn = 0; for (int i : ix) wn += gc.w[i] * gc.w[i]; wn = std::sqrt(wn);
          auto Gof = [&](const M3 &Q) { Eigen::Matrix4d G = Eigen::Matrix4d::Zero(); for (int i : ix) { V3 d1 = g->getCamRotation1(i) * s->f1[i], d2 = g->getCamRotation2(i) * s->f2[i], m = d1.cross(Q * d2); Eigen::Vector4d v; v << m, (Q * g->getCamOffset2(i) - g->getCamOffset1(i)).dot(m); G += (ww ? gc.w[i] / wn : 1) * v * v.transpose(); } return G; };
          Eigen::Matrix4d G = Gof(o.rotation); Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(G); Eigen::Vector4d ev = es.eigenvalues();
          cayley_t c = math::rot2cayley(o.rotation); double f = std::pow(1 + c.squaredNorm(), 2);
          b.strict("ge rotation", (o.rotation * o.rotation.transpose() - M3::Identity()).norm(), 1e-9, w);
          for (int j = 0; j < 4; j++)
          {
            b.strict("ge eigenvalues", std::fabs(o.eigenvalues[j] / f - ev[3 - j]) / ev[3], 1e-7, w);
            double gg = 1e300; for (int m = 0; m < 4; m++) if (m != 3 - j) gg = std::min(gg, std::fabs(ev[m] - ev[3 - j]) / ev[3]);
            if (gg > 1e-5) { Eigen::Vector4d x = o.eigenvectors.col(j), y = es.eigenvectors().col(3 - j); b.strict("ge eigenvectors", std::min((x - y).norm(), (x + y).norm()), 1e-8 / gg, w); }
          }
          Eigen::Vector4d h = o.eigenvectors.col(3) / o.eigenvectors(3, 3);
          b.strict("ge translation", (o.translation - h).norm() / (1 + h.norm()), 1e-12, w);
          b.strict("ge homogeneous", std::fabs(o.translation[3] - 1), 1e-12, w);
          // the descent stops at a small slope
          double l = ev[0], imp = 0; for (int j = 0; j < 6; j++) imp = std::max(imp, (l - Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(Gof(o.rotation * rotv(V3::Unit(j % 3) * (j < 3 ? 1e-3 : -1e-3)))).eigenvalues()[0]) / l);
          if (getenv("MC_SHOW")) b.share(fmt("ge stationary rig %d noise %g", rg, noise), imp, 0.1, 1, w);
        }
      }
    }
    b.close(10);
  }
}
int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  std::string what = "optimum"; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  if (what == "optimum") optimum(T); else eigen(T);
  return E().finish();
}
