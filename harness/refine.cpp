// P24: the non-linear refinements start from the prior, never get worse, and reach the true pose from its neighbourhood.
#include "solvers.hpp"
using namespace mc;
using namespace sv;

static double costAbs(const AA &a, const std::vector<int> &ix, const transformation_t &T)
{
  double c = 0; M3 R = T.block<3, 3>(0, 0); V3 t = T.col(3);
  for (int i : ix) { V3 q = a.getCamRotation(i).transpose() * (R.transpose() * (a.getPoint(i) - t) - a.getCamOffset(i)); double e = 1 - q.normalized().dot(a.getBearingVector(i)); c += e * e; }
  return c;
}
static double costRel(const RA &a, const std::vector<int> &ix, const transformation_t &T)
{
  double c = 0; M3 R = T.block<3, 3>(0, 0); V3 t = T.col(3);
  for (int i : ix)
  {
    // both cameras in the frame of viewpoint 1
    V3 o1 = a.getCamOffset1(i), d1 = a.getCamRotation1(i) * a.getBearingVector1(i);
    V3 o2 = t + R * a.getCamOffset2(i), d2 = R * (a.getCamRotation2(i) * a.getBearingVector2(i));
    // midpoint of the shortest connection
    V3 b = o2 - o1; double p = d1.dot(d2), den = 1 - p * p;
    double s = (b.dot(d1) - p * b.dot(d2)) / den, u = (p * b.dot(d1) - b.dot(d2)) / den;
    V3 X = 0.5 * (o1 + s * d1 + o2 + u * d2);
    double e = (1 - (X - o1).normalized().dot(d1)) + (1 - (X - o2).normalized().dot(d2));
    c += e * e;
  }
  return c;
}
static double costCloud(const points_t &a, const points_t &b, const std::vector<int> &ix, const transformation_t &T)
{ double c = 0; for (int i : ix) c += (a[i] - T.block<3, 3>(0, 0) * b[i] - T.col(3)).squaredNorm(); return c; }
static transformation_t pose(const M3 &R, const V3 &t) { transformation_t T; T.block<3, 3>(0, 0) = R; T.col(3) = t; return T; }
static bool halfTurn(const M3 &R) { return R.trace() < -0.995; }

static int nNear, nBad; static std::string firstBad; // starts whose end is judged in common
static void common(const char *nm)
{
  if (nNear) E().maxi(std::string("worst share of starts that end elsewhere, per cent, ") + nm, 100 * nBad / nNear);
  if (nNear >= 5 && nBad * 10 > nNear * 4) MC_FAIL("%s: %d of %d nearby starts end away from the true pose: %s", nm, nBad, nNear, firstBad.c_str());
  nNear = nBad = 0; firstBad.clear();
}
template <class F> static bool judge(const char *nm, const transformation_t &start, const transformation_t &got, const transformation_t &truth, F cost, double err, double tol, bool near, const std::string &where, bool share = false)
{
  E().evaluations++; E().tick();
  double c0 = cost(start), c1 = cost(got);
  if (!isRotation(got.block<3, 3>(0, 0), 1e-8)) { MC_FAIL("%s: not a pose: %s(%s)", nm, showM(got).c_str(), where.c_str()); return false; }
  if (!got.allFinite()) { MC_FAIL("%s: not a pose: %s(%s)", nm, showM(got).c_str(), where.c_str()); return false; }
  if (!std::isfinite(c1) || !std::isfinite(c0)) { E().maxi(std::string("costs undefined (exactly parallel rays), last case, ") + nm, 1); return true; }
  if (!(c1 <= c0 * (1 + 1e-9) + 1e-18)) { MC_FAIL("%s: costs %.10g after, %.10g before the refinement (%s)", nm, c1, c0, where.c_str()); return false; }
  if (near) E().maxi(std::string("1e18 costs ") + nm, std::min(1e15, c1 * 1e18));
  if (near && share) { nNear++; if (!(err < tol)) { nBad++; if (firstBad.empty()) firstBad = fmt("ends %.3g away (costs %.3g, start %.3g; %s)", err, c1, c0, where.c_str()); } return true; }
  if (near && !(err < tol)) { MC_FAIL("%s: ends %.3g away from the true pose (costs %.3g, start %.3g; %s)", nm, err, c1, c0, where.c_str()); return false; }
  if (c1 < c0) E().outcome(mix(hashStr(E().key), hashStr(where)));
  if (near && err > 0) E().maxi(std::string("1e9 distance ") + nm, (long)(err * 1e9));
  return true;
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough;
  const auto &Rs = rotations192();
  const int rigs[] = {0, 1, 2, 3, 4, 5};
  // absolute
  for (size_t r = 0; r < Rs.size(); r += T ? 1 : 4)
    for (int tr = 0; tr < 27; tr += T ? 2 : 6)
      for (int k : rigs)
      {
        if (!T && (r / 4 + tr + k) % 3) continue;
        if (!E().begin(fmt("absolute:%zu:%d:%d", r, tr, k))) continue;
        V3 t = trans27(tr); if (halfTurn(Rs[r])) continue;
        int n = 9 + 3 * (tr % 2), set = 3 + r % 7;
        auto sc = absScene(n, k, Rs[r], t, set, tr % 3 == 1); auto ad = sc->adapter();
        if (r == 0 && tr == 0) E().sample(E().key);
        std::vector<int> ix; for (int i = n - 1; i >= 0; i -= (i % 3 == 0 && n > 9) ? 2 : 1) ix.push_back(i);
        bool ok = true;
        for (int d = 0; d < 27 && ok; d++)
        {
          M3 R0 = Rs[r] * smallRot(d, 0.05); V3 t0 = t + 0.1 * trans27((d * 5 + 2) % 27);
          ad->setR(R0); ad->sett(t0);
          for (int list = 0; list < 2 && ok; list++)
          {
            transformation_t got = list ? absolute_pose::optimize_nonlinear(*ad, ix) : absolute_pose::optimize_nonlinear(*ad);
            auto cost = [&](const transformation_t &X) { return costAbs(*ad, list ? ix : iota(n), X); };
            ok = judge("absolute", pose(R0, t0), got, sc->truth(), cost, poseErr(got, sc->truth()), T ? 1e-2 : 4e-3, true, fmt("start %d, %s", d, list ? "list" : "all"));
          }
        }
        // any start: never worse
        for (int far = 0; far < (T ? 24 : 6) && ok; far++)
        {
          M3 R0 = Rs[(r + 1 + far * 8) % 192]; if (halfTurn(R0)) continue; V3 t0 = trans27((tr + 3 * far) % 27);
          ad->setR(R0); ad->sett(t0); transformation_t got = absolute_pose::optimize_nonlinear(*ad);
          ok = judge("absolute", pose(R0, t0), got, sc->truth(), [&](const transformation_t &X) { return costAbs(*ad, iota(n), X); }, 0, 0, false, fmt("far start %d", far));
        }
      }
  // relative
  for (size_t r = 0; r < Rs.size(); r += T ? 1 : 4)
    for (int tr = 0; tr < 27; tr += T ? 2 : 6)
      for (int k : rigs)
      {
        if (tr == 13 || (!T && (r / 4 + tr + k) % 3)) continue;
        if (!E().begin(fmt("relative:%zu:%d:%d", r, tr, k))) continue;
        V3 t = trans27(tr); if (halfTurn(Rs[r])) continue;
        int n = k == 0 ? 12 : 18, set = 3 + r % 7;
        auto sc = relScene(n, k, Rs[r], t, set, 0, k >= 2 && tr % 2); auto ad = sc->adapter();
        if (r == 0 && tr == 0) E().sample(E().key);
        std::vector<int> ix; for (int i = n - 1; i >= 0; i--) if (i % 6 != 4) ix.push_back(i);
        bool ok = true;
        for (int d = 0; d < 27 && ok; d += T ? 1 : 2)
        {
          M3 R0 = Rs[r] * smallRot(d, 0.02); V3 t0 = t + 0.05 * trans27((d * 5 + 2) % 27);
          for (int list = 0; list < 2 && ok; list++)
          {
            ad->setR12(R0); ad->sett12(t0);
            transformation_t got = list ? relative_pose::optimize_nonlinear(*ad, ix) : relative_pose::optimize_nonlinear(*ad);
            auto cost = [&](const transformation_t &X) { return costRel(*ad, list ? ix : iota(n), X); };
            // the scale is free for one camera at the viewpoint, and weakly observed for small rigs
            double e = k == 0 ? rotErr(got.block<3, 3>(0, 0), sc->R) + dirErr(got.col(3), t) : rotErr(got.block<3, 3>(0, 0), sc->R) + (k == 1 ? 0 : 0.2) * dirErr(got.col(3), t);
            ok = judge("relative", pose(R0, t0), got, pose(sc->R, t), cost, e, 5e-2, cost(pose(R0, t0)) < 1e-2, fmt("start %d, %s", d, list ? "list" : "all"), true);
          }
        }
        common("relative");
        for (int far = 0; far < (T ? 12 : 3) && ok; far++)
        {
          M3 R0 = Rs[(r + 1 + far * 16) % 192]; if (halfTurn(R0)) continue; V3 t0 = trans27((tr + 3 * far) % 27) + V3(.1, .2, .3);
          ad->setR12(R0); ad->sett12(t0); transformation_t got = relative_pose::optimize_nonlinear(*ad);
          ok = judge("relative", pose(R0, t0), got, pose(sc->R, t), [&](const transformation_t &X) { return costRel(*ad, iota(n), X); }, 0, 0, false, fmt("far start %d", far));
        }
      }
  // point clouds
  for (size_t r = 0; r < Rs.size(); r += T ? 1 : 2)
    for (int tr = 0; tr < 27; tr += T ? 2 : 6)
    {
      if (!E().begin(fmt("cloud:%zu:%d", r, tr))) continue;
      if (halfTurn(Rs[r])) continue;
      V3 t = trans27(tr); points_t a, b; int n = 8, set = 3 + r % 7; bool ok = true;
      for (int i = 0; i < n; i++) { b.push_back(localPoint(set, i, 0)); a.push_back(Rs[r] * b.back() + t); }
      point_cloud::PointCloudAdapter ad(a, b); std::vector<int> ix = {7, 2, 5, 0, 3, 6, 4};
      for (int d = 0; d < 27 && ok; d++) for (int list = 0; list < 2 && ok; list++)
      {
        M3 R0 = Rs[r] * smallRot(d, 0.1); V3 t0 = t + 0.3 * trans27((d * 5 + 2) % 27); ad.setR12(R0); ad.sett12(t0);
        transformation_t got = list ? point_cloud::optimize_nonlinear(ad, ix) : point_cloud::optimize_nonlinear(ad);
        ok = judge("cloud", pose(R0, t0), got, pose(Rs[r], t), [&](const transformation_t &X) { return costCloud(a, b, list ? ix : iota(n), X); }, poseErr(got, pose(Rs[r], t)), 5e-2, true, fmt("start %d, %s", d, list ? "list" : "all"), true);
      }
      common("cloud");
    }
  return E().finish();
}
