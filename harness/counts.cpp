// P34: every selected correspondence counts, wherever it stands in the list and however long the list is.
#include "calls.hpp"
#include "judge.hpp"
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
using namespace mc;
using namespace cl;
typedef std::vector<int> VI;
// the numbers of the estimate that is closest to the truth, scale and sign fixed where they are free
static Raw bestA(const Out &o, const transformation_t &C)
{
  Raw r; double e = 1e300; for (auto &P : o.poses) { double x = poseErr(P, C); if (x < e) { e = x; r.clear(); put(r, P); } } return r;
}
static Raw bestR(int m, RA &a, Idx ix, const M3 &R, const V3 &t)
{
  Raw r; M3 X; X << 0, -t[2], t[1], t[2], 0, -t[0], -t[1], t[0], 0; M3 Et = X * R; double e = 1e300;
  Out o = runRel(m, a, ix);
  if (o.ess.size()) { for (auto &M : o.ess) { double x = essErr(M, Et); if (x < e) { e = x; M3 N = M / M.norm(); if ((N.array() * Et.array()).sum() < 0) N = -N; r.clear(); put(r, N); } } return r; }
  if (m == RELOPT && o.poses.size()) { put(r, M3(o.poses[0].block<3, 3>(0, 0))); V3 d = o.poses[0].col(3); if (relCentralOnly(m) || a.getCamOffset1(0).norm() == 0) d.normalize(); put(r, d); return r; }
  if (o.poses.size()) { for (auto &P : o.poses) { double x = rotErr(P.block<3, 3>(0, 0), R); if (x < e) { e = x; r.clear(); put(r, P); } } return r; }
  if (m == EIGEN || m == EIGENW || m == GE || m == GEW) { Raw x(o.raw.begin(), o.raw.begin() + 12); if (m == EIGEN || m == EIGENW) { V3 d(x[9], x[10], x[11]); d.normalize(); for (int k = 0; k < 3; k++) x[9 + k] = d[k]; } return x; }
  for (auto &M : o.rots) { double x = rotErr(M, R); if (x < e) { e = x; r.clear(); put(r, M); } }
  if (r.empty()) r = o.raw;
  return r;
}
static double diff(const Raw &a, const Raw &b) { if (a.size() != b.size()) return 1e200; double w = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); w = d == d ? std::max(w, d) : 1e200; } return w; }
static VI places(int n, bool T) // which correspondences are moved
{
  if (n <= (T ? 40 : 20)) return iota(n);
  VI v = {0, 1, n - 1, n - 2, n / 2, n / 3}; for (int p = 4; p < n; p *= 2) { v.push_back(p - 1); v.push_back(p); }
  if (T) for (int i = 5; i < n; i += n / 30) v.push_back(i);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
// run(list) = estimate; move(i, datum, direction, amount) changes one correspondence, 0 restores it
template <class RUN, class MOVE> static void judge(Judge &b, const std::string &nm, const std::string &w, int n, int data, bool T, double amount, double tolTwice, double tolOrder, double shareTwice, RUN run, MOVE move)
{
  VI all = iota(n); Raw ref = run((Idx)0);
  if (ref.empty()) { b.share(nm + ": gives an estimate", 1, 0.5, 0.3, w); return; }
  // influence of every single one
  for (int d = 0; d < data; d++)
  {
    std::vector<double> g; VI pl = places(n, T);
    for (int i : pl) { double x = 0; for (int k = 0; k < 3; k++) { move(i, d, k, amount); x = std::max(x, diff(ref, run((Idx)0))); move(i, d, k, 0); } g.push_back(x); }
    std::vector<double> s = g; std::nth_element(s.begin(), s.begin() + s.size() / 2, s.end()); double med = s[s.size() / 2];
    if (!(med < 1e100) || med == 0) { b.share(nm + ": moves with its data", 1, 0.5, 0.3, w); continue; }
    for (size_t k = 0; k < pl.size(); k++)
    {
      if (getenv("MC_SHOW")) E().maxi("least influence " + nm, -g[k] / med);
      b.strict(nm + ": estimate does not depend on a correspondence", g[k] / med > 1e-6 ? 0 : 1, 0.5, w + fmt(" datum %d of correspondence %d: %g, median %g", d, pl[k], g[k], med));
    }
  }
  // the same through lists: all, twice all, rotated, reversed
  VI twice = all; twice.insert(twice.end(), all.begin(), all.end()); VI rev = all; std::reverse(rev.begin(), rev.end()); VI rot = all; std::rotate(rot.begin(), rot.begin() + n / 3, rot.end());
  VI mixd; for (int i : all) { mixd.push_back(i); mixd.push_back(n - 1 - i); } 
  b.strict(nm + ": list of all", diff(ref, run(&all)), 1e-9, w);
  for (auto *l : {&twice, &mixd}) b.share(nm + ": everything given twice", diff(ref, run(l)), tolTwice, shareTwice, w);
  for (auto *l : {&rev, &rot}) b.share(nm + ": other order", diff(ref, run(l)), tolOrder, shareTwice, w);
}
int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  const auto &RR = rotations192();
  const VI ns = T ? VI{10, 13, 18, 24, 33, 64, 65, 100, 129, 200, 257} : VI{10, 18, 33, 65, 129};
  for (int n : ns) for (int set = 0; set < (T ? 12 : 6); set++)
  {
    for (int m : {EPNP, GPNP, UPNP, ABSOPT}) for (int rg : {0, 3, 4})
    {
      if ((m == EPNP && rg) || (m == GPNP && !rg)) continue;
      if (!E().begin(fmt("%s:n=%d:rig=%d:set=%d", absName(m), n, rg, set))) continue;
      Judge b;
      for (int q = 0; q < (T ? 6 : 3); q++)
      {
        M3 R = RR[(set * 31 + q * 53 + n) % 192]; V3 t = trans27((set * 7 + q) % 27); int sd = set * 13 + q;
        auto s = absScene(n, rg, R, t, sd, m == EPNP ? 1 : 0); disturb(s->f, sd, 3e-3); auto a = s->adapter();
        bearingVectors_t f0 = s->f; points_t p0 = s->pts;
        auto go = [&](Idx ix) { if (m == ABSOPT) { a->setR(R * smallRot(3, 0.01)); a->sett(t); } return bestA(runAbs(m, *a, ix), s->truth()); };
        auto mv = [&](int i, int d, int k, double x) { if (d == 0) s->f[i] = x == 0 ? f0[i] : bearingVector_t((f0[i] + x * V3::Unit(k)).normalized()); else s->pts[i] = p0[i] + 6 * x * V3::Unit(k); };
        judge(b, std::string(absName(m)) + (rg ? " (rig)" : ""), fmt("rot=%d", q), n, 2, T, 1e-2, m == ABSOPT ? 1e-2 : 1e-5, m == ABSOPT ? 1e-2 : 1e-5, m == GPNP ? 1 : 0.5, go, mv);
      }
      b.close(6);
    }
    for (int m : {STEWENIUS, NISTER, SEVENPT, EIGHTPT, ROTONLY, EIGEN, EIGENW, GE, GEW, SEVENTEEN, RELOPT}) for (int rg : {0, 3, 4})
    {
      bool cen = m == STEWENIUS || m == NISTER || m == SEVENPT || m == EIGHTPT || m == ROTONLY || m == EIGEN || m == EIGENW, non = m == GE || m == GEW || m == SEVENTEEN;
      if ((cen && rg) || (non && !rg) || (m == SEVENTEEN && n < 18)) continue;
      if (!E().begin(fmt("%s:n=%d:rig=%d:set=%d", relName(m), n, rg, set))) continue;
      Judge b;
      for (int q = 0; q < (T ? 6 : 3); q++)
      {
        M3 R = RR[(set * 31 + q * 53 + n) % 192]; V3 t = trans27((set * 7 + q) % 27); if (t.norm() == 0) t = V3(0.5, 1, -0.5); if (m == ROTONLY) t.setZero(); int sd = set * 13 + q;
        if (m == EIGEN || m == EIGENW || non) R = smallRot(q, 0.1);
        auto s = relScene(n, rg, R, t, sd, 0, false); disturb(s->f2, sd, 2e-3); 
        std::vector<double> wt; for (int i = 0; i < n; i++) wt.push_back(0.6 + 0.1 * (i % 5));
        std::unique_ptr<RA> a; if (m == EIGENW) a.reset(new relative_pose::CentralRelativeWeightingAdapter(s->f1, s->f2, wt)); else a = s->adapter();
        bearingVectors_t f1 = s->f1, f2 = s->f2;
        auto go = [&](Idx ix) { randState = 17; a->setR12(m == RELOPT ? M3(R * smallRot(3, 0.01)) : R); a->sett12(t); return bestR(m, *a, ix, R, t); };
        auto mv = [&](int i, int d, int k, double x) { auto &f = d ? s->f2 : s->f1; auto &o = d ? f2 : f1; f[i] = x == 0 ? o[i] : bearingVector_t((o[i] + x * V3::Unit(k)).normalized()); };
        bool it = m == EIGEN || m == EIGENW || m == GE || m == GEW || m == RELOPT;
        judge(b, std::string(relName(m)) + (rg ? " (rig)" : ""), fmt("rot=%d", q), n, 2, T, 1e-2, m == RELOPT ? 1e-2 : it ? 1e-3 : 1e-6, m == RELOPT ? 1e-2 : it ? 1e-3 : 1e-6, 0.3, go, mv);
      }
      b.close(6);
    }
    for (int m = 0; m < 2; m++)
    {
      if (!E().begin(fmt("%s:n=%d:set=%d", m ? "cloud optimize" : "arun", n, set))) continue;
      Judge b;
      for (int q = 0; q < (T ? 12 : 6); q++)
      {
        M3 R = RR[(set * 31 + q * 53 + n) % 192]; V3 t = trans27((set * 7 + q) % 27); int sd = set * 13 + q;
        points_t p, p2; for (int i = 0; i < n; i++) { p2.push_back(localPoint(sd, i, 0)); p.push_back(R * p2.back() + t + 1e-2 * V3(frac(sd, i, 7), frac(sd, i, 8), frac(sd, i, 9))); }
        points_t o1 = p, o2 = p2; point_cloud::PointCloudAdapter a(p, p2);
        auto go = [&](Idx ix) { a.setR12(R * smallRot(3, 0.01)); a.sett12(t); Raw r; if (m) put(r, ix ? point_cloud::optimize_nonlinear(a, *ix) : point_cloud::optimize_nonlinear(a)); else put(r, ix ? point_cloud::threept_arun(a, *ix) : point_cloud::threept_arun(a)); return r; };
        auto mv = [&](int i, int d, int k, double x) { (d ? p2 : p)[i] = (d ? o2 : o1)[i] + 6 * x * V3::Unit(k); };
        judge(b, m ? "cloud optimize" : "arun", fmt("rot=%d", q), n, 2, T, 1e-2, m ? 1e-3 : 1e-9, m ? 1e-3 : 1e-9, 0.1, go, mv);
      }
      b.close(6);
    }
  }
  return E().finish();
}
