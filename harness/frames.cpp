// P33: moving the frames of the data moves the result and nothing else (also on disturbed data, also off the true pose).
#include "calls.hpp"
#include "judge.hpp"
using namespace mc;
using namespace cl;
static transformation_t pose(const M3 &R, const V3 &t) { transformation_t T; T.block<3, 3>(0, 0) = R; T.col(3) = t; return T; }
// largest distance of an expected candidate from the nearest candidate, both ways
template <class A, class B, class D> static double setDist(const A &a, const B &b, D d)
{
  if (a.size() != b.size()) return 1e200; double w = 0;
  for (auto &x : a) { double e = 1e300; for (auto &y : b) e = std::min(e, d(x, y)); w = std::max(w, e); }
  for (auto &y : b) { double e = 1e300; for (auto &x : a) e = std::min(e, d(x, y)); w = std::max(w, e); }
  return w;
}
static const double scales[] = {1. / 1024, 4, 131072, .125, 1024, 1. / 131072};
static void absolute(bool T)
{
  const auto &RR = rotations192(); const double noises[] = {0, 1e-2, 5e-2};
  for (int ni = 0; ni < 3; ni++) for (int rg : {0, 3, 4}) for (int set = 0; set < (T ? 200 : 20); set++)
  {
    if (!E().begin(fmt("absolute:noise=%d:rig=%d:set=%d", ni, rg, set))) continue;
    if (set == 0) E().sample(E().key);
    Judge b;
    for (int r = 0; r < 192; r += T ? 4 : 8)
    {
      M3 R = RR[r]; V3 t = trans27((r + set * 5) % 27); int seed = set * 211 + r, n = r % 3 == 0 ? 9 : r % 3 == 1 ? 12 : 20;
      auto q = absScene(n, rg, R, t, seed, rg ? 0 : 1); disturb(q->f, seed, noises[ni]); auto a = q->adapter();
      for (int mo = 0; mo < 4; mo++)
      {
        // 0 motion of the world, 1 change of scale, 2 rotation of the body, 3 motion of the body (generalised cameras)
        if (mo == 3 && rg == 0) continue;
        M3 S = mo == 1 ? M3(M3::Identity()) : RR[(r * 5 + set * 7 + 11) % 192]; V3 u = mo == 0 || mo == 3 ? V3(1.5 * trans27((r * 7 + set + 4) % 27) + V3(.3, -.1, .2)) : V3(0, 0, 0); double k = mo == 1 ? scales[(r / 4 + set) % 6] : 1;
        AbsScene p; p.n = n; p.r = q->r; p.cc = q->cc; p.f = q->f; p.pts = q->pts;
        if (mo <= 1) { for (auto &x : p.pts) x = k * (S * x + u); for (auto &o : p.r.off) o *= k; }
        else { for (auto &o : p.r.off) o = S * o + u; for (auto &C : p.r.rot) C = S * C; if (rg == 0) { p.r.rot[0].setIdentity(); for (auto &f : p.f) f = S * f; } }
        auto c = p.adapter();
        auto go = [&](const transformation_t &X) { M3 Q = X.block<3, 3>(0, 0); V3 x = X.col(3); if (mo <= 1) return pose(S * Q, k * (S * x + u)); M3 Qn = Q * S.transpose(); return pose(Qn, x - Qn * u); };
        auto D = [&](const transformation_t &x, const transformation_t &y) { return rotErr(x.block<3, 3>(0, 0), y.block<3, 3>(0, 0)) + vecErr(x.col(3), y.col(3)) / k / (1 + y.col(3).norm() / k); };
        for (int s : {P2P, P3P_KNEIP, P3P_GAO, GP3P, EPNP, GPNP, UPNP, ABSOPT})
        {
          if (rg && absCentralOnly(s)) continue; if (!rg && (s == GP3P || s == GPNP)) continue; if (s == GP3P && r % 16) continue;
          static const char *mn[] = {"world motion", "scale", "body rotation", "body motion"}; std::string nm = fmt("%s: %s", absName(s), mn[mo]), w = fmt("r=%d", r);
          std::vector<int> ix = s == P2P ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2};
          if (s == P2P || s == ABSOPT)
          {
            transformation_t G = pose(R * smallRot(r % 27, .02), t + V3(.05, .02, -.03)), G2 = go(G);
            if (s == ABSOPT && (G.block<3, 3>(0, 0).trace() < -0.9 || G2.block<3, 3>(0, 0).trace() < -0.9)) continue;
            a->setR(G.block<3, 3>(0, 0)); a->sett(G.col(3)); c->setR(G2.block<3, 3>(0, 0)); c->sett(G2.col(3));
          }
          Idx I = absExactCount(s) ? &ix : nullptr; Out x = runAbs(s, *a, I), y = runAbs(s, *c, I);
          if (s == P2P) { V3 e = go(pose(a->getR(), x.trans[0])).col(3); b.strict(nm, vecErr(e, y.trans[0]) / k, 1e-7, w); continue; }
          transformations_t g, h; for (auto &X : x.poses) if (X.allFinite()) g.push_back(go(X)); for (auto &X : y.poses) if (X.allFinite()) h.push_back(X); // solutions that do not exist may come out as not a number
          double e;
          if (s == UPNP) { e = 1e300; if (g.size()) for (auto &X : h) e = std::min(e, D(g[0], X)); } // the best candidate; the others depend on the frame
          else e = setDist(g, h, D);
          switch (s)
          {
            case P3P_KNEIP: b.share(nm, e, 1e-4, 0.1, w); break;
            case P3P_GAO: b.share(nm, e, 1e-4, 0.1, w); break;
            case EPNP: if (mo == 1) b.strict(nm, e, 1e-6, w); break;
            case UPNP: if (ni < 2) b.share(nm, e, ni ? 0.1 : 1e-5, 0.25, w); break;
          }
          if (getenv("MC_SHOW")) { for (double tol : {1e-8, 1e-6, 1e-4, 1e-2}) b.share(fmt("%s n%d tol %g", nm.c_str(), ni, tol), e, tol, 1, w); }
        }
      }
    }
    b.close(10);
  }
}
static void relative(bool T)
{
  const auto &RR = rotations192(); const double noises[] = {0, 1e-2, 5e-2};
  for (int ni = 0; ni < 3; ni++) for (int rg : {0, 3, 4}) for (int set = 0; set < (T ? 200 : 20); set++)
  {
    if (!E().begin(fmt("relative:noise=%d:rig=%d:set=%d", ni, rg, set))) continue;
    if (set == 0) E().sample(E().key);
    Judge b;
    for (int r = 0; r < 192; r += T ? 4 : 8)
    {
      M3 R = RR[r]; V3 t = trans27((r + set * 5) % 27); if (t.norm() == 0) t = V3(1, 2, -1); int seed = set * 211 + r, n = rg ? 20 : r % 3 == 0 ? 9 : r % 3 == 1 ? 12 : 20;
      auto q = relScene(n, rg, R, t, seed, 0); disturb(q->f1, seed, noises[ni]); disturb(q->f2, seed + 3, noises[ni]); auto a = q->adapter();
      for (int mo = 0; mo < 4; mo++)
      {
        // 0 rotation of viewpoint 1, 1 rotation of viewpoint 2, 2 views exchanged, 3 scale (generalised cameras)
        if (mo == 3 && rg == 0) continue; if (rg && mo < 2) continue; // one rig in both viewpoints: both rotate together, below
        M3 S = RR[(r * 5 + set * 7 + 11) % 192]; double k = mo == 3 ? scales[(r / 4 + set) % 6] : 1;
        RelScene p; p.n = n; p.r = q->r; p.f1 = q->f1; p.f2 = q->f2; p.c1 = q->c1; p.c2 = q->c2;
        if (mo == 0) for (auto &f : p.f1) f = S * f;
        if (mo == 1) for (auto &f : p.f2) f = S * f;
        if (mo == 2) { std::swap(p.f1, p.f2); std::swap(p.c1, p.c2); }
        if (mo == 3) for (auto &o : p.r.off) o *= k;
        auto c = p.adapter();
        auto go = [&](const transformation_t &X) -> transformation_t { M3 Q = X.block<3, 3>(0, 0); V3 x = X.col(3); if (mo == 0) return pose(S * Q, S * x); if (mo == 1) return pose(Q * S.transpose(), x); if (mo == 2) return pose(Q.transpose(), -Q.transpose() * x); return pose(Q, k * x); };
        auto goE = [&](const M3 &X) -> M3 { return mo == 0 ? M3(S * X) : mo == 1 ? M3(X * S.transpose()) : mo == 2 ? M3(X.transpose()) : X; };
        static const char *mn[] = {"rotation of viewpoint 1", "rotation of viewpoint 2", "views exchanged", "scale"};
        for (int s = 0; s < NREL; s++)
        {
          if (rg && (relCentralOnly(s) || s == SIXPT)) continue; if (!rg && (s == SIXPT || s == GE || s == GEW || s == SEVENTEEN)) continue; if (s == KNEIP5 && r % 16) continue; if (mo == 2 && (s == TWOPT)) continue;
          std::string nm = fmt("%s: %s", relName(s), mn[mo]), w = fmt("r=%d", r);
          std::vector<int> ix = iota(s == SEVENPT ? 7 : relMin(s)); bool all = s == ROTONLY || s == EIGHTPT || s == EIGEN || s == EIGENW || s >= GE;
          { transformation_t G = pose(R * smallRot(r % 27, .01), t + V3(.02, .01, -.03)), G2 = go(G); if (s == RELOPT && (G.block<3, 3>(0, 0).trace() < -0.9 || G2.block<3, 3>(0, 0).trace() < -0.9)) continue;
            a->setR12(G.block<3, 3>(0, 0)); a->sett12(G.col(3)); c->setR12(G2.block<3, 3>(0, 0)); c->sett12(G2.col(3)); }
          Out x = runRel(s, *a, all ? nullptr : &ix), y = runRel(s, *c, all ? nullptr : &ix); double e = 0;
          switch (s)
          {
            case TWOPT: e = axisErr(go(pose(a->getR12(), x.trans[0])).col(3), y.trans[0]); break;
            case STEWENIUS: case NISTER: case SEVENPT: case EIGHTPT: { std::vector<M3> g; for (auto &M : x.ess) g.push_back(goE(M)); e = setDist(g, y.ess, [](const M3 &A, const M3 &B) { return essErr(A, B); }); break; }
            case SEVENTEEN: case RELOPT: case GE: case GEW: { transformation_t X = go(x.poses[0]), Y = y.poses[0]; e = rotErr(X.block<3, 3>(0, 0), Y.block<3, 3>(0, 0)) + (rg == 0 ? dirErr(X.col(3), Y.col(3)) : vecErr(X.col(3), Y.col(3)) / k); break; }
            default: { std::vector<M3> g; for (auto &Q : x.rots) g.push_back(go(pose(Q, V3(0, 0, 0))).block<3, 3>(0, 0)); e = setDist(g, y.rots, rotErr); if (s == EIGEN || s == EIGENW) e += axisErr(go(pose(x.rots[0], x.trans[0])).col(3), y.trans[0]); }
          }
          switch (s)
          {
            case TWOPT: case TWOPT_ROT: case ROTONLY: b.strict(nm, e, 1e-8, w); break;
            case STEWENIUS: b.share(nm, e, 1e-4, 0.06, w); break; case SEVENPT: b.strict(nm, e, 1e-4, w); break;
            case EIGHTPT: b.strict(nm, e, 1e-7, w); break; case SEVENTEEN: b.strict(nm, e, 1e-4, w); break;
            case NISTER: b.share(nm, e, 1e-4, 0.1, w); break;
            case EIGEN: case EIGENW: if (mo == 2) b.share(nm, e, 1e-3, 0.2, w); break;
            case GE: case GEW: if (mo == 2) b.share(nm, e, 1e-3, 0.25, w); break;
          }
          if (getenv("MC_SHOW")) { for (double tol : {1e-8, 1e-6, 1e-4, 1e-2}) b.share(fmt("%s n%d tol %g", nm.c_str(), ni, tol), e, tol, 1, w); }
        }
      }
    }
    b.close(10);
  }
}
int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  absolute(T); relative(T);
  return E().finish();
}
