// P29: the minimal solvers return every solution of the equations they were given.
// P30: every candidate they return as an exact solution solves those equations.
// The solutions are found independently: Newton's method on the equations themselves, from an enumerated set of starts.
#include "solvers.hpp"
#include "judge.hpp"
using namespace mc;
using namespace sv;
typedef Eigen::Matrix<double, 5, 1> V5;
typedef Eigen::Matrix<double, 6, 1> V6;
static M3 skew(const V3 &v) { M3 S; S << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return S; }
static M3 rotv(const V3 &w) { double a = w.norm(); return a < 1e-14 ? M3(M3::Identity() + skew(w)) : M3(Eigen::AngleAxisd(a, w / a).toRotationMatrix()); }
struct Sol { M3 R; V3 t; double cond; };
typedef std::vector<Sol> Sols;
static void add(Sols &v, const M3 &R, const V3 &t, double cond, double same)
{ for (auto &s : v) if ((s.R - R).norm() + (s.t - t).norm() < same) return; v.push_back({R, t, cond}); }

// ---------------------------------------------------------------- three points: depths along three lines
struct Three { V3 o[3], d[3], p[3]; };
static Three threeOf(const AA &a, const std::vector<int> &ix)
{ Three q; for (int k = 0; k < 3; k++) { int i = ix[k]; q.o[k] = a.getCamOffset(i); q.d[k] = a.getCamRotation(i) * a.getBearingVector(i); q.p[k] = a.getPoint(i); } return q; }
static Sols solveThree(const Three &q, double scale)
{
  Sols out; const int I[3] = {0, 1, 0}, J[3] = {1, 2, 2};
  static const double st[5] = {0.2, 0.6, 1, 1.5, 3};
  for (int s = 0; s < 125; s++)
  {
    V3 l = scale * V3(st[s % 5], st[(s / 5) % 5], st[s / 25]); bool ok = false; M3 D;
    for (int it = 0; it < 30; it++)
    {
      V3 r; D.setZero();
      for (int k = 0; k < 3; k++)
      {
        V3 x = q.o[I[k]] + l[I[k]] * q.d[I[k]] - q.o[J[k]] - l[J[k]] * q.d[J[k]];
        r[k] = x.squaredNorm() - (q.p[I[k]] - q.p[J[k]]).squaredNorm(); D(k, I[k]) = 2 * x.dot(q.d[I[k]]); D(k, J[k]) = -2 * x.dot(q.d[J[k]]);
      }
      V3 dl = D.partialPivLu().solve(r); if (!dl.allFinite()) break;
      double m = dl.norm(), lim = 2 * scale; l -= m > lim ? V3(dl * (lim / m)) : dl;
      if (m < 1e-12 * scale) { ok = r.norm() < 1e-10 * scale * scale; break; }
    }
    if (!ok || l.minCoeff() < 0.05 * scale) continue;
    double c = Eigen::JacobiSVD<M3>(D / scale).singularValues()[2];
    // pose from the two triangles
    V3 x[3]; for (int k = 0; k < 3; k++) x[k] = q.o[k] + l[k] * q.d[k];
    auto frame = [](const V3 *v) { M3 F; F.col(0) = (v[1] - v[0]).normalized(); F.col(2) = F.col(0).cross(v[2] - v[0]).normalized(); F.col(1) = F.col(2).cross(F.col(0)); return F; };
    M3 R = frame(q.p) * frame(x).transpose(); V3 t = q.p[0] - R * x[0];
    add(out, R, t, c, 1e-6);
  }
  return out;
}
// how far the rays miss the points
static double missAbs(const Three &q, const transformation_t &T)
{
  double e = 0; M3 R = T.block<3, 3>(0, 0); if (!T.allFinite()) return 1e300;
  for (int k = 0; k < 3; k++) e = std::max(e, ((R.transpose() * (q.p[k] - T.col(3)) - q.o[k]).cross(q.d[k])).norm());
  return std::max(e, (R * R.transpose() - M3::Identity()).norm() + std::fabs(R.determinant() - 1));
}
static double triangle(const Three &q) // smallest height of the triangle of points
{ V3 a = q.p[1] - q.p[0], b = q.p[2] - q.p[0], c = q.p[2] - q.p[1]; return a.cross(b).norm() / std::max(a.norm(), std::max(b.norm(), c.norm())); }
static void three(bool T)
{
  const auto &RR = rotations192();
  // noise 9: bearing vectors and points that have nothing to do with each other
  for (double noise : {0.0, 0.02, 0.1, 9.0}) for (int rg : {0, 1, 2, 3, 4}) for (int grp = 0; grp < (T ? 300 : 6); grp++)
  {
    if (!E().begin(fmt("three:noise=%g:rig=%d:group=%d", noise, rg, grp))) continue;
    if (grp == 0 && noise == 0) E().sample(E().key);
    Judge b;
    for (int set = grp * 8; set < grp * 8 + 8; set++) for (int r = 0; r < 192; r += T ? 2 : 6)
    {
      auto s = absScene(3, rg, RR[r], trans27((r * 5 + set) % 27), set * 97 + r, rg >= 2 ? 0 : 1);
      for (int i = 0; i < 3; i++)
      {
        V3 g(frac(set * 193 + r, i, 71), frac(set * 193 + r, i, 72), frac(set * 193 + r, i, 73));
        if (noise > 1) { if (r % 4 < 2) s->f[i] = (g + 0.02 * V3(1, 2, 3)).normalized(); else s->pts[i] += 1.5 * g; } else s->f[i] = (s->f[i] + noise * g).normalized();
      }
      auto a = s->adapter(); std::vector<int> ix = {0, 1, 2}; if (r % 3 == 1) ix = {2, 0, 1}; if (r % 3 == 2) ix = {1, 0, 2};
      Three qb = threeOf(*a, ix), &q = qb, qc = qb; for (int k = 0; k < 3; k++) { qc.o[k].setZero(); qc.d[k] = a->getBearingVector(ix[k]); } std::string w = fmt("set=%d rot=%d", set, r);
      if (triangle(q) < 0.8) { E().counters["thin triangles"]++; continue; }
      double minAng = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) minAng = std::min(minAng, q.d[i].cross(q.d[j]).norm());
      if (minAng < 0.15) { E().counters["nearly parallel rays"]++; continue; }
      Sols Sb = rg > 1 ? solveThree(qb, 6) : Sols(), Sc = rg <= 1 ? solveThree(qc, 6) : Sols();
      for (int slv : {P3P_KNEIP, P3P_GAO, GP3P})
      {
        if (absCentralOnly(slv) && rg > 1) continue;
        Three q = absCentralOnly(slv) ? qc : qb; const Sols &S = absCentralOnly(slv) ? Sc : Sb; // central solvers: the pose of the camera
        if (slv == GP3P && (rg <= 1 || r % 12)) continue;
        Out o = runAbs(slv, *a, &ix); std::string nm = absName(slv);
        E().maxi("most candidates of " + nm, o.count);
        if (o.count > (slv == GP3P ? 8 : 4)) MC_FAIL("%s: %d candidates (%s)", nm.c_str(), o.count, w.c_str());
        for (auto &x : S)
        {
          if (x.cond < 0.05) { E().counters["solutions too close to a double one"]++; continue; }
          E().counters["solutions of " + nm]++;
          transformation_t X; X.block<3, 3>(0, 0) = x.R; X.col(3) = x.t;
          double e = 1e300; for (auto &P : o.poses) e = std::min(e, poseErr(P, X));
          if (slv == GP3P) b.share("every solution is returned by gp3p", e, 1e-3, 0.35, w + fmt(" cond %g", x.cond));
          else if (slv == P3P_GAO) b.share("every solution is returned by " + nm, e, 1e-4 / (x.cond * x.cond), 0.04, w + fmt(" cond %g", x.cond));
          else { b.share("every solution is returned exactly by " + nm, e, 1e-7 / (x.cond * x.cond), 0.02, w + fmt(" cond %g", x.cond)); b.share("every solution is returned by " + nm, e, 1e-4 / (x.cond * x.cond), 0.002, w + fmt(" cond %g", x.cond)); }
        }
        if (getenv("MC_SHOW")) for (auto &P : o.poses) b.share("candidates that do not solve, " + nm, missAbs(q, P), 1e-4, 1, w);
      }
    }
    b.close(10);
  }
}

// ---------------------------------------------------------------- rays of two viewpoints
struct Ray2 { V3 o1, d1, o2, d2; };
typedef std::vector<Ray2> Rays;
static Rays raysOf(const RA &a, const std::vector<int> &ix)
{
  Rays q; for (int i : ix) q.push_back({a.getCamOffset1(i), a.getCamRotation1(i) * a.getBearingVector1(i), a.getCamOffset2(i), a.getCamRotation2(i) * a.getBearingVector2(i)});
  return q;
}
// five rays from one centre: (t + d) . (f1 x R f2) = 0 with |t| = 1
static Sols solveFive(const Rays &q)
{
  Sols out; const auto &RR = rotations40();
  for (size_t r = 0; r < RR.size(); r++) for (int k = 0; k < 13; k++)
  {
    M3 R = RR[r] * smallRot(14 + (int)(r % 13), 0.2); V3 t = trans27(14 + k).normalized(); bool ok = false; double c = 0;
    for (int it = 0; it < 25; it++)
    {
      V3 B[2] = {t.unitOrthogonal(), V3()}; B[1] = t.cross(B[0]); Eigen::Matrix<double, 5, 5> J; V5 e;
      for (int i = 0; i < 5; i++)
      {
        V3 n = q[i].d1.cross(R * q[i].d2); e[i] = t.dot(n);
        J.block<1, 3>(i, 0) = q[i].d2.cross(R.transpose() * t.cross(q[i].d1)).transpose(); J(i, 3) = B[0].dot(n); J(i, 4) = B[1].dot(n);
      }
      V5 x = J.partialPivLu().solve(-e); if (!x.allFinite()) break;
      double m = x.norm(); if (m > 0.6) x *= 0.6 / m;
      R = R * rotv(x.head<3>()); t = (t + x[3] * B[0] + x[4] * B[1]).normalized();
      if (m < 1e-12) { ok = e.norm() < 1e-11; c = Eigen::JacobiSVD<Eigen::Matrix<double, 5, 5>>(J).singularValues()[4]; break; }
    }
    if (ok) { if (t[0] + 1e-3 * t[1] < 0) t = -t; add(out, R, t, c, 1e-6); }
  }
  return out;
}
// six rays from anywhere: (t + R o2 - o1) . (d1 x R d2) = 0
static Sols solveSix(const Rays &q)
{
  Sols out; const auto &RR = rotations40();
  for (size_t r = 0; r < RR.size(); r++) for (int k = 0; k < 27; k += 2)
  {
    M3 R = RR[r] * smallRot(14 + (int)(r % 13), 0.2); V3 t = 1.5 * trans27(k); bool ok = false; double c = 0;
    for (int it = 0; it < 30; it++)
    {
      Eigen::Matrix<double, 6, 6> J; V6 e;
      for (int i = 0; i < 6; i++)
      {
        V3 n = q[i].d1.cross(R * q[i].d2), b = t + R * q[i].o2 - q[i].o1; e[i] = b.dot(n);
        J.block<1, 3>(i, 0) = (q[i].d2.cross(R.transpose() * b.cross(q[i].d1)) + q[i].o2.cross(R.transpose() * n)).transpose(); J.block<1, 3>(i, 3) = n.transpose();
      }
      V6 x = J.partialPivLu().solve(-e); if (!x.allFinite()) break;
      double m = x.norm(); if (m > 0.8) x *= 0.8 / m;
      R = R * rotv(x.head<3>()); t += x.tail<3>();
      if (m < 1e-11) { ok = e.norm() < 1e-10; c = Eigen::JacobiSVD<Eigen::Matrix<double, 6, 6>>(J).singularValues()[5]; break; }
    }
    if (ok && t.norm() < 20) add(out, R, t, c, 1e-6);
  }
  return out;
}
template <class M> static double missEss(const Rays &q, const M &E0, bool det, bool trace) // of an essential matrix, may be complex
{
  double n = E0.norm(); if (!(n > 1e-300) || !(n < 1e300)) return 1e300; M E = E0 / n; double e = 0;
  for (auto &r : q) { auto x = (r.d1.transpose() * E * r.d2)(0, 0); e = std::max(e, (double)std::abs(x)); }
  if (det) e = std::max(e, (double)std::abs(E.determinant()));
  if (trace) { M G = E * E.transpose(); e = std::max(e, (double)((M(G * E * 2.0) - M(E * G.trace()))).norm()); }
  return e;
}
// data: 0 exact scene, 1 slightly and 2 strongly disturbed, 3 rays without any scene
static std::shared_ptr<RelScene> rays(int n, int rg, int data, int set, int r)
{
  auto s = relScene(n, rg, rotations192()[r], trans27((r * 5 + set) % 27 == 13 ? 5 : (r * 5 + set) % 27), set * 97 + r, 0, rg >= 2 && r % 4 == 1);
  const double am[4] = {0, 0.02, 0.3, 9};
  for (int i = 0; i < n; i++) for (int v = 0; v < 2; v++)
  {
    bearingVector_t &f = v ? s->f2[i] : s->f1[i]; V3 g(frac(set * 193 + r, i, 61 + v), frac(set * 193 + r, i, 63 + v), frac(set * 193 + r, i, 65 + v));
    f = data == 3 ? V3(g + 0.02 * V3(1, 2, 3)).normalized() : V3(f + am[data] * g).normalized();
  }
  return s;
}
static void five(bool T)
{
  for (int data = 0; data < 4; data++) for (int set = 0; set < (T ? 1500 : 100); set++)
  {
    if (!E().begin(fmt("five:data=%d:set=%d", data, set))) continue;
    if (set == 0) E().sample(E().key);
    Judge b;
    for (int r = 0; r < 192; r += T ? 4 : 8)
    {
      auto s = rays(7, 0, data, set, r); auto a = s->adapter(); std::string w = fmt("rot=%d", r);
      std::vector<int> ix = {0, 1, 2, 3, 4}; if (r % 16 == 8) ix = {6, 2, 5, 0, 3};
      Rays q = raysOf(*a, ix); Sols S = solveFive(q);
      Out st = runRel(STEWENIUS, *a, &ix), ni = runRel(NISTER, *a, &ix), kn; bool k5 = r % 32 == 0; if (k5) kn = runRel(KNEIP5, *a, &ix);
      auto stc = relative_pose::fivept_stewenius(*a, ix);
      E().maxi("most essential matrices, fivept_stewenius", st.count); E().maxi("most essential matrices, fivept_nister", ni.count); if (k5) E().maxi("most rotations, fivept_kneip", kn.count);
      if (st.count > 10 || ni.count > 10 || kn.count > 20) MC_FAIL("%d, %d and %d candidates (%s)", st.count, ni.count, kn.count, w.c_str());
      for (auto &x : S)
      {
        if (x.cond < 0.02) { E().counters["solutions too close to a double one"]++; continue; }
        E().counters["solutions for five rays"]++; std::string w2 = w + fmt(" cond %g", x.cond);
        M3 X = skew(x.t) * x.R; double es = 1e300, en = 1e300;
        for (auto &M : st.ess) es = std::min(es, essErr(M, X));
        for (auto &M : ni.ess) en = std::min(en, essErr(M, X));
        b.strict("every solution is returned by fivept_stewenius", es, 1e-6 / (x.cond * x.cond), w2);
        b.share("every solution is returned by fivept_nister", en, 1e-6 / (x.cond * x.cond), 0.03, w2);
      }
      for (auto &M : stc) b.share("candidates of fivept_stewenius solve the equations", missEss(q, M, true, true), 1e-6, 0.01, w);
      for (auto &M : ni.ess) b.share("candidates of fivept_nister solve the equations", missEss(q, M, true, true), 1e-6, 0.02, w);
      for (auto &M : ni.ess) b.strict("candidates of fivept_nister are epipolar", missEss(q, M, false, false), 1e-9, w);
      for (auto &M : stc) b.strict("candidates of fivept_stewenius are epipolar", missEss(q, M, false, false), 1e-9, w);
      for (auto &R : kn.rots)
      {
        double e = 1e300; Eigen::Matrix<double, 5, 3> N; for (int i = 0; i < 5; i++) N.row(i) = q[i].d1.cross(R * q[i].d2).transpose();
        if (R.allFinite()) e = std::max(Eigen::JacobiSVD<Eigen::Matrix<double, 5, 3>>(N).singularValues()[2], (R * R.transpose() - M3::Identity()).norm());
        b.share("candidates of fivept_kneip solve the equations", e, 1e-4, 0.4, w);
      }
      // seven rays
      std::vector<int> i7 = iota(7); if (r % 16 == 8) std::reverse(i7.begin(), i7.end()); Rays q7 = raysOf(*a, i7); Out o7 = runRel(SEVENPT, *a, &i7);
      for (auto &M : o7.ess) b.strict("candidates of sevenpt solve the equations", missEss(q7, M, true, false), 1e-8, w);
      // det(A + x B) has between one and three real roots; found between sign changes on a circle of (A cos + B sin)
      Eigen::Matrix<double, 7, 9> A; for (int i = 0; i < 7; i++) for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) A(i, 3 * u + v) = q7[i].d1[u] * q7[i].d2[v];
      Eigen::Matrix<double, 9, 9> G = A.transpose() * A; Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 9, 9>> es(G); if (es.eigenvalues()[2] < 1e-4) { E().counters["seven rays close to degenerate"]++; continue; }
      auto at = [&](double p) { M3 M; for (int u = 0; u < 3; u++) for (int v = 0; v < 3; v++) M(u, v) = std::cos(p) * es.eigenvectors()(3 * u + v, 0) + std::sin(p) * es.eigenvectors()(3 * u + v, 1); return M; };
      const int K = 720; int found = 0;
      for (int k = 0; k < K; k++)
      {
        double lo = M_PI * k / K, hi = M_PI * (k + 1) / K, fl = at(lo).determinant(), fh = at(hi).determinant(); if (fl * fh > 0) continue;
        double slope = std::fabs(fh - fl) * K / M_PI;
        for (int it = 0; it < 60; it++) { double m = 0.5 * (lo + hi); (at(m).determinant() * fl > 0 ? lo : hi) = m; }
        found++; M3 X = at(lo); double e = 1e300; for (auto &M : o7.ess) e = std::min(e, essErr(M, X));
        E().counters["solutions for seven rays"]++;
        if (slope > 1e-3) b.strict("every solution is returned by sevenpt", e, 1e-9 / (slope * slope), w + fmt(" slope %g", slope));
      }
      if (found && o7.count < found && found != 2) b.strict("number of solutions of sevenpt", found - o7.count, 0.5, w);
    }
    b.close(10);
  }
}
static void six(bool T)
{
  for (int data = 0; data < 4; data++) for (int rg : {3, 4, 5}) for (int set = 0; set < (T ? 300 : 20); set++)
  {
    if (!E().begin(fmt("six:data=%d:rig=%d:set=%d", data, rg, set))) continue;
    if (set == 0) E().sample(E().key);
    Judge b;
    for (int r = 0; r < 192; r += T ? 8 : 32)
    {
      auto s = rays(6, rg, data, set, r); auto a = s->adapter(); std::string w = fmt("rot=%d", r); auto ix = iota(6); if (r % 64) std::reverse(ix.begin(), ix.end());
      Rays q = raysOf(*a, ix); Sols S = solveSix(q); Out o = runRel(SIXPT, *a, &ix); E().maxi("most rotations, sixpt", o.count);
      for (auto &x : S)
      {
        if (x.cond < 0.02) { E().counters["solutions too close to a double one"]++; continue; }
        E().counters["solutions for six rays"]++; double e = 1e300; for (auto &R : o.rots) e = std::min(e, rotErr(R, x.R));
        b.share("every solution is returned by sixpt", e, 1e-2, 0.45, w + fmt(" cond %g", x.cond));
      }
      for (auto &R : o.rots)
      {
        double e = 1e300; Eigen::Matrix<double, 6, 4> N; for (int i = 0; i < 6; i++) { V3 n = q[i].d1.cross(R * q[i].d2); N.row(i) << n.transpose(), (R * q[i].o2 - q[i].o1).dot(n); }
        if (R.allFinite()) e = std::max(Eigen::JacobiSVD<Eigen::Matrix<double, 6, 4>>(N).singularValues()[3], (R * R.transpose() - M3::Identity()).norm());
        if (getenv("MC_SHOW")) b.share("candidates that do not solve, sixpt", e, 1e-3, 1, w);
      }
    }
    b.close(10);
  }
}
int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough; 
  std::string what = "all"; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  if (what != "relative") three(T);
  if (what != "absolute") { five(T); six(T); }
  return E().finish();
}
