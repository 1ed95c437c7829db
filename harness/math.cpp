// Numerical building blocks: polynomial roots (P18), rotation conversions (P19), Gauss-Jordan
// elimination (P20), point-cloud alignment (P16) and triangulation (P17), each on complete
// finite grids against independent oracles.
#include "scene.hpp"
#include <opengv/math/roots.hpp>
#include <opengv/math/Sturm.hpp>
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/math/gauss_jordan.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/triangulation/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <Eigen/Eigenvalues>
#include <algorithm>
using namespace mc;
using namespace sc;
typedef std::vector<double> Poly; // highest power first
typedef long double ld;

// ------------------------------------------------------------------ reference roots
static ld val(const std::vector<ld> &p, ld x) { ld r = 0; for (ld c : p) r = r * x + c; return r; }
static std::vector<ld> deriv(const std::vector<ld> &p) { std::vector<ld> d; int n = (int)p.size() - 1; for (int i = 0; i < n; i++) d.push_back(p[i] * (n - i)); return d; }
static ld bnd(const std::vector<ld> &p) { ld m = 0; for (size_t i = 1; i < p.size(); i++) m = std::max(m, fabsl(p[i] / p[0])); return 1 + m; }
// all real zeros with a sign change; crit receives the zeros of the derivative
static std::vector<ld> refRoots(const std::vector<ld> &p, std::vector<ld> *crit = 0)
{
  std::vector<ld> r;
  if (p.size() < 2) return r;
  if (p.size() == 2) { r.push_back(-p[1] / p[0]); return r; }
  std::vector<ld> c = refRoots(deriv(p));
  if (crit) *crit = c;
  ld B = bnd(p) * 1.5L;
  std::vector<ld> x; x.push_back(-B); for (ld v : c) x.push_back(v); x.push_back(B);
  for (size_t i = 0; i + 1 < x.size(); i++)
  {
    ld a = x[i], b = x[i + 1], fa = val(p, a), fb = val(p, b);
    if (fa == 0) { if (r.empty() || fabsl(r.back() - a) > 1e-15L) r.push_back(a); continue; }
    if ((fa < 0) == (fb < 0)) continue;
    for (int k = 0; k < 200; k++) { ld m = 0.5L * (a + b), fm = val(p, m); if ((fm < 0) == (fa < 0)) a = m; else b = m; }
    r.push_back(0.5L * (a + b));
  }
  return r;
}
// well-conditioned real zeros: simple, separated, no almost-zero between
static bool regular(const std::vector<ld> &p, std::vector<ld> &roots)
{
  if (fabsl(p[0]) < 1e-9L) return false;
  std::vector<ld> crit; roots = refRoots(p, &crit);
  // scale: largest coefficient contribution at x
  auto scale = [&](ld x) { ld s = 0, a = 1; for (size_t i = p.size(); i-- > 0;) { s = std::max(s, fabsl(p[i]) * a); a *= fabsl(x); } return s; };
  for (ld c : crit) if (fabsl(val(p, c)) < 1e-4L * scale(c)) return false;
  // complex critical points: a near-double complex pair close to the axis is seen in p/p' at real points
  std::vector<ld> d = deriv(p);
  for (ld r : roots) if (fabsl(val(d, r)) * std::max((ld)0.05, fabsl(r)) < 1e-4L * scale(r)) return false;
  for (size_t i = 1; i < roots.size(); i++) if (roots[i] - roots[i - 1] < 0.02L * std::max((ld)1, fabsl(roots[i]))) return false;
  return true;
}
static double nearest(const std::vector<double> &got, double x) { double b = 1e300; for (double g : got) if (std::fabs(g - x) < b) b = std::fabs(g - x); return b; }
static std::vector<ld> toL(const Poly &p) { return std::vector<ld>(p.begin(), p.end()); }
static std::string showP(const Poly &p) { std::string s; for (double x : p) s += fmt("%g ", x); return s; }

static void checkClosed(const Poly &p, const std::vector<ld> &want, double tol)
{
  auto judge = [&](const std::vector<double> &got, const char *nm) {
    E().evaluations++;
    if (got.size() != p.size() - 1) { MC_FAIL("%s: %zu roots for %s", nm, got.size(), showP(p).c_str()); return; }
    // all of them, with multiplicity
    std::vector<double> g = got;
    for (ld w : want)
    {
      size_t k = 0; for (size_t i = 0; i < g.size(); i++) if (std::fabs(g[i] - (double)w) < std::fabs(g[k] - (double)w) || g[k] != g[k]) k = i;
      double e = std::fabs(g[k] - (double)w) / std::max(1.0, std::fabs((double)w));
      if (getenv("MC_SHOW")) E().maxi(fmt("%s tol %g", nm, tol), e == e ? e : 1e300);
      if (!(e < tol)) { MC_FAIL("%s: root %.9g of %smissing, nearest %.9g", nm, (double)w, showP(p).c_str(), g[k]); return; }
      g.erase(g.begin() + k);
    }
    for (double x : got) if (!std::isfinite(x)) { MC_FAIL("%s: result not finite for %s", nm, showP(p).c_str()); return; }
  };
  if (p.size() == 4) judge(math::o3_roots(p), "o3_roots");
  else
  {
    judge(math::o4_roots(p), "o4_roots(vector)");
    Eigen::MatrixXd m(5, 1); for (int i = 0; i < 5; i++) m(i, 0) = p[i];
    judge(math::o4_roots(m), "o4_roots(matrix)");
  }
}
static Poly mul(const Poly &a, const Poly &b) { Poly r(a.size() + b.size() - 1, 0.0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }

static void checkSturm(const Poly &p, const std::vector<ld> &want, bool chain)
{
  E().evaluations++;
  int n = p.size() - 1;
  ld big = 1; for (ld w : want) big = std::max(big, fabsl(w));
  Eigen::MatrixXd row(1, n + 1); for (int i = 0; i <= n; i++) row(0, i) = p[i];
  for (int variant = 0; variant < 2; variant++)
  {
    std::unique_ptr<math::Sturm> s(variant ? new math::Sturm(row) : new math::Sturm(p));
    std::vector<double> got = s->findRoots();
    auto same = [&](std::vector<double> g, double tol, const char *nm) {
      std::sort(g.begin(), g.end());
      if (g.size() != want.size()) { MC_FAIL("%s: %zu roots, the polynomial %shas %zu", nm, g.size(), showP(p).c_str(), want.size()); return false; }
      for (size_t i = 0; i < g.size(); i++)
      {
        double e = std::fabs(g[i] - (double)want[i]);
        if (getenv("MC_SHOW")) E().maxi(nm, e / tol);
        if (!(e <= tol)) { MC_FAIL("%s: root %.12g of %sreported as %.12g", nm, (double)want[i], showP(p).c_str(), g[i]); return false; }
      }
      return true;
    };
    if (!same(got, 1e-5 * (double)big, "findRoots")) return;
    std::vector<double> br; s->bracketRoots(br, 0.01); if (!same(br, 0.0051 * 1.0, "bracketRoots(0.01)")) return;
    std::vector<double> bd; s->bracketRoots(bd); if (bd.size() != want.size()) { MC_FAIL("bracketRoots: %zu brackets, %zu roots", bd.size(), want.size()); return; }
    std::vector<double> r2; s->findRoots2(r2, 1e-7, 1e-9); if (!same(r2, 1e-5 * (double)big, "findRoots2")) return;
    double B = s->computeLagrangianBound();
    for (ld w : want) if (!(B >= fabsl(w))) { MC_FAIL("computeLagrangianBound %g below the root %g", B, (double)w); return; }
    if (chain)
    {
      std::vector<double> at = {-1000.3, -7.37, -3.61, -2.13, -1.31, -0.73, -0.29, -0.017, 0.37, 0.57, 1.13, 1.63, 2.39, 4.21, 9.77, 1000.7};
      std::vector<size_t> ch; std::vector<double> ok;
      for (double x : at)
      {
        bool close = false; for (ld w : want) close |= fabsl(w - x) < 1e-3L;
        if (close) continue;
        size_t a = s->evaluateChain(x), b = s->evaluateChain2(x);
        if (a != b) { MC_FAIL("evaluateChain %zu, evaluateChain2 %zu at %g", a, b, x); return; }
        ch.push_back(a); ok.push_back(x);
      }
      for (size_t i = 0; i < ok.size(); i++) for (size_t j = i + 1; j < ok.size(); j++)
      {
        long k = 0; for (ld w : want) k += w > ok[i] && w <= ok[j];
        if ((long)ch[i] - (long)ch[j] != k) { MC_FAIL("chain: %ld roots counted in (%g,%g] of %s, true %ld", (long)ch[i] - (long)ch[j], ok[i], ok[j], showP(p).c_str(), k); return; }
      }
    }
  }
  E().outcome(hashStr(showP(p)));
}
// the Sturm chain has one polynomial of every degree (no drop), with leading coefficients of fair size
static bool fullChain(const Poly &p0)
{
  std::vector<ld> a = toL(p0), b = deriv(a);
  auto norm = [](const std::vector<ld> &v) { ld m = 0; for (ld x : v) m = std::max(m, fabsl(x)); return m; };
  while (b.size() > 1)
  {
    // remainder of a by b
    std::vector<ld> r = a;
    for (size_t k = 0; k + b.size() <= a.size(); k++) { ld q = r[k] / b[0]; for (size_t j = 0; j < b.size(); j++) r[k + j] -= q * b[j]; }
    std::vector<ld> c(r.begin() + (a.size() - b.size() + 1), r.end());
    for (ld &x : c) x = -x;
    if (c.empty() || fabsl(c[0]) < 1e-3L * norm(c) || norm(c) < 1e-6L * norm(a)) return false;
    a = b; b = c;
  }
  return true;
}
static void closedCases(bool T)
{
  int M = T ? 20 : 9;
  for (int a : {1, -2, 3}) for (int r = -M; r <= M; r++)
  {
    if (!E().begin(fmt("o3:roots:a=%d:r=%d", a, r))) continue;
    for (int s = r; s <= M; s++) for (int t = s; t <= M; t++)
    {
      Poly p = mul(mul(Poly{(double)a, -(double)a * r}, Poly{1, -(double)s}), Poly{1, -(double)t});
      checkClosed(p, {(ld)r, (ld)s, (ld)t}, r == s && s == t ? 2e-4 : (r == s || s == t) ? 1e-5 : 1e-9);
      E().outcome(hashStr(showP(p)));
    }
    for (int u = -4; u <= 4; u++) for (int w = 1; w <= 4; w++) { Poly p = mul(Poly{(double)a, -(double)a * r}, Poly{1, -2.0 * u, (double)u * u + w * w}); checkClosed(p, {(ld)r}, 1e-8); E().outcome(hashStr(showP(p))); }
  }
  int K = T ? 30 : 12;
  for (int a : {1, 2, -1, -3}) for (int b = -K; b <= K; b++)
  {
    if (!E().begin(fmt("o3:coef:a=%d:b=%d", a, b))) continue;
    for (int c = -K; c <= K; c++) for (int d = -K; d <= K; d++)
    {
      Poly p = {(double)a, (double)b, (double)c, (double)d}; std::vector<ld> w;
      if (!regular(toL(p), w)) { E().counters["ill-conditioned, not judged"]++; continue; }
      checkClosed(p, w, 1e-7); E().outcome(hashStr(showP(p)));
    }
  }
  int Q = T ? 14 : 8;
  for (int a : {1, -2}) for (int r = -Q; r <= Q; r++)
  {
    if (!E().begin(fmt("o4:roots:a=%d:r=%d", a, r))) continue;
    for (int s = r + 1; s <= Q; s++)
    {
      Poly rs = mul(Poly{(double)a, -(double)a * r}, Poly{1, -(double)s});
      for (int t = s + 1; t <= Q; t++) for (int q = t + 1; q <= Q; q++)
      { Poly p = mul(rs, mul(Poly{1, -(double)t}, Poly{1, -(double)q})); checkClosed(p, {(ld)r, (ld)s, (ld)t, (ld)q}, 1e-6); E().outcome(hashStr(showP(p))); }
      for (int u = -4; u <= 4; u++) for (int w = 1; w <= 4; w++)
      { Poly p = mul(rs, Poly{1, -2.0 * u, (double)u * u + w * w}); checkClosed(p, {(ld)r, (ld)s}, 1e-6); E().outcome(hashStr(showP(p))); }
    }
  }
  int C = T ? 9 : 5;
  for (int a : {1, -2}) for (int b = -C; b <= C; b++) for (int c = -C; c <= C; c++)
  {
    if (!E().begin(fmt("o4:coef:a=%d:b=%d:c=%d", a, b, c))) continue;
    for (int d = -C; d <= C; d++) for (int e = -C; e <= C; e++)
    {
      Poly p = {(double)a, (double)b, (double)c, (double)d, (double)e}; std::vector<ld> w;
      if (!regular(toL(p), w)) { E().counters["ill-conditioned, not judged"]++; continue; }
      if (w.empty()) { E().counters["no real root"]++; continue; }
      checkClosed(p, w, 1e-6); E().outcome(hashStr(showP(p)));
    }
  }
}
static void sturmCases(bool T)
{
  // every polynomial with small integer coefficients
  struct G { int deg, m; };
  for (G g : T ? std::vector<G>{{1, 20}, {2, 20}, {3, 12}, {4, 6}, {5, 4}, {6, 3}, {7, 2}, {8, 2}, {9, 1}, {10, 1}} : std::vector<G>{{1, 6}, {2, 6}, {3, 4}, {4, 3}, {5, 2}, {6, 2}, {7, 1}, {8, 1}, {9, 1}, {10, 1}})
    for (int lead : {1, -1, 3}) for (int b = -g.m; b <= g.m; b++) for (int c = -g.m; c <= (g.deg >= 2 ? g.m : -g.m); c++)
    {
      if (!E().begin(fmt("sturm:coef:deg=%d:%d.%d.%d", g.deg, lead, b, c))) continue;
      std::vector<int> base(std::max(0, g.deg - 2), 2 * g.m + 1);
      product(base, [&](const std::vector<int> &v) {
        Poly p = {(double)lead, (double)b}; if (g.deg >= 2) p.push_back(c);
        for (int x : v) p.push_back(x - g.m);
        std::vector<ld> w;
        if (!regular(toL(p), w) || !fullChain(p)) { E().counters["irregular, not judged"]++; return; }
        checkSturm(p, w, true); E().tick();
      });
    }
  // all choices of k zeros from a grid, times an optional complex pair
  std::vector<double> z = T ? std::vector<double>{-6, -4, -2.75, -2, -1.25, -0.5, 0, 0.25, 0.75, 1.5, 2.25, 3, 4.5, 7} : std::vector<double>{-4, -2.75, -2, -1.25, -0.5, 0, 0.75, 1.5, 2.25, 3, 4.5, 7};
  for (int k = 1; k <= 10; k++) for (int pairs = 0; pairs <= 2 && k + 2 * pairs <= 10; pairs++)
  {
    combinations(z.size(), k, [&](const std::vector<int> &c) {
      if (!E().begin(fmt("sturm:roots:%s:pairs=%d", joinInts(c).c_str(), pairs))) return;
      Poly p = {k % 2 ? 1.0 : -2.0}; std::vector<ld> w;
      for (int i : c) { p = mul(p, Poly{1, -z[i]}); w.push_back(z[i]); }
      if (pairs > 0) p = mul(p, Poly{1, -2, 5});
      if (pairs > 1) p = mul(p, Poly{1, 3, 6});
      if (!fullChain(p)) { E().counters["irregular, not judged"]++; return; }
      checkSturm(p, w, k + 2 * pairs <= 7);
    });
  }
  // x^n + a x + b: the chain has four members only
  for (int n = 3; n <= 10; n++) for (int a = -6; a <= 6; a++)
  {
    if (!a || !E().begin(fmt("sturm:trinomial:n=%d:a=%d", n, a))) continue;
    for (int b = -12; b <= 12; b++) for (int l : {1, -1, 2})
    {
      Poly p(n + 1, 0.0); p[0] = l; p[n - 1] = a; p[n] = 0.5 * b; std::vector<ld> w;
      if (!regular(toL(p), w)) { E().counters["irregular, not judged"]++; continue; }
      checkSturm(p, w, true);
    }
  }
  // large and small coefficients: the same zeros, always an end
  for (int e = -12; e <= 24; e += 3) for (int k = 1; k <= 5; k++)
  {
    if (!E().begin(fmt("sturm:scaled:e=%d:k=%d", e, k))) continue;
    combinations(6, k, [&](const std::vector<int> &c) {
      Poly p = {1}; std::vector<ld> w;
      for (int i : c) { p = mul(p, Poly{1, -z[i]}); w.push_back(z[i]); }
      for (double &x : p) x *= std::pow(10.0, e);
      if (!fullChain(p)) { E().counters["irregular, not judged"]++; return; }
      E().evaluations++;
      math::Sturm s(p);
      std::vector<double> r = s.findRoots(); std::sort(r.begin(), r.end());
      bool ok = r.size() == w.size(); for (size_t i = 0; ok && i < r.size(); i++) ok = std::fabs(r[i] - (double)w[i]) < 1e-5;
      if (!ok) { MC_FAIL("findRoots: coefficients times 1e%d change the roots", e); return; }
      std::vector<double> q; s.findRoots2(q, 1e-6, 1e-12 * std::pow(10.0, std::min(e, 0))); std::sort(q.begin(), q.end());
      ok = q.size() == w.size(); for (size_t i = 0; ok && i < q.size(); i++) ok = std::fabs(q[i] - (double)w[i]) < 1e-4;
      if (!ok) { MC_FAIL("findRoots2: coefficients times 1e%d change the roots", e); return; }
      E().outcome(mix(hashStr(E().key), hashInts(c)));
    });
  }
}

// ------------------------------------------------------------------ rotation conversions
static void convCases(bool T)
{
  int Q = T ? 12 : 6;
  for (int w = -Q; w <= Q; w++) for (int x = -Q; x <= Q; x++)
  {
    if (!E().begin(fmt("quat:%d.%d", w, x))) continue;
    for (int y = -Q; y <= Q; y++) for (int z = -Q; z <= Q; z++)
    {
      if (!w && !x && !y && !z) continue;
      E().evaluations++;
      double n = std::sqrt((double)(w * w + x * x + y * y + z * z));
      quaternion_t q; q << w / n, x / n, y / n, z / n;
      M3 R = fromQuat(w, x, y, z);
      rotation_t G = math::quaternion2rot(q);
      if (!(rotErr(G, R) < 1e-12)) { MC_FAIL("quaternion2rot(%d %d %d %d) = %s", w, x, y, z, showM(G).c_str()); continue; }
      quaternion_t b = math::rot2quaternion(R);
      double e = std::min((b - q).norm(), (b + q).norm());
      // components near zero come from differences of numbers of size one
      if (!(e < 1e-6)) { MC_FAIL("rot2quaternion of (%d %d %d %d)/%g gives %s", w, x, y, z, n, showM(b).c_str()); continue; }
      if (!(std::fabs(b.norm() - 1) < 1e-12)) { MC_FAIL("rot2quaternion: norm %g", b.norm()); continue; }
      double back = rotErr(math::quaternion2rot(b), R);
      if (!(back < 1e-6)) { MC_FAIL("rotation of quaternion (%d %d %d %d) changed by %g on the way there and back", w, x, y, z, back); continue; }
      E().outcome(mix(mix(hashStr(E().key), y + 100), z + 100));
      if (w != 0)
      {
        // the same rotation as Cayley parameters
        cayley_t c((double)x / w, (double)y / w, (double)z / w);
        rotation_t C = math::cayley2rot(c), D = math::cayley2rot_reduced(c);
        if (!(rotErr(C, R) < 1e-12)) { MC_FAIL("cayley2rot(%g %g %g) = %s", c[0], c[1], c[2], showM(C).c_str()); continue; }
        if (!(rotErr(D, R * (1 + c.squaredNorm())) < 1e-11 * (1 + c.squaredNorm()))) { MC_FAIL("cayley2rot_reduced(%g %g %g) = %s", c[0], c[1], c[2], showM(D).c_str()); continue; }
        cayley_t g = math::rot2cayley(R);
        double ec = (g - c).norm() / (1 + c.squaredNorm());
        if (!(ec < 1e-10)) { MC_FAIL("rot2cayley of the rotation of (%g %g %g) gives %s", c[0], c[1], c[2], showM(g).c_str()); continue; }
      }
    }
  }
  // fine angles around every axis of the grid, close to zero and close to a half turn
  std::vector<double> ang; for (int k = -60; k <= 60; k++) ang.push_back(k * M_PI / 60.0);
  for (double s : {1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10}) { ang.push_back(s); ang.push_back(-s); ang.push_back(M_PI - s); ang.push_back(s - M_PI); }
  for (int k = 0; k < 27; k++)
  {
    if (k == 13) continue;
    if (!E().begin(fmt("axis:%d", k))) continue;
    V3 a = trans27(k).normalized();
    for (double t : ang)
    {
      E().evaluations++;
      quaternion_t q; q << std::cos(t / 2), a[0] * std::sin(t / 2), a[1] * std::sin(t / 2), a[2] * std::sin(t / 2);
      M3 R = fromQuat(q[0], q[1], q[2], q[3]);
      quaternion_t b = math::rot2quaternion(R);
      double e = std::min((b - q).norm(), (b + q).norm());
      if (!(e < 1e-6)) MC_FAIL("rot2quaternion: angle %.12g about axis %d is off by %g", t, k, e);
      if (std::fabs(t) < 3.0)
      {
        cayley_t c = a * std::tan(t / 2);
        if (!((math::rot2cayley(R) - c).norm() < 1e-9 * (1 + c.squaredNorm()))) MC_FAIL("rot2cayley: angle %.12g about axis %d", t, k);
        if (!(rotErr(math::cayley2rot(c), R) < 1e-12)) MC_FAIL("cayley2rot: angle %.12g about axis %d", t, k);
      }
      E().outcome(mix(hashStr(E().key), (uint64_t)(int64_t)(t * 1e9)));
    }
  }
}

// ------------------------------------------------------------------ Gauss-Jordan elimination
static void gaussOne(const std::vector<std::vector<double>> &A, int exitCondition)
{
  int m = A.size(), n = A[0].size();
  // reference: full pivoting by rows in long double on the left square part
  std::vector<std::vector<ld>> B(m); for (int i = 0; i < m; i++) B[i].assign(A[i].begin(), A[i].end());
  ld minPivot = 1e30;
  for (int k = 0; k < m; k++)
  {
    int p = k; for (int i = k; i < m; i++) if (fabsl(B[i][k]) > fabsl(B[p][k])) p = i;
    minPivot = std::min(minPivot, fabsl(B[p][k]));
    if (fabsl(B[p][k]) < 1e-3L) { E().counters["singular, not judged"]++; return; }
    std::swap(B[p], B[k]);
    ld v = B[k][k]; for (ld &x : B[k]) x /= v;
    for (int i = 0; i < m; i++) if (i != k) { ld f = B[i][k]; if (f != 0) for (int j = 0; j < n; j++) B[i][j] -= f * B[k][j]; }
  }
  std::vector<std::vector<double>> C = A;
  std::vector<std::vector<double> *> P; for (auto &r : C) P.push_back(&r);
  std::set<std::vector<double> *> before(P.begin(), P.end());
  E().evaluations++;
  math::gauss_jordan(P, exitCondition);
  if (std::set<std::vector<double> *>(P.begin(), P.end()) != before || (int)P.size() != m) { MC_FAIL("rows lost or duplicated"); return; }
  for (int i = 0; i < m; i++)
  {
    if ((int)P[i]->size() != n) { MC_FAIL("row %d has %zu columns", i, P[i]->size()); return; }
    for (int j = 0; j <= i && j < m; j++) if (!(std::fabs((*P[i])[j] - (i == j)) < 1e-8)) { MC_FAIL("entry (%d,%d) is %g after elimination", i, j, (*P[i])[j]); return; }
    if (i >= exitCondition) for (int j = 0; j < n; j++)
    {
      double e = std::fabs((*P[i])[j] - (double)B[i][j]) / std::max((ld)1, fabsl(B[i][j]));
      if (getenv("MC_SHOW")) E().maxi("gauss", e);
      if (!(e < 1e-6)) { MC_FAIL("entry (%d,%d) is %.9g, the reduced matrix has %.9g", i, j, (*P[i])[j], (double)B[i][j]); return; }
    }
  }
  // rows above the exit row are still in the row space: reduce them further and compare
  for (int i = 0; i < exitCondition && i < m; i++)
  {
    std::vector<ld> r(P[i]->begin(), P[i]->end());
    for (int k = i + 1; k < m; k++) { ld f = r[k]; if (f != 0) for (int j = 0; j < n; j++) r[j] -= f * B[k][j]; }
    for (int j = 0; j < n; j++) if (!(fabsl(r[j] - B[i][j]) < 1e-6L * std::max((ld)1, fabsl(B[i][j])))) { MC_FAIL("row %d left the row space", i); return; }
  }
}
static void gaussCases(bool T)
{
  struct G { int m, n, k; };
  for (G g : T ? std::vector<G>{{1, 2, 5}, {1, 1, 9}, {2, 2, 6}, {2, 3, 5}, {2, 4, 3}, {3, 4, 1}, {3, 3, 3}} : std::vector<G>{{1, 2, 5}, {1, 1, 9}, {2, 2, 4}, {2, 3, 3}, {2, 4, 2}, {3, 4, 1}, {3, 3, 2}})
  {
    std::vector<int> base(g.m * g.n - 1, 2 * g.k + 1);
    for (int first = -g.k; first <= g.k; first++) for (int ex = 0; ex < g.m; ex++)
    {
      std::vector<int> b2 = base; int second = b2.empty() ? 1 : b2[0]; if (!b2.empty()) b2.erase(b2.begin());
      for (int s = 0; s < second; s++)
      {
        if (!E().begin(fmt("gauss:%dx%d:%d:exit=%d:first=%d.%d", g.m, g.n, g.k, ex, first, s))) continue;
        product(b2, [&](const std::vector<int> &v) {
          std::vector<std::vector<double>> A(g.m, std::vector<double>(g.n));
          for (int i = 0, q = -2; i < g.m; i++) for (int j = 0; j < g.n; j++, q++) A[i][j] = q == -2 ? first : q == -1 ? s - g.k : v[q] - g.k;
          gaussOne(A, ex);
        });
        E().outcome(hashStr(E().key)); E().tick();
      }
    }
  }
  // larger ones, dense and sparse
  for (int m = 4; m <= (T ? 70 : 40); m++) for (int extra : {0, 1, 5, 20}) for (int dens = 1; dens <= 3; dens++) for (int ex = 0; ex < m; ex += std::max(1, m / 6))
  {
    if (!E().begin(fmt("gauss:large:%dx%d:density=%d:exit=%d", m, m + extra, dens, ex))) continue;
    for (int set = 0; set < (T ? 60 : 20); set++)
    {
      std::vector<std::vector<double>> A(m, std::vector<double>(m + extra, 0.0));
      for (int i = 0; i < m; i++) for (int j = 0; j < m + extra; j++) { int v = lat(m * 100 + extra + set * 7919, i * 100 + j, dens, 4); if (dens == 3 || (lat(m, i * 97 + j, set + dens * 50, 5) + 5) % (dens == 1 ? 4 : 2) == 0 || (i + set) % m == j) A[i][j] = v; }
      gaussOne(A, ex);
    }
    E().outcome(hashStr(E().key));
  }
}

// ------------------------------------------------------------------ point clouds
static double hornBest(const Eigen::Matrix3d &H) // largest trace(R H) over all rotations
{
  Eigen::Matrix3d S = H; // trace(R H) = q^T N q
  Eigen::Matrix4d N;
  double a = S(0, 0), b = S(0, 1), c = S(0, 2), d = S(1, 0), e = S(1, 1), f = S(1, 2), g = S(2, 0), h = S(2, 1), i = S(2, 2);
  N << a + e + i, f - h, g - c, b - d,
       f - h, a - e - i, b + d, g + c,
       g - c, b + d, -a + e - i, f + h,
       b - d, g + c, f + h, -a - e + i;
  return Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(N).eigenvalues()[3];
}
static void cloudCases(bool T)
{
  // every small integer matrix
  int K = T ? 3 : 2;
  for (int p = -K; p <= K; p++) for (int q = -K; q <= K; q++) for (int r = -K; r <= K; r++) for (int s2 = -K; s2 <= K; s2++)
  {
    if (!E().begin(fmt("arun:%d.%d.%d.%d", p, q, r, s2))) continue;
    product(std::vector<int>(5, 2 * K + 1), [&](const std::vector<int> &v) {
      E().evaluations++;
      Eigen::MatrixXd H(3, 3); H << p, q, r, s2, v[0] - K, v[1] - K, v[2] - K, v[3] - K, v[4] - K;
      rotation_t R = math::arun(H);
      if (!isRotation(R, 1e-9)) { MC_FAIL("arun gives no rotation for %s", showM(H).c_str()); return; }
      double best = hornBest(H), got = (R * H).trace();
      if (!(got > best - 1e-9)) { MC_FAIL("arun of %s reaches %.9g, the best rotation %.9g", showM(H).c_str(), got, best); return; }
    });
    E().outcome(hashStr(E().key));
  }
  std::vector<M3> Rs = rotations40(); for (int i = 0; i < 192; i += (T ? 1 : 3)) Rs.push_back(rotations192()[i]);
  for (size_t r = 0; r < Rs.size(); r++) for (int t = 0; t < 27; t++) for (int shape = 0; shape < 5; shape++)
  {
    if (!E().begin(fmt("cloud:rot=%zu:t=%d:shape=%d", r, t, shape))) continue;
    for (int n : {3, 4, 5, 6, 10, 17, 64, 200}) for (int set = 0; set < (T ? 16 : 4); set++) for (int noise = 0; noise < 3; noise++)
    {
      // shapes: 0..2 as localPoint, 3 a plane through the origin, 4 far from the origin
      points_t p1, p2; std::vector<int> order;
      for (int i = 0; i < n + 4; i++)
      {
        V3 q = shape < 3 ? localPoint(set, i, shape) : shape == 3 ? V3(frac(set, i, 7), 3 * frac(set, i, 8), 0) : V3(localPoint(set, i, 0) * 0.2 + V3(50, -30, 20));
        p2.push_back(q);
        p1.push_back(Rs[r] * q + trans27(t) * (shape == 4 ? 20 : 1));
        if (noise) p1.back() += V3(frac(31, i, set), frac(32, i, set), frac(33, i, set)) * (noise == 1 ? 0.05 : 2.0);
      }
      // indices: a scattered selection of n of the n+4
      for (int i = 0; i < n; i++) order.push_back((i * 3 + 1) % (n + 4));
      { std::set<int> u(order.begin(), order.end()); if ((int)u.size() != n) { order.clear(); for (int i = 0; i < n; i++) order.push_back(n + 3 - i); } }
      auto judge = [&](const transformation_t &X, const std::vector<int> &ix, const char *nm) {
        E().evaluations++;
        V3 c1(0, 0, 0), c2(0, 0, 0); for (int i : ix) { c1 += p1[i]; c2 += p2[i]; } c1 /= ix.size(); c2 /= ix.size();
        Eigen::Matrix3d H = Eigen::Matrix3d::Zero(); double q1 = 0, q2 = 0;
        for (int i : ix) { H += (p2[i] - c2) * (p1[i] - c1).transpose(); q1 += (p1[i] - c1).squaredNorm(); q2 += (p2[i] - c2).squaredNorm(); }
        double best = std::max(0.0, q1 + q2 - 2 * hornBest(H)), cost = 0;
        for (int i : ix) cost += (p1[i] - X.block<3, 3>(0, 0) * p2[i] - X.col(3)).squaredNorm();
        if (!isRotation(X.block<3, 3>(0, 0), 1e-9)) { MC_FAIL("%s: no rotation", nm); return; }
        double e = (cost - best) / (q1 + q2);
        if (getenv("MC_SHOW")) E().maxi(std::string("excess ") + nm, e);
        if (!(e < 1e-9)) { MC_FAIL("%s: n=%zu noise=%d set=%d: cost %.12g, the best alignment has %.12g", nm, ix.size(), noise, set, cost, best); return; }
        if (!noise && !(poseErr(X, [&] { transformation_t Y; Y.block<3, 3>(0, 0) = Rs[r]; Y.col(3) = trans27(t) * (shape == 4 ? 20 : 1); return Y; }()) < 1e-8)) MC_FAIL("%s: n=%zu set=%d: not the true transformation", nm, ix.size(), set);
      };
      point_cloud::PointCloudAdapter a(p1, p2);
      judge(point_cloud::threept_arun(a, order), order, "threept_arun with indices");
      judge(point_cloud::threept_arun(a), iota(n + 4), "threept_arun");
      judge(math::arun_complete(p1, p2), iota(n + 4), "arun_complete");
    }
    E().outcome(hashStr(E().key));
  }
}

// ------------------------------------------------------------------ triangulation
static void triCases(bool T)
{
  std::vector<M3> Rs = rotations40(); for (int i = 0; i < 192; i += (T ? 1 : 5)) Rs.push_back(rotations192()[i]);
  int L = T ? 4 : 3;
  for (size_t r = 0; r < Rs.size(); r++) for (int tk = 0; tk < 27; tk++)
  {
    if (tk == 13) continue;
    for (double len : {1.0, 0.35, 40.0}) for (double far : {1.0, 30.0, 1000.0})
    {
      if (far > 1 && !T && r % 4 != 1) continue;
      if (!E().begin(fmt("tri:rot=%zu:t=%d:len=%g:far=%g", r, tk, len, far))) continue;
      M3 R = Rs[r]; V3 t = trans27(tk) * len;
      bearingVectors_t f1, f2, g2; points_t pts; std::vector<double> par; std::vector<double> wts;
      product({2 * L + 1, 2 * L + 1, 2 * L + 1}, [&](const std::vector<int> &v) {
        V3 p(v[0] - L, v[1] - L, v[2] - L); p *= (1.0 + 0.1 * (v[0] % 2)) * far;
        V3 q = R.transpose() * (p - t);
        if (p.norm() < 0.2 || q.norm() < 0.2) return;
        V3 a = p.normalized(), b = q.normalized();
        double s = a.cross(R * b).norm(); if (s < (far > 1 ? 2e-4 : 0.05)) return;
        pts.push_back(p); f1.push_back(a); f2.push_back(b); par.push_back(s); wts.push_back(1);
        int i = pts.size(); g2.push_back((b + 0.01 * V3(frac(61, i, r), frac(62, i, tk), frac(63, i, 3))).normalized());
      });
      relative_pose::CentralRelativeAdapter a(f1, f2, t, R), n(f1, g2, t, R), later(f1, f2);
      relative_pose::CentralRelativeWeightingAdapter w(f1, f2, wts, t, R);
      later.sett12(t); later.setR12(R);
      const relative_pose::RelativeAdapterBase *ad[3] = {&a, &w, &later};
      for (size_t i = 0; i < pts.size(); i++)
      {
        double tol = (par[i] < 0.05 ? 1e-13 : 1e-9) / (par[i] * par[i]) * std::max({1.0, t.norm(), pts[i].norm()});
        for (int k = 0; k < 3; k++)
        {
          E().evaluations += 2;
          double e1 = vecErr(triangulation::triangulate(*ad[k], i), pts[i]), e2 = vecErr(triangulation::triangulate2(*ad[k], i), pts[i]);
          if (getenv("MC_SHOW")) { E().maxi(fmt("triangulate %g %g", len, far), e1 / tol); E().maxi(fmt("triangulate2 %g %g", len, far), e2 / tol); }
          if (!(e1 < tol)) MC_FAIL("triangulate: point %s found with error %g", showM(pts[i]).c_str(), e1);
          if (!(e2 < tol)) MC_FAIL("triangulate2: point %s found with error %g", showM(pts[i]).c_str(), e2);
        }
        // disturbed rays: midpoint of the common perpendicular, and the linear method stays close
        V3 x = f1[i], y = R * g2[i], c = x.cross(y);
        // l x + s c = t + m y
        M3 S; S.col(0) = x; S.col(1) = -y; S.col(2) = c;
        V3 sol = S.fullPivLu().solve(t);
        V3 mid = 0.5 * (sol[0] * x + t + sol[1] * y);
        double e2 = vecErr(triangulation::triangulate2(n, i), mid);
        if (!(e2 < tol * 10 * std::max(1.0, mid.norm()))) MC_FAIL("triangulate2: disturbed rays, %g from the midpoint", e2);
        if (par[i] > 0.3)
        {
          double e1 = vecErr(triangulation::triangulate(n, i), pts[i]);
          if (getenv("MC_SHOW")) E().maxi("triangulate disturbed", e1);
          if (!(e1 < 2.0 * std::max({1.0, t.norm(), pts[i].norm() / 4}))) MC_FAIL("triangulate: rays disturbed by 0.01, point moves by %g", e1);
        }
      }
      E().outcome(hashStr(E().key));
    }
  }
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  std::string what = "roots";
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  bool T = E().thorough;
  if (what == "roots") { closedCases(T); sturmCases(T); }
  if (what == "conv") convCases(T);
  if (what == "gauss") gaussCases(T);
  if (what == "cloud") cloudCases(T);
  if (what == "tri") triCases(T);
  return E().finish();
}
