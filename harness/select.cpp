// P08: a result depends on the selected correspondences only (index lists, overloads, order, adapter classes).
// P23: weights.
#include "calls.hpp"
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
using namespace mc;
using namespace cl;
typedef std::vector<int> VI;
static const double NaN = std::nan("");

// the data of one problem; everything an adapter can be built from
struct Abs
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  points_t p; bearingVectors_t f; VI cc; Rig r; M3 R0; V3 t0;
  Abs sub(const VI &ix) const { Abs s = *this; s.p.clear(); s.f.clear(); s.cc.clear(); for (int i : ix) { s.p.push_back(p[i]); s.f.push_back(f[i]); s.cc.push_back(cc[i]); } return s; }
  Abs poison(const VI &ix) const { Abs s = *this; for (size_t i = 0; i < p.size(); i++) if (std::find(ix.begin(), ix.end(), (int)i) == ix.end()) { s.p[i].fill(NaN); s.f[i].fill(NaN); } return s; }
};
struct Rel
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  bearingVectors_t f1, f2; VI c1, c2; Rig r; M3 R0; V3 t0; std::vector<double> w;
  Rel sub(const VI &ix) const { Rel s = *this; s.f1.clear(); s.f2.clear(); s.c1.clear(); s.c2.clear(); s.w.clear(); for (int i : ix) { s.f1.push_back(f1[i]); s.f2.push_back(f2[i]); s.c1.push_back(c1[i]); s.c2.push_back(c2[i]); s.w.push_back(w[i]); } return s; }
  Rel poison(const VI &ix) const { Rel s = *this; for (size_t i = 0; i < f1.size(); i++) if (std::find(ix.begin(), ix.end(), (int)i) == ix.end()) { s.f1[i].fill(NaN); s.f2[i].fill(NaN); s.w[i] = NaN; } return s; }
};
// a user's own adapter: exactly the documented interface
struct MyAbs : AA
{
  Abs d; MyAbs(const Abs &x) : d(x) { setR(x.R0); sett(x.t0); }
  bearingVector_t getBearingVector(size_t i) const { return d.f[i]; }
  double getWeight(size_t) const { return 1.0; }
  translation_t getCamOffset(size_t i) const { return d.r.off[d.cc[i]]; }
  rotation_t getCamRotation(size_t i) const { return d.r.rot[d.cc[i]]; }
  point_t getPoint(size_t i) const { return d.p[i]; }
  size_t getNumberCorrespondences() const { return d.p.size(); }
};
struct MyRel : RA
{
  Rel d; MyRel(const Rel &x) : d(x) { setR12(x.R0); sett12(x.t0); }
  bearingVector_t getBearingVector1(size_t i) const { return d.f1[i]; }
  bearingVector_t getBearingVector2(size_t i) const { return d.f2[i]; }
  double getWeight(size_t i) const { return d.w[i]; }
  translation_t getCamOffset1(size_t i) const { return d.r.off[d.c1[i]]; }
  rotation_t getCamRotation1(size_t i) const { return d.r.rot[d.c1[i]]; }
  translation_t getCamOffset2(size_t i) const { return d.r.off[d.c2[i]]; }
  rotation_t getCamRotation2(size_t i) const { return d.r.rot[d.c2[i]]; }
  size_t getNumberCorrespondences() const { return d.f1.size(); }
};
static Raw runA(int m, AA &a, const Abs &d, Idx ix) { randState = 17; a.setR(d.R0); a.sett(d.t0); return runAbs(m, a, ix).raw; }
static Raw runR(int m, RA &a, const Rel &d, Idx ix) { randState = 17; a.setR12(d.R0); a.sett12(d.t0); return runRel(m, a, ix).raw; }

// equal up to rounding: number by number, or as sets of candidates
static bool close(const Raw &a, const Raw &b, int chunk, double tol, std::string *why)
{
  if (same(a, b, tol, why)) return true;
  if (a.size() != b.size() || chunk == 0 || a.size() % chunk) return false;
  size_t n = a.size() / chunk; std::vector<char> used(n, 0);
  for (size_t i = 0; i < n; i++)
  {
    bool hit = false;
    for (size_t j = 0; j < n && !hit; j++) if (!used[j])
    {
      bool ok = true; for (int k = 0; k < chunk && ok; k++) { double x = a[i * chunk + k], y = b[j * chunk + k]; ok = (x != x && y != y) || std::fabs(x - y) <= tol * std::max(1.0, std::fabs(x)); }
      if (ok) { used[j] = 1; hit = true; }
    }
    if (!hit) return false;
  }
  return true;
}
// essential matrices have no scale and no sign
static Raw normalE(const Raw &a, int chunk)
{
  Raw r = a;
  for (size_t i = 0; i + chunk <= r.size(); i += chunk)
  {
    int big = 0; for (int k = 1; k < chunk; k++) if (std::fabs(r[i + k]) > std::fabs(r[i + big])) big = k;
    if (chunk == 18) { std::complex<double> s(0); double best = 0; for (int k = 0; k < 9; k++) { std::complex<double> c(r[i + 2 * k], r[i + 2 * k + 1]); if (std::abs(c) > best) { best = std::abs(c); s = c; } } for (int k = 0; k < 9; k++) { std::complex<double> c(r[i + 2 * k], r[i + 2 * k + 1]); c /= s; r[i + 2 * k] = c.real(); r[i + 2 * k + 1] = c.imag(); } }
    else { double s = r[i + big]; for (int k = 0; k < chunk; k++) r[i + k] /= s; }
  }
  return r;
}
static int chunkAbs(int m) { return m == P2P ? 3 : 12; }
static int chunkRel(int m) { switch (m) { case TWOPT: return 3; case STEWENIUS: return 18; case TWOPT_ROT: case ROTONLY: case NISTER: case KNEIP5: case SEVENPT: case EIGHTPT: case SIXPT: return 9; case SEVENTEEN: case RELOPT: return 12; default: return 0; } }
// what has to agree if only the order of the correspondences differs
static Raw essenceRel(int m, const Raw &r)
{
  if (m == STEWENIUS || m == NISTER || m == SEVENPT || m == EIGHTPT) return normalE(r, chunkRel(m));
  if (m == EIGEN || m == EIGENW || m == GE || m == GEW) return Raw(r.begin(), r.begin() + 12);
  return r;
}

static std::vector<VI> lists(int k, int n, bool exact, bool T)
{
  std::vector<VI> L;
  if (exact && k <= 3)
  {
    VI pool = {1, 4, 0, 7, 10, 5}; if (T) { pool.push_back(11); pool.push_back(2); }
    arrangements(pool.size(), k, [&](const VI &a) { VI l; for (int i : a) l.push_back(pool[i]); L.push_back(l); });
    return L;
  }
  std::vector<int> sizes = {k}; if (!exact) { sizes.push_back(k + 1); sizes.push_back(k + 3); sizes.push_back(n - 1); sizes.push_back(n); }
  std::set<VI> seen;
  for (int s : sizes) if (s <= n && s >= k)
    for (int stride : T ? VI{1, 2, 3, 5, 7, 11, 13} : VI{1, 3, 7})
      for (int start = 0; start < n; start += T ? 1 : 4)
        for (int rev = 0; rev < 2; rev++)
        {
          VI l; std::vector<char> used(n, 0); int x = start;
          while ((int)l.size() < s) { while (used[x]) x = (x + 1) % n; used[x] = 1; l.push_back(x); x = (x + stride) % n; }
          if (rev) std::reverse(l.begin(), l.end());
          if (seen.insert(l).second) L.push_back(l);
        }
  return L;
}
struct OrderStat { int n = 0, bad = 0; std::string first; };
static std::map<std::string, OrderStat> order;

template <class F> static bool expect(const char *what, const std::string &solver, const VI &L, const Raw &want, const Raw &got, int chunk, F key)
{
  E().evaluations++; E().tick();
  std::string why;
  if (same(want, got, 0) || close(want, got, chunk, 1e-5, &why)) { E().outcome(mix(mix(hashStr(what), hashStr(solver)), mix(hashInts(L), key()))); return true; }
  std::string s; for (int i : L) s += fmt("%d ", i);
  MC_FAIL("%s, %s (correspondences %s): %s", solver.c_str(), what, s.c_str(), why.c_str());
  return false;
}

static void absolute(int m, int world, bool rigs, bool T)
{
  World w(world, 7 + 31 * world, world % 3, 0, 1e-3);
  AbsScene &sc = rigs ? *w.sa2 : *w.sa1;
  Abs d; d.p = sc.pts; d.f = sc.f; d.cc = sc.cc; d.r = sc.r; d.R0 = w.R * fromQuat(20, 1, -1, 1); d.t0 = w.t + V3(.1, .1, -.1);
  int n = d.p.size(), k = m == UPNP ? 7 : m == ABSOPT ? 6 : absMin(m);
  bool exact = absExactCount(m);
  std::string nm = std::string(absName(m)) + (rigs ? " (rig)" : "");
  auto key = [&] { return (uint64_t)world; };
  MyAbs full(d);
  for (auto &L : lists(k, n, exact, T))
  {
    Abs s = d.sub(L), po = d.poison(L);
    MyAbs as(s), ap(po);
    Raw ref = runA(m, as, s, 0);
    if (ref.empty() && m != UPNP) { E().counters["no candidate"]++; }
    int ch = chunkAbs(m);
    if (!expect("index list against the same correspondences alone", nm, L, ref, runA(m, full, d, &L), ch, key)) return;
    if (!expect("unselected correspondences not finite", nm, L, ref, runA(m, ap, po, &L), ch, key)) return;
    VI id = iota(L.size());
    if (!expect("default overload against the list of all", nm, L, ref, runA(m, as, s, &id), ch, key)) return;
    if (exact)
    {
      VI more = L; for (int i = 0; i < n; i++) if (std::find(L.begin(), L.end(), i) == L.end()) { more.push_back(i); if (more.size() > L.size() + 2) break; }
      if (!expect("longer list than needed", nm, L, ref, runA(m, full, d, &more), ch, key)) return;
      Raw r2; randState = 17;
      if (m == P2P) put(r2, absolute_pose::p2p(full, L[0], L[1]));
      else for (auto &X : m == P3P_KNEIP ? absolute_pose::p3p_kneip(full, L[0], L[1], L[2]) : m == P3P_GAO ? absolute_pose::p3p_gao(full, L[0], L[1], L[2]) : absolute_pose::gp3p(full, L[0], L[1], L[2])) put(r2, X);
      if (!expect("explicit indices", nm, L, ref, r2, ch, key)) return;
    }
    // classes of adapters
    auto cls = [&](const char *what, AA &a) { return expect(what, nm, L, ref, runA(m, a, s, 0), ch, key); };
    if (!rigs)
    {
      absolute_pose::CentralAbsoluteAdapter a(s.f, s.p); if (!cls("central adapter", a)) return;
      absolute_pose::NoncentralAbsoluteAdapter b(s.f, s.cc, s.p, s.r.off, s.r.rot); if (!cls("noncentral adapter with one camera at the viewpoint", b)) return;
      std::vector<std::shared_ptr<bearingVectors_t>> mf = {std::make_shared<bearingVectors_t>(s.f)}; std::vector<std::shared_ptr<points_t>> mp = {std::make_shared<points_t>(s.p)};
      absolute_pose::NoncentralAbsoluteMultiAdapter c(mf, mp, s.r.off, s.r.rot); if (!cls("multi-camera adapter with one camera at the viewpoint", c)) return;
      std::vector<double> pd, fd; for (size_t i = 0; i < s.p.size(); i++) for (int j = 0; j < 3; j++) { pd.push_back(s.p[i][j]); fd.push_back(s.f[i][j]); }
      absolute_pose::MACentralAbsolute e(pd.data(), fd.data(), s.p.size(), s.p.size()); if (!cls("array adapter", e)) return;
      std::vector<double> f6; for (size_t i = 0; i < s.p.size(); i++) { for (int j = 0; j < 3; j++) f6.push_back(s.f[i][j]); for (int j = 0; j < 3; j++) f6.push_back(0); }
      absolute_pose::MANoncentralAbsolute g(pd.data(), f6.data(), s.p.size(), s.p.size()); if (!cls("noncentral array adapter", g)) return;
    }
    else
    {
      absolute_pose::NoncentralAbsoluteAdapter b(s.f, s.cc, s.p, s.r.off, s.r.rot); if (!cls("noncentral adapter", b)) return;
      std::vector<std::shared_ptr<bearingVectors_t>> mf; std::vector<std::shared_ptr<points_t>> mp; VI map(s.p.size()); int at = 0;
      for (size_t c = 0; c < s.r.off.size(); c++) { mf.push_back(std::make_shared<bearingVectors_t>()); mp.push_back(std::make_shared<points_t>()); for (size_t i = 0; i < s.p.size(); i++) if (s.cc[i] == (int)c) { mf.back()->push_back(s.f[i]); mp.back()->push_back(s.p[i]); map[i] = at++; } }
      absolute_pose::NoncentralAbsoluteMultiAdapter c(mf, mp, s.r.off, s.r.rot);
      if (!expect("multi-camera adapter", nm, L, ref, runA(m, c, s, &map), ch, key)) return;
      // bearing vectors turned into the viewpoint frame, with offsets, as arrays
      std::vector<double> pd, f6; for (size_t i = 0; i < s.p.size(); i++) { V3 g = s.r.rot[s.cc[i]] * s.f[i]; for (int j = 0; j < 3; j++) { pd.push_back(s.p[i][j]); f6.push_back(g[j]); } for (int j = 0; j < 3; j++) f6.push_back(s.r.off[s.cc[i]][j]); }
      absolute_pose::MANoncentralAbsolute g(pd.data(), f6.data(), s.p.size(), s.p.size());
      Raw got = runA(m, g, s, 0); std::string why;
      OrderStat &o = order[nm + " turned bearing vectors"]; o.n++; if (!close(ref, got, ch, 1e-4, &why)) { o.bad++; if (o.first.empty()) o.first = why; }
    }
    if (!exact && !(m == GPNP))
    {
      auto best = [&](const Raw &r) { if (m != UPNP) return r; Raw b; double e = 1e300; for (size_t i = 0; i + 12 <= r.size(); i += 12) { double x = 0; for (int a = 0; a < 3; a++) { x += std::fabs(r[i + 4 * a + 3] - w.t[a]); for (int c = 0; c < 3; c++) x += std::fabs(r[i + 4 * a + c] - w.R(a, c)); } if (x < e) { e = x; b.assign(r.begin() + i, r.begin() + i + 12); } } return b; };
      Raw first = best(runA(m, full, d, &L)); VI P = L; std::reverse(P.begin() + 1, P.end()); std::rotate(P.begin(), P.begin() + L.size() / 2, P.end());
      Raw got = best(runA(m, full, d, &P)); E().evaluations++; E().tick(); std::string why;
      OrderStat &o = order[nm + " other order"]; o.n++; if (!close(first, got, ch, m == ABSOPT ? 5e-3 : 1e-4, &why)) { o.bad++; if (o.first.empty()) o.first = why; }
    }
  }
}
static void relative(int m, int world, bool rigs, bool T)
{
  World w(world, 7 + 31 * world, world % 3, 0, 1e-3);
  RelScene &sc = rigs ? *w.sr2 : *w.sr1;
  Rel d; d.f1 = sc.f1; d.f2 = sc.f2; d.c1 = sc.c1; d.c2 = sc.c2; d.r = sc.r; d.R0 = w.R * fromQuat(40, 1, -1, 1); d.t0 = w.t + V3(.05, .02, -.03);
  int n = d.f1.size();
  for (int i = 0; i < n; i++) d.w.push_back(0.5 + 0.25 * (i % 4) + 0.01 * i);
  int k = m == EIGEN || m == EIGENW ? 6 : m == GE || m == GEW ? 10 : m == RELOPT ? 8 : relMin(m);
  bool exact = relExactCount(m);
  std::string nm = std::string(relName(m)) + (rigs ? " (rig)" : "");
  auto key = [&] { return (uint64_t)world; };
  MyRel full(d);
  for (auto &L : lists(k, n, exact, T))
  {
    Rel s = d.sub(L), po = d.poison(L);
    MyRel as(s), ap(po);
    Raw ref = runR(m, as, s, 0);
    int ch = chunkRel(m);
    if (!expect("index list against the same correspondences alone", nm, L, ref, runR(m, full, d, &L), ch, key)) return;
    if (!expect("unselected correspondences not finite", nm, L, ref, runR(m, ap, po, &L), ch, key)) return;
    VI id = iota(L.size());
    if (!expect("default overload against the list of all", nm, L, ref, runR(m, as, s, &id), ch, key)) return;
    if (m == TWOPT || m == TWOPT_ROT)
    {
      VI more = L; for (int i = 0; i < n; i++) if (std::find(L.begin(), L.end(), i) == L.end()) { more.push_back(i); if (more.size() > L.size() + 2) break; }
      if (!expect("longer list than needed", nm, L, ref, runR(m, full, d, &more), ch, key)) return;
      Raw r2; if (m == TWOPT) put(r2, relative_pose::twopt(full, true, L[0], L[1])); else put(r2, relative_pose::twopt_rotationOnly(full, L[0], L[1]));
      if (!expect("explicit indices", nm, L, ref, r2, ch, key)) return;
    }
    if (m == TWOPT)
    {
      // without unrotation the prior must not matter: turning the second views beforehand is the same
      Rel u = s; for (auto &f : u.f2) f = s.R0 * f; MyRel au(u); au.setR12(fromQuat(1, 2, 3, 4));
      Raw r2; put(r2, relative_pose::twopt(au, false)); if (!expect("turned beforehand", nm, L, ref, r2, 3, key)) return;
      r2.clear(); put(r2, relative_pose::twopt(au, false, id)); if (!expect("turned beforehand, list", nm, L, ref, r2, 3, key)) return;
    }
    if (m == EIGEN || m == EIGENW)
    {
      Raw a, b, c; randState = 17; full.setR12(d.R0); put(a, relative_pose::eigensolver(full, L, m == EIGENW)); randState = 17; as.setR12(d.R0); put(b, relative_pose::eigensolver(as, m == EIGENW)); c.assign(ref.begin(), ref.begin() + 9);
      if (!expect("overload that gives the rotation only, list", nm, L, c, a, 9, key) || !expect("overload that gives the rotation only", nm, L, c, b, 9, key)) return;
    }
    if (m == GE || m == GEW)
    {
      Raw a, b, c; randState = 17; put(a, relative_pose::ge(full, L, m == GEW)); randState = 17; put(b, relative_pose::ge(as, m == GEW)); c.assign(ref.begin(), ref.begin() + 9);
      if (!expect("overload that gives the rotation only, list", nm, L, c, a, 9, key) || !expect("overload that gives the rotation only", nm, L, c, b, 9, key)) return;
    }
    bool weighted = m == EIGENW || m == GEW;
    auto cls = [&](const char *what, RA &a) { return expect(what, nm, L, ref, runR(m, a, s, 0), ch, key); };
    if (!rigs)
    {
      relative_pose::CentralRelativeWeightingAdapter x(s.f1, s.f2, s.w); if (!cls("weighting adapter", x)) return;
      if (!weighted)
      {
        relative_pose::CentralRelativeAdapter a(s.f1, s.f2); if (!cls("central adapter", a)) return;
        relative_pose::NoncentralRelativeAdapter b(s.f1, s.f2, s.c1, s.c2, s.r.off, s.r.rot); if (!cls("noncentral adapter with one camera at the viewpoint", b)) return;
        std::vector<std::shared_ptr<bearingVectors_t>> m1 = {std::make_shared<bearingVectors_t>(s.f1)}, m2 = {std::make_shared<bearingVectors_t>(s.f2)};
        relative_pose::NoncentralRelativeMultiAdapter c(m1, m2, s.r.off, s.r.rot); if (!cls("multi-camera adapter with one camera at the viewpoint", c)) return;
        relative_pose::CentralRelativeMultiAdapter cm(m1, m2); if (!cls("multi-view adapter with one pair", cm)) return;
        std::vector<double> d1, d2, e1, e2; for (size_t i = 0; i < s.f1.size(); i++) { for (int j = 0; j < 3; j++) { d1.push_back(s.f1[i][j]); d2.push_back(s.f2[i][j]); e1.push_back(s.f1[i][j]); e2.push_back(s.f2[i][j]); } for (int j = 0; j < 3; j++) { e1.push_back(0); e2.push_back(0); } }
        relative_pose::MACentralRelative e(d1.data(), d2.data(), s.f1.size(), s.f1.size()); if (!cls("array adapter", e)) return;
        relative_pose::MANoncentralRelative g(e1.data(), e2.data(), s.f1.size(), s.f1.size()); if (!cls("noncentral array adapter", g)) return;
      }
    }
    else if (!weighted)
    {
      relative_pose::NoncentralRelativeAdapter b(s.f1, s.f2, s.c1, s.c2, s.r.off, s.r.rot); if (!cls("noncentral adapter", b)) return;
    }
    if (!exact && !(m == RELOPT && !rigs))
    {
      VI P = L; std::reverse(P.begin() + 1, P.end()); if (!(m == EIGEN || m == EIGENW)) std::rotate(P.begin(), P.begin() + L.size() / 2, P.end());
      Raw got = runR(m, full, d, &P); E().evaluations++; E().tick(); std::string why;
      OrderStat &o = order[nm + " other order"]; o.n++; if (!close(essenceRel(m, ref), essenceRel(m, got), m == EIGEN || m == EIGENW || m == GE || m == GEW ? 12 : ch, 1e-4, &why)) { o.bad++; if (o.first.empty()) o.first = why; }
    }
  }
}
static void cloud(int world, bool T)
{
  World w(world, 7 + 31 * world, world % 3, 0, 1e-2);
  const points_t &p1 = w.p1, &p2 = w.p2; int n = p1.size(); auto key = [&] { return (uint64_t)world; };
  auto both = [&](point_cloud::PointCloudAdapterBase &a, Idx ix) { Raw r; put(r, ix ? point_cloud::threept_arun(a, *ix) : point_cloud::threept_arun(a)); return r; };
  auto opt = [&](point_cloud::PointCloudAdapterBase &a, Idx ix) { a.setR12(w.R * fromQuat(40, 1, -1, 1)); a.sett12(w.t + V3(.05, .02, -.03)); Raw r; put(r, ix ? point_cloud::optimize_nonlinear(a, *ix) : point_cloud::optimize_nonlinear(a)); return r; };
  point_cloud::PointCloudAdapter full(p1, p2);
  for (auto &L : lists(3, n, false, T))
  {
    points_t a, b, c = p1, e = p2; std::vector<double> da, db;
    for (int i : L) { a.push_back(p1[i]); b.push_back(p2[i]); for (int j = 0; j < 3; j++) { da.push_back(p1[i][j]); db.push_back(p2[i][j]); } }
    for (int i = 0; i < n; i++) if (std::find(L.begin(), L.end(), i) == L.end()) { c[i].fill(NaN); e[i].fill(NaN); }
    point_cloud::PointCloudAdapter s(a, b), po(c, e); point_cloud::MAPointCloud ma(da.data(), db.data(), a.size(), b.size());
    VI id = iota(L.size()), P = L; std::reverse(P.begin(), P.end());
    for (int k = 0; k < 2; k++)
    {
      std::string nm = k ? "cloud optimize_nonlinear" : "threept_arun"; auto run = [&](point_cloud::PointCloudAdapterBase &x, Idx ix) { return k ? opt(x, ix) : both(x, ix); };
      Raw ref = run(s, 0);
      if (!expect("index list against the same correspondences alone", nm, L, ref, run(full, &L), 12, key)) return;
      if (!expect("unselected correspondences not finite", nm, L, ref, run(po, &L), 12, key)) return;
      if (!expect("default overload against the list of all", nm, L, ref, run(s, &id), 12, key)) return;
      if (!expect("array adapter", nm, L, ref, run(ma, 0), 12, key)) return;
      std::string why; OrderStat &o = order[nm + " other order"]; o.n++; E().evaluations++; if (!close(ref, run(full, &P), 12, 1e-4, &why)) { o.bad++; if (o.first.empty()) o.first = why; }
    }
  }
}
static void triang(int world)
{
  World w(world, 7 + 31 * world, world % 3, 0, 1e-2);
  RelScene &sc = *w.sr1; Rel d; d.f1 = sc.f1; d.f2 = sc.f2; d.c1 = sc.c1; d.c2 = sc.c2; d.r = sc.r; d.R0 = w.R; d.t0 = w.t; d.w.assign(d.f1.size(), 1);
  MyRel full(d); auto key = [&] { return (uint64_t)world; };
  for (int i = 0; i < (int)d.f1.size(); i++)
  {
    VI L = {i}; Rel po = d.poison(L), s = d.sub(L); MyRel ap(po), as(s);
    Raw a, b, c, a2, b2, c2; put(a, triangulation::triangulate(full, i)); put(b, triangulation::triangulate(ap, i)); put(c, triangulation::triangulate(as, 0)); put(a2, triangulation::triangulate2(full, i)); put(b2, triangulation::triangulate2(ap, i)); put(c2, triangulation::triangulate2(as, 0));
    if (!expect("unselected not finite", "triangulate", L, c, b, 0, key) || !expect("index", "triangulate", L, c, a, 0, key) || !expect("unselected not finite", "triangulate2", L, c2, b2, 0, key) || !expect("index", "triangulate2", L, c2, a2, 0, key)) return;
  }
}

// ---------------------------------------------------------------- weights
static void weights(int m, int world, double noise, bool T)
{
  bool rigs = m == GEW;
  World w(world, 7 + 31 * world, world % 3, 0, noise);
  RelScene &sc = rigs ? *w.sr2 : *w.sr1;
  Rel d; d.f1 = sc.f1; d.f2 = sc.f2; d.c1 = sc.c1; d.c2 = sc.c2; d.r = sc.r; d.R0 = w.R * fromQuat(40, 1, -1, 1); d.t0 = w.t;
  int n = d.f1.size();
  for (int i = 0; i < n; i++) d.w.push_back(0.5 + 0.25 * (i % 4) + 0.01 * i);
  std::string nm = relName(m); int um = m == EIGENW ? EIGEN : GE; auto key = [&] { return (uint64_t)world; };
  
  auto run = [&](int m, const Rel &x, Idx ix) { MyRel a(x); Raw r = runR(m, a, x, ix); r.resize(12); if (m == EIGEN || m == EIGENW) { V3 t(r[9], r[10], r[11]); t.normalize(); for (int i = 0; i < 3; i++) r[9 + i] = t[i]; } return r; };
  auto cmp = [&](const char *what, const VI &L, Raw a, Raw b) {
    E().evaluations++; E().tick(); std::string why;
    double lim = m == GEW ? 0.5 * noise : 1e-3;
    if (!rigs && std::find(L.begin(), L.end(), 0) != L.end() && a[9] * b[9] + a[10] * b[10] + a[11] * b[11] < 0) for (int i = 9; i < 12; i++) b[i] = -b[i]; // the first correspondence decides about the sign
    bool ok = same(Raw(a.begin(), a.begin() + 9), Raw(b.begin(), b.begin() + 9), lim, &why) && same(Raw(a.begin() + 9, a.end()), Raw(b.begin() + 9, b.end()), rigs ? 4 * lim : lim, &why);
    OrderStat &o = order[nm + " weights: " + what]; o.n++;
    if (!ok) { o.bad++; if (o.first.empty()) { o.first = why + " correspondences "; for (int i : L) o.first += fmt("%d ", i); } } else E().outcome(mix(mix(hashStr(what), hashInts(L)), key()));
  };
  std::vector<VI> zero; for (int k = 1; k <= (T ? 3 : 2); k++) combinations(n, k, [&](const VI &c) { if (k < 2 || T || mix(c[0], c[1]) % 3 == 0) zero.push_back(c); });
  for (double c : {1.0, 0.25, 7.0}) { Rel x = d; x.w.assign(n, c); cmp("uniform weights are no weights", {(int)(c * 4)}, run(um, d, 0), run(m, x, 0)); }
  for (double c : {0.125, 3.0, 100.0}) { Rel x = d; for (auto &q : x.w) q *= c; cmp("the scale of the weights does not matter", {(int)(c * 8)}, run(m, d, 0), run(m, x, 0)); }
  for (auto &z : zero)
  {
    Rel x = d; VI rest; for (int i = 0; i < n; i++) if (std::find(z.begin(), z.end(), i) == z.end()) rest.push_back(i);
    for (int i : z) { x.w[i] = 0; x.f1[i] = rigs ? V3((x.f1[i] + 0.05 * x.f1[(i + 1) % n]).normalized()) : V3(-x.f1[(i + 1) % n]); }
    cmp("weight zero is no correspondence", z, run(m, d.sub(rest), 0), run(m, x, 0));
    Rel y = d; VI twice; for (int i = 0; i < n; i++) twice.push_back(i); for (int i : z) { y.w[i] *= 2; twice.push_back(i); }
    cmp("double weight is two correspondences", z, run(m, d, &twice), run(m, y, 0));
    VI L = rest; std::reverse(L.begin(), L.end() - 2);
    Rel y2 = d; for (int i : z) y2.w[i] = 50;
    cmp("weights of unselected correspondences do not matter", z, run(m, d, &L), run(m, y2, &L));
  }
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough;
  std::string what; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--what")) what = argv[i + 1];
  if (what == "weights")
  {
    for (int g = 0; g < (T ? 8 : 2); g++) for (int m : {EIGENW, GEW}) for (double noise : {1e-2, 4e-2})
      if (E().begin(fmt("weights:%d:%d:%g", g, m, noise)))
      {
        if (g == 0) E().sample(E().key);
        for (int w = 0; w < 4; w++) weights(m, 4 * g + w, noise, T);
        for (auto &x : order)
        {
          E().counters["pairs: " + x.first] += x.second.n; if (x.second.bad) E().counters["differs: " + x.first] += x.second.bad;
          E().maxi("per cent that differ: " + x.first, 100 * x.second.bad / x.second.n);
          if (x.second.bad * (m == EIGENW ? 8 : 2) > x.second.n) MC_FAIL("%s: %d of %d pairs of results differ (first: %s)", x.first.c_str(), x.second.bad, x.second.n, x.second.first.c_str());
        }
        order.clear();
      }
    return E().finish();
  }
  int W = T ? 24 : 5;
  auto orders = [&] {
    for (auto &x : order)
    {
      E().counters["order: " + x.first] += x.second.n; if (x.second.bad) E().counters["order differs: " + x.first] += x.second.bad;
      if (x.second.bad * 10 > 4 * x.second.n && x.second.n >= 5) MC_FAIL("%s: %d of %d results differ (%s)", x.first.c_str(), x.second.bad, x.second.n, x.second.first.c_str());
    }
    order.clear();
  };
  for (int w = 0; w < W; w++)
  {
    for (int m = 0; m < NABS; m++) for (int rigs = 0; rigs < 2; rigs++) if (!(rigs && absCentralOnly(m)))
      if (E().begin(fmt("absolute:%d:%d:%d", w, m, rigs))) { if (w == 0 && m < 2) E().sample(E().key + " " + absName(m)); absolute(m, w, rigs, T); orders(); }
    for (int m = 0; m < NREL; m++) for (int rigs = 0; rigs < 2; rigs++) if (!(rigs && relCentralOnly(m)) && !(!rigs && (m == SIXPT || m == GE || m == GEW || m == SEVENTEEN)))
      if (E().begin(fmt("relative:%d:%d:%d", w, m, rigs))) { relative(m, w, rigs, T); orders(); }
    if (E().begin(fmt("cloud:%d", w))) { cloud(w, T); orders(); }
    if (E().begin(fmt("triangulate:%d", w))) triang(w);
  }
  return E().finish();
}
