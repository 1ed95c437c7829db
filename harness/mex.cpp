// P25: the Matlab functions give what the library gives for the same data, and refuse malformed calls.
#include "mex.h"
#include "bind.hpp"
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
using namespace mc;
using namespace bd;
extern "C" time_t time(time_t *t) { if (t) *t = 1234; return 1234; }
extern "C" clock_t clock() { return 77; }
std::string mockmex::printed; std::vector<mxArray *> mockmex::created;
void mexFunction(int, mxArray **, int, const mxArray **);
void mexFunctionTiming(int, mxArray **, int, const mxArray **);
void mexFunctionExp1(int, mxArray **, int, const mxArray **);
void mexFunctionExp2(int, mxArray **, int, const mxArray **);
typedef void (*MexFn)(int, mxArray **, int, const mxArray **);

enum Fam { ABSC, ABSN, UPN, RELC, RELN, CLOUD };
struct Meth { const char *name; Fam fam; int solver; bool ransac; };
static const Meth METH[] = {
  {"p2p", ABSC, P2P, 0}, {"p3p_kneip", ABSC, P3P_KNEIP, 0}, {"p3p_gao", ABSC, P3P_GAO, 0}, {"epnp", ABSC, EPNP, 0},
  {"p3p_kneip_ransac", ABSC, 0, 1}, {"p3p_gao_ransac", ABSC, 1, 1}, {"epnp_ransac", ABSC, 2, 1}, {"abs_nonlin_central", ABSC, ABSOPT, 0},
  {"gp3p", ABSN, GP3P, 0}, {"gp3p_ransac", ABSN, 3, 1}, {"gpnp", ABSN, GPNP, 0}, {"abs_nonlin_noncentral", ABSN, ABSOPT, 0}, {"upnp", UPN, UPNP, 0},
  {"twopt", RELC, TWOPT, 0}, {"twopt_rotationOnly", RELC, TWOPT_ROT, 0}, {"rotationOnly", RELC, ROTONLY, 0}, {"fivept_stewenius", RELC, STEWENIUS, 0},
  {"fivept_nister", RELC, NISTER, 0}, {"fivept_kneip", RELC, KNEIP5, 0}, {"sevenpt", RELC, SEVENPT, 0}, {"eightpt", RELC, EIGHTPT, 0}, {"eigensolver", RELC, EIGEN, 0},
  {"rotationOnly_ransac", RELC, 0, 1}, {"fivept_stewenius_ransac", RELC, 1, 1}, {"fivept_nister_ransac", RELC, 2, 1}, {"sevenpt_ransac", RELC, 3, 1},
  {"eightpt_ransac", RELC, 4, 1}, {"eigensolver_ransac", RELC, 5, 1}, {"rel_nonlin_central", RELC, RELOPT, 0},
  {"sixpt", RELN, SIXPT, 0}, {"seventeenpt", RELN, SEVENTEEN, 0}, {"ge", RELN, GE, 0}, {"sixpt_ransac", RELN, 6, 1}, {"seventeenpt_ransac", RELN, 7, 1}, {"ge_ransac", RELN, 8, 1},
  {"rel_nonlin_noncentral", RELN, RELOPT, 0}, {"threept_arun", CLOUD, 0, 0}, {"threept_arun_ransac", CLOUD, 0, 1}};
static const int NM = sizeof METH / sizeof METH[0];

struct Prior { bool t = false, R = false; V3 tv; M3 Rm; };
template <class P, class A, class X> static Res runR(A &ad, X alg, Idx ix, double th)
{
  typedef std::shared_ptr<P> PP; PP p = ix ? PP(new P(ad, alg, *ix)) : PP(new P(ad, alg));
  sac::Ransac<P> r; r.sac_model_ = p; r.threshold_ = th; r.max_iterations_ = 50; bool ok = r.computeModel();
  Res o = finish(r, ok); if (ok) { o.dims = {(size_t)r.model_coefficients_.rows(), (size_t)r.model_coefficients_.cols()}; put2(o, r.model_coefficients_); } return o;
}
// the same call in C++
static Res direct(const Meth &m, const Data &d, bool six, Idx ix, const Prior &pr)
{
  srand(1);
  Res r;
  if (m.fam == ABSC || m.fam == ABSN || m.fam == UPN)
  {
    std::unique_ptr<AA> ad;
    if (m.fam == ABSC || (m.fam == UPN && !six)) ad.reset(new absolute_pose::CentralAbsoluteAdapter(d.f, d.p));
    else ad.reset(new absolute_pose::NoncentralAbsoluteAdapter(d.f, d.cc, d.p, d.o, d.id));
    if (pr.t) ad->sett(pr.tv); if (pr.R) ad->setR(pr.Rm);
    using namespace sac_problems::absolute_pose;
    if (m.ransac)
    {
      const AbsolutePoseSacProblem::algorithm_t al[] = {AbsolutePoseSacProblem::KNEIP, AbsolutePoseSacProblem::GAO, AbsolutePoseSacProblem::EPNP, AbsolutePoseSacProblem::GP3P};
      return runR<AbsolutePoseSacProblem>(*ad, al[m.solver], ix, thr());
    }
    Out o = runAbs(m.solver, *ad, ix);
    if (m.solver == P2P) return one(o.trans[0]);
    if (m.solver == EPNP || m.solver == GPNP || m.solver == ABSOPT) return one(o.poses[0]);
    return many(o.poses, 4);
  }
  if (m.fam == RELC || m.fam == RELN)
  {
    std::unique_ptr<RA> ad;
    if (m.fam == RELC) ad.reset(new relative_pose::CentralRelativeAdapter(d.f, d.f2));
    else
    {
      // offsets of view 1 and view 2 behind one another
      static thread_local translations_t off; static thread_local rotations_t id; static thread_local std::vector<int> c1, c2;
      off = d.o; off.insert(off.end(), d.o2.begin(), d.o2.end()); id.assign(off.size(), M3::Identity()); c1 = iota(d.n); c2 = iota(d.n, d.n);
      ad.reset(new relative_pose::NoncentralRelativeAdapter(d.f, d.f2, c1, c2, off, id));
    }
    if (pr.t) ad->sett12(pr.tv); if (pr.R) ad->setR12(pr.Rm);
    using namespace sac_problems::relative_pose;
    if (m.ransac) switch (m.solver)
    {
      case 0: { typedef RotationOnlySacProblem P; typedef std::shared_ptr<P> PP; PP p = ix ? PP(new P(*ad, *ix)) : PP(new P(*ad)); sac::Ransac<P> s; s.sac_model_ = p; s.threshold_ = 2 * thr(); s.max_iterations_ = 50; bool ok = s.computeModel(); r = finish(s, ok); if (ok) { r.dims = {3, 3}; put2(r, s.model_coefficients_); } return r; }
      case 1: { typedef CentralRelativePoseSacProblem P; typedef std::shared_ptr<P> PP; PP p = ix ? PP(new P(*ad, P::STEWENIUS, *ix)) : PP(new P(*ad, P::STEWENIUS)); sac::Ransac<P> s; s.sac_model_ = p; s.threshold_ = 2 * thr(); s.max_iterations_ = 50; bool ok = s.computeModel(); r = finish(s, ok); if (ok) { transformation_t T; p->optimizeModelCoefficients(s.inliers_, s.model_coefficients_, T); r.dims = {3, 4}; put2(r, T); } return r; }
      case 2: return runR<CentralRelativePoseSacProblem>(*ad, CentralRelativePoseSacProblem::NISTER, ix, 2 * thr());
      case 3: return runR<CentralRelativePoseSacProblem>(*ad, CentralRelativePoseSacProblem::SEVENPT, ix, 2 * thr());
      case 4: return runR<CentralRelativePoseSacProblem>(*ad, CentralRelativePoseSacProblem::EIGHTPT, ix, 2 * thr());
      case 5: { typedef EigensolverSacProblem P; typedef std::shared_ptr<P> PP; PP p = ix ? PP(new P(*ad, 10, *ix)) : PP(new P(*ad, 10)); sac::Ransac<P> s; s.sac_model_ = p; s.threshold_ = 1.0; s.max_iterations_ = 50; bool ok = s.computeModel(); r = finish(s, ok); if (ok) { transformation_t T; T.block<3, 3>(0, 0) = s.model_coefficients_.rotation; T.col(3) = s.model_coefficients_.translation; r.dims = {3, 4}; put2(r, T); } return r; }
      case 6: return runR<NoncentralRelativePoseSacProblem>(*ad, NoncentralRelativePoseSacProblem::SIXPT, ix, 2 * thr());
      case 7: return runR<NoncentralRelativePoseSacProblem>(*ad, NoncentralRelativePoseSacProblem::SEVENTEENPT, ix, 2 * thr());
      case 8: return runR<NoncentralRelativePoseSacProblem>(*ad, NoncentralRelativePoseSacProblem::GE, ix, 2 * thr());
    }
    if (m.solver == KNEIP5 && !ix) return r; // needs a list
    if (m.solver == TWOPT) return one(ix ? relative_pose::twopt(*ad, false, *ix) : relative_pose::twopt(*ad, false));
    if (m.solver == GE) { geOutput_t e; e.rotation = ad->getR12(); rotation_t R = ix ? relative_pose::ge(*ad, *ix, e) : relative_pose::ge(*ad, e); return one(R); }
    if (m.solver == EIGEN) return one(ix ? relative_pose::eigensolver(*ad, *ix) : relative_pose::eigensolver(*ad));
    Out o = runRel(m.solver, *ad, ix);
    switch (m.solver)
    {
      case TWOPT_ROT: case ROTONLY: return one(o.rots[0]);
      case STEWENIUS: case NISTER: case SEVENPT: return many(o.ess, 3);
      case EIGHTPT: return one(o.ess[0]);
      case KNEIP5: case SIXPT: return many(o.rots, 3);
      default: return one(o.poses[0]);
    }
  }
  points_t q(d.f.begin(), d.f.end());
  point_cloud::PointCloudAdapter ad(d.p, q);
  if (pr.t) ad.sett12(pr.tv); if (pr.R) ad.setR12(pr.Rm);
  if (m.ransac) { typedef sac_problems::point_cloud::PointCloudSacProblem P; typedef std::shared_ptr<P> PP; PP p = ix ? PP(new P(ad, *ix)) : PP(new P(ad)); sac::Ransac<P> s; s.sac_model_ = p; s.threshold_ = 0.1; s.max_iterations_ = 50; bool ok = s.computeModel(); r = finish(s, ok); if (ok) { r.dims = {3, 4}; put2(r, s.model_coefficients_); } return r; }
  return one(ix ? point_cloud::threept_arun(ad, *ix) : point_cloud::threept_arun(ad));
}

// ---- calls through the Matlab interface
static mxArray arr(const std::vector<size_t> &dims) { mxArray a; a.set(dims, mxDOUBLE_CLASS); return a; }
static mxArray str(const std::string &s) { mxArray a; a.set({1, s.size()}, mxDOUBLE_CLASS); a.str = s; return a; }
template <class A, class B> static mxArray cols(const A &a, const B *b, int n, size_t rows)
{
  mxArray m = arr({rows, (size_t)n}); double *p = (double *)mxGetData(&m);
  for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) *p++ = a[i][k]; if (rows == 6) for (int k = 0; k < 3; k++) *p++ = (*b)[i][k]; }
  return m;
}
struct Call
{
  std::vector<mxArray *> lhs; bool any = false; std::string said; bool guard = true, unchanged = true;
  void run(MexFn f, int nlhs, const std::vector<const mxArray *> &rhs)
  {
    for (auto *a : mockmex::created) delete a; mockmex::created.clear(); mockmex::printed.clear();
    std::vector<std::vector<double>> before; for (auto *a : rhs) before.push_back(a->data);
    lhs.assign(4, nullptr); std::vector<const mxArray *> r = rhs; r.push_back(nullptr);
    srand(1);
    f(nlhs, lhs.data(), (int)rhs.size(), r.data());
    for (auto *a : lhs) any |= a != nullptr;
    for (auto *a : mockmex::created) guard &= a->guardIntact();
    for (size_t i = 0; i < rhs.size(); i++) unchanged &= rhs[i]->guardIntact() && !memcmp(before[i].data(), rhs[i]->data.data(), before[i].size() * 8);
    said = mockmex::printed;
  }
};
static void dataArrays(const Meth &m, const Data &d, bool six, mxArray &a, mxArray &b)
{
  if (m.fam == ABSC || m.fam == ABSN || m.fam == UPN) { a = cols(d.p, (const translations_t *)0, d.n, 3); b = (m.fam == ABSN || six) ? cols(d.f, &d.o, d.n, 6) : cols(d.f, (const translations_t *)0, d.n, 3); }
  else if (m.fam == CLOUD) { a = cols(d.p, (const translations_t *)0, d.n, 3); b = cols(d.f, (const translations_t *)0, d.n, 3); }
  else if (m.fam == RELC) { a = cols(d.f, (const translations_t *)0, d.n, 3); b = cols(d.f2, (const translations_t *)0, d.n, 3); }
  else { a = cols(d.f, &d.o, d.n, 6); b = cols(d.f2, &d.o2, d.n, 6); }
}
static bool judge(const Meth &m, Call &c, const Res &want, int nlhs, const std::string &where)
{
  E().evaluations++; E().tick();
  const char *n = m.name;
  if (!c.guard) { MC_FAIL("%s: writes beyond the result array (%s)", n, where.c_str()); return false; }
  if (!c.unchanged) { MC_FAIL("%s: changes its input (%s)", n, where.c_str()); return false; }
  if (!want.out) { if (c.any) { MC_FAIL("%s: gives a result for a call it cannot serve (%s)", n, where.c_str()); return false; } if (c.said.empty()) { MC_FAIL("%s: refuses a call without a word (%s)", n, where.c_str()); return false; } return true; }
  if (!c.lhs[0]) { MC_FAIL("%s: no result (%s): %s", n, where.c_str(), c.said.c_str()); return false; }
  if (!want.judged) { E().counters["consensus runs without a model (not judged)"]++; return true; }
  const mxArray *a = c.lhs[0]; std::vector<size_t> w = want.dims; while (w.size() > 2 && w.back() == 1) w.pop_back();
  if (a->cls != mxDOUBLE_CLASS || a->dims != w) { MC_FAIL("%s: result has the wrong size (%s)", n, where.c_str()); return false; }
  for (size_t i = 0; i < want.v.size(); i++) if (!same(want.v[i], a->data[i])) { MC_FAIL("%s: number %zu of the result is %.12g, in C++ %.12g (%s)", n, i, a->data[i], want.v[i], where.c_str()); return false; }
  if (m.ransac && nlhs == 2)
  {
    const mxArray *b = c.lhs[1];
    if (!b || b->cls != mxINT32_CLASS || b->dims != std::vector<size_t>{1, want.inl.size()}) { MC_FAIL("%s: inliers have the wrong size (%s)", n, where.c_str()); return false; }
    for (size_t i = 0; i < want.inl.size(); i++) if (((const int *)b->data.data())[i] != want.inl[i] + 1) { MC_FAIL("%s: inlier %zu is %d, in C++ (from 0) %d (%s)", n, i, ((const int *)b->data.data())[i], want.inl[i], where.c_str()); return false; }
  }
  E().outcome(mix(hashStr(E().key), hashStr(where)));
  return true;
}

int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  const auto &Rs = rotations192();
  // valid calls
  for (int mi = 0; mi < NM; mi++)
    for (size_t r = 0; r < 192; r += T ? 5 : 37)
      for (int ti = 0; ti < 27; ti += T ? 5 : 12)
        for (int six = 0; six < (METH[mi].fam == UPN ? 2 : 1); six++)
        {
          const Meth &m = METH[mi];
          if (ti == 13 || !E().begin(fmt("call:%s:%zu:%d:%d", m.name, r, ti, six))) continue;
          M3 R = Rs[r]; V3 t = trans27(ti); if (!m.ransac && m.solver == TWOPT_ROT && m.fam == RELC) t.setZero();
          bool abs = m.fam <= UPN, cen = m.fam == ABSC || m.fam == RELC || (m.fam == UPN && !six);
          int n = abs ? 11 : m.fam == RELC ? 14 : m.fam == RELN ? 25 : 9; if (m.fam == RELN && !m.ransac && m.solver == SIXPT) n = 6;
          bool heavy = m.fam == RELN && m.ransac; // long runs: one list only in quick
          Data d; int set = 2 + (int)(r + ti) % 9;
          if (abs) d = absData(n, set, cen, R, t, m.ransac ? 2 : 0);
          else if (m.fam == CLOUD) { d.n = n; for (int i = 0; i < n; i++) { V3 q = localPoint(set, i, 0); d.f.push_back(q); d.p.push_back(R * q + t); } }
          else d = relData(n, set, cen, R, t, m.ransac && m.fam == RELC ? 2 : 0);
          if (r == 0 && ti == 0) E().sample(E().key);
          mxArray a, b; dataArrays(m, d, six, a, b);
          std::vector<std::vector<int>> lists = {iota(n)};
          { std::vector<int> x = iota(n); std::reverse(x.begin(), x.end()); lists.push_back(x); }
          { std::vector<int> x; for (int i = 0; i < n; i++) if (i % 7 != 3) x.push_back((i * 3 + 1) % n); std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); lists.push_back(x); }
          if (m.fam == RELC && !m.ransac && m.solver == KNEIP5) for (auto &x : lists) x.resize(5);
          if (n == 6) lists[2] = {2, 0, 5, 1, 4, 3};
          bool ok = true;
          for (int kind = 0; kind < 5 && ok; kind++) // without list, list, list + t, + R, + both
            for (size_t l = 0; l < (kind == 0 ? 1 : lists.size()) && ok; l++)
            {
              if (heavy && !T && (kind + l) % 3) continue;
              Prior pr; std::vector<size_t> pd;
              if (kind == 2 || kind == 4) { pr.t = true; pr.tv = t + V3(.01, -.02, .03); }
              if (kind >= 3) { pr.R = true; pr.Rm = R * smallRot(5, 0.02); }
              Idx ix = kind ? &lists[l] : nullptr;
              mxArray name = str(m.name), li, p;
              std::vector<const mxArray *> rhs = {&name};
              if (kind) { li = arr({1, lists[l].size()}); for (size_t i = 0; i < lists[l].size(); i++) li.data[i] = lists[l][i] + 1; rhs.push_back(&li); }
              rhs.push_back(&a); rhs.push_back(&b);
              if (kind >= 2)
              {
                size_t o = 0; p = arr({3, (size_t)(kind == 2 ? 1 : kind == 3 ? 3 : 4)});
                if (pr.R) for (int c = 0; c < 3; c++) for (int i = 0; i < 3; i++) p.data[o++] = pr.Rm(i, c);
                if (pr.t) for (int i = 0; i < 3; i++) p.data[o++] = pr.tv[i];
                rhs.push_back(&p);
              }
              Res want = direct(m, d, six, ix, pr);
              for (int nl = 0; nl < 4 && ok; nl++)
              {
                if (heavy && nl == 1) continue;
                Call c; c.run(mexFunction, nl, rhs);
                std::string w = fmt("kind %d, list %zu, %d results", kind, l, nl);
                if (nl == 0 || nl == 3) { E().evaluations++; if (c.any || !c.unchanged) { MC_FAIL("%s: gives a result although %d are asked for", m.name, nl); ok = false; } continue; }
                Res x = want; if (nl == 2 && !m.ransac) { x = Res(); }
                ok = judge(m, c, x, nl, w);
              }
              if (ok && !m.ransac && !(m.solver == RELOPT && !abs && m.fam != CLOUD))
              { // the timing version repeats the same calls
                Call c; c.run(mexFunctionTiming, 1, rhs); ok = judge(m, c, want, 1, fmt("timing version, kind %d, list %zu", kind, l));
              }
            }
        }
  // malformed calls: every combination of array sizes is refused unless it is documented
  for (int mi = 0; mi < NM; mi++)
    for (int kind = 0; kind < 3; kind++) // 3, 4, 5 arguments
    {
      const Meth &m = METH[mi];
      if (!E().begin(fmt("sizes:%s:%d", m.name, kind))) continue;
      bool abs = m.fam <= UPN, ok = true; const size_t n = 25;
      Data d = abs ? absData(n, 4, false, Rs[3], V3(1, 0, 1), 0) : relData(n, 4, false, Rs[3], V3(1, 0, 1), 0);
      if (m.fam == CLOUD) { d.p.clear(); for (size_t i = 0; i < n; i++) d.p.push_back(Rs[3] * d.f[i]); }
      if (d.p.empty()) d.p.assign(n, V3(1, 2, 3)); if (d.f2.empty()) { d.f2 = d.f; d.o2 = d.o; }
      const size_t rows[] = {1, 2, 3, 4, 5, 6, 7}, nc[] = {0, n, n + 1};
      mxArray name = str(m.name);
      auto fill = [&](mxArray &x) { for (size_t i = 0; i * 8 < x.bytes; i++) x.data[i] = 0.1 + 0.7 * frac(7, i, 3); };
      std::vector<std::vector<size_t>> ids = {{1, n}}, pds = {{3, 4}};
      if (kind >= 1) ids = {{1, n}, {0, n}, {2, n}, {n, 1}, {1, n + 2}, {1, n, 2}};
      if (kind == 2) pds = {{3, 4}, {3, 1}, {3, 3}, {3, 2}, {3, 5}, {3, 0}, {2, 4}, {4, 4}, {4, 3}, {1, 3}, {3, 4, 2}, {3, 3, 2}};
      for (size_t r1 : rows) for (size_t r2 : rows) for (size_t c1 : nc) for (size_t c2 : nc) for (int deep = 0; deep < 3; deep++)
        for (auto &id : ids) for (auto &pd : pds)
        {
          if (!ok) continue;
          bool dataOk = c1 == c2 && c1 >= 1 && !deep && (r1 == 3 || r1 == 6) && (r2 == 3 || r2 == 6);
          bool fam = m.fam == ABSC || m.fam == RELC || m.fam == CLOUD ? r1 == 3 && r2 == 3 : m.fam == ABSN ? r1 == 3 && r2 == 6 : m.fam == UPN ? r1 == 3 : r1 == 6 && r2 == 6;
          bool idOk = kind < 1 || (id.size() == 2 && id[0] == 1 && id[1] <= c2), prOk = kind < 2 || (pd.size() == 2 && pd[0] == 3 && (pd[1] == 1 || pd[1] == 3 || pd[1] == 4));
          bool good = dataOk && fam && idOk && prOk;
          if (good) continue; // judged above
          if (!T && id != ids[0] && pd != pds[0]) continue;
          if (!T && (r1 % 3 || r2 % 3) && (id != ids[0] || pd != pds[0])) continue;
          std::vector<size_t> d1 = {r1, c1}, d2 = {r2, c2}; if (deep == 1) d1.push_back(2); if (deep == 2) d2.push_back(2);
          mxArray a = arr(d1), b = arr(d2), li = arr(id), p = arr(pd); fill(a); fill(b); fill(p); for (size_t i = 0; i * 8 < li.bytes; i++) li.data[i] = 1 + i % n;
          std::vector<const mxArray *> rhs = {&name}; if (kind >= 1) rhs.push_back(&li); rhs.push_back(&a); rhs.push_back(&b); if (kind == 2) rhs.push_back(&p);
          Call c; c.run(mexFunction, 1, rhs);
          ok = judge(m, c, Res(), 1, fmt("data %zux%zu%s and %zux%zu%s, list %zux%zu, prior %zux%zu", r1, c1, deep == 1 ? "x2" : "", r2, c2, deep == 2 ? "x2" : "", id[0], id[1], pd[0], pd[1]));
        }
      // number of arguments
      mxArray a = arr({3, 0}); 
      for (int na : {1, 2, 6, 7}) { std::vector<const mxArray *> rhs = {&name}; while ((int)rhs.size() < na) rhs.push_back(&a); Call c; c.run(mexFunction, 1, rhs); if (ok) ok = judge(m, c, Res(), 1, fmt("%d arguments", na)); }
    }
  // names: every prefix, extension and one-letter change of a name is unknown, unless it is a name itself
  for (int mi = 0; mi < NM; mi++)
  {
    if (!E().begin(fmt("names:%s", METH[mi].name))) continue;
    std::string s = METH[mi].name; std::set<std::string> bad;
    for (size_t i = 0; i <= s.size(); i++) bad.insert(s.substr(0, i));
    for (size_t i = 0; i < s.size(); i++) { std::string x = s; x[i] = x[i] == 'x' ? 'y' : 'x'; bad.insert(x); x = s; x.erase(i, 1); bad.insert(x); x = s; x.insert(i, 1, s[i]); bad.insert(x); x = s; x[i] ^= 32; bad.insert(x); }
    bad.insert(s + "_ransac"); bad.insert(s + " "); bad.insert(s + std::string(1, '\0'));
    for (auto &x : bad)
    {
      bool known = false; for (auto &q : METH) known |= x == q.name;
      if (known) continue;
      mxArray name = str(x), a = arr({3, 12}), b = arr({3, 12}); for (int i = 0; i < 36; i++) { a.data[i] = frac(1, i, 2); b.data[i] = frac(2, i, 2); }
      Call c; c.run(mexFunction, 1, {&name, &a, &b});
      E().evaluations++;
      if (c.any || c.said.empty()) MC_FAIL("the name '%s' is accepted", x.c_str());
    }
    // a name that is not one row
    mxArray name = str(s), a = arr({3, 12}), b = arr({3, 12}); name.set({2, s.size()}, mxDOUBLE_CLASS); name.str = s;
    Call c; c.run(mexFunction, 1, {&name, &a, &b}); if (c.any) MC_FAIL("a name of two rows is accepted");
  }
  // the two experiments
  for (size_t r = 0; r < 192; r += T ? 7 : 31)
    for (int alg = 0; alg < 3; alg++)
      for (int ex = 1; ex <= 2; ex++)
      {
        if (!E().begin(fmt("experiment:%d:%zu:%d", ex, r, alg))) continue;
        M3 R = Rs[r]; V3 t = trans27((r * 5 + 2) % 27) + V3(.2, .1, 0); int nc = ex == 1 ? 4 : 1, per = ex == 1 ? 8 : 30;
        using namespace sac_problems::relative_pose;
        mxArray al = arr({1, 1}); al.data[0] = alg;
        double want[15] = {0}; bool ok = false; std::vector<mxArray> arrs; std::vector<const mxArray *> rhs;
        srand(1);
        if (ex == 1)
        {
          std::vector<std::shared_ptr<bearingVectors_t>> f1, f2; translations_t off; rotations_t id(nc, M3::Identity()); mxArray of = arr({3, (size_t)nc});
          for (int c = 0; c < nc; c++)
          {
            off.push_back(V3(frac(c, 1, 1), frac(c, 1, 2), frac(c, 1, 3))); for (int k = 0; k < 3; k++) of.data[3 * c + k] = off[c][k];
            auto a = std::make_shared<bearingVectors_t>(), b = std::make_shared<bearingVectors_t>();
            for (int i = 0; i < per - c; i++) { V3 p = localPoint(3 + c, i + 7 * r, 0); a->push_back((p - off[c]).normalized()); b->push_back((R.transpose() * (p - t) - off[c]).normalized()); }
            f1.push_back(a); f2.push_back(b);
          }
          for (int c = 0; c < nc; c++) arrs.push_back(cols(*f1[c], (const translations_t *)0, per - c, 3)); for (int c = 0; c < nc; c++) arrs.push_back(cols(*f2[c], (const translations_t *)0, per - c, 3));
          arrs.push_back(of);
          relative_pose::NoncentralRelativeMultiAdapter ad(f1, f2, off, id); typedef MultiNoncentralRelativePoseSacProblem P;
          const P::algorithm_t A[] = {P::SIXPT, P::GE, P::SEVENTEENPT}; std::shared_ptr<P> p(new P(ad, A[alg])); sac::MultiRansac<P> s; s.sac_model_ = p; s.threshold_ = 2 * thr(); s.max_iterations_ = 10000000; ok = s.computeModel();
          if (ok) { memcpy(want, s.model_coefficients_.data(), 96); want[12] = s.iterations_; want[13] = s.inliers_.size(); }
        }
        else
        {
          Data d = relData(per, 3 + r % 9, false, R, t, 0); arrs.push_back(cols(d.f, &d.o, per, 6)); arrs.push_back(cols(d.f2, &d.o2, per, 6));
          translations_t off = d.o; off.insert(off.end(), d.o2.begin(), d.o2.end()); rotations_t id(off.size(), M3::Identity());
          std::vector<int> k1 = iota(per), k2 = iota(per, per);
          relative_pose::NoncentralRelativeAdapter ad(d.f, d.f2, k1, k2, off, id); typedef NoncentralRelativePoseSacProblem P;
          const P::algorithm_t A[] = {P::SIXPT, P::GE, P::SEVENTEENPT}; std::shared_ptr<P> p(new P(ad, A[alg])); sac::Ransac<P> s; s.sac_model_ = p; s.threshold_ = 2 * thr(); s.max_iterations_ = 10000000; ok = s.computeModel();
          if (ok) { memcpy(want, s.model_coefficients_.data(), 96); want[12] = s.iterations_; want[13] = s.inliers_.size(); }
        }
        for (auto &a : arrs) rhs.push_back(&a); rhs.push_back(&al);
        Call c; c.run(ex == 1 ? mexFunctionExp1 : mexFunctionExp2, 1, rhs);
        E().evaluations++;
        if (!c.guard || !c.unchanged) MC_FAIL("experiment %d writes beyond its arrays", ex);
        else if (!c.lhs[0] || c.lhs[0]->dims != std::vector<size_t>{3, 5}) MC_FAIL("experiment %d: no 3x5 result", ex);
        else if (ok) for (int i = 0; i < 14; i++) if (!same(want[i], c.lhs[0]->data[i])) { MC_FAIL("experiment %d, algorithm %d: number %d of the result is %.12g, in C++ %.12g", ex, alg, i, c.lhs[0]->data[i], want[i]); break; }
        E().outcome(hashStr(E().key));
      }
  return E().finish();
}
