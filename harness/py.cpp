// P26: the Python functions give what the library gives for the same arrays.
#include <pybind11/pybind11.h>
#include <pybind11/numpy.h>
#include "bind.hpp"
#include <opengv/triangulation/methods.hpp>
using namespace mc;
using namespace bd;
extern "C" time_t time(time_t *t) { if (t) *t = 1234; return 1234; }
extern "C" clock_t clock() { return 77; }
namespace py = pybind11;
void mock_init_pyopengv(py::module_ &);
static py::VP num(double x) { py::VP v(new py::Val); v->kind = py::Val::NUM; v->num = x; return v; }
static py::VP str(const std::string &x) { py::VP v(new py::Val); v->kind = py::Val::STR; v->s = x; return v; }
template <class L> static py::VP rows(const L &l) { py::VP v(new py::Val); v->kind = py::Val::ARRAY; v->shape = {l.size(), 3}; for (auto &x : l) for (int k = 0; k < 3; k++) v->d.push_back(x[k]); return v; }
static py::VP mat(const M3 &R) { py::VP v(new py::Val); v->kind = py::Val::ARRAY; v->shape = {3, 3}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) v->d.push_back(R(i, j)); return v; }
static py::VP vec(const V3 &t) { py::VP v(new py::Val); v->kind = py::Val::ARRAY; v->shape = {3}; for (int i = 0; i < 3; i++) v->d.push_back(t[i]); return v; }
// expected values: an array, or a list of arrays
struct Want { bool list = false, judged = true; std::vector<size_t> shape; std::vector<std::vector<double>> items; };
template <class T> static std::vector<double> rowMajor(const T &M) { std::vector<double> v; for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) v.push_back(M(i, j)); return v; }
template <class T> static Want arr(const T &M) { Want w; w.shape = M.cols() == 1 ? std::vector<size_t>{(size_t)M.rows()} : std::vector<size_t>{(size_t)M.rows(), (size_t)M.cols()}; w.items.push_back(rowMajor(M)); return w; }
template <class L> static Want lst(const L &l, size_t c) { Want w; w.list = true; w.shape = {3, c}; for (auto &M : l) w.items.push_back(rowMajor(M)); return w; }
static Want pts(const points_t &p) { Want w; w.shape = {p.size(), 3}; w.items.resize(1); for (auto &x : p) for (int k = 0; k < 3; k++) w.items[0].push_back(x[k]); return w; }

struct Fn { const char *name; int args; }; // args: 0 two arrays, 1 + R, 2 + t + R, 3 consensus with algorithm, 4 consensus without
static bool run(const char *name, const std::vector<py::VP> &given, const Want &w, const std::string &where)
{
  E().evaluations++; E().tick();
  auto &tab = py::module_::table();
  if (!tab.count(name)) { MC_FAIL("there is no function %s", name); return false; }
  auto &f = tab[name]; std::vector<py::VP> a = given;
  for (size_t i = a.size(); i < f.arity; i++) { if (!f.defaults.count(i)) { MC_FAIL("%s: argument %zu has no default (%s)", name, i, where.c_str()); return false; } a.push_back(f.defaults[i]); }
  if (a.size() != f.arity) { MC_FAIL("%s takes %zu arguments (%s)", name, f.arity, where.c_str()); return false; }
  std::vector<std::vector<double>> before; for (auto &x : a) before.push_back(x->d);
  srand(1);
  py::object o;
  try { o = f.call(a); } catch (std::exception &e) { MC_FAIL("%s: %s (%s)", name, e.what(), where.c_str()); return false; }
  for (size_t i = 0; i < a.size(); i++) if (before[i] != a[i]->d) { MC_FAIL("%s: changes its argument %zu (%s)", name, i, where.c_str()); return false; }
  if (!w.judged) { E().counters["consensus runs without a model (not judged)"]++; return true; }
  std::vector<py::VP> items;
  if (w.list) { if (o.v->kind != py::Val::LIST) { MC_FAIL("%s: no list (%s)", name, where.c_str()); return false; } items = o.v->items; } else items.push_back(o.v);
  if (items.size() != w.items.size()) { MC_FAIL("%s: %zu candidates, in C++ %zu (%s)", name, items.size(), w.items.size(), where.c_str()); return false; }
  for (size_t k = 0; k < items.size(); k++)
  {
    if (items[k]->kind != py::Val::ARRAY || items[k]->shape != w.shape) { MC_FAIL("%s: result has the wrong shape (%s)", name, where.c_str()); return false; }
    for (size_t i = 0; i < w.items[k].size(); i++) if (!same(w.items[k][i], items[k]->d[i])) { MC_FAIL("%s: candidate %zu, number %zu is %.12g, in C++ %.12g (%s)", name, k, i, items[k]->d[i], w.items[k][i], where.c_str()); return false; }
  }
  E().outcome(mix(mix(hashStr(E().key), hashStr(where)), hashStr(name)));
  return true;
}
template <template <class> class S, class P, class... X> static Want cons(double th, int it, double p, X &&...x)
{
  srand(1);
  S<P> s; s.sac_model_ = std::shared_ptr<P>(new P(std::forward<X>(x)...)); s.threshold_ = th; s.max_iterations_ = it; s.probability_ = p;
  bool ok = s.computeModel(); Want w; w.judged = ok; if (ok) { w = arr(s.model_coefficients_); } return w;
}
template <class P> using Ran = sac::Ransac<P>; template <class P> using Lme = sac::Lmeds<P>;

int main(int argc, char **argv)
{
  E().init(argc, argv); bool T = E().thorough;
  const auto &Rs = rotations192();
  py::module_ m; mock_init_pyopengv(m);
  for (size_t r = 0; r < 192; r += T ? 1 : 13)
    for (int ti = 0; ti < 27; ti += T ? 2 : 6)
      for (int nn = 0; nn < 3; nn++)
      {
        if (ti == 13 || !E().begin(fmt("abs:%zu:%d:%d", r, ti, nn))) continue;
        if (r == 0 && ti == 0) E().sample(E().key);
        M3 R = Rs[r]; V3 t = trans27(ti); int n = nn == 0 ? 6 : nn == 1 ? 9 : 25, set = 2 + (int)(r + ti) % 9;
        Data d = absData(n, set, true, R, t, 0); absolute_pose::CentralAbsoluteAdapter ad(d.f, d.p);
        std::vector<py::VP> two = {rows(d.f), rows(d.p)}, R1 = two, R2 = two; M3 R0 = R * smallRot(7, .03); V3 t0 = t + V3(.02, -.03, .01);
        R1.push_back(mat(R0)); R2.push_back(vec(t0)); R2.push_back(mat(R0));
        absolute_pose::CentralAbsoluteAdapter adR(d.f, d.p, R0), adT(d.f, d.p, t0, R0);
        std::string w = "exact";
        run("absolute_pose_p2p", R1, arr(absolute_pose::p2p(adR)), w);
        run("absolute_pose_p3p_kneip", two, lst(absolute_pose::p3p_kneip(ad), 4), w);
        run("absolute_pose_p3p_gao", two, lst(absolute_pose::p3p_gao(ad), 4), w);
        run("absolute_pose_gp3p", two, lst(absolute_pose::gp3p(ad), 4), w);
        run("absolute_pose_epnp", two, arr(absolute_pose::epnp(ad)), w);
        run("absolute_pose_gpnp", two, arr(absolute_pose::gpnp(ad)), w);
        run("absolute_pose_upnp", two, lst(absolute_pose::upnp(ad), 4), w);
        run("absolute_pose_optimize_nonlinear", R2, arr(absolute_pose::optimize_nonlinear(adT)), w);
        // consensus
        Data o = absData(n, set, true, R, t, n > 20 ? 3 : 0); absolute_pose::CentralAbsoluteAdapter ao(o.f, o.p);
        typedef sac_problems::absolute_pose::AbsolutePoseSacProblem P;
        const struct { const char *n; P::algorithm_t a; } al[] = {{"KNEIP", P::KNEIP}, {"GAO", P::GAO}, {"EPNP", P::EPNP}, {"GP3P", P::GP3P}, {"TWOPT", P::TWOPT}, {"other", P::KNEIP}};
        for (auto &x : al) for (int k = 0; k < 3; k++)
        {
          double th = k == 0 ? 1e-4 : 1e-6, pr = k == 2 ? 0.5 : 0.99; int it = k == 0 ? 1000 : k == 1 ? 30 : 7;
          std::vector<py::VP> c = {rows(o.f), rows(o.p), str(x.n), num(th)}; if (k) { c.push_back(num(it)); c.push_back(num(pr)); } if (k == 0 && nn == 1) c.push_back(num(it));
          run("absolute_pose_ransac", c, cons<Ran, P>(th, it, pr, ao, x.a), fmt("%s %d", x.n, k));
          if (k || n < 20) run("absolute_pose_lmeds", c, cons<Lme, P>(th, it, pr, ao, x.a), fmt("%s %d", x.n, k));
        }
      }
  for (size_t r = 0; r < 192; r += T ? 1 : 13)
    for (int ti = 0; ti < 27; ti += T ? 2 : 6)
      for (int nn = 0; nn < 4; nn++)
      {
        if (ti == 13 || !E().begin(fmt("rel:%zu:%d:%d", r, ti, nn))) continue;
        M3 R = Rs[r]; V3 t = trans27(ti); int n = nn == 0 ? 5 : nn == 1 ? 6 : nn == 2 ? 10 : 24, set = 2 + (int)(r + ti) % 9;
        Data d = relData(n, set, true, R, t, 0); relative_pose::CentralRelativeAdapter ad(d.f, d.f2);
        std::vector<py::VP> two = {rows(d.f), rows(d.f2)}, R1 = two, R2 = two; M3 R0 = R * smallRot(7, .03); V3 t0 = t + V3(.02, -.03, .01);
        R1.push_back(mat(R0)); R2.push_back(vec(t0)); R2.push_back(mat(R0));
        relative_pose::CentralRelativeAdapter adR(d.f, d.f2, R0), adT(d.f, d.f2, t0, R0);
        std::string w = "exact";
        run("relative_pose_twopt", R1, arr(relative_pose::twopt(adR, true, 0, 1)), w);
        run("relative_pose_twopt_rotation_only", two, arr(relative_pose::twopt_rotationOnly(ad)), w);
        run("relative_pose_rotation_only", two, arr(relative_pose::rotationOnly(ad)), w);
        run("relative_pose_fivept_nister", two, lst(relative_pose::fivept_nister(ad), 3), w);
        run("relative_pose_fivept_kneip", two, lst(relative_pose::fivept_kneip(ad, iota(5)), 3), w);
        if (n >= 7) run("relative_pose_sevenpt", two, lst(relative_pose::sevenpt(ad), 3), w);
        if (n >= 8) run("relative_pose_eightpt", two, arr(relative_pose::eightpt(ad)), w);
        run("relative_pose_eigensolver", R1, arr(relative_pose::eigensolver(adR)), w);
        if (n == 6) run("relative_pose_sixpt", two, lst(relative_pose::sixpt(ad), 3), w);
        { points_t p; for (int i = 0; i < n; i++) p.push_back(triangulation::triangulate(adT, i)); run("triangulation_triangulate", R2, pts(p), w); }
        { points_t p; for (int i = 0; i < n; i++) p.push_back(triangulation::triangulate2(adT, i)); run("triangulation_triangulate2", R2, pts(p), w); }
        if (n >= 6) { transformation_t X = relative_pose::optimize_nonlinear(adT); run("relative_pose_optimize_nonlinear", R2, arr(X), w); }
        if (n < 9) continue;
        Data o = relData(n, set, true, R, t, n > 20 ? 3 : 0); relative_pose::CentralRelativeAdapter ao(o.f, o.f2);
        typedef sac_problems::relative_pose::CentralRelativePoseSacProblem P; typedef sac_problems::relative_pose::RotationOnlySacProblem Q;
        const struct { const char *n; P::algorithm_t a; } al[] = {{"STEWENIUS", P::STEWENIUS}, {"NISTER", P::NISTER}, {"SEVENPT", P::SEVENPT}, {"EIGHTPT", P::EIGHTPT}, {"other", P::NISTER}};
        for (auto &x : al) for (int k = 0; k < 3; k++)
        {
          double th = k == 0 ? 1e-4 : 1e-6, pr = k == 2 ? 0.5 : 0.99; int it = k == 0 ? 1000 : k == 1 ? 30 : 7;
          std::vector<py::VP> c = {rows(o.f), rows(o.f2), str(x.n), num(th)}; if (k) { c.push_back(num(it)); c.push_back(num(pr)); }
          run("relative_pose_ransac", c, cons<Ran, P>(th, it, pr, ao, x.a), fmt("%s %d", x.n, k));
          if (k || (!T && r == 0) || (T && r % 16 == 0)) run("relative_pose_lmeds", c, cons<Lme, P>(th, it, pr, ao, x.a), fmt("%s %d", x.n, k));
        }
        Data z = relData(n, set, true, R, V3::Zero(), n > 20 ? 3 : 0); relative_pose::CentralRelativeAdapter az(z.f, z.f2);
        for (int k = 0; k < 3; k++)
        {
          double th = k == 0 ? 1e-4 : 1e-6, pr = k == 2 ? 0.5 : 0.99; int it = k == 0 ? 1000 : k == 1 ? 30 : 7;
          std::vector<py::VP> c = {rows(z.f), rows(z.f2), num(th)}; if (k) { c.push_back(num(it)); c.push_back(num(pr)); }
          run("relative_pose_ransac_rotation_only", c, cons<Ran, Q>(th, it, pr, az), fmt("%d", k));
          run("relative_pose_lmeds_rotation_only", c, cons<Lme, Q>(th, it, pr, az), fmt("%d", k));
        }
      }
  return E().finish();
}
