// Common to the checks of the language bindings: data, and the same calls made directly in C++ through the standard adapters.
#ifndef VERIF_BIND_HPP_
#define VERIF_BIND_HPP_
#include "solvers.hpp"
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <ctime>
#include <cstdlib>
namespace bd
{
using namespace opengv; using namespace sc; using namespace sv;
struct Res { bool out = false, judged = true; std::vector<size_t> dims; std::vector<double> v; std::vector<int> inl; };
template <class T> void put2(Res &r, const T &M) { for (int c = 0; c < M.cols(); c++) for (int i = 0; i < M.rows(); i++) r.v.push_back(M(i, c)); }
template <class T> Res one(const T &M) { Res r; r.out = true; r.dims = {(size_t)M.rows(), (size_t)M.cols()}; put2(r, M); return r; }
template <class L> Res many(const L &l, size_t cols) { Res r; r.out = true; r.dims = {3, cols, l.size()}; for (auto &M : l) put2(r, M); return r; }
template <class P> Res finish(sac::SampleConsensus<P> &s, bool ok) { Res r; r.out = true; r.judged = ok; r.inl = s.inliers_; return r; }
inline double thr() { return 1.0 - std::cos(std::atan(std::sqrt(2.0) * 0.5 / 800.0)); }

struct Data { points_t p; bearingVectors_t f, f2; translations_t o, o2; int n = 0; std::vector<int> cc; rotations_t id; };
// absolute: points p and bearing vectors f (offset o per correspondence); relative: f, o and f2, o2; clouds: p = R q + t in (f as points)
inline Data absData(int n, int set, bool central, const M3 &R, const V3 &t, int outliers)
{
  Data d; d.n = n;
  for (int i = 0; i < n; i++)
  {
    V3 l = localPoint(set, i, 0), o = central ? V3(V3::Zero()) : V3(0.5 * frac(set, i, 11), 0.5 * frac(set, i, 12), 0.5 * frac(set, i, 13));
    d.p.push_back(R * l + t); V3 f = (l - o).normalized(); if (i % 5 == 2 && outliers-- > 0) f = V3(-f[1], f[2], f[0]).normalized();
    d.f.push_back(f); d.o.push_back(o); d.cc.push_back(i); d.id.push_back(M3::Identity());
  }
  return d;
}
inline Data relData(int n, int set, bool central, const M3 &R, const V3 &t, int outliers)
{
  Data d; d.n = n;
  for (int i = 0; i < n; i++)
  {
    V3 l = localPoint(set, i, 0), q = R.transpose() * (l - t);
    V3 o = central ? V3(V3::Zero()) : V3(0.5 * frac(set, i % 4, 11), 0.5 * frac(set, i % 4, 12), 0.5 * frac(set, i % 4, 13)), o2 = central ? o : V3(0.5 * frac(set, i % 4, 11), 0.5 * frac(set, i % 4, 12), 0.5 * frac(set, i % 4, 13));
    V3 f = (q - o2).normalized(); if (i % 5 == 2 && outliers-- > 0) f = V3(-f[1], f[2], f[0]).normalized();
    d.f.push_back((l - o).normalized()); d.f2.push_back(f); d.o.push_back(o); d.o2.push_back(o2); d.cc.push_back(i); d.id.push_back(M3::Identity());
  }
  return d;
}
inline bool same(double a, double b) { return (a != a && b != b) || a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a)); }
}
#endif
