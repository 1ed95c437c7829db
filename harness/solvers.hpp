// Table of all pose solvers with a common interface: run on (adapter, optional index list),
// give all numbers of the result (for exact comparisons) and the distance of the result from
// the true pose of a scene (for recovery properties).
#ifndef VERIF_SOLVERS_HPP_
#define VERIF_SOLVERS_HPP_
#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>

namespace sv
{
using namespace opengv;
using namespace sc;
typedef std::vector<double> Raw;
template <class T> void put(Raw &r, const T &M) { for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) r.push_back(M(i, j)); }
inline void putc(Raw &r, const complexEssential_t &M) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.push_back(M(i, j).real()); r.push_back(M(i, j).imag()); } }
inline transformation_t T0() { transformation_t T; T.setZero(); T.block<3, 3>(0, 0).setIdentity(); return T; }

typedef absolute_pose::AbsoluteAdapterBase AA;
typedef relative_pose::RelativeAdapterBase RA;
typedef const std::vector<int> *Idx;   // null: the overload without an index list

struct Out
{
  Raw raw;                              // every number of the result, in order
  transformations_t poses; rotations_t rots; essentials_t ess;
  std::vector<V3, Eigen::aligned_allocator<V3>> trans;
  int count = 0;
  void pose(const transformation_t &T) { put(raw, T); poses.push_back(T); count++; }
  void rot(const rotation_t &R) { put(raw, R); rots.push_back(R); count++; }
  void e(const essential_t &M) { put(raw, M); ess.push_back(M); count++; }
  void t(const V3 &v) { put(raw, v); trans.push_back(v); count++; }
};

// ---------------------------------------------------------------- absolute pose
enum { P2P, P3P_KNEIP, P3P_GAO, GP3P, EPNP, GPNP, UPNP, ABSOPT, NABS };
inline const char *absName(int s) { const char *n[] = {"p2p", "p3p_kneip", "p3p_gao", "gp3p", "epnp", "gpnp", "upnp", "abs_optimize"}; return n[s]; }
inline int absMin(int s) { const int n[] = {2, 3, 3, 3, 6, 6, 3, 3}; return n[s]; }
inline bool absExactCount(int s) { return s <= GP3P; }      // uses exactly absMin correspondences
inline bool absCentralOnly(int s) { return s == P2P || s == P3P_KNEIP || s == P3P_GAO || s == EPNP; }
inline Out runAbs(int s, const AA &a, Idx ix)
{
  Out o;
  switch (s)
  {
    case P2P: o.t(ix ? absolute_pose::p2p(a, *ix) : absolute_pose::p2p(a)); break;
    case P3P_KNEIP: for (auto &T : ix ? absolute_pose::p3p_kneip(a, *ix) : absolute_pose::p3p_kneip(a)) o.pose(T); break;
    case P3P_GAO: for (auto &T : ix ? absolute_pose::p3p_gao(a, *ix) : absolute_pose::p3p_gao(a)) o.pose(T); break;
    case GP3P: for (auto &T : ix ? absolute_pose::gp3p(a, *ix) : absolute_pose::gp3p(a)) o.pose(T); break;
    case EPNP: o.pose(ix ? absolute_pose::epnp(a, *ix) : absolute_pose::epnp(a)); break;
    case GPNP: o.pose(ix ? absolute_pose::gpnp(a, *ix) : absolute_pose::gpnp(a)); break;
    case UPNP: for (auto &T : ix ? absolute_pose::upnp(a, *ix) : absolute_pose::upnp(a)) o.pose(T); break;
    case ABSOPT: o.pose(ix ? absolute_pose::optimize_nonlinear(a, *ix) : absolute_pose::optimize_nonlinear(a)); break;
  }
  return o;
}
// distance of the best candidate from the true pose (cam: pose of the single camera in the body)
inline double absError(int s, const Out &o, const transformation_t &truth)
{
  double e = 1e300;
  if (s == P2P) { for (auto &t : o.trans) e = std::min(e, vecErr(t, truth.col(3))); return e; }
  for (auto &T : o.poses) e = std::min(e, poseErr(T, truth));
  return e;
}

// ---------------------------------------------------------------- relative pose
enum { TWOPT, TWOPT_ROT, ROTONLY, STEWENIUS, NISTER, KNEIP5, SEVENPT, EIGHTPT, EIGEN, EIGENW, SIXPT, GE, GEW, SEVENTEEN, RELOPT, NREL };
inline const char *relName(int s)
{
  const char *n[] = {"twopt", "twopt_rotationOnly", "rotationOnly", "fivept_stewenius", "fivept_nister", "fivept_kneip", "sevenpt", "eightpt",
                     "eigensolver", "eigensolver_weighted", "sixpt", "ge", "ge_weighted", "seventeenpt", "rel_optimize"};
  return n[s];
}
inline int relMin(int s) { const int n[] = {2, 2, 3, 5, 5, 5, 7, 8, 5, 5, 6, 6, 6, 17, 5}; return n[s]; }
inline bool relExactCount(int s) { return s == TWOPT || s == TWOPT_ROT || s == KNEIP5 || s == SIXPT; }
inline bool relCentralOnly(int s) { return s <= EIGENW; }
inline void putEig(Out &o, const eigensolverOutput_t &e)
{ o.rot(e.rotation); put(o.raw, e.translation); put(o.raw, e.eigenvalues); put(o.raw, e.eigenvectors); o.trans.push_back(e.translation); }
inline void putGe(Out &o, const geOutput_t &e)
{
  transformation_t T; T.block<3, 3>(0, 0) = e.rotation; T.col(3) = e.translation.block<3, 1>(0, 0);
  o.poses.push_back(T); o.rot(e.rotation); put(o.raw, e.translation); put(o.raw, e.eigenvalues); put(o.raw, e.eigenvectors);
}
inline Out runRel(int s, RA &a, Idx ix)
{
  Out o;
  switch (s)
  {
    case TWOPT: o.t(ix ? relative_pose::twopt(a, true, *ix) : relative_pose::twopt(a, true)); break;
    case TWOPT_ROT: o.rot(ix ? relative_pose::twopt_rotationOnly(a, *ix) : relative_pose::twopt_rotationOnly(a)); break;
    case ROTONLY: o.rot(ix ? relative_pose::rotationOnly(a, *ix) : relative_pose::rotationOnly(a)); break;
    case STEWENIUS: for (auto &M : ix ? relative_pose::fivept_stewenius(a, *ix) : relative_pose::fivept_stewenius(a)) { o.ess.push_back(M.real()); putc(o.raw, M); o.count++; } break;
    case NISTER: for (auto &M : ix ? relative_pose::fivept_nister(a, *ix) : relative_pose::fivept_nister(a)) o.e(M); break;
    case KNEIP5: for (auto &R : relative_pose::fivept_kneip(a, ix ? *ix : iota(a.getNumberCorrespondences()))) o.rot(R); break;
    case SEVENPT: for (auto &M : ix ? relative_pose::sevenpt(a, *ix) : relative_pose::sevenpt(a)) o.e(M); break;
    case EIGHTPT: o.e(ix ? relative_pose::eightpt(a, *ix) : relative_pose::eightpt(a)); break;
    case EIGEN: case EIGENW:
    {
      eigensolverOutput_t e; e.rotation = a.getR12();
      if (ix) relative_pose::eigensolver(a, *ix, e, s == EIGENW); else relative_pose::eigensolver(a, e, s == EIGENW);
      putEig(o, e);
      break;
    }
    case SIXPT: for (auto &R : ix ? relative_pose::sixpt(a, *ix) : relative_pose::sixpt(a)) o.rot(R); break;
    case GE: case GEW:
    {
      geOutput_t e; e.rotation.setIdentity();
      if (ix) relative_pose::ge(a, *ix, e, s == GEW); else relative_pose::ge(a, e, s == GEW);
      putGe(o, e);
      break;
    }
    case SEVENTEEN: o.pose(ix ? relative_pose::seventeenpt(a, *ix) : relative_pose::seventeenpt(a)); break;
    case RELOPT: o.pose(ix ? relative_pose::optimize_nonlinear(a, *ix) : relative_pose::optimize_nonlinear(a)); break;
  }
  return o;
}
inline double relError(int s, const Out &o, const RelScene &sc)
{
  double e = 1e300;
  switch (s)
  {
    case TWOPT: for (auto &t : o.trans) e = std::min(e, dirErr(t, sc.t)); break;
    case TWOPT_ROT: case ROTONLY: case KNEIP5: case SIXPT: for (auto &R : o.rots) e = std::min(e, rotErr(R, sc.R)); break;
    case STEWENIUS: case NISTER: case SEVENPT: case EIGHTPT: for (auto &M : o.ess) e = std::min(e, essErr(M, sc.E())); break;
    case EIGEN: case EIGENW: e = rotErr(o.rots[0], sc.R); if (sc.t.norm() > 0) e = std::max(e, dirErr(o.trans[0], sc.t)); break;
    case RELOPT: e = rotErr(o.poses[0].block<3, 3>(0, 0), sc.R); if (sc.t.norm() > 0) e = std::max(e, sc.r.off.size() == 1 ? dirErr(o.poses[0].col(3), sc.t) : vecErr(o.poses[0].col(3), sc.t)); break;
    default: for (auto &T : o.poses) { transformation_t X; X.block<3, 3>(0, 0) = sc.R; X.col(3) = sc.t; e = std::min(e, poseErr(T, X)); }
  }
  return e;
}
} // namespace sv
#endif
