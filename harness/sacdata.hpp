// Real sample-consensus problems on constructed scenes, and a reference for their scores.
#ifndef VERIF_SACDATA_HPP_
#define VERIF_SACDATA_HPP_
#include "solvers.hpp"
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/triangulation/methods.hpp>

namespace sd
{
using namespace opengv;
using namespace sc;
namespace sa = opengv::sac_problems::absolute_pose;
namespace sr = opengv::sac_problems::relative_pose;
namespace sp = opengv::sac_problems::point_cloud;

// ---- reference scores
// absolute pose: 1 - cos of the angle between the measured ray and the reprojection
inline double refAbs(const transformation_t &M, const V3 &X, const V3 &f, const V3 &o, const M3 &Rc)
{
  V3 b = M.block<3, 3>(0, 0).transpose() * (X - M.col(3));
  V3 c = Rc.transpose() * (b - o);
  return 1.0 - c.normalized().dot(f);
}
// relative pose: mid point of the two rays, then 1 - cos in both views; det: how far from parallel
inline double refRel(const M3 &R12, const V3 &t12, const V3 &f1, const V3 &f2, const V3 &o1, const M3 &R1, const V3 &o2, const M3 &R2, double &det)
{
  M3 R = R1.transpose() * R12 * R2;
  V3 t = R1.transpose() * (t12 - o1 + R12 * o2);
  V3 g = R * f2;
  double a = f1.dot(f1), b = f1.dot(g), c = g.dot(g), d = t.dot(f1), e = t.dot(g);
  det = a * c - b * b;
  // minimise |l f1 - t - m g|
  double l = (c * d - b * e) / det, m = (b * d - a * e) / det;
  V3 p = 0.5 * (l * f1 + t + m * g);
  V3 q = R.transpose() * (p - t);
  det *= std::min(1.0, std::min(p.norm(), q.norm()));
  return (1.0 - p.normalized().dot(f1)) + (1.0 - q.normalized().dot(f2));
}

// ---- multi-camera data: shape[f] correspondences seen by camera f of a rig
struct MultiScene
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  M3 R; V3 t;
  std::vector<int> shape; int n = 0;
  std::vector<std::shared_ptr<bearingVectors_t>> f, f1, f2;   // absolute / relative measurements
  std::vector<std::shared_ptr<points_t>> pts, rpts;
  translations_t off; rotations_t rot;
  std::vector<std::vector<int>> all() const { std::vector<std::vector<int>> v; for (int k : shape) v.push_back(iota(k)); return v; }
};
inline std::shared_ptr<MultiScene> multiScene(const std::vector<int> &shape, int rigKind, const M3 &R, const V3 &t, int set, int ptShape)
{
  std::shared_ptr<MultiScene> s(new MultiScene);
  s->R = R; s->t = t; s->shape = shape;
  Rig r = rig(rigKind, shape.size());
  int k = 0;
  for (size_t c = 0; c < shape.size(); c++)
  {
    V3 o = r.off[c % r.off.size()]; M3 Rc = r.rot[c % r.rot.size()];
    s->off.push_back(o); s->rot.push_back(Rc);
    s->f.push_back(std::make_shared<bearingVectors_t>()); s->f1.push_back(std::make_shared<bearingVectors_t>()); s->f2.push_back(std::make_shared<bearingVectors_t>());
    s->pts.push_back(std::make_shared<points_t>()); s->rpts.push_back(std::make_shared<points_t>());
    for (int i = 0; i < shape[c]; i++, k++)
    {
      V3 p = localPoint(set, k, ptShape);
      s->pts[c]->push_back(R * p + t);
      s->f[c]->push_back((Rc.transpose() * (p - o)).normalized());
      s->rpts[c]->push_back(p);
      s->f1[c]->push_back((Rc.transpose() * (p - o)).normalized());
      s->f2[c]->push_back((Rc.transpose() * (R.transpose() * (p - t) - o)).normalized());
    }
    s->n += shape[c];
  }
  return s;
}
inline transformation_t mkT(const M3 &R, const V3 &t) { transformation_t T; T.block<3, 3>(0, 0) = R; T.col(3) = t; return T; }
} // namespace sd
#endif
