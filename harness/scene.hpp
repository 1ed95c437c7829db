// Deterministic finite families of scenes.  Every scene is identified by small integers.
#ifndef VERIF_SCENE_HPP_
#define VERIF_SCENE_HPP_
#include "mc.hpp"
#include <opengv/types.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <memory>

namespace sc
{
using namespace opengv;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;

// pseudo-random but fixed integer in [-m,m]
inline int lat(uint64_t a, uint64_t b, uint64_t c, int m)
{
  uint64_t h = mc::mix(mc::mix(mc::mix(0x1234567, a), b), c);
  h ^= h >> 29;
  return (int)(h % (2 * m + 1)) - m;
}
inline double frac(uint64_t a, uint64_t b, uint64_t c) // in [-1,1]
{
  uint64_t h = mc::mix(mc::mix(mc::mix(0x7654321, a), b), c);
  h ^= h >> 31;
  return (double)(h % 2000001) / 1000000.0 - 1.0;
}
inline M3 fromQuat(double w, double x, double y, double z)
{
  double n = std::sqrt(w * w + x * x + y * y + z * z);
  w /= n; x /= n; y /= n; z /= n;
  M3 R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
       2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
       2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return R;
}
// the 40 rotations with quaternion components in {-1,0,1}, identity first
inline const std::vector<M3> &rotations40()
{
  static std::vector<M3> v = [] {
    std::vector<M3> r;
    r.push_back(M3::Identity());
    for (int w = 1; w >= 0; w--)
      for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++)
      {
        if (w == 0) { int f = x ? x : y ? y : z; if (f <= 0) continue; }
        if (w == 1 && !x && !y && !z) continue;
        r.push_back(fromQuat(w, x, y, z));
      }
    return r;
  }();
  return v;
}
// 192 rotations without special structure: all orders and signs of the quaternion (9,5,3,2)
inline const std::vector<M3> &rotations192()
{
  static std::vector<M3> v = [] {
    std::vector<M3> r;
    const double q[4] = {9, 5, 3, 2};
    mc::arrangements(4, 4, [&](const std::vector<int> &p) {
      for (int s = 0; s < 8; s++) r.push_back(fromQuat(q[p[0]], q[p[1]] * (s & 1 ? -1 : 1), q[p[2]] * (s & 2 ? -1 : 1), q[p[3]] * (s & 4 ? -1 : 1)));
    });
    return r;
  }();
  return v;
}
// small rotations (angle about scale/ |...|) in all 26 directions, for local methods
inline M3 smallRot(int k, double scale) // k in 0..26, 13 = identity
{
  int x = k % 3 - 1, y = (k / 3) % 3 - 1, z = k / 9 - 1;
  return fromQuat(1, scale * x, scale * y, scale * z);
}
inline V3 trans27(int k) { return V3(k % 3 - 1, (k / 3) % 3 - 1, k / 9 - 1); } // 13 = zero

// camera rigs
//  0 one camera at the viewpoint, 1 one camera with offset and rotation, 2 two cameras (rotated),
//  3 four cameras as a typical rig, 4 one camera per point (generalised camera), 5 three cameras, identity rotations
const int NRIG = 6;
struct Rig { translations_t off; rotations_t rot; };
inline Rig rig(int kind, int n)
{
  Rig r;
  auto add = [&](V3 o, M3 R) { r.off.push_back(o); r.rot.push_back(R); };
  switch (kind)
  {
    case 0: add(V3::Zero(), M3::Identity()); break;
    case 1: add(V3(0.3, -0.2, 0.5), fromQuat(3, 1, -1, 2)); break;
    case 2: add(V3(0.5, 0, 0), fromQuat(2, 0, 1, 0)); add(V3(-0.5, 0.1, 0), fromQuat(2, 1, -1, 0)); break;
    case 3: add(V3(0.6, 0, 0.1), fromQuat(1, 0, 1, 0)); add(V3(-0.6, 0.1, 0), fromQuat(1, 0, -1, 1));
            add(V3(0, 0.6, -0.1), fromQuat(2, 1, 0, 1)); add(V3(0.1, -0.6, 0.2), fromQuat(2, -1, 1, 0)); break;
    case 5: add(V3(0.5, 0, 0), M3::Identity()); add(V3(-0.4, 0.4, 0), M3::Identity()); add(V3(0, -0.5, 0.3), M3::Identity()); break;
    default:
      for (int i = 0; i < n; i++)
        add(V3(frac(9011, i, 1), frac(9011, i, 2), frac(9011, i, 3)), fromQuat(2, lat(9011, i, 4, 1), lat(9011, i, 5, 1), lat(9011, i, 6, 1)));
  }
  return r;
}
inline bool centralRig(int kind) { return kind == 0 || kind == 1; }

// points in the viewpoint frame: set selects the seed, shape the arrangement
//  shape 0: all around (general), 1: in front of the viewpoint (z in 4..8), 2: on one plane in front
inline V3 localPoint(int set, int i, int shape)
{
  switch (shape)
  {
    case 1: return V3(3 * frac(set, i, 1), 3 * frac(set, i, 2), 6 + 2 * frac(set, i, 3));
    case 2: { double x = 3 * frac(set, i, 1), y = 3 * frac(set, i, 2); return V3(x, y, 6 + 0.3 * x - 0.2 * y); }
    default:
    {
      // directions cover the sphere, distance 4..8
      V3 d(frac(set, i, 1), frac(set, i, 2), frac(set, i, 3));
      if (d.norm() < 0.2) d += V3(0.5, -0.6, 0.7);
      d.normalize();
      return d * (6 + 2 * frac(set, i, 4));
    }
  }
}

struct AbsScene
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  M3 R; V3 t;
  points_t pts; bearingVectors_t f; std::vector<int> cc; Rig r;
  int n;
  std::unique_ptr<absolute_pose::AbsoluteAdapterBase> adapter(bool forceNoncentral = false) const
  {
    if (r.off.size() == 1 && r.off[0].norm() == 0 && (r.rot[0] - M3::Identity()).norm() == 0 && !forceNoncentral)
      return std::unique_ptr<absolute_pose::AbsoluteAdapterBase>(new absolute_pose::CentralAbsoluteAdapter(f, pts));
    return std::unique_ptr<absolute_pose::AbsoluteAdapterBase>(new absolute_pose::NoncentralAbsoluteAdapter(f, cc, pts, r.off, r.rot));
  }
  transformation_t truth() const { transformation_t T; T.block<3, 3>(0, 0) = R; T.col(3) = t; return T; }
};
inline std::shared_ptr<AbsScene> absScene(int n, int rigKind, const M3 &R, const V3 &t, int set, int shape)
{
  std::shared_ptr<AbsScene> s(new AbsScene);
  s->R = R; s->t = t; s->n = n; s->r = rig(rigKind, n);
  for (int i = 0; i < n; i++)
  {
    int c = i % (int)s->r.off.size();
    V3 local = localPoint(set, i, shape);
    s->pts.push_back(R * local + t);
    s->f.push_back((s->r.rot[c].transpose() * (local - s->r.off[c])).normalized());
    s->cc.push_back(c);
  }
  return s;
}

struct RelScene
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  M3 R; V3 t;            // pose of viewpoint 2 seen from viewpoint 1
  points_t pts;          // in viewpoint 1
  bearingVectors_t f1, f2; std::vector<int> c1, c2; Rig r;
  int n;
  std::unique_ptr<relative_pose::RelativeAdapterBase> adapter(bool forceNoncentral = false) const
  {
    if (r.off.size() == 1 && r.off[0].norm() == 0 && (r.rot[0] - M3::Identity()).norm() == 0 && !forceNoncentral)
      return std::unique_ptr<relative_pose::RelativeAdapterBase>(new relative_pose::CentralRelativeAdapter(f1, f2));
    return std::unique_ptr<relative_pose::RelativeAdapterBase>(new relative_pose::NoncentralRelativeAdapter(f1, f2, c1, c2, r.off, r.rot));
  }
  M3 E() const
  {
    M3 S; S << 0, -t[2], t[1], t[2], 0, -t[0], -t[1], t[0], 0;
    return S * R;
  }
};
// crossCams: correspondences may be seen by different cameras of the rig in the two viewpoints
inline std::shared_ptr<RelScene> relScene(int n, int rigKind, const M3 &R, const V3 &t, int set, int shape, bool crossCams = false)
{
  std::shared_ptr<RelScene> s(new RelScene);
  s->R = R; s->t = t; s->n = n; s->r = rig(rigKind, n);
  int nc = s->r.off.size();
  for (int i = 0; i < n; i++)
  {
    int a = i % nc, b = crossCams ? (i + 1 + i / nc) % nc : a;
    V3 p1 = localPoint(set, i, shape);
    V3 p2 = R.transpose() * (p1 - t);
    s->pts.push_back(p1);
    s->f1.push_back((s->r.rot[a].transpose() * (p1 - s->r.off[a])).normalized());
    s->f2.push_back((s->r.rot[b].transpose() * (p2 - s->r.off[b])).normalized());
    s->c1.push_back(a); s->c2.push_back(b);
  }
  return s;
}

inline double rotErr(const M3 &A, const M3 &B) { double e = (A - B).norm(); return e == e ? e : 1e300; }
inline double vecErr(const V3 &a, const V3 &b) { double e = (a - b).norm(); return e == e ? e : 1e300; }
inline double poseErr(const transformation_t &A, const transformation_t &B) { double e = (A - B).norm(); return e == e ? e : 1e300; }
inline bool isRotation(const M3 &R, double tol)
{
  double e = (R * R.transpose() - M3::Identity()).norm();
  return e == e && e < tol && R.determinant() > 0;
}
// essential matrices equal up to scale and sign
inline double essErr(const M3 &A, const M3 &B)
{
  double na = A.norm(), nb = B.norm();
  if (!(na > 1e-12) || !(nb > 1e-12)) return 1e300;
  double e = std::min((A / na - B / nb).norm(), (A / na + B / nb).norm());
  return e == e ? e : 1e300;
}
inline double dirErr(const V3 &a, const V3 &b) // same direction
{
  double e = (a.normalized() - b.normalized()).norm();
  return e == e ? e : 1e300;
}
inline double axisErr(const V3 &a, const V3 &b) { return std::min(dirErr(a, b), dirErr(a, V3(-b))); }
inline std::vector<int> iota(int n, int from = 0) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(from + i); return v; }
template <class T> std::string showM(const T &M)
{
  std::string s;
  for (int i = 0; i < M.rows(); i++) { for (int j = 0; j < M.cols(); j++) s += mc::fmt("%s%.6g", j ? " " : "", (double)M(i, j)); s += "; "; }
  return s;
}
} // namespace sc
#endif
