// Adapters: index serialisation of the multi-camera adapters, access to the data that was
// handed in, and priors - over all small camera/correspondence shapes and operation sequences.
#include "scene.hpp"
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
using namespace mc;
using namespace sc;
typedef std::vector<std::shared_ptr<bearingVectors_t>> VB;
typedef std::vector<std::shared_ptr<points_t>> VP;

static V3 val(int kind, int f, int i) { return V3(1 + f * 100 + i, kind * 7 - 0.25 * i, f - i * 0.5 + kind); }
static M3 rotOf(int f) { return rotations40()[(f * 7 + 3) % 40]; }

// ------------------------------------------------ multi adapters
struct MultiData
{
  VB b1, b2; VP pts; translations_t off; rotations_t rot;
  std::vector<std::vector<double>> raw1, raw2; std::vector<double *> p1, p2; std::vector<double> rawOff;
  MultiData(const std::vector<int> &shape)
  {
    for (size_t f = 0; f < shape.size(); f++)
    {
      b1.push_back(std::make_shared<bearingVectors_t>()); b2.push_back(std::make_shared<bearingVectors_t>()); pts.push_back(std::make_shared<points_t>());
      raw1.emplace_back(); raw2.emplace_back();
      for (int i = 0; i < shape[f]; i++)
      {
        b1[f]->push_back(val(1, f, i)); b2[f]->push_back(val(2, f, i)); pts[f]->push_back(val(3, f, i));
        for (int k = 0; k < 3; k++) { raw1[f].push_back(val(1, f, i)[k]); raw2[f].push_back(val(2, f, i)[k]); }
      }
      off.push_back(val(5, f, 0)); rot.push_back(rotOf(f));
      for (int k = 0; k < 3; k++) rawOff.push_back(val(5, f, 0)[k]);
    }
    for (size_t f = 0; f < shape.size(); f++) { p1.push_back(raw1[f].data()); p2.push_back(raw2[f].data()); }
  }
};
template <class A> void indexChecks(const A &a, const std::vector<int> &shape, int frames)
{
  int total = 0; for (int x : shape) total += x;
  if (frames != (int)shape.size()) { MC_FAIL("%d frames reported for %zu", frames, shape.size()); return; }
  if ((int)a.getNumberCorrespondences() != total) { MC_FAIL("total number of correspondences %d instead of %d", (int)a.getNumberCorrespondences(), total); return; }
  std::set<int> seen;
  int expected = 0;
  for (size_t f = 0; f < shape.size(); f++)
  {
    if ((int)a.getNumberCorrespondences(f) != shape[f]) { MC_FAIL("frame %zu has %d correspondences instead of %d", f, (int)a.getNumberCorrespondences(f), shape[f]); return; }
    for (int i = 0; i < shape[f]; i++)
    {
      int s = a.convertMultiIndex(f, i);
      E().transitions++;
      E().states.insert(mix(hashInts(shape), mix(f * 1000 + i, s)));
      if (s < 0 || s >= total || !seen.insert(s).second) { MC_FAIL("serialised index %d of (%zu,%d) is out of range or used twice", s, f, i); return; }
      if (s != expected) { MC_FAIL("serialised index %d of (%zu,%d), frame by frame it is %d", s, f, i, expected); return; }
      expected++;
      if (a.multiCorrespondenceIndex(s) != i) { MC_FAIL("index %d maps back to correspondence %d instead of %d", s, a.multiCorrespondenceIndex(s), i); return; }
    }
  }
}
template <class A, class F> void framesBack(const A &a, const std::vector<int> &shape, F back)
{
  for (size_t f = 0; f < shape.size(); f++)
    for (int i = 0; i < shape[f]; i++)
      if (back(a.convertMultiIndex(f, i)) != (int)f) { MC_FAIL("index of (%zu,%d) maps back to frame %d", f, i, back(a.convertMultiIndex(f, i))); return; }
}
// conversion of index lists: all lists of up to 2 (3 for few frames) entries per frame, repetitions and any order allowed
template <class A> void listChecks(const A &a, const std::vector<int> &shape, bool thorough)
{
  int nf = shape.size();
  std::vector<std::vector<std::vector<int>>> per(nf);
  for (int f = 0; f < nf; f++)
  {
    int maxLen = nf <= 2 ? 3 : nf == 3 ? 2 : 1;
    if (thorough) maxLen++;
    per[f].push_back({});
    for (int len = 1; len <= maxLen; len++)
      if (shape[f] > 0) product(std::vector<int>(len, std::min(shape[f], 3)), [&](const std::vector<int> &v) {
        std::vector<int> w = v; for (int &x : w) if (x == 2) x = shape[f] - 1; per[f].push_back(w); });
  }
  std::vector<int> base; for (int f = 0; f < nf; f++) base.push_back(per[f].size());
  double n = 1; for (int b : base) n *= b;
  if (n > 20000) // too many: complete lists, backwards, strided
    for (int f = 0; f < nf; f++)
    {
      per[f] = {iota(shape[f]), iota(shape[f]), {}}; std::reverse(per[f][1].begin(), per[f][1].end());
      for (int i = (f % 4); i < shape[f]; i += 3) per[f][2].push_back(i);
      base[f] = 1;
    }
  int shift = 0;
  auto one = [&](const std::vector<int> &sel) {
    std::vector<std::vector<int>> mi; std::vector<int> want;
    for (int f = 0; f < nf; f++)
    {
      mi.push_back(per[f][(sel[f] + shift) % per[f].size()]);
      int off = 0; for (int g = 0; g < f; g++) off += shape[g];
      for (int x : mi.back()) want.push_back(off + x);
    }
    std::vector<int> got = a.convertMultiIndices(mi);
    E().evaluations++; E().transitions++;
    if (got != want) MC_FAIL("index list converts to [%s] instead of [%s]", joinInts(got, ',').c_str(), joinInts(want, ',').c_str());
    // lists that stop early address the leading frames only
    while (!mi.empty() && mi.back().empty()) { mi.pop_back(); if (a.convertMultiIndices(mi) != want) MC_FAIL("shorter index list converts differently"); }
  };
  if (nf) { if (n > 20000) for (shift = 0; shift < 3; shift++) one(std::vector<int>(nf, 0)); else product(base, one); }
  if (!a.convertMultiIndices({}).empty()) MC_FAIL("the empty index list converts to something");
}
template <class X, class Y> bool same(const X &a, const Y &b) { return (a - b).norm() == 0; }

static void multiShape(const std::vector<int> &shape)
{
  for (int kind = 0; kind < 4; kind++)
  {
    std::string key = fmt("multi:%d:shape=%s", kind, joinInts(shape).c_str());
    if (!E().begin(key)) continue;
    MultiData d(shape);
    E().evaluations++;
    int nf = shape.size();
    bool T = E().thorough;
    auto relative = [&](auto &a, bool rig, bool rotated) {
      indexChecks((relative_pose::RelativeMultiAdapterBase &)a, shape, a.getNumberPairs());
      listChecks(a, shape, T);
      framesBack(a, shape, [&](int s) { return a.multiPairIndex(s); });
      relative_pose::RelativeMultiAdapterBase &m = a;
      relative_pose::RelativeAdapterBase &base = a;
      int s = 0;
      for (int f = 0; f < nf; f++)
      {
        V3 o = rig ? d.off[f] : V3::Zero(); M3 R = rotated ? d.rot[f] : M3::Identity();
        if (!same(m.getCamOffset(f), o) || !same(m.getCamRotation(f), R)) MC_FAIL("camera parameters of pair %d are wrong", f);
        for (int i = 0; i < shape[f]; i++, s++)
        {
          if (!same(m.getBearingVector1(f, i), val(1, f, i)) || !same(m.getBearingVector2(f, i), val(2, f, i))) MC_FAIL("bearing vectors of (%d,%d) are not the ones given", f, i);
          if (!same(base.getBearingVector1(s), val(1, f, i)) || !same(base.getBearingVector2(s), val(2, f, i))) MC_FAIL("bearing vectors of serialised index %d are not those of (%d,%d)", s, f, i);
          if (!same(base.getCamOffset1(s), o) || !same(base.getCamOffset2(s), o) || !same(base.getCamRotation1(s), R) || !same(base.getCamRotation2(s), R)) MC_FAIL("camera parameters of serialised index %d are not those of pair %d", s, f);
          if (base.getWeight(s) != 1.0 || m.getWeight(f, i) != 1.0) MC_FAIL("weight of (%d,%d) is not 1", f, i);
          E().outcome(mix(hashStr(key), s));
        }
      }
      if (!same(base.gett12(), V3::Zero()) || !same(base.getR12(), M3::Identity())) MC_FAIL("a new adapter has a prior pose");
      E().sample(key);
    };
    if (kind == 0)
    {
      absolute_pose::NoncentralAbsoluteMultiAdapter a(d.b1, d.pts, d.off, d.rot);
      indexChecks((absolute_pose::AbsoluteMultiAdapterBase &)a, shape, a.getNumberFrames());
      listChecks(a, shape, T);
      framesBack(a, shape, [&](int s) { return a.multiFrameIndex(s); });
      absolute_pose::AbsoluteMultiAdapterBase &m = a;
      absolute_pose::AbsoluteAdapterBase &base = a;
      int s = 0;
      for (int f = 0; f < nf; f++)
      {
        if (!same(m.getMultiCamOffset(f), d.off[f]) || !same(m.getMultiCamRotation(f), d.rot[f])) MC_FAIL("camera parameters of frame %d are wrong", f);
        for (int i = 0; i < shape[f]; i++, s++)
        {
          if (!same(m.getBearingVector(f, i), val(1, f, i)) || !same(m.getPoint(f, i), val(3, f, i))) MC_FAIL("data of (%d,%d) is not what was given", f, i);
          if (!same(base.getBearingVector(s), val(1, f, i)) || !same(base.getPoint(s), val(3, f, i))) MC_FAIL("data of serialised index %d is not that of (%d,%d)", s, f, i);
          if (!same(base.getCamOffset(s), d.off[f]) || !same(base.getCamRotation(s), d.rot[f])) MC_FAIL("camera parameters of serialised index %d are not those of frame %d", s, f);
          if (base.getWeight(s) != 1.0 || m.getWeight(f, i) != 1.0) MC_FAIL("weight of (%d,%d) is not 1", f, i);
          E().outcome(mix(hashStr(key), s));
        }
      }
      if (!same(base.gett(), V3::Zero()) || !same(base.getR(), M3::Identity())) MC_FAIL("a new adapter has a prior pose");
    }
    else if (kind == 1) { relative_pose::CentralRelativeMultiAdapter a(d.b1, d.b2); relative(a, false, false); }
    else if (kind == 2) { relative_pose::NoncentralRelativeMultiAdapter a(d.b1, d.b2, d.off, d.rot); relative(a, true, true); }
    else { relative_pose::MANoncentralRelativeMulti a(d.p1, d.p2, d.rawOff.data(), shape); relative(a, true, false); }
    E().traces++;
  }
}

// ------------------------------------------------ single adapters
// prior operations: set t / set R to one of a few values, interleaved with reads of everything
template <class G, class S, class GR, class SR> void priorOps(G gt, S st, GR gr, SR sr, V3 t, M3 R, const std::vector<int> &ops, const std::function<void()> &readAll)
{
  auto expect = [&](const char *w) {
    if (!same(gt(), t)) MC_FAIL("%s: translation prior is %s, it was set to %s", w, showM(gt()).c_str(), showM(t).c_str());
    if (!same(gr(), R)) MC_FAIL("%s: rotation prior is %s, it was set to %s", w, showM(gr()).c_str(), showM(R).c_str());
  };
  expect("after construction");
  for (int o : ops)
  {
    if (o < 3) { t = trans27(5 + 9 * o); st(t); }
    else if (o < 6) { R = rotations40()[1 + 11 * (o - 3)]; sr(R); }
    readAll();
    expect("after an operation");
    E().transitions++;
    E().states.insert(mix(hashStr(showM(t)), hashStr(showM(R))));
  }
}
static void single(int kind, int n, int ctor, const std::vector<int> &ops)
{
  std::string key = fmt("single:%d:n=%d:ctor=%d:ops=%s", kind, n, ctor, joinInts(ops).c_str());
  if (!E().begin(key)) return;
  E().evaluations++; E().traces++;
  // data: cameras are used in an order that is not monotonic
  int nc = std::max(1, (n + 1) / 2);
  bearingVectors_t f1, f2; points_t p; std::vector<int> c1, c2; translations_t off; rotations_t rot; std::vector<double> w;
  for (int c = 0; c < nc; c++) { off.push_back(val(5, c, 0)); rot.push_back(rotOf(c)); }
  for (int i = 0; i < n; i++)
  {
    f1.push_back(val(1, i, 0)); f2.push_back(val(2, i, 3)); p.push_back(val(3, i, 1));
    c1.push_back((nc - 1 - i % nc)); c2.push_back((i * 3 + 1) % nc); w.push_back(0.5 + 0.25 * i);
  }
  V3 t0 = V3(0.5, -2, 3); M3 R0 = rotations40()[17];
  V3 et = ctor == 2 ? t0 : V3(0, 0, 0); M3 eR = ctor >= 1 ? R0 : M3(M3::Identity());
  uint64_t h = hashStr(key);
  std::vector<double> raw1, raw2, raw6a, raw6b;
  for (int i = 0; i < n; i++)
    for (int k = 0; k < 6; k++)
    {
      raw6a.push_back(k < 3 ? f1[i][k] : off[c1[i]][k - 3]); raw6b.push_back(k < 3 ? f2[i][k] : off[c2[i]][k - 3]);
      if (k < 3) { raw1.push_back(kind == 9 || kind == 10 ? p[i][k] : f1[i][k]); raw2.push_back(f2[i][k]); }
    }
  std::vector<double> rawp; for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) rawp.push_back(p[i][k]);
  auto absCase = [&](absolute_pose::AbsoluteAdapterBase &a, bool rig, bool rotated) {
    auto readAll = [&] {
      if ((int)a.getNumberCorrespondences() != n) MC_FAIL("%d correspondences instead of %d", (int)a.getNumberCorrespondences(), n);
      for (int i = n - 1; i >= 0; i--)
      {
        V3 o = rig ? off[c1[i]] : V3::Zero(); M3 R = rotated ? rot[c1[i]] : M3::Identity();
        if (!same(a.getBearingVector(i), f1[i])) MC_FAIL("bearing vector %d is not the one given", i);
        if (!same(a.getPoint(i), p[i])) MC_FAIL("point %d is not the one given", i);
        if (!same(a.getCamOffset(i), o)) MC_FAIL("camera offset of %d is not the one given", i);
        if (!same(a.getCamRotation(i), R)) MC_FAIL("camera rotation of %d is not the one given", i);
        if (a.getWeight(i) != 1.0) MC_FAIL("weight of %d is %g", i, a.getWeight(i));
        E().outcome(mix(h, i));
      }
    };
    readAll();
    priorOps([&] { return a.gett(); }, [&](const V3 &x) { a.sett(x); }, [&] { return a.getR(); }, [&](const M3 &x) { a.setR(x); }, et, eR, ops, readAll);
  };
  auto relCase = [&](relative_pose::RelativeAdapterBase &a, bool rig, bool rotated, bool weighted) {
    auto readAll = [&] {
      if ((int)a.getNumberCorrespondences() != n) MC_FAIL("%d correspondences instead of %d", (int)a.getNumberCorrespondences(), n);
      for (int i = n - 1; i >= 0; i--)
      {
        V3 o1 = rig ? off[c1[i]] : V3::Zero(), o2 = rig ? off[c2[i]] : V3::Zero();
        M3 R1 = rotated ? rot[c1[i]] : M3::Identity(), R2 = rotated ? rot[c2[i]] : M3::Identity();
        if (!same(a.getBearingVector1(i), f1[i])) MC_FAIL("bearing vector %d of viewpoint 1 is not the one given", i);
        if (!same(a.getBearingVector2(i), f2[i])) MC_FAIL("bearing vector %d of viewpoint 2 is not the one given", i);
        if (!same(a.getCamOffset1(i), o1)) MC_FAIL("camera offset 1 of %d is not the one given", i);
        if (!same(a.getCamOffset2(i), o2)) MC_FAIL("camera offset 2 of %d is not the one given", i);
        if (!same(a.getCamRotation1(i), R1)) MC_FAIL("camera rotation 1 of %d is not the one given", i);
        if (!same(a.getCamRotation2(i), R2)) MC_FAIL("camera rotation 2 of %d is not the one given", i);
        if (a.getWeight(i) != (weighted ? w[i] : 1.0)) MC_FAIL("weight of %d is %g", i, a.getWeight(i));
        E().outcome(mix(h, i));
      }
    };
    readAll();
    priorOps([&] { return a.gett12(); }, [&](const V3 &x) { a.sett12(x); }, [&] { return a.getR12(); }, [&](const M3 &x) { a.setR12(x); }, et, eR, ops, readAll);
  };
  auto pcCase = [&](point_cloud::PointCloudAdapterBase &a) {
    auto readAll = [&] {
      if ((int)a.getNumberCorrespondences() != n) MC_FAIL("%d correspondences instead of %d", (int)a.getNumberCorrespondences(), n);
      for (int i = n - 1; i >= 0; i--)
      {
        if (!same(a.getPoint1(i), p[i])) MC_FAIL("point %d of frame 1 is not the one given", i);
        if (!same(a.getPoint2(i), f2[i])) MC_FAIL("point %d of frame 2 is not the one given", i);
        if (a.getWeight(i) != 1.0) MC_FAIL("weight of %d is %g", i, a.getWeight(i));
        E().outcome(mix(h, i));
      }
    };
    readAll();
    priorOps([&] { return a.gett12(); }, [&](const V3 &x) { a.sett12(x); }, [&] { return a.getR12(); }, [&](const M3 &x) { a.setR12(x); }, et, eR, ops, readAll);
  };
  points_t p2; for (auto &x : f2) p2.push_back(x);
  using namespace absolute_pose; using namespace relative_pose; using namespace point_cloud;
  switch (kind)
  {
    case 0: if (ctor == 0) { CentralAbsoluteAdapter a(f1, p); absCase(a, false, false); }
            if (ctor == 1) { CentralAbsoluteAdapter a(f1, p, R0); absCase(a, false, false); }
            if (ctor == 2) { CentralAbsoluteAdapter a(f1, p, t0, R0); absCase(a, false, false); } break;
    case 1: if (ctor == 0) { NoncentralAbsoluteAdapter a(f1, c1, p, off, rot); absCase(a, true, true); }
            if (ctor == 1) { NoncentralAbsoluteAdapter a(f1, c1, p, off, rot, R0); absCase(a, true, true); }
            if (ctor == 2) { NoncentralAbsoluteAdapter a(f1, c1, p, off, rot, t0, R0); absCase(a, true, true); } break;
    case 2: if (ctor == 0) { CentralRelativeAdapter a(f1, f2); relCase(a, false, false, false); }
            if (ctor == 1) { CentralRelativeAdapter a(f1, f2, R0); relCase(a, false, false, false); }
            if (ctor == 2) { CentralRelativeAdapter a(f1, f2, t0, R0); relCase(a, false, false, false); } break;
    case 3: if (ctor == 0) { NoncentralRelativeAdapter a(f1, f2, c1, c2, off, rot); relCase(a, true, true, false); }
            if (ctor == 1) { NoncentralRelativeAdapter a(f1, f2, c1, c2, off, rot, R0); relCase(a, true, true, false); }
            if (ctor == 2) { NoncentralRelativeAdapter a(f1, f2, c1, c2, off, rot, t0, R0); relCase(a, true, true, false); } break;
    case 4: if (ctor == 0) { CentralRelativeWeightingAdapter a(f1, f2, w); relCase(a, false, false, true); }
            if (ctor == 1) { CentralRelativeWeightingAdapter a(f1, f2, w, R0); relCase(a, false, false, true); }
            if (ctor == 2) { CentralRelativeWeightingAdapter a(f1, f2, w, t0, R0); relCase(a, false, false, true); } break;
    case 5: if (ctor == 0) { PointCloudAdapter a(p, p2); pcCase(a); }
            if (ctor == 1) { PointCloudAdapter a(p, p2, R0); pcCase(a); }
            if (ctor == 2) { PointCloudAdapter a(p, p2, t0, R0); pcCase(a); } break;
    case 6: { MACentralAbsolute a(rawp.data(), raw1.data(), n, n); absCase(a, false, false); break; }
    case 7: { MANoncentralAbsolute a(rawp.data(), raw6a.data(), n, n); absCase(a, true, false); break; }
    case 8: { MACentralRelative a(raw1.data(), raw2.data(), n, n); relCase(a, false, false, false); break; }
    case 9: { MAPointCloud a(rawp.data(), raw2.data(), n, n); pcCase(a); break; }
    case 11: { MANoncentralRelative a(raw6a.data(), raw6b.data(), n, n); relCase(a, true, false, false); break; }
  }
  E().sample(key);
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough, multi = false, sing = false;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--what")) { multi = !strcmp(argv[i + 1], "multi"); sing = !strcmp(argv[i + 1], "single"); }
  if (multi)
  {
    for (int nf = 0; nf <= (T ? 6 : 5); nf++)
    {
      int m = nf <= 3 ? (T ? 9 : 7) : nf == 4 ? (T ? 6 : 5) : nf == 5 ? (T ? 5 : 4) : 3;
      if (nf == 0) { multiShape({}); continue; }
      product(std::vector<int>(nf, m), [&](const std::vector<int> &s) { multiShape(s); });
    }
    for (auto &s : std::vector<std::vector<int>>{{300}, {0, 300}, {129, 0, 257}, {64, 65, 63, 128}, {1000, 1}, {5, 0, 0, 0, 0, 0, 0, 0, 200}}) multiShape(s);
    for (int nf : {6, 8, 12, 20, 33, 64, 130}) // larger rigs, regular patterns with empty frames
      for (int pat = 0; pat < 6; pat++)
      {
        std::vector<int> s;
        for (int f = 0; f < nf; f++) s.push_back(pat == 0 ? 0 : pat == 1 ? f % 2 : pat == 2 ? f : pat == 3 ? nf - f : pat == 4 ? (f == nf - 1 ? 30 : 0) : (f * 5) % 7);
        multiShape(s);
      }
  }
  if (sing)
    for (int kind = 0; kind <= 11; kind++)
    {
      if (kind == 10) continue;
      for (int n : {0, 1, 2, 3, 4, 5, 7, 10, 17, 40, 129, 300})
        for (int ctor = 0; ctor < (kind <= 5 ? 3 : 1); ctor++)
          for (int len = 0; len <= (T ? 4 : 3); len++)
          {
            if (n > 5 && len > 2) continue;
            if (len == 0) { single(kind, n, ctor, {}); continue; }
            product(std::vector<int>(len, 6), [&](const std::vector<int> &o) { single(kind, n, ctor, o); });
          }
    }
  return E().finish();
}
