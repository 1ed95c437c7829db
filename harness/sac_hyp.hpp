// ------------------------------------------------------------------ hypotheses (P10)
// On exact data every sample must give the true model.  `possible` tells whether the minimal
// solver by itself has a candidate close to the truth for this sample (only the selection, the
// decomposition and the change of frame are judged then); null: it must.
template <class P, class M> static void hypSingle(const std::string &name, P &p, const std::vector<std::vector<int>> &samples,
    const std::function<double(const M &)> &err, const std::function<bool(const std::vector<int> &)> &possible, double tol)
{
  for (auto &s : samples)
  {
    E().evaluations++; E().tick();
    if (possible && !possible(s)) { E().counters[name + ": no candidate"]++; continue; }
    M m; bool ok = p.computeModelCoefficients(s, m);
    double e = ok ? err(m) : 1e300;
    E().counters[name + ": judged"]++;
    E().outcome(mix(hashStr(E().key + name), hashInts(s)));
    if (getenv("MC_SHOW")) { E().maxi("err " + name, e); int b = e > 1e-2 ? 2 : e > 1e-4 ? 4 : e > 1e-6 ? 6 : e > 1e-8 ? 8 : 10; E().counters[fmt("%s <1e-%d", name.c_str(), b)]++; }
    if (!(e <= tol)) { MC_FAIL("%s: sample [%s] of exact data gives %s, error %g", name.c_str(), joinInts(s).c_str(), ok ? "a wrong model" : "no model", e); return; }
  }
}
// samples of k out of n: all (or spread) combinations, each in several orders
static std::vector<std::vector<int>> samplesOf(int n, int k, int maxComb, int orders)
{
  std::vector<std::vector<int>> all, v;
  combinations(n, k, [&](const std::vector<int> &c) { all.push_back(c); });
  size_t step = std::max<size_t>(1, all.size() / maxComb);
  for (size_t i = 0; i < all.size(); i += step)
    for (int o = 0; o < orders; o++)
    {
      std::vector<int> c = all[i];
      std::rotate(c.begin(), c.begin() + (o * 3 + i) % k, c.end());
      if (o % 2) std::reverse(c.begin(), c.end());
      if (o >= 2) std::swap(c[0], c[k / 2]);
      v.push_back(c);
    }
  return v;
}
static std::function<double(const transformation_t &)> poseTo(const M3 &R, const V3 &t) { transformation_t T = mkT(R, t); return [T](const transformation_t &M) { return poseErr(M, T); }; }
static std::function<double(const transformation_t &)> upToScale(const M3 &R, const V3 &t)
{ return [R, t](const transformation_t &M) { return std::max(rotErr(M.block<3, 3>(0, 0), R), dirErr(M.col(3), t)); }; }

static void hypAbs(int rot, int tr, int set, int shape, int rg)
{
  M3 R = rotations192()[rot % 192]; V3 t = trans27(tr) * 1.5;
  bool T = E().thorough;
  if (rg <= 1)
  {
    if (E().begin(fmt("hypabs:rot=%d:t=%d:set=%d:shape=%d:rig=%d", rot, tr, set, shape, rg)))
    {
      auto s = absScene(9, rg, R, t, set, shape); auto a = s->adapter();
      a->setR(R * s->r.rot[0]);   // orientation prior of the camera, used by TWOPT only
      typedef sa::AbsolutePoseSacProblem P;
      auto s4 = samplesOf(9, 4, T ? 126 : 30, 4), s2 = samplesOf(9, 2, 36, 2), s6 = samplesOf(9, 6, T ? 84 : 6, 1);
      auto near = [&](const transformations_t &v) { for (auto &x : v) { M3 Rb = x.block<3, 3>(0, 0) * s->r.rot[0].transpose(); if (poseErr(mkT(Rb, x.col(3) - Rb * s->r.off[0]), mkT(R, t)) < 1e-7) return true; } return false; };
      P k(*a, P::KNEIP, false); hypSingle<P, transformation_t>("KNEIP", k, s4, poseTo(R, t), [&](const std::vector<int> &i) { return near(absolute_pose::p3p_kneip(*a, i)); }, 1e-5);
      P g(*a, P::GAO, false); hypSingle<P, transformation_t>("GAO", g, s4, poseTo(R, t), [&](const std::vector<int> &i) { return near(absolute_pose::p3p_gao(*a, i)); }, 1e-5);
      P w(*a, P::TWOPT, false); hypSingle<P, transformation_t>("TWOPT", w, s2, poseTo(R, t), nullptr, 1e-7);
      if (shape == 1) { P e(*a, P::EPNP, false); hypSingle<P, transformation_t>("EPNP", e, s6, poseTo(R, t), nullptr, 1e-6); }
      if (rg == 0) E().sample(E().key);
    }
  }
  if (E().begin(fmt("hypgp3p:rot=%d:t=%d:set=%d:shape=%d:rig=%d", rot, tr, set, shape, rg)))
  {
    auto s = absScene(9, rg, R, t, set, shape); auto a = s->adapter(true);
    typedef sa::AbsolutePoseSacProblem P;
    P k(*a, P::GP3P, false);
    hypSingle<P, transformation_t>("GP3P", k, samplesOf(9, 4, T ? 40 : 6, 2), poseTo(R, t), [&](const std::vector<int> &i) { for (auto &x : absolute_pose::gp3p(*a, i)) if (poseErr(x, mkT(R, t)) < 1e-7) return true; return false; }, 1e-5);
  }
}
static void hypRel(int rot, int tr, int set, int shape)
{
  M3 R = rotations192()[rot % 192]; V3 t = trans27(tr);
  bool T = E().thorough;
  if (t.norm() == 0) return;
  if (E().begin(fmt("hyprel:rot=%d:t=%d:set=%d:shape=%d", rot, tr, set, shape)))
  {
    auto s = relScene(12, 0, R, t, set, shape); auto a = s->adapter();
    typedef sr::CentralRelativePoseSacProblem P;
    auto s8 = samplesOf(12, 8, T ? 60 : 8, 2), s9 = samplesOf(12, 9, T ? 60 : 8, 2);
    P st(*a, P::STEWENIUS, false); hypSingle<P, transformation_t>("STEWENIUS", st, s8, upToScale(R, t), [&](const std::vector<int> &i) { auto j = i; j.resize(5); return sv::relError(sv::STEWENIUS, sv::runRel(sv::STEWENIUS, *a, &j), *s) < 1e-8; }, 1e-5);
    P ni(*a, P::NISTER, false); hypSingle<P, transformation_t>("NISTER", ni, s8, upToScale(R, t), [&](const std::vector<int> &i) { auto j = i; j.resize(5); return sv::relError(sv::NISTER, sv::runRel(sv::NISTER, *a, &j), *s) < 1e-8; }, 1e-5);
    P se(*a, P::SEVENPT, false); hypSingle<P, transformation_t>("SEVENPT", se, s9, upToScale(R, t), [&](const std::vector<int> &i) { auto j = i; j.resize(7); return sv::relError(sv::SEVENPT, sv::runRel(sv::SEVENPT, *a, &j), *s) < 1e-8; }, 1e-5);
    P ei(*a, P::EIGHTPT, false); hypSingle<P, transformation_t>("EIGHTPT", ei, s9, upToScale(R, t), [&](const std::vector<int> &i) { auto j = i; j.resize(8); return sv::relError(sv::EIGHTPT, sv::runRel(sv::EIGHTPT, *a, &j), *s) < 1e-8; }, 1e-5);
    // known rotation
    a->setR12(R);
    sr::TranslationOnlySacProblem to(*a, false); hypSingle<sr::TranslationOnlySacProblem, transformation_t>("translation only", to, samplesOf(12, 2, 66, 2), upToScale(R, t), nullptr, 1e-7);
    // eigensolver, started at the truth with all combinations of extreme and middle variations
    for (int v = 0; v < 27; v++)
    {
      int r[3]; for (int k = 0, x = v; k < 3; k++, x /= 3) r[k] = x % 3 == 0 ? RAND_MAX / 2 : x % 3 == 1 ? 0 : RAND_MAX;
      auto smp = samplesOf(12, 10, 4, 1);
      sr::EigensolverSacProblem ep(*a, 10, false);
      for (auto &x : smp)
      {
        script({r[0], r[1], r[2]}, RAND_MAX / 2);
        a->setR12(R); a->sett12(V3(7, 8, 9));
        hypSingle<sr::EigensolverSacProblem, eigensolverOutput_t>(v ? "eigensolver varied" : "eigensolver", ep, {x}, [&](const eigensolverOutput_t &o) { return std::max(rotErr(o.rotation, R), dirErr(o.translation, t)); },
            v ? std::function<bool(const std::vector<int> &)>([&](const std::vector<int> &) { return false; }) : nullptr, 1e-6);
        std::vector<double> sc; eigensolverOutput_t o; o.rotation = R * smallRot(3, 0.1); o.translation = V3(1, 2, 3); ep.getSelectedDistancesToModel(o, x, sc);
        if (rotErr(a->getR12(), R) != 0 || vecErr(a->gett12(), V3(7, 8, 9)) != 0) MC_FAIL("eigensolver: the starting rotation of the next hypothesis was changed");
      }
    }
  }
  if (E().begin(fmt("hyprot:rot=%d:set=%d:shape=%d:t=%d", rot, set, shape, tr)))
  {
    auto s = relScene(9, 0, R, V3(0, 0, 0), set, shape); auto a = s->adapter();
    sr::RotationOnlySacProblem p(*a, false);
    hypSingle<sr::RotationOnlySacProblem, rotation_t>("rotation only", p, samplesOf(9, 2, 36, 2), [&](const rotation_t &M) { return rotErr(M, R); }, nullptr, 1e-7);
    points_t a1, a2; for (int i = 0; i < 9; i++) { V3 q = localPoint(set, i, shape); a2.push_back(q); a1.push_back(R * q + t); }
    point_cloud::PointCloudAdapter pc(a1, a2); sp::PointCloudSacProblem pp(pc, false);
    hypSingle<sp::PointCloudSacProblem, transformation_t>("point cloud", pp, samplesOf(9, 3, 84, 2), poseTo(R, t), nullptr, 1e-7);
  }
}
static void hypNoncentral(int rot, int tr, int set, int shape, int rg)
{
  M3 R = rotations192()[rot % 192]; V3 t = trans27(tr);
  if (t.norm() == 0) return;
  bool T = E().thorough;
  typedef sr::NoncentralRelativePoseSacProblem P;
  if (rg >= 2)
    for (int cross = 0; cross < 2; cross++)
      if (E().begin(fmt("hypnon:rot=%d:t=%d:set=%d:shape=%d:rig=%d:cross=%d", rot, tr, set, shape, rg, cross)))
      {
        auto s = relScene(20, rg, R, t, set, shape, cross); auto a = s->adapter();
        auto s17 = samplesOf(20, 17, T ? 20 : 4, 2), s8 = samplesOf(20, 8, T ? 8 : 2, 1), s9 = samplesOf(20, 9, T ? 8 : 3, 1);
        if (rg >= 3) { P p(*a, P::SEVENTEENPT, false, false); hypSingle<P, transformation_t>("SEVENTEENPT", p, s17, poseTo(R, t), nullptr, 1e-5); }
        { P p(*a, P::SIXPT, false, false); hypSingle<P, transformation_t>("SIXPT", p, s9, poseTo(R, t), [&](const std::vector<int> &i) { auto j = i; j.resize(6); return sv::relError(sv::SIXPT, sv::runRel(sv::SIXPT, *a, &j), *s) < 1e-5; }, 1e-2); }
        { P p(*a, P::GE, false, false); hypSingle<P, transformation_t>("GE", p, s8, poseTo(R, t), [&](const std::vector<int> &i) { return sv::relError(sv::GE, sv::runRel(sv::GE, *a, &i), *s) < 1e-5; }, 1e-4); }
      }
  // one displaced camera: central methods in the camera, result in the body frame
  if (rg <= 1 && E().begin(fmt("hypascentral:rot=%d:t=%d:set=%d:shape=%d:rig=%d", rot, tr, set, shape, rg)))
  {
    auto s = relScene(11, rg, R, t, set, shape); auto a = s->adapter(true);
    V3 o = s->r.off[0]; M3 Rc = s->r.rot[0];
    V3 tc = Rc.transpose() * (t - o + R * o); // camera to camera translation
    auto err = [&](const transformation_t &M) { V3 x = Rc.transpose() * (M.col(3) - o + M.block<3, 3>(0, 0) * o); return std::max(rotErr(M.block<3, 3>(0, 0), R), dirErr(x, tc)); };
    if (tc.norm() > 0.3)
      for (auto al : {P::SEVENTEENPT, P::GE, P::SIXPT})
      {
        P p(*a, al, true, false);
        hypSingle<P, transformation_t>("as central", p, samplesOf(11, 8, T ? 40 : 4, 2), err, [&](const std::vector<int> &i) { auto j = i; j.resize(5); M3 Rt = Rc.transpose() * R * Rc; RelScene rs; rs.R = Rt; rs.t = tc; return sv::relError(sv::STEWENIUS, sv::runRel(sv::STEWENIUS, *a, &j), rs) < 1e-8; }, 1e-5);
      }
  }
}
template <class P> static void hypMultiOne(const std::string &name, P &p, const std::vector<int> &shape, const std::vector<int> &sizes, const std::function<double(const transformation_t &)> &err,
    const std::function<bool(const std::vector<std::vector<int>> &)> &possible, double tol)
{
  for (int v = 0; v < 3; v++)
  {
    std::vector<std::vector<int>> s; bool ok = true;
    for (size_t f = 0; f < shape.size(); f++)
    {
      std::vector<int> x;
      if (shape[f] < sizes[f]) { ok = false; break; }
      for (int i = 0; i < sizes[f]; i++) x.push_back(v == 0 ? i : v == 1 ? shape[f] - 1 - i : (i + f) % shape[f]);
      s.push_back(x);
    }
    if (!ok) continue;
    E().evaluations++; E().tick();
    if (possible && !possible(s)) { E().counters[name + ": no candidate"]++; continue; }
    transformation_t m; ok = p.computeModelCoefficients(s, m);
    double e = ok ? err(m) : 1e300;
    E().counters[name + ": judged"]++;
    E().outcome(mix(hashStr(E().key + name), v));
    if (getenv("MC_SHOW")) { E().maxi("err " + name, e); int b = e > 1e-2 ? 2 : e > 1e-4 ? 4 : e > 1e-6 ? 6 : e > 1e-8 ? 8 : 10; E().counters[fmt("%s <1e-%d", name.c_str(), b)]++; }
    if (!(e <= tol)) { std::string l; for (auto &x : s) l += "[" + joinInts(x) + "]"; MC_FAIL("%s: sample %s of exact data gives %s, error %g", name.c_str(), l.c_str(), ok ? "a wrong model" : "no model", e); return; }
  }
}
static void hypMulti(const std::vector<int> &shape, int rg, int rot, int tr, int set)
{
  M3 R = rotations192()[rot % 192]; V3 t = trans27(tr);
  if (t.norm() == 0) return;
  if (!E().begin(fmt("hypmulti:shape=%s:rig=%d:rot=%d:t=%d:set=%d", joinInts(shape).c_str(), rg, rot, tr, set))) return;
  int N = shape.size();
  auto m = multiScene(shape, rg, R, t, set, 0);
  Adapters a(m);
  typedef sr::MultiNoncentralRelativePoseSacProblem P; typedef sa::MultiNoncentralAbsolutePoseSacProblem Q;
  for (int start = 0; start < N; start++)
  {
    int rv = (int)(((long long)start * 2147483648ll + N - 1) / N);
    auto sizesFor = [&](int total) { std::vector<int> k(N, 0); for (int i = 0; i < total; i++) k[(start + i) % N]++; return k; };
    script({}, rv);
    if (N > 1)
    {
      Q q(a.abs, false);
      hypMultiOne("multi absolute", q, shape, sizesFor(4), poseTo(R, t), [&](const std::vector<std::vector<int>> &s) { for (auto &x : absolute_pose::gp3p(a.abs, a.abs.convertMultiIndices(s))) if (poseErr(x, mkT(R, t)) < 1e-7) return true; return false; }, 1e-5);
    }
    if (N > 2)
    {
      P p(a.rel, P::SEVENTEENPT, false, false);
      hypMultiOne("multi SEVENTEENPT", p, shape, sizesFor(17), poseTo(R, t), nullptr, 1e-5);
      // six point: the candidate must be there whatever camera the minimal set starts with
      P x(a.rel, P::SIXPT, false, false);
      hypMultiOne("multi SIXPT", x, shape, sizesFor(9), poseTo(R, t), [&](const std::vector<std::vector<int>> &s) {
        for (int st = 0; st < N; st++)
        {
          std::vector<int> ix, pos(N, 0); int c = st;
          while (ix.size() < 6) { if (pos[c] < (int)s[c].size()) ix.push_back(a.rel.convertMultiIndex(c, s[c][pos[c]++])); c = (c + 1) % N; }
          bool ok = false; for (auto &r : relative_pose::sixpt(a.rel, ix)) if (rotErr(r, R) < 1e-5) ok = true;
          if (!ok) return false;
        }
        return true; }, 1e-2);
      P g(a.rel, P::GE, false, false);
      hypMultiOne("multi GE", g, shape, sizesFor(8), poseTo(R, t), [&](const std::vector<std::vector<int>> &s) { auto ix = a.rel.convertMultiIndices(s); RelScene rs; rs.R = R; rs.t = t; rs.r.off.resize(2); return sv::relError(sv::GE, sv::runRel(sv::GE, a.rel, &ix), rs) < 1e-5; }, 1e-4);
    }
    if (N == 1)
    {
      V3 o = m->off[0]; M3 Rc = m->rot[0];
      V3 tc = Rc.transpose() * (t - o + R * o);
      auto err = [&](const transformation_t &M) { V3 x = Rc.transpose() * (M.col(3) - o + M.block<3, 3>(0, 0) * o); return std::max(rotErr(M.block<3, 3>(0, 0), R), dirErr(x, tc)); };
      Q q(a.abs, true); hypMultiOne("multi absolute as central", q, shape, {4}, poseTo(R, t), nullptr, 1e-5);
      if (tc.norm() > 0.3) for (auto al : {P::SEVENTEENPT, P::GE, P::SIXPT}) { P p(a.rel, al, true, false); hypMultiOne("multi relative as central", p, shape, {8}, err,
          [&](const std::vector<std::vector<int>> &s) { auto j = s[0]; j.resize(5); RelScene rs; rs.R = Rc.transpose() * R * Rc; rs.t = tc; return sv::relError(sv::STEWENIUS, sv::runRel(sv::STEWENIUS, a.rel, &j), rs) < 1e-8; }, 1e-5); }
    }
  }
}
// the problem that treats every pair of cameras as an independent central problem
static void hypMultiCentral(const std::vector<int> &shape, int rot, int tr, int set)
{
  if (!E().begin(fmt("hyp:multicentral:shape=%s:rot=%d:t=%d:set=%d", joinInts(shape).c_str(), rot, tr, set))) return;
  script({}, 0);
  M3 R = rotations192()[rot]; V3 t = trans27(tr);
  auto m = multiScene(shape, 0, R, t, set, 0);
  Adapters a(m);
  sr::MultiCentralRelativePoseSacProblem p(a.cen, 8, false);
  std::vector<std::vector<int>> s = m->all();
  E().evaluations++;
  transformations_t M;
  if (!p.computeModelCoefficients(s, M)) { E().outcome(hashStr(E().key)); return; }
  if (M.size() != shape.size()) { MC_FAIL("multi central relative: reports success with %zu transformations for %zu pairs of cameras", M.size(), shape.size()); return; }
  for (size_t f = 0; f < shape.size(); f++)
  {
    double e = std::max(rotErr(M[f].block<3, 3>(0, 0), R), dirErr(M[f].col(3), t));
    if (!(e < 1e-5)) { MC_FAIL("multi central relative: error %g of pair %zu", e, f); return; }
  }
  E().outcome(hashStr(E().key));
}
static void hypAll(bool T)
{
  for (int rot : {3, 77}) for (auto &sh : std::vector<std::vector<int>>{{9}, {8, 10}, {9, 8, 12}}) hypMultiCentral(sh, rot, 5, 1);
  for (int rot = 0; rot < 192; rot += (T ? 4 : 17))
    for (int tr = 0; tr < 27; tr += (T ? 3 : 7))
      for (int set = 0; set < (T ? 5 : 2); set++)
      {
        for (int shape = 0; shape < 3; shape++) for (int rg = 0; rg < NRIG; rg++) hypAbs(rot, tr, set, shape, rg);
        for (int shape = 0; shape < 2; shape++) hypRel(rot, tr + 1, set, shape);
        for (int shape = 0; shape < 2; shape++) for (int rg = 0; rg < NRIG; rg++) hypNoncentral(rot, tr + 1, set, shape, rg);
        for (auto &sh : std::vector<std::vector<int>>{{12}, {9, 11}, {7, 7, 8}, {6, 5, 6, 7}, {4, 4, 5, 4, 5}}) for (int rg : {1, 3, 4, 5}) if (sh.size() == 1 || rg != 1) hypMulti(sh, rg, rot, tr + 1, set);
      }
}

// ------------------------------------------------------------------ complete runs (P11)
// Exact data with a chosen subset of gross outliers: the run must succeed, find exactly the
// true inliers and a model close to the truth; refinement on the inliers must reach the truth.
// a model far from the given one
static void farModel(transformation_t &T) { T.block<3, 3>(0, 0) = T.block<3, 3>(0, 0) * fromQuat(1, 1, -1, 1); T.col(3) = V3(-3, 2, 1) - T.col(3); }
static void farModel(rotation_t &R) { R = R * fromQuat(1, 1, -1, 1); }
static void farModel(translation_t &t) { t = V3(-3, 2, 1) - t; }
static void farModel(eigensolverOutput_t &o) { farModel(o.rotation); farModel(o.translation); }
template <class P, class M> static void e2eOne(const std::string &name, std::shared_ptr<P> p, const std::vector<int> &inliers, double thr, const std::function<double(const M &)> &err, double tolModel, double tolOpt, int maxIt, bool lmeds)
{
  E().evaluations++; E().tick();
  std::vector<int> got; M m; bool ok; std::vector<int> sample; int it = 0;
  if (lmeds) { sac::Lmeds<P> r(maxIt, thr, 1.0 - 1e-9); r.sac_model_ = p; ok = r.computeModel(0); got = r.inliers_; m = r.model_coefficients_; sample = r.model_; it = r.iterations_; }
  else { sac::Ransac<P> r(maxIt, thr, 1.0 - 1e-9); r.sac_model_ = p; ok = r.computeModel(0); got = r.inliers_; m = r.model_coefficients_; sample = r.model_; it = r.iterations_; }
  if (!ok) { MC_FAIL("%s: the run fails", name.c_str()); return; }
  if (got != inliers) { MC_FAIL("%s: inliers [%s], true inliers [%s] (%d iterations)", name.c_str(), joinInts(got).c_str(), joinInts(inliers).c_str(), it); return; }
  double e = err(m);
  if (getenv("MC_SHOW")) { E().maxi("err " + name, e); E().maxi("iterations " + name, it); }
  if (!(e <= tolModel)) { MC_FAIL("%s: error of the model %g", name.c_str(), e); return; }
  if ((int)sample.size() != p->getSampleSize()) { MC_FAIL("%s: reported sample has %zu entries", name.c_str(), sample.size()); return; }
  E().outcome(mix(hashStr(E().key + name), hashInts(sample)));
  if (tolOpt > 0)
  {
    // whoever used the adapter before must not matter
    M far = m; farModel(far); std::vector<double> dummy; p->getSelectedDistancesToModel(far, got, dummy);
    M o; p->optimizeModelCoefficients(got, m, o);
    double eo = err(o);
    if (getenv("MC_SHOW")) E().maxi("opt " + name, eo);
    if (!(eo <= tolOpt)) MC_FAIL("%s: error %g after refinement on the inliers", name.c_str(), eo);
  }
}
static std::string outStr(const std::vector<int> &o) { return o.size() <= 8 ? joinInts(o) : fmt("%zu#%08x", o.size(), (unsigned)hashInts(o)); }
template <class F> static void outlierSubsets(int n, int maxOut, int cap, F f)
{
  for (int k = 0; k <= maxOut; k++)
  {
    std::vector<std::vector<int>> v; combinations(n, k, [&](const std::vector<int> &c) { v.push_back(c); });
    size_t step = std::max<size_t>(1, (v.size() + cap - 1) / cap);
    for (size_t i = 0; i < v.size(); i += step)
    {
      std::vector<int> in; for (int x = 0; x < n; x++) if (std::find(v[i].begin(), v[i].end(), x) == v[i].end()) in.push_back(x);
      f(v[i], in);
    }
  }
}
static V3 wrong(const V3 &f, int i, int set) // a ray at least 20 degrees away
{
  V3 d(frac(71, i, set), frac(72, i, set), frac(73, i, set));
  V3 g = (d - d.dot(f) * f).normalized();
  double ang = 0.4 + 0.5 * std::fabs(frac(74, i, set));
  return (std::cos(ang) * f + std::sin(ang) * g).normalized();
}
// the same for the second ray of a correspondence, clearly off the epipolar plane too
static V3 wrongPair(const M3 &R, const V3 &t, const V3 &oa, const M3 &Ra, const V3 &ob, const M3 &Rb, const V3 &f1, const V3 &f2, int i, int set)
{
  V3 o1 = oa, o2 = R * ob + t, d1 = Ra * f1;
  for (int k = 0; k < 50; k++)
  {
    V3 g = wrong(f2, i + 100 * k, set), d2 = R * (Rb * g);
    V3 base = o2 - o1; if (base.norm() == 0) return g;
    if (std::fabs(base.normalized().dot(d1.cross(d2))) > 0.08) return g;
  }
  return wrong(f2, i, set);
}
static V3 wrongRel(const RelScene &s, int i, int set)
{ return wrongPair(s.R, s.t, s.r.off[s.c1[i]], s.r.rot[s.c1[i]], s.r.off[s.c2[i]], s.r.rot[s.c2[i]], s.f1[i], s.f2[i], i, set); }
// many correspondences: regular patterns of outliers (every fourth, the first, the last, a block, every tenth)
template <class F> static void outlierPatterns(const std::vector<int> &ns, double most, F f)
{
  for (int n : ns) for (int pat = 0; pat < 5; pat++)
  {
    std::vector<int> out, in; int k = std::max(1, (int)(most * n)), every = std::max(2, (int)(1 / most + 0.999));
    for (int i = 0; i < n; i++)
    {
      bool o = pat == 0 ? i % every == 1 : pat == 1 ? i < k : pat == 2 ? i >= n - k : pat == 3 ? i >= n / 2 && i < n / 2 + k : i % (3 * every) == 0;
      (o ? out : in).push_back(i);
    }
    f(out, in);
  }
}
template <class F> static void outliersOf(int n, int maxOut, int cap, const std::vector<int> &ns, double most, F f)
{ outlierSubsets(n, maxOut, cap, f); outlierPatterns(ns, most, f); }
static void e2eAll(bool T)
{
  int cap = T ? 100000 : 1000;
  const int NS = T ? 60 : 8; const std::vector<int> many = T ? std::vector<int>{30, 64, 100, 257} : std::vector<int>{40, 100};
  for (int sc0 = 0; sc0 < NS; sc0++)
  {
    M3 R = rotations192()[(sc0 * 37 + 11) % 192]; V3 t = trans27((sc0 * 5 + 2) % 27); if (t.norm() == 0) t = V3(1, 0, 1);
    for (int rg = 0; rg <= 1; rg++)
      outliersOf(10, 4, cap, many, 0.3, [&](const std::vector<int> &out, const std::vector<int> &in) {
        const int nn = out.size() + in.size(); bool few = out.size() <= 2;
        if (!E().begin(fmt("e2e:abs:scene=%d:rig=%d:out=%s", sc0, rg, outStr(out).c_str()))) return;
        script({}, 0);
        auto s = absScene(nn, rg, R, t, sc0, 1); for (int o : out) s->f[o] = wrong(s->f[o], o, sc0);
        auto a = s->adapter(); typedef sa::AbsolutePoseSacProblem P;
        auto e = poseTo(R, t); a->setR(R * s->r.rot[0]);
        for (int l = 0; l < 2; l++)
        {
          const char *w = l ? " lmeds" : "";
          e2eOne<P, transformation_t>(std::string("KNEIP") + w, std::make_shared<P>(*a, P::KNEIP, false), in, 1e-9, e, 0.05, 1e-2, l ? 150 : 3000, l); a->setR(R * s->r.rot[0]);
          e2eOne<P, transformation_t>(std::string("GAO") + w, std::make_shared<P>(*a, P::GAO, false), in, 1e-9, e, 0.05, 1e-2, l ? 150 : 3000, l); a->setR(R * s->r.rot[0]);
          e2eOne<P, transformation_t>(std::string("TWOPT") + w, std::make_shared<P>(*a, P::TWOPT, false), in, 1e-9, e, 0.05, 1e-2, l ? 100 : 3000, l); a->setR(R * s->r.rot[0]);
        }
        if (few) e2eOne<P, transformation_t>("EPNP", std::make_shared<P>(*a, P::EPNP, false), in, 1e-9, e, 0.05, 1e-2, 2000, false);
      });
    outliersOf(10, 3, cap, many, 0.3, [&](const std::vector<int> &out, const std::vector<int> &in) {
      const int nn = out.size() + in.size();
      if (!E().begin(fmt("e2e:gp3p:scene=%d:out=%s", sc0, outStr(out).c_str()))) return;
      auto s = absScene(nn, 3, R, t, sc0, 0); for (int o : out) s->f[o] = wrong(s->f[o], o, sc0);
      auto a = s->adapter(); typedef sa::AbsolutePoseSacProblem P;
      e2eOne<P, transformation_t>("GP3P", std::make_shared<P>(*a, P::GP3P, false), in, 1e-9, poseTo(R, t), 0.05, 1e-2, 3000, false);
    });
    outliersOf(12, 3, cap, many, 0.25, [&](const std::vector<int> &out, const std::vector<int> &in) {
      const int nn = out.size() + in.size(); bool few = out.size() <= 2 || nn > 12;
      if (!E().begin(fmt("e2e:rel:scene=%d:out=%s", sc0, outStr(out).c_str()))) return;
      script({}, RAND_MAX / 2);
      auto s = relScene(nn, 0, R, t, sc0, 0); for (int o : out) s->f2[o] = wrongRel(*s, o, sc0);
      auto a = s->adapter(); typedef sr::CentralRelativePoseSacProblem P;
      auto e = upToScale(R, t);
      e2eOne<P, transformation_t>("STEWENIUS", std::make_shared<P>(*a, P::STEWENIUS, false), in, 1e-9, e, 0.05, 1e-2, 3000, false);
      e2eOne<P, transformation_t>("NISTER", std::make_shared<P>(*a, P::NISTER, false), in, 1e-9, e, 0.05, 1e-2, 3000, false);
      if (few) { e2eOne<P, transformation_t>("SEVENPT", std::make_shared<P>(*a, P::SEVENPT, false), in, 1e-9, e, 0.05, 1e-2, 3000, false);
        e2eOne<P, transformation_t>("EIGHTPT", std::make_shared<P>(*a, P::EIGHTPT, false), in, 1e-9, e, 0.05, 1e-2, 3000, false); }
      a->setR12(R * smallRot(5, 0.005));
      typedef sr::EigensolverSacProblem ES; if (few) e2eOne<ES, eigensolverOutput_t>("eigensolver", std::make_shared<ES>(*a, 8, false), in, 1e-9, [&](const eigensolverOutput_t &M) { return std::max(rotErr(M.rotation, R), dirErr(M.translation, t)); }, 0.05, 1e-4, 3000, false);
      a->setR12(R); a->sett12(V3(0, 0, 0));
      typedef sr::TranslationOnlySacProblem TO; e2eOne<TO, transformation_t>("translation only", std::make_shared<TO>(*a, false), in, 1e-9, e, 0.05, 1e-2, 2000, false);
      auto z = relScene(nn, 0, R, V3(0, 0, 0), sc0, 0); for (int o : out) z->f2[o] = wrong(z->f2[o], o, sc0);
      auto az = z->adapter(); typedef sr::RotationOnlySacProblem RO;
      for (int l = 0; l < 2; l++) e2eOne<RO, rotation_t>(l ? "rotation only lmeds" : "rotation only", std::make_shared<RO>(*az, false), in, 1e-7, [&](const rotation_t &M) { return rotErr(M, R); }, 0.01, 1e-7, l ? 150 : 2000, l);
      points_t a1, a2; for (int i = 0; i < nn; i++) { V3 q = localPoint(sc0, i, 0); a2.push_back(q); a1.push_back(R * q + t); if (std::find(out.begin(), out.end(), i) != out.end()) a1.back() += V3(1 + 0.3 * i, -2, 0.5 * i); }
      point_cloud::PointCloudAdapter pc(a1, a2); typedef sp::PointCloudSacProblem PC;
      for (int l = 0; l < 2; l++) e2eOne<PC, transformation_t>(l ? "point cloud lmeds" : "point cloud", std::make_shared<PC>(pc, false), in, 1e-4, poseTo(R, t), 0.01, 1e-7, l ? 150 : 2000, l);
    });
    outlierSubsets(22, 2, T ? 300 : 60, [&](const std::vector<int> &out, const std::vector<int> &in) {
      if (!E().begin(fmt("e2e:non:scene=%d:out=%s", sc0, outStr(out).c_str()))) return;
      auto s = relScene(22, 3, R, t, sc0, 0); for (int o : out) s->f2[o] = wrongRel(*s, o, sc0);
      auto a = s->adapter(); typedef sr::NoncentralRelativePoseSacProblem P;
      e2eOne<P, transformation_t>("SEVENTEENPT", std::make_shared<P>(*a, P::SEVENTEENPT, false, false), in, 1e-9, poseTo(R, t), 0.05, 1e-2, 3000, false);
      auto c = relScene(12, 1, R, t, sc0, 0); std::vector<int> in2;
      for (int i = 0; i < 12; i++) { if (std::find(out.begin(), out.end(), i) == out.end()) in2.push_back(i); else c->f2[i] = wrongRel(*c, i, sc0); }
      auto ac = c->adapter(true); M3 Rc = c->r.rot[0]; V3 o = c->r.off[0], tc = Rc.transpose() * (t - o + R * o);
      e2eOne<P, transformation_t>("as central", std::make_shared<P>(*ac, P::SEVENTEENPT, true, false), in2, 1e-7,
          [&](const transformation_t &M) { V3 x = Rc.transpose() * (M.col(3) - o + M.block<3, 3>(0, 0) * o); return std::max(rotErr(M.block<3, 3>(0, 0), R), dirErr(x, tc)); }, 0.05, 0, 3000, false);
    });
    // several cameras
    for (auto &shape : std::vector<std::vector<int>>{{5, 6}, {4, 4, 4}, {3, 3, 3, 3}, {8, 8, 8}, {7, 8, 7, 7}, {20, 40, 30}, {9, 9, 9, 9, 9, 9, 9, 9}})
    {
      int n = 0; for (int k : shape) n += k;
      if (n > 60 && sc0 > (T ? 20 : 3)) continue;
      outlierSubsets(n, 2, n > 60 ? (T ? 30 : 8) : T ? 400 : 80, [&](const std::vector<int> &out, const std::vector<int> &) {
        if (!E().begin(fmt("e2e:multi:shape=%s:scene=%d:out=%s", joinInts(shape).c_str(), sc0, outStr(out).c_str()))) return;
        // start camera: a fixed full cycle
        script({}, 0);
        auto m = multiScene(shape, 3, R, t, sc0, 0);
        std::vector<std::vector<int>> in(shape.size()); int k = 0;
        for (size_t f = 0; f < shape.size(); f++) for (int i = 0; i < shape[f]; i++, k++)
          if (std::find(out.begin(), out.end(), k) == out.end()) in[f].push_back(i);
          else { (*m->f[f])[i] = wrong((*m->f[f])[i], k, sc0); (*m->f2[f])[i] = wrongPair(R, t, m->off[f], m->rot[f], m->off[f], m->rot[f], (*m->f1[f])[i], (*m->f2[f])[i], k, sc0); }
        Adapters a(m);
        auto judge = [&](const char *nm, bool ok, const std::vector<std::vector<int>> &got, const transformation_t &M, auto &prob) {
          E().evaluations++;
          if (!ok) { MC_FAIL("%s: the run fails", nm); return; }
          if (got != in) { std::string s; for (auto &v : got) s += "[" + joinInts(v) + "]"; MC_FAIL("%s: inliers %s are not the true ones", nm, s.c_str()); return; }
          double e = poseErr(M, mkT(R, t));
          if (getenv("MC_SHOW")) E().maxi(std::string("err ") + nm, e);
          if (!(e < 0.05)) { MC_FAIL("%s: error of the model %g", nm, e); return; }
          transformation_t far = M; farModel(far); std::vector<std::vector<double>> dummy(got.size()); prob.getSelectedDistancesToModel(far, got, dummy);
          transformation_t o; prob.optimizeModelCoefficients(got, M, o);
          double eo = poseErr(o, mkT(R, t));
          if (getenv("MC_SHOW")) E().maxi(std::string("opt ") + nm, eo);
          if (!(eo < 1e-2)) MC_FAIL("%s: error %g after refinement on the inliers", nm, eo);
          E().outcome(mix(hashStr(E().key), hashStr(nm)));
        };
        typedef sa::MultiNoncentralAbsolutePoseSacProblem Q; typedef sr::MultiNoncentralRelativePoseSacProblem P;
        { auto q = std::make_shared<Q>(a.abs, false); q->rng_gen_.reset(new std::function<int()>(std::bind(std::uniform_int_distribution<>(0, std::numeric_limits<int>::max()), std::mt19937(12345u)))); sac::MultiRansac<Q> r(3000, 1e-9, 1.0 - 1e-9); r.sac_model_ = q; bool ok = r.computeModel(0); judge("multi absolute", ok, r.inliers_, r.model_coefficients_, *q); }
        bool room = shape.size() >= 3; for (auto &v : in) if ((int)v.size() < 17 / (int)shape.size() + 1) room = false;
        if (room) { auto p = std::make_shared<P>(a.rel, P::SEVENTEENPT, false, false); sac::MultiRansac<P> r(3000, 1e-9, 1.0 - 1e-9); r.sac_model_ = p; bool ok = r.computeModel(0); judge("multi SEVENTEENPT", ok, r.inliers_, r.model_coefficients_, *p); }
      });
    }
  }
}
