// Judging blocks of scenes: what has to hold in every scene (strict), and what may fail in a share of the
// scenes of a block where the method itself is numerically weak (share).
#ifndef VERIF_JUDGE_HPP_
#define VERIF_JUDGE_HPP_
#include "mc.hpp"
namespace mc
{
struct Judge
{
  std::map<std::string, std::pair<int, int>> cnt; std::map<std::string, double> lim; std::map<std::string, std::string> ex; std::map<std::string, int> big;
  void strict(const std::string &nm, double e, double tol, const std::string &where)
  {
    E().evaluations++; E().tick();
    if (e == e && getenv("MC_SHOW")) E().maxi(nm, e / tol);
    if (!(e < tol)) { if (big[nm]++ < 2) MC_FAIL("%s: error %g, allowed %g (%s)", nm.c_str(), e, tol, where.c_str()); }
    else E().outcome(mix(hashStr(E().key), hashStr(nm + where)));
  }
  void share(const std::string &nm, double e, double tol, double limit, const std::string &where)
  {
    E().evaluations++; E().tick();
    auto &c = cnt[nm]; c.second++; lim[nm] = limit;
    if (!(e < tol)) { c.first++; if (!ex.count(nm)) ex[nm] = where + fmt(", error %g, allowed %g", e, tol); }
    else E().outcome(mix(hashStr(E().key), hashStr(nm + where)));
  }
  // at least `least` scenes are needed before a share means something
  void close(int least = 2)
  {
    for (auto &c : cnt)
    {
      double f = (double)c.second.first / c.second.second;
      if (getenv("MC_SHOW")) { E().maxi("share " + c.first, f); E().maxi("size " + c.first, -c.second.second); }
      if (f > lim[c.first] && c.second.second >= least && c.second.first > 1) MC_FAIL("%s: wrong in %d of %d scenes of the block, e.g. %s", c.first.c_str(), c.second.first, c.second.second, ex[c.first].c_str());
    }
    cnt.clear();
  }
};
}
#endif
