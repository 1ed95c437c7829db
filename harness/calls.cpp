// P22: no operation depends on what was called before, and none changes its data.
#include "calls.hpp"
#include <sys/wait.h>
#include <sys/mman.h>
using namespace mc;
using namespace cl;

// result of one call in a fresh process (its own copy of every static variable)
static bool fresh(const Call &c, Raw &out)
{
  const size_t cap = 4096;
  double *sh = (double *)mmap(0, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = -1;
  pid_t p = fork();
  if (p == 0) { Raw r = c.run(); if (r.size() < cap - 1) { for (size_t i = 0; i < r.size(); i++) sh[i + 1] = r[i]; sh[0] = r.size(); } _exit(0); }
  int st; waitpid(p, &st, 0);
  bool ok = sh[0] >= 0;
  out.clear(); if (ok) out.assign(sh + 1, sh + 1 + (size_t)sh[0]);
  munmap(sh, cap * 8);
  return ok;
}

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough;
  // operations on several worlds (different poses, data and numbers of correspondences)
  const int W = T ? 4 : 2;
  std::vector<std::unique_ptr<World>> w; std::vector<Call> v; std::vector<int> world;
  for (int k = 0; k < W; k++)
  {
    w.emplace_back(new World(k, 7 + 31 * k, 5 + k, k % 3));
    std::vector<Call> c = allCalls(*w[k], T);
    for (auto &x : c) { v.push_back(x); v.back().name += fmt(" (world %d)", k); world.push_back(k); }
  }
  int n = v.size(), per = n / W;
  // results in fresh processes, before anything else runs in this one
  std::vector<Raw> ref(n); std::vector<char> have(n, 0);
  for (int i = 0; i < n; i++) have[i] = fresh(v[i], ref[i]);
  auto seq = [&](const std::vector<int> &s) {
    std::string names; for (int i : s) names += v[i].name + ", ";
    for (int i : s)
    {
      E().evaluations++; E().tick();
      if (!have[i]) { MC_FAIL("%s ends abnormally in a fresh process", v[i].name.c_str()); return; }
      World &x = *w[world[i]];
      x.reset(); Raw pri = x.priors(), data = x.dump();
      Raw got = v[i].run(); std::string why;
      if (!same(ref[i], got, 0, &why)) { MC_FAIL("%s: %s (sequence %s)", v[i].name.c_str(), why.c_str(), names.c_str()); return; }
      if (!same(data, x.dump(), 0, &why)) { MC_FAIL("%s changed its data: %s", v[i].name.c_str(), why.c_str()); return; }
      if (!v[i].writes && !same(pri, x.priors(), 0, &why)) { MC_FAIL("%s changed a prior: %s", v[i].name.c_str(), why.c_str()); return; }
      E().outcome(mix(hashStr(E().key), i)); E().transitions++;
    }
    E().states.insert(hashInts(s));
  };
  for (int a = 0; a < n; a++)
  {
    if (!E().begin(fmt("history:%d", a))) continue;
    if (a == 0) E().sample(E().key + " " + v[a].name + " followed by every operation");
    seq({a});
    for (int b = 0; b < n; b++) seq({a, b});
  }
  // ordered triples: cheap operations, the third one of the world of the first
  std::vector<int> cheap;
  for (int i = 0; i < per; i++) { bool big = false; for (auto x : {"ransac", "lmeds", "multi", "ge", "eigen", "Eigen", "upnp"}) if (v[i].name.find(x) != std::string::npos) big = true; if (!big) cheap.push_back(i); }
  for (int a : cheap) for (int b : cheap)
  {
    if (!E().begin(fmt("history:%d.%d", a, b))) continue;
    int step = T ? 1 : 4;
    for (size_t k = (a + b) % step; k < cheap.size(); k += step) seq({a, b + per, cheap[k]});
  }
  return E().finish();
}
