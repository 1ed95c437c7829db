// P21: operations on different objects (and reading operations on the same object) do not influence
// each other when they run in different threads.
//  default: real threads under a scheduler owned by the harness; scheduling points are the basic-block
//    edges of the library (the first occurrences of each in one call), one thread runs at a time; all
//    schedules with one preemption are explored, with two over the thinned points.
//  -DFREE: the same pairs, running freely under ThreadSanitizer.
#include "calls.hpp"
#include <semaphore.h>
#include <thread>
#include <atomic>
using namespace mc;
using namespace cl;

#ifndef FREE
static uint32_t guards = 0;
static const uint32_t MAXG = 1 << 17;
struct Ctl
{
  bool on = false; int id = 0;
  int cap = 1;                    // occurrences of one edge that count as scheduling points
  std::vector<uint8_t> occ; std::vector<uint32_t> touched;
  long cnt = 0; long stop[4]; int nstop = 0, next = 0;
};
static thread_local Ctl *me = nullptr;
static sem_t go[2]; static sem_t done; static std::atomic<bool> ended[2];
static void handOver(int id) { sem_post(&go[1 - id]); while (sem_wait(&go[id])) {} }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (; a < b; a++) *a = ++guards; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
  Ctl *c = me;
  if (!c || !c->on || *g >= MAXG) return;
  uint8_t &o = c->occ[*g];
  if (o >= c->cap) return;
  if (!o) c->touched.push_back(*g);
  o++;
  long k = c->cnt++;
  if (c->next < c->nstop && k == c->stop[c->next])
  {
    c->next++;
    if (!ended[1 - c->id]) { c->on = false; handOver(c->id); c->on = true; }
  }
}
static Ctl ctl[2]; static const Call *job[2]; static Raw out[2];
static void worker(int id)
{
  for (;;)
  {
    while (sem_wait(&go[id])) {}
    if (!job[id]) return;
    Ctl &c = ctl[id];
    for (uint32_t g : c.touched) c.occ[g] = 0;
    c.touched.clear(); c.cnt = 0; c.next = 0; c.id = id;
    me = &c; c.on = true;
    out[id] = job[id]->run();
    c.on = false; me = nullptr;
    ended[id] = true;
    if (ended[1 - id]) sem_post(&done); else sem_post(&go[1 - id]);
  }
}
// A starts; the lists are the points at which each of them is preempted
static void schedule(const Call &a, const Call &b, std::initializer_list<long> sa, std::initializer_list<long> sb)
{
  job[0] = &a; job[1] = &b; ended[0] = ended[1] = false;
  ctl[0].nstop = ctl[1].nstop = 0;
  for (long x : sa) ctl[0].stop[ctl[0].nstop++] = x;
  for (long x : sb) ctl[1].stop[ctl[1].nstop++] = x;
  sem_post(&go[0]);
  while (sem_wait(&done)) {}
}
#endif

int main(int argc, char **argv)
{
  E().init(argc, argv);
  bool T = E().thorough;
  World wa(0, 7, 5, 0), wb(1, 38, 6, 1);
  std::vector<Call> A = allCalls(wa, false), B = allCalls(wb, false), S;
  wa.reset();
  World wsh(2, 61, 8, 0); wsh.reset(); wsh.frozen = true;
  for (auto &c : allCalls(wsh, false)) if (!c.writes) { S.push_back(c); }
  int n = A.size();
  auto ref = [](std::vector<Call> &v) { std::vector<Raw> r; for (auto &c : v) r.push_back(c.run()); return r; };
  std::vector<Raw> ra = ref(A), rb = ref(B), rs = ref(S);
  auto check = [&](const Call &a, const Raw &want, const Raw &got, const Call &other, const std::string &sch) {
    std::string why;
    if (same(want, got, 0, &why)) return true;
    MC_FAIL("%s (while %s runs in another thread, %s): %s", a.name.c_str(), other.name.c_str(), sch.c_str(), why.c_str());
    return false;
  };
#ifdef FREE
  auto pair = [&](const Call &a, const Raw &wantA, const Call &b, const Raw &wantB) {
    for (int k = 0; k < (T ? 3 : 1); k++)
    {
      Raw oa, ob; E().evaluations++; E().tick();
      std::thread x([&] { oa = a.run(); }), y([&] { ob = b.run(); });
      x.join(); y.join();
      if (!check(a, wantA, oa, b, "free") || !check(b, wantB, ob, a, "free")) return;
      E().outcome(hashStr(E().key));
    }
  };
  for (int i = 0; i < n; i++) for (int d = 0; d < n; d += T ? 1 : 6)
    if (E().begin(fmt("free:own:%d.%d", i, (i + d) % n))) { int j = (i + d) % n; if (i == 0 && d == 0) E().sample(E().key); pair(A[i], ra[i], B[j], rb[j]); }
  for (size_t i = 0; i < S.size(); i++) for (size_t d = 0; d < S.size(); d += T ? 1 : 6)
    if (E().begin(fmt("free:shared:%zu.%zu", i, (i + d) % S.size()))) { size_t j = (i + d) % S.size(); pair(S[i], rs[i], S[j], rs[j]); }
#else
  for (int i = 0; i < 2; i++) { sem_init(&go[i], 0, 0); ctl[i].occ.assign(MAXG, 0); }
  sem_init(&done, 0, 0);
  std::thread t0(worker, 0), t1(worker, 1);
  auto pair = [&](const Call &a, const Raw &wantA, const Call &b, const Raw &wantB, int cap, bool two) {
    ctl[0].cap = ctl[1].cap = cap;
    schedule(a, b, {}, {});
    long na = ctl[0].cnt, nb = ctl[1].cnt;
    E().maxi("points of one call", na);
    auto one = [&](std::initializer_list<long> x, std::initializer_list<long> y) {
      schedule(a, b, x, y);
      E().evaluations++; E().tick(); E().transitions++;
      std::string s = fmt("first preempted at %ld", *x.begin()); if (y.size()) s += fmt(", second at %ld", *y.begin());
      bool ok = check(a, wantA, out[0], b, s) && check(b, wantB, out[1], a, s);
      if (ok) { uint64_t h = hashStr(E().key); for (long q : x) h = mix(h, q); for (long q : y) h = mix(h, 1000003 + q); E().outcome(h); E().states.insert(h); }
      return ok;
    };
    for (long k = 0; k < na; k++) if (!one({k}, {})) return;
    if (two)
    {
      long sa = std::max<long>(1, na / 40), sb = std::max<long>(1, nb / 40);
      for (long k = sa / 2; k < na; k += sa) for (long l = sb / 3; l < nb; l += sb) if (!one({k}, {l})) return;
    }
  };
  for (int i = 0; i < n; i++)
  {
    if (E().begin(fmt("own:%d", i))) { if (i == 0) E().sample(E().key + " " + A[i].name); pair(A[i], ra[i], B[i], rb[i], T ? 3 : 1, true); }
    for (int d = 1; d < n; d++)
      if (T || (mix(i, d) % 12 == 0)) if (E().begin(fmt("own:%d.%d", i, (i + d) % n))) { int j = (i + d) % n; pair(A[i], ra[i], B[j], rb[j], 1, false); }
  }
  for (size_t i = 0; i < S.size(); i++)
    for (size_t d = 0; d < S.size(); d++)
      if (T || d == 0 || mix(i + 777, d) % 12 == 0) if (E().begin(fmt("shared:%zu.%zu", i, (i + d) % S.size()))) { size_t j = (i + d) % S.size(); pair(S[i], rs[i], S[j], rs[j], 1, d == 0); }
  job[0] = job[1] = nullptr; sem_post(&go[0]); sem_post(&go[1]); t0.join(); t1.join();
#endif
  return E().finish();
}
