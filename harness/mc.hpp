// mc.hpp - small explicit exploration framework shared by all harnesses.
//
//  * A harness enumerates a finite space of cases.  Every case has a textual key that
//    identifies it completely; `--replay KEY` runs that case alone.
//  * Cases are distributed over shards by counting (case number modulo shard count).
//  * Inside a case a Chooser enumerates all answers of the environment (depth first),
//    with an optional bound on deviations from the default answer 0.
//  * Results (counters, distinct outcomes, samples, violations) go to PREFIX.json and
//    PREFIX.hash; the case being run is kept in PREFIX.cur (a shared mapping) so that the
//    driver can report a crash or a hang with the case that caused it.
#ifndef VERIF_MC_HPP_
#define VERIF_MC_HPP_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace mc
{

inline std::string fmt(const char *f, ...)
{
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashStr(const std::string &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hashInts(const std::vector<int> &v)
{
  uint64_t h = 17;
  for (int x : v) h = mix(h, (uint64_t)(uint32_t)x);
  return h;
}

struct Violation { std::string key, msg; };

struct Engine
{
  int shard = 0, nshards = 1;
  bool thorough = false;
  std::string replay;
  bool replaying = false;
  std::string prefix = "/tmp/mc_out";
  char *cur = nullptr; // 16 KiB shared mapping: [0..7] counter, then the key
  uint64_t caseCounter = 0;
  std::string key;
  uint64_t casesRun = 0, evaluations = 0, nontrivial = 0, transitions = 0, traces = 0;
  std::unordered_set<uint64_t> outcomes;  // distinct non-trivial outcomes/cases
  std::unordered_set<uint64_t> states;    // distinct reference-model states
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  uint64_t violationCount = 0;
  std::set<std::string> failedKeys;
  FILE *err = nullptr;

  static Engine &get() { static Engine e; return e; }

  void init(int argc, char **argv)
  {
    for (int i = 1; i < argc; i++)
    {
      std::string a = argv[i];
      if (a == "--shard") { shard = atoi(argv[++i]); nshards = atoi(argv[++i]); }
      else if (a == "--tier") thorough = !strcmp(argv[++i], "thorough");
      else if (a == "--out") prefix = argv[++i];
      else if (a == "--replay") { replay = argv[++i]; replaying = true; }
    }
    int fd = open((prefix + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 16384) != 0) { perror("mc: .cur"); exit(3); }
    cur = (char *)mmap(0, 16384, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    int e2 = dup(2);
    err = fdopen(e2, "w");
    // the library under test prints diagnostics; they are not part of any property
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0 && !replaying && !getenv("MC_KEEP_OUTPUT")) { fflush(stdout); dup2(nul, 1); dup2(nul, 2); }
  }

  bool begin(const std::string &k)
  {
    uint64_t n = caseCounter++;
    if (replaying) { if (k != replay) return false; }
    else if ((int)(n % (uint64_t)nshards) != shard) return false;
    key = k;
    setCur(k);
    casesRun++;
    return true;
  }
  void setCur(const std::string &k)
  {
    if (!cur) return;
    (*(volatile uint64_t *)cur)++;
    size_t n = k.size() < 16000 ? k.size() : 16000;
    memcpy(cur + 8, k.data(), n);
    cur[8 + n] = 0;
  }
  // note progress inside a long case (feeds the hang watchdog)
  void tick() { if (cur) (*(volatile uint64_t *)cur)++; }

  void fail(const std::string &m)
  {
    violationCount++;
    if (failedKeys.count(key)) return;
    if (violations.size() < 40) { violations.push_back({key, m}); failedKeys.insert(key); }
    if (replaying || getenv("MC_VERBOSE")) { fprintf(err, "FAIL [%s] %s\n", key.c_str(), m.c_str()); fflush(err); }
  }
  void outcome(uint64_t h) { outcomes.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void maxi(const std::string &n, double v)
  {
    auto it = maxima.find(n);
    if (it == maxima.end() || !(v <= it->second)) maxima[n] = v;
  }

  static std::string esc(const std::string &s)
  {
    std::string r;
    for (unsigned char c : s)
    {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r;
  }
  int finish()
  {
    FILE *f = fopen((prefix + ".json").c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"casesTotal\":%llu,\"casesRun\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"traces\":%llu,\"violationCount\":%llu,",
        (unsigned long long)caseCounter, (unsigned long long)casesRun, (unsigned long long)evaluations,
        (unsigned long long)nontrivial, (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)violationCount);
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto &c : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto &c : maxima)
    {
      double v = c.second;
      if (v != v || v > 1e300) v = 1e300;
      fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", esc(c.first).c_str(), v); first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < violations.size(); i++)
      fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\"}", i ? "," : "", esc(violations[i].key).c_str(), esc(violations[i].msg).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((prefix + ".hash").c_str(), "wb");
    for (uint64_t h : outcomes) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((prefix + ".states").c_str(), "wb");
    for (uint64_t h : states) fwrite(&h, 8, 1, f);
    fclose(f);
    fflush(err);
    _exit(violationCount ? 1 : 0);
  }
};

inline Engine &E() { return Engine::get(); }
#define MC_FAIL(...) mc::E().fail(mc::fmt(__VA_ARGS__))

// Depth-first enumeration of environment answers.  body(Chooser&) is run once per
// complete choice sequence.  A deviation is any answer other than 0.
struct Diverged : std::runtime_error { Diverged(const char *m) : std::runtime_error(m) {} };
struct Chooser
{
  std::vector<int> pre;               // forced prefix
  std::vector<int> got, width;        // what this run chose / how many options it had
  int choose(int n)
  {
    size_t i = got.size();
    int c = 0;
    if (i < pre.size())
    {
      c = pre[i];
      if (c >= n) throw Diverged("choice out of range while replaying a prefix");
    }
    got.push_back(c);
    width.push_back(n);
    return c;
  }
  std::string str() const
  {
    std::string s;
    for (size_t i = 0; i < got.size(); i++) { if (i) s += '.'; s += std::to_string(got[i]); }
    return s;
  }
};
// enumerate every choice sequence with at most maxDev non-zero answers (maxDev<0: all)
template <class F> uint64_t enumerate(F body, int maxDev = -1, uint64_t cap = ~0ull)
{
  uint64_t runs = 0;
  std::vector<int> pre;
  for (;;)
  {
    Chooser c;
    c.pre = pre;
    body(c);
    if (++runs >= cap) return runs;
    // next sequence in lexicographic order within the deviation bound
    std::vector<int> g = c.got;
    int i = (int)g.size() - 1;
    for (; i >= 0; i--)
    {
      int dev = 0;
      for (int j = 0; j < i; j++) dev += g[j] != 0;
      if (g[i] + 1 < c.width[i] && (maxDev < 0 || dev + 1 <= maxDev)) break;
    }
    if (i < 0) return runs;
    pre.assign(g.begin(), g.begin() + i + 1);
    pre[i]++;
  }
}
inline std::vector<int> parseInts(const std::string &s, char sep = '.')
{
  std::vector<int> r;
  size_t i = 0;
  while (i < s.size()) { size_t j = s.find(sep, i); if (j == std::string::npos) j = s.size(); r.push_back(atoi(s.substr(i, j - i).c_str())); i = j + 1; }
  return r;
}
inline std::string joinInts(const std::vector<int> &v, char sep = '.')
{
  std::string s;
  for (size_t i = 0; i < v.size(); i++) { if (i) s += sep; s += std::to_string(v[i]); }
  return s;
}
// all k-subsets / k-permutations of 0..n-1, calling f(vector<int>)
template <class F> void combinations(int n, int k, F f)
{
  std::vector<int> c(k);
  for (int i = 0; i < k; i++) c[i] = i;
  if (k > n) return;
  for (;;)
  {
    f(c);
    int i = k - 1;
    while (i >= 0 && c[i] == n - k + i) i--;
    if (i < 0) return;
    c[i]++;
    for (int j = i + 1; j < k; j++) c[j] = c[j - 1] + 1;
  }
}
template <class F> void arrangements(int n, int k, F f)
{
  std::vector<int> c;
  std::vector<char> used(n, 0);
  std::function<void()> rec = [&]() {
    if ((int)c.size() == k) { f(c); return; }
    for (int i = 0; i < n; i++) if (!used[i]) { used[i] = 1; c.push_back(i); rec(); c.pop_back(); used[i] = 0; }
  };
  rec();
}
// all vectors v with 0<=v[i]<base[i]
template <class F> void product(const std::vector<int> &base, F f)
{
  for (int b : base) if (b <= 0) return;
  std::vector<int> v(base.size(), 0);
  for (;;)
  {
    f(v);
    int i = (int)v.size() - 1;
    while (i >= 0 && ++v[i] == base[i]) { v[i] = 0; i--; }
    if (i < 0) return;
  }
}

} // namespace mc
#endif
