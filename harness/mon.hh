// Runtime-monitoring harness: runs families of randomly generated cases of the
// real code in forked workers, while sanitizers and the monitors written in the
// families watch.  One line per case is logged for the offline part (check.py).
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return mix(h);
}

struct Violation {
  std::string key, msg;
};

inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline std::string clean(std::string s) {
  for (char& c : s)
    if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
  if (s.size() > 1500) s.resize(1500);
  return s;
}

struct Ctx {
  std::mt19937 rng;
  bool thorough = false;
  long idx = 0;
  uint64_t sighash = 0;
  bool nontrivial = false;
  std::map<std::string, long> counts;
  std::string desc;  // human readable description of the case
  std::string tmp;   // scratch directory of this worker

  uint32_t u() { return rng(); }
  // integer in [a, b]
  long in(long a, long b) { return a + (long)((((uint64_t)rng() << 32) | rng()) % (uint64_t)(b - a + 1)); }
  double unit() { return (rng() + 0.5) / 4294967296.0; }
  bool coin(double p = 0.5) { return unit() < p; }
  double normal() { return std::normal_distribution<double>()(rng); }
  template <class V>
  auto pick(const V& v) -> typename V::value_type {
    auto it = v.begin();
    std::advance(it, in(0, (long)v.size() - 1));
    return *it;
  }
  void count(const std::string& n, long k = 1) { counts[n] += k; }
  void sig(const std::string& s) {
    sighash = mix(sighash ^ hash_str(s));
    nontrivial = true;
  }
  void say(const std::string& s) {
    if (desc.size() < 600) desc += s;
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  void check(bool ok, const std::string& key, const std::string& msg) {
    count("oracle_checks");
    if (!ok) fail(key, msg);
  }
  // a == b up to rounding
  void near(double a, double b, const std::string& key, const std::string& what, double atol = 1e-6,
            double rtol = 1e-9) {
    count("oracle_checks");
    bool ok;
    if (std::isnan(a) || std::isnan(b)) ok = false;
    else if (std::isinf(a) || std::isinf(b)) ok = a == b;
    else ok = std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
    if (!ok) fail(key, fmt("%s: %.17g vs %.17g (diff %g)", what.c_str(), a, b, a - b));
  }
};

using CaseFn = std::function<void(Ctx&)>;
struct Family {
  std::string prop, name;
  long quick, thorough;
  CaseFn fn;
  int cpu_limit;
};
inline std::vector<Family>& families() {
  static std::vector<Family> f;
  return f;
}
struct Reg {
  Reg(const char* prop, const char* name, long quick, long thorough, CaseFn fn, int cpu_limit = 30) {
    families().push_back({prop, name, quick, thorough, fn, cpu_limit});
  }
};
#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define FAMILY(...) static mon::Reg MON_CAT(reg_, __COUNTER__)(__VA_ARGS__)

// ---------------------------------------------------------------- statistics
// Regularised upper incomplete gamma Q(a, x).
inline double gamma_q(double a, double x) {
  if (x <= 0) return 1;
  if (x < a + 1) {  // series for P
    double sum = 1 / a, del = sum, ap = a;
    for (int n = 0; n < 10000; ++n) {
      ap += 1; del *= x / ap; sum += del;
      if (std::fabs(del) < std::fabs(sum) * 1e-15) break;
    }
    return 1 - sum * std::exp(-x + a * std::log(x) - lgamma(a));
  }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 10000; ++i) {
    double an = -i * (i - a);
    b += 2;
    d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300;
    c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300;
    d = 1 / d;
    double del = d * c; h *= del;
    if (std::fabs(del - 1) < 1e-15) break;
  }
  return std::exp(-x + a * std::log(x) - lgamma(a)) * h;
}

// Chi-square p-value of observed counts against expected probabilities; cells
// with a small expectation are pooled. An observation in a cell of (practically)
// zero probability gives 0.
inline double chi2_p(const std::vector<long>& obs, const std::vector<double>& prob, double minexp = 20) {
  double n = 0;
  for (long o : obs) n += o;
  double chi = 0, pool_e = 0, pool_o = 0;
  int cells = 0;
  for (size_t i = 0; i < obs.size(); ++i) {
    double e = n * prob[i];
    if (obs[i] > 0 && prob[i] < 1e-15) return 0;
    if (e < minexp) {
      pool_e += e; pool_o += obs[i];
    } else {
      chi += (obs[i] - e) * (obs[i] - e) / e;
      ++cells;
    }
  }
  if (pool_e >= minexp) {
    chi += (pool_o - pool_e) * (pool_o - pool_e) / pool_e;
    ++cells;
  } else if (pool_o > pool_e) {
    // Poisson tail for the small pool.
    double p = 1 - gamma_q(pool_o, pool_e) ;  // P(X >= o) = P(o, e)
    if (pool_o >= 1 && p < 1e-12) return p;
  }
  if (cells <= 1) return 1;
  return gamma_q((cells - 1) / 2.0, chi / 2.0);
}

// Two-stage test: a suspicious first sample is only believed when a fresh, four
// times larger sample is far out as well.  draw(n) returns counts per cell.
inline void stat_test(Ctx& c, const std::string& key, const std::string& what, long n,
                      const std::vector<double>& prob,
                      const std::function<std::vector<long>(long)>& draw) {
  double tot = 0;
  for (double p : prob) tot += p;
  c.count("statistical_tests");
  c.count("draws", n);
  std::vector<long> o = draw(n);
  double p1 = chi2_p(o, prob);
  if (p1 > 2e-3) return;
  c.count("second_stage");
  std::vector<long> o2 = draw(4 * n);
  double p2 = chi2_p(o2, prob);
  if (p2 > 1e-9) {
    if (p2 > 1e-4) return;
    c.count("third_stage");
    o2 = draw(16 * n);
    p2 = chi2_p(o2, prob);
    if (p2 > 1e-9) return;
  }
  // the cell that deviates most, for the report
  size_t worst = 0;
  double wz = 0, n2 = 0;
  for (long x : o2) n2 += x;
  for (size_t i = 0; i < prob.size(); ++i) {
    double e = n2 * prob[i], z = std::fabs(o2[i] - e) / std::sqrt(e + 1e-9);
    if (z > wz) wz = z, worst = i;
  }
  c.fail(key, fmt("%s: p=%.3g then p=%.3g; cell %zu expected %.6g observed %.6g of %g (total prob %.6g)",
                  what.c_str(), p1, p2, worst, prob[worst], o2[worst] / n2, n2, tot));
}

// Kolmogorov-Smirnov p-value bound for values mapped through the exact CDF.
inline double ks_p(std::vector<double> u) {
  std::sort(u.begin(), u.end());
  double d = 0, n = u.size();
  for (size_t i = 0; i < u.size(); ++i)
    d = std::max({d, std::fabs(u[i] - i / n), std::fabs((i + 1) / n - u[i])});
  return std::min(1.0, 2 * std::exp(-2 * n * d * d));
}

// ------------------------------------------------------------------- running
struct Shared {
  long next[256];          // next case index per family
  struct Slot { int fam; long idx; int busy; } slot[64];
};

inline int fam_index(const std::string& n) {
  for (size_t i = 0; i < families().size(); ++i)
    if (families()[i].name == n) return i;
  return -1;
}

inline double now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}

inline void set_cpu_alarm(int sec) {
  struct itimerval it{};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline std::string g_case_out;  // stdout file of the current worker

struct Runner {
  std::string outdir;
  uint64_t seed;
  bool thorough;
  double scale = 1;
  double deadline;
  Shared* sh;
  std::vector<int> sel;

  long total(int f) {
    long n = thorough ? families()[f].thorough : families()[f].quick;
    if (scale != 1 && n > 1) n = std::max(1L, (long)(n * scale));
    return n;
  }

  void run_case(int f, long idx, FILE* log, const std::string& tmp) {
    Family& fam = families()[f];
    Ctx c;
    c.thorough = thorough;
    c.idx = idx;
    c.tmp = tmp;
    uint64_t h = mix(seed * 1000003ull ^ hash_str(fam.name));
    h = mix(h ^ (uint64_t)idx);
    std::seed_seq sq{(uint32_t)h, (uint32_t)(h >> 32)};
    c.rng.seed(sq);
    std::string status = "ok", key, msg;
    fflush(stdout);
    if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET);
    if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
    try {
      fam.fn(c);
    } catch (const Violation& v) {
      status = "viol"; key = v.key; msg = v.msg;
    } catch (const std::exception& e) {
      status = "viol"; key = std::string("exception:") + e.what(); msg = key;
    }
    std::string cnt;
    for (auto& [k, v] : c.counts) cnt += (cnt.empty() ? "" : ",") + k + "=" + std::to_string(v);
    fprintf(log, "%s\t%s\t%ld\t%016lx\t%d\t%s\t%s\t%s\t%s\n", status.c_str(), fam.name.c_str(), idx,
            (unsigned long)c.sighash, (int)c.nontrivial, cnt.c_str(), clean(key).c_str(), clean(msg).c_str(),
            (status != "ok" || idx < 3) ? clean(c.desc).c_str() : "");
  }

  void redirect(const std::string& base) {
    int o = open((base + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    int e = open((base + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(o, 1);
    dup2(e, 2);
    close(o);
    close(e);
  }

  std::string scratch(int w) { return outdir + "/scratch" + std::to_string(w); }

  // w: worker slot; only_f >= 0: run just this one case with a larger limit.
  [[noreturn]] void worker(int w, const std::string& base, int only_f, long only_idx) {
    redirect(base);
    FILE* log = fopen((base + ".log").c_str(), "w");
    setvbuf(log, nullptr, _IOFBF, 1 << 16);
    std::string tmp = scratch(w);
    if (only_f >= 0) {
      set_cpu_alarm(families()[only_f].cpu_limit * 4);
      run_case(only_f, only_idx, log, tmp);
      fflush(log);
      _exit(0);
    }
    // Interleave families so that all make progress before a deadline.
    std::vector<int> live = sel;
    size_t k = w;
    while (!live.empty()) {
      if (now() > deadline) break;
      size_t pos = k % live.size();
      int f = live[pos];
      long idx = __atomic_fetch_add(&sh->next[f], 1, __ATOMIC_RELAXED);
      if (idx >= total(f)) {
        live.erase(live.begin() + pos);
        continue;
      }
      ++k;
      sh->slot[w] = {f, idx, 1};
      set_cpu_alarm(families()[f].cpu_limit);
      run_case(f, idx, log, tmp);
      set_cpu_alarm(0);
      sh->slot[w].busy = 0;
      fflush(log);
    }
    fflush(log);
    _exit(0);
  }

  int run(int nworkers) {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<pid_t, std::pair<int, std::string>> alive;
    int gen = 0, crashes = 0;
    std::vector<std::tuple<int, long>> retry;
    FILE* sum = fopen((outdir + "/crashes.tsv").c_str(), "w");
    auto spawn = [&](int w, int of, long oi) {
      std::string base = outdir + "/w" + std::to_string(w) + "." + std::to_string(gen++);
      if (system(("mkdir -p " + scratch(w)).c_str())) {}
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) worker(w, base, of, oi);
      if (of >= 0) sh->slot[w] = {of, oi, 2};
      alive[p] = {w, base};
    };
    for (int w = 0; w < nworkers; ++w) spawn(w, -1, 0);
    while (!alive.empty()) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) break;
      auto it = alive.find(p);
      if (it == alive.end()) continue;
      auto [w, base] = it->second;
      alive.erase(it);
      bool clean_exit = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->slot[w].busy != 1;
      if (!clean_exit) {
        auto s = sh->slot[w];
        bool prof = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF;
        bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        const char* kind = prof ? (s.busy == 2 ? "hang" : "slow") : killed ? "killed" : "crash";
        fprintf(sum, "%s\t%s\t%ld\t%d\t%d\t%s\n", kind, families()[s.fam].name.c_str(), s.idx,
                WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1, base.c_str());
        fflush(sum);
        if (prof && s.busy == 1) retry.push_back({s.fam, s.idx});
        bool was_only = s.busy == 2;
        sh->slot[w].busy = 0;
        if (++crashes > 400) { /* enough seen */
          for (auto& [q, _] : alive) kill(q, SIGKILL);
          break;
        }
        if (!was_only && now() < deadline) spawn(w, -1, 0);
      }
      if (alive.empty() && !retry.empty()) {
        auto [f, i] = retry.back();
        retry.pop_back();
        spawn(0, f, i);
      }
    }
    fclose(sum);
    return 0;
  }
};

inline int main_(int argc, char** argv) {
  std::string outdir, prop, fam;
  uint64_t seed = 1;
  bool thorough = false;
  long cs = -1;
  int nw = sysconf(_SC_NPROCESSORS_ONLN);
  double limit = 400, scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") outdir = v;
    else if (a == "--prop") prop = v;
    else if (a == "--family") fam = v;
    else if (a == "--case") cs = atol(v.c_str());
    else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--jobs") nw = atoi(v.c_str());
    else if (a == "--limit") limit = atof(v.c_str());
    else if (a == "--scale") scale = atof(v.c_str());
  }
  Runner r;
  r.seed = seed;
  r.thorough = thorough;
  r.scale = scale;
  r.deadline = now() + limit;
  r.outdir = outdir;
  if (cs >= 0) {  // replay one case in this process
    int f = fam_index(fam);
    if (f < 0) { fprintf(stderr, "no such family\n"); return 2; }
    FILE* log = fdopen(dup(1), "w");
    std::string tmp = outdir.empty() ? "." : outdir;
    // Keep stdout and stderr as they are.
    Ctx probe;
    r.run_case(f, cs, log, tmp);
    fflush(log);
    return 0;
  }
  for (size_t i = 0; i < families().size(); ++i)
    if ((prop.empty() || families()[i].prop == prop) && (fam.empty() || families()[i].name == fam)) r.sel.push_back(i);
  if (r.sel.empty()) { fprintf(stderr, "no family for %s\n", prop.c_str()); return 2; }
  FILE* fl = fopen((outdir + "/families.tsv").c_str(), "w");
  for (int f : r.sel) fprintf(fl, "%s\t%ld\n", families()[f].name.c_str(), r.total(f));
  fclose(fl);
  return r.run(std::max(1, std::min(nw, 60)));
}

}  // namespace mon

int main(int argc, char** argv) { return mon::main_(argc, argv); }
