// C24 (string alignment) and C25 (numeric helpers).
#include <algorithm>
#include <limits>
#include "mon.hh"
#include "emissions/string_alignment.hh"
#include "util_math.hh"
using mon::Ctx;
using mon::fmt;
static const double INF = std::numeric_limits<double>::infinity();

// ------------------------------------------------------------------ C24
static std::string rstr(Ctx& c, int maxlen) {
  static const char* alph[] = {"a", "ab", "abc", "abcdefghij", " !~az09", "\x01\x7f\xff a"};
  std::string al = alph[c.in(0, 5)], s;
  int n = c.coin(0.12) ? 0 : c.in(0, maxlen);
  if (c.coin(0.2)) {  // repetitive
    std::string unit;
    for (int i = c.in(1, 3); i > 0; --i) unit += al[c.in(0, al.size() - 1)];
    while ((int)s.size() < n) s += unit;
    return s.substr(0, n);
  }
  for (int i = 0; i < n; ++i) s += al[c.in(0, al.size() - 1)];
  return s;
}
static std::string mutate(Ctx& c, std::string s) {
  for (int e = c.in(0, 3); e > 0; --e) {
    int k = c.in(0, 2);
    size_t p = s.empty() ? 0 : c.in(0, s.size() - 1);
    char ch = c.coin(0.6) && !s.empty() ? s[c.in(0, s.size() - 1)] : 'a' + c.in(0, 3);
    if (k == 0) s.insert(s.begin() + p, ch);
    else if (s.empty()) continue;
    else if (k == 1) s.erase(p, 1);
    else s[p] = ch;
  }
  return s;
}

// The cost of a step taken at (i, j): kind 0 deletes s1[i], 1 inserts s2[j],
// 2 pairs s1[i] with s2[j].
struct Costs {
  int kind;
  double del, ins, sub, match;
  uint64_t salt;
  double step(int i, int j, int k, bool same) const {
    double base = k == 0 ? del : k == 1 ? ins : same ? match : sub;
    if (kind == 0) return base;
    // varies with the place
    uint64_t h = mon::mix(salt ^ (i * 1000003ull + j * 10007ull + k));
    if (kind == 1) return base + (h % 1000) / 250.0;
    if (kind == 2) return base + (h % 3);  // many ties
    if (kind == 3) return (h % 7) == 0 ? 0 : base;
    if (kind == 4) return (h % 11) == 0 ? INF : base + (h % 5);
    return base * (1e-9 + (h % 1000) * 1e3);
  }
};
static Costs rcosts(Ctx& c) {
  Costs k;
  k.kind = c.in(0, 5);
  k.salt = c.u();
  bool z = c.coin(0.1);
  auto v = [&] { return z ? 0.0 : c.coin(0.3) ? (double)c.in(0, 3) : -std::log(c.unit()); };
  k.del = v(); k.ins = v(); k.sub = v();
  k.match = c.coin(0.5) ? 0.0 : v();
  return k;
}

static std::string show(const StrAlignment& a) {
  std::string o;
  for (auto& p : a.align_pieces) {
    if (auto* d = std::get_if<Deletion>(&p)) o += fmt("-%02x", (unsigned char)d->deleted_char);
    if (auto* d = std::get_if<Insertion>(&p)) o += fmt("+%02x", (unsigned char)d->inserted_char);
    if (auto* d = std::get_if<Substitution>(&p)) o += fmt("%02x>%02x", (unsigned char)d->original, (unsigned char)d->replacement);
    if (auto* d = std::get_if<Match>(&p)) o += fmt("=%02x", (unsigned char)d->c);
  }
  return o;
}

// Checks one alignment against the strings and returns its true cost.
static double walk(Ctx& c, const StrAlignment& a, const std::string& s1, const std::string& s2,
                   const std::function<double(int, int, int, bool)>& step) {
  size_t i = 0, j = 0;
  double cost = 0;
  for (auto& p : a.align_pieces) {
    if (auto* d = std::get_if<Deletion>(&p)) {
      c.check(i < s1.size() && s1[i] == d->deleted_char, "spelling", "a deletion does not spell the first string: " + show(a));
      cost += step(i, j, 0, false); ++i;
    } else if (auto* d = std::get_if<Insertion>(&p)) {
      c.check(j < s2.size() && s2[j] == d->inserted_char, "spelling", "an insertion does not spell the second string: " + show(a));
      cost += step(i, j, 1, false); ++j;
    } else if (auto* d = std::get_if<Substitution>(&p)) {
      c.check(i < s1.size() && j < s2.size() && s1[i] == d->original && s2[j] == d->replacement, "spelling",
              "a substitution does not spell the strings: " + show(a));
      c.check(d->original != d->replacement, "substitution_of_equals", "equal characters are labelled a substitution: " + show(a));
      cost += step(i, j, 2, false); ++i; ++j;
    } else {
      char m = std::get<Match>(p).c;
      c.check(i < s1.size() && j < s2.size() && s1[i] == m && s2[j] == m, "match_of_different",
              "a match of different characters: " + show(a));
      cost += step(i, j, 2, true); ++i; ++j;
    }
  }
  c.check(i == s1.size() && j == s2.size(), "incomplete", "the alignment does not cover both strings: " + show(a));
  c.check(a.s1_position == s1.size() && a.s2_position == s2.size(), "positions", "wrong final positions");
  return cost;
}

static void common(Ctx& c, const std::vector<StrAlignment>& al, int k) {
  std::set<std::string> seen;
  for (size_t n = 0; n < al.size(); ++n) {
    c.check(seen.insert(show(al[n])).second, "duplicate", "the same alignment is returned twice: " + show(al[n]));
    if (n) c.check(al[n - 1].cost <= al[n].cost * (1 + 1e-12) + 1e-9, "order", fmt("not sorted: %g before %g", al[n - 1].cost, al[n].cost));
  }
  c.check((long)al.size() <= std::max(k, 0), "too_many", "more alignments than asked for");
}

static void align_case(Ctx& c, bool history, int longest = 0) {
  int maxlen = longest ? longest : c.coin(0.7) ? 6 : c.coin(0.8) ? 14 : 40;
  std::string s1 = rstr(c, maxlen), s2 = c.coin(0.5) ? mutate(c, s1) : rstr(c, maxlen);
  if (c.coin(0.05)) std::swap(s1, s2);
  int k = c.coin(0.3) ? 1 : c.coin(0.5) ? 2 : c.coin(0.7) ? c.in(3, 12) : c.in(0, maxlen <= 6 ? 100 : 30);
  if (maxlen > 14) k = std::min(k, 3);
  bool memo = history || c.coin(0.25);
  Costs cs = rcosts(c);
  c.say(fmt("align '%s' with '%s', k=%d, cost kind %d%s", s1.c_str(), s2.c_str(), k, cs.kind, history ? " history dependent" : ""));
  c.sig(s1 + "|" + s2 + fmt("|%d|%d|%u|%d", k, cs.kind, (unsigned)cs.salt, history));
  // Monitor of the calls: the prefix handed over is a prefix of an alignment
  // and the old cost is the one reported for the prefix without its last piece.
  std::map<std::string, double> prefix{{"", 0.0}};
  bool calls_ok = true;
  std::string why;
  auto stepc = [&](int i, int j, int kk, bool same) { return cs.step(i, j, kk, same); };
  CostFunction fn = [&](const StrAlignment& a, double old) {
    const AlignPiece& p = a.align_pieces.back();
    int kk = p.index() == 0 ? 0 : p.index() == 1 ? 1 : 2;
    int i = a.s1_position - (kk != 1), j = a.s2_position - (kk != 0);
    double st = cs.step(i, j, kk, p.index() == 3);
    if (history && a.align_pieces.size() > 1) {  // gaps cost less when they extend a gap
      const AlignPiece& q = a.align_pieces[a.align_pieces.size() - 2];
      if (q.index() == p.index() && p.index() < 2) st *= 0.25;
    }
    c.count("cost_calls");
    if (!memo) return old + st;
    StrAlignment b = a;
    b.align_pieces.pop_back();
    auto it = prefix.find(show(b));
    if (it == prefix.end()) { calls_ok = false; why = "cost asked for an alignment whose beginning was never priced"; }
    else if (!(it->second == old)) { calls_ok = false; why = fmt("old cost %.17g, but the beginning was priced %.17g", old, it->second); }
    double r = old + st;
    prefix[show(a)] = r;
    return r;
  };
  std::vector<StrAlignment> al;
  topk_alignments(k, s1, s2, fn, &al);
  c.count("alignments", al.size());
  c.check(calls_ok, "cost_calls", why);
  common(c, al, k);
  std::function<double(int, int, int, bool)> st = stepc;
  for (auto& a : al) {
    if (history) {
      walk(c, a, s1, s2, st);
      auto it = prefix.find(show(a));
      c.check(it != prefix.end() && (it->second == a.cost || (std::isinf(it->second) && std::isinf(a.cost))), "cost",
              "the reported cost is not the accumulated one");
    } else {
      double t = walk(c, a, s1, s2, st);
      if (std::isinf(t)) c.check(std::isinf(a.cost), "cost", "infinite cost lost");
      else c.near(a.cost, t, "cost", "reported cost of " + show(a));
    }
  }
  // k cheapest costs by dynamic programming
  size_t n = s1.size(), m = s2.size();
  size_t kk = std::max(k, 0);
  if (history) {
    std::vector<std::vector<double>> cnt(n + 1, std::vector<double>(m + 1, 1));
    for (size_t i = 0; i <= n; ++i)
      for (size_t j = 0; j <= m; ++j)
        if (i && j) cnt[i][j] = std::min(1e9, cnt[i - 1][j] + cnt[i][j - 1] + cnt[i - 1][j - 1]);
    c.check(al.size() == std::min<double>(kk, cnt[n][m]), "number", fmt("%zu alignments returned, %g exist, %d asked", al.size(), cnt[n][m], k));
    return;
  }
  std::vector<std::vector<std::vector<double>>> best(n + 1, std::vector<std::vector<double>>(m + 1));
  best[0][0] = {0.0};
  for (size_t i = 0; i <= n; ++i)
    for (size_t j = 0; j <= m; ++j) {
      auto& b = best[i][j];
      if (i) for (double x : best[i - 1][j]) b.push_back(x + cs.step(i - 1, j, 0, false));
      if (j) for (double x : best[i][j - 1]) b.push_back(x + cs.step(i, j - 1, 1, false));
      if (i && j) for (double x : best[i - 1][j - 1]) b.push_back(x + cs.step(i - 1, j - 1, 2, s1[i - 1] == s2[j - 1]));
      std::sort(b.begin(), b.end());
      if (b.size() > kk) b.resize(kk);
    }
  auto& b = best[n][m];
  c.check(al.size() == b.size(), "number", fmt("%zu alignments returned, expected %zu (k=%d)", al.size(), b.size(), k));
  for (size_t i = 0; i < b.size(); ++i) {
    if (std::isinf(b[i])) c.check(std::isinf(al[i].cost), "not_cheapest", "an infinite cost was expected");
    else c.near(al[i].cost, b[i], "not_cheapest", fmt("cost of alignment %zu of '%s' and '%s'", i, s1.c_str(), s2.c_str()));
  }
}
FAMILY("C24", "topk_alignments", 20000, 400000, [](Ctx& c) { align_case(c, false); });
FAMILY("C24", "topk_long", 160, 3000, [](Ctx& c) { align_case(c, c.coin(0.2), c.in(50, 140)); }, 120);
FAMILY("C24", "topk_history_cost", 4000, 80000, [](Ctx& c) { align_case(c, true); });
FAMILY("C24", "edit_distance", 15000, 150000, [](Ctx& c) {
  int maxlen = c.coin(0.8) ? 9 : 60;
  std::string s1 = rstr(c, maxlen), s2 = c.coin(0.6) ? mutate(c, s1) : rstr(c, maxlen);
  int k = c.coin(0.6) ? 1 : c.in(1, 12);
  c.say(fmt("edit distance '%s' '%s' k=%d", s1.c_str(), s2.c_str(), k));
  c.sig(s1 + "|" + s2 + fmt("|%d", k));
  std::vector<StrAlignment> al;
  topk_alignments(k, s1, s2, edit_distance, &al);
  size_t n = s1.size(), m = s2.size();
  std::vector<std::vector<int>> d(n + 1, std::vector<int>(m + 1));
  for (size_t i = 0; i <= n; ++i)
    for (size_t j = 0; j <= m; ++j) {
      if (!i || !j) { d[i][j] = i + j; continue; }
      d[i][j] = std::min({d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (s1[i - 1] != s2[j - 1])});
    }
  c.check(!al.empty(), "number", "no alignment returned");
  common(c, al, k);
  c.near(al[0].cost, d[n][m], "edit_distance", "cost of the best alignment against the edit distance");
  for (auto& a : al) {
    long edits = 0;
    for (auto& p : a.align_pieces) edits += p.index() != 3;
    c.near(a.cost, edits, "cost", "cost against the number of edits in " + show(a));
    walk(c, a, s1, s2, [](int, int, int, bool same) { return same ? 0.0 : 1.0; });
  }
});

// ------------------------------------------------------------------ C25
static std::vector<double> rweights(Ctx& c, bool with_inf = true) {
  int n = c.coin(0.15) ? 1 : c.coin(0.7) ? c.in(2, 8) : c.in(9, 3000);
  int kind = c.in(0, 7);
  double shift = c.coin(0.4) ? (c.coin() ? 1e5 : c.coin() ? -1e5 : c.coin() ? 745 : -745.5) : 0;
  std::vector<double> w;
  for (int i = 0; i < n; ++i) {
    double x;
    switch (kind) {
      case 0: x = c.normal(); break;
      case 1: x = c.normal() * 30; break;
      case 2: x = c.normal() * 3e4; break;
      case 3: x = 0; break;
      case 4: x = c.coin() ? 0 : -700 - c.unit() * 100; break;
      case 5: x = -i * 0.5; break;
      case 6: x = i == 0 ? 1e5 * (c.coin() ? 1 : -1) : c.normal(); break;
      default: x = std::ldexp(1, c.in(-40, 16)) * (c.coin() ? 1 : -1);
    }
    w.push_back(x + shift);
  }
  if (with_inf && c.coin(0.35)) {
    for (auto& x : w)
      if (c.coin(0.4)) x = -INF;
    if (c.coin(0.9)) w[c.in(0, n - 1)] = shift;  // otherwise perhaps nothing is left
  }
  if (c.coin(0.3)) std::shuffle(w.begin(), w.end(), c.rng);
  return w;
}
static long double ref_lse(const std::vector<double>& w) {
  long double m = -INF;
  for (double x : w) m = std::max(m, (long double)x);
  if (std::isinf(m)) return m;
  long double s = 0;
  std::vector<long double> t;
  for (double x : w) t.push_back(expl((long double)x - m));
  std::sort(t.begin(), t.end());
  for (auto x : t) s += x;
  return m + logl(s);
}
static std::string wstr(const std::vector<double>& w) {
  std::string o = fmt("%zu weights", w.size());
  for (size_t i = 0; i < std::min<size_t>(6, w.size()); ++i) o += fmt(" %.6g", w[i]);
  return o;
}
static std::string wsig(const std::vector<double>& w) {
  std::string o;
  for (double x : w) o += fmt("%.17g,", x);
  return o;
}
FAMILY("C25", "logsumexp", 20000, 300000, [](Ctx& c) {
  auto w = rweights(c);
  c.say("logsumexp/log_normalize of " + wstr(w));
  c.sig("lse" + wsig(w));
  auto w0 = w;
  double r = logsumexp(w);
  long double t = ref_lse(w);
  c.near(r, (double)t, "logsumexp", "log-sum-exp of " + wstr(w), 1e-9, 1e-14);
  c.check(w == w0, "input_changed", "the weights were changed");
  if (!std::isinf(t)) {
    auto z = log_normalize(w);
    c.check(z.size() == w.size(), "log_normalize", "wrong size");
    for (size_t i = 0; i < w.size(); ++i) {
      c.near(z[i], (double)((long double)w[i] - t), "log_normalize", fmt("entry %zu of %s", i, wstr(w).c_str()), 1e-9, 1e-13);
      c.check(z[i] <= 1e-9, "log_normalize", "a normalised log weight is positive");
    }
    c.near((double)ref_lse(z), 0, "log_normalize", "normalised weights do not sum to one: " + wstr(w), 1e-9);
    // shifting all weights shifts the sum
    double sh = c.normal() * 1e3;
    auto w2 = w;
    for (auto& x : w2) x += sh;
    c.near(logsumexp(w2), (double)ref_lse(w2), "logsumexp", "shifted log-sum-exp of " + wstr(w), 1e-9, 1e-13);
    // order does not matter
    std::shuffle(w2.begin(), w2.end(), c.rng);
    c.near(logsumexp(w2), (double)ref_lse(w2), "logsumexp", "reordered log-sum-exp of " + wstr(w), 1e-9, 1e-13);
  }
});
FAMILY("C25", "grids", 6000, 60000, [](Ctx& c) {
  bool lg = c.coin(), endp = c.coin(0.6);
  int num = c.coin(0.1) ? c.in(0, 1) : c.in(2, 60);
  double a, b;
  if (lg) {
    a = std::exp(c.normal() * (c.coin(0.2) ? 100 : 5)); b = std::exp(c.normal() * (c.coin(0.2) ? 100 : 5));
  } else {
    a = c.normal() * std::pow(10, c.in(-8, 12)); b = c.normal() * std::pow(10, c.in(-8, 12));
  }
  if (c.coin(0.05)) b = a;
  c.say(fmt("%s(%g, %g, %d, %d)", lg ? "log_linspace" : "linspace", a, b, num, endp));
  c.sig(fmt("%d %.17g %.17g %d %d", lg, a, b, num, endp));
  auto v = lg ? log_linspace(a, b, num, endp) : linspace(a, b, num, endp);
  c.check((int)v.size() == num, "grid_size", fmt("%zu points, %d asked", v.size(), num));
  long double s = lg ? logl(a) : a, e = lg ? logl(b) : b;
  for (int i = 0; i < num; ++i) {
    long double x = num == 1 ? s : s + (e - s) * i / (num - (endp ? 1 : 0));
    if (lg) {
      c.check(v[i] > 0, "grid_point", "a log grid point is not positive");
      c.near(std::log(v[i]), (double)x, "grid_point", fmt("log of point %d of (%g, %g, %d, %d)", i, a, b, num, endp), 1e-10, 1e-12);
    } else {
      c.near(v[i], (double)x, "grid_point", fmt("point %d of (%g, %g, %d, %d)", i, a, b, num, endp),
             1e-12 * std::max(std::fabs(a), std::fabs(b)), 1e-12);
    }
  }
});
FAMILY("C25", "lbeta", 20000, 200000, [](Ctx& c) {
  auto v = [&] {
    switch (c.in(0, 4)) {
      case 0: return c.unit() * 10;
      case 1: return (double)c.in(1, 200);
      case 2: return std::exp(c.normal() * 8);
      case 3: return std::exp(-c.unit() * 600);
      default: return std::exp(c.unit() * 30);
    }
  };
  double z = v(), w = v();
  c.say(fmt("lbeta(%g, %g)", z, w));
  c.sig(fmt("%.17g %.17g", z, w));
  long double a = lgammal(z), b = lgammal(w), s = lgammal((long double)z + w);
  c.near(lbeta(z, w), (double)(a + b - s), "lbeta", fmt("lbeta(%g, %g)", z, w),
         1e-12 + 1e-14 * (double)(fabsl(a) + fabsl(b) + fabsl(s)));
  c.near(lbeta(z, w), lbeta(w, z), "lbeta_symmetry", fmt("lbeta(%g, %g)", z, w), 1e-12 + 1e-14 * (double)(fabsl(a) + fabsl(b) + fabsl(s)));
});
FAMILY("C25", "product", 8000, 80000, [](Ctx& c) {
  int n = c.coin(0.04) ? 0 : c.in(1, 5);
  std::vector<std::vector<int>> l(n);
  size_t tot = 1;
  for (auto& x : l) {
    int k = c.coin(0.05) ? 0 : c.in(1, n <= 2 ? 20 : 5);
    for (int i = 0; i < k; ++i) x.push_back(c.in(-3, 1000000));
    tot *= k;
  }
  std::string sg = "p";
  for (auto& x : l) { sg += "|"; for (int y : x) sg += fmt("%d,", y); }
  c.say(fmt("product of %d lists, %zu tuples", n, tot));
  c.sig(sg);
  auto r = product(l);
  c.check(r.size() == tot, "product_size", fmt("%zu tuples, expected %zu", r.size(), tot));
  // odometer order is not required; the multiset is
  std::vector<std::vector<int>> e{{}};
  for (auto& x : l) {
    std::vector<std::vector<int>> t;
    for (auto& p : e) for (int y : x) { t.push_back(p); t.back().push_back(y); }
    e = t;
  }
  std::sort(r.begin(), r.end());
  std::sort(e.begin(), e.end());
  c.check(r == e, "product_content", "the tuples differ from the cartesian product");
});
static void follow(Ctx& c, const std::string& what, const std::vector<double>& p, const std::function<int(std::mt19937*)>& draw) {
  std::mt19937 prng(c.u());
  std::vector<int> support;
  mon::stat_test(c, what, what + " against the normalised weights", 4000, p, [&](long n) {
    std::vector<long> o(p.size());
    for (long i = 0; i < n; ++i) {
      int x = draw(&prng);
      c.check(x >= 0 && x < (int)p.size(), what + "_range", fmt("index %d of %zu", x, p.size()));
      c.check(p[x] > 0, what + "_zero", fmt("index %d of zero weight was chosen", x));
      ++o[x];
    }
    return o;
  });
}
FAMILY("C25", "log_choice", 1500, 15000, [](Ctx& c) {
  auto w = rweights(c);
  if (w.size() > 60) w.resize(60);
  bool any = false;
  for (double x : w) any |= !std::isinf(x);
  if (!any) w[0] = 3;
  bool which = c.coin();
  c.say(fmt("%s over ", which ? "log_choice" : "sample_from_logps") + wstr(w));
  c.sig(fmt("%d", which) + wsig(w));
  long double t = ref_lse(w);
  std::vector<double> p;
  for (double x : w) p.push_back((double)expl((long double)x - t));
  if (which) follow(c, "log_choice", p, [&](std::mt19937* g) { return log_choice(w, g); });
  else follow(c, "sample_from_logps", p, [&](std::mt19937* g) { return sample_from_logps(w, g); });
});
FAMILY("C25", "choice", 800, 8000, [](Ctx& c) {
  int n = c.coin(0.15) ? 1 : c.in(2, 40);
  double scale = std::pow(10, c.in(-200, 200));
  std::vector<double> w, p;
  double s = 0;
  for (int i = 0; i < n; ++i) {
    double x = c.coin(0.25) ? 0 : c.coin(0.2) ? c.unit() * 1e-6 : c.unit();
    w.push_back(x);
  }
  if (*std::max_element(w.begin(), w.end()) == 0) w[c.in(0, n - 1)] = 1;
  for (double x : w) s += x;
  for (double& x : w) { p.push_back(x / s); x *= scale; }
  c.say(fmt("choice over %d weights, scale %g", n, scale));
  c.sig(wsig(w));
  follow(c, "choice", p, [&](std::mt19937* g) { return choice(w, g); });
});
