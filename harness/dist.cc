// Monitors for the value distributions and noise models (C01-C06).
#include <algorithm>
#include <memory>
#include <numbers>

#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/crp.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/get_distribution.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/identity.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "mon.hh"

using mon::Ctx;
using mon::fmt;
using std::string;
using std::vector;

static string show(bool b) { return b ? "1" : "0"; }
static string show(int b) { return std::to_string(b); }
static string show(double b) { return fmt("%.6g", b); }
static string show(const string& s) { return "'" + s + "'"; }
template <class A>
static string show(const std::pair<A, A>& p) { return "(" + show(p.first) + "->" + show(p.second) + ")"; }

static const vector<double> kAlphaGrid = {1e-4, 1e-3, 1e-2, 1e-1, 1, 10, 100, 1000, 10000};

// A distribution under test, with what the monitors need to know about it.
template <class T>
struct Sub {
  string name;
  std::shared_ptr<Distribution<T>> d;
  std::function<std::shared_ptr<Distribution<T>>()> twin;  // same hyperparameters, no data
  std::function<T(Ctx&)> gen;                              // an acceptable value
  vector<T> support;                                       // all values, when finite
  bool incremental = true;  // logp(x) is the increase of logp_score()
  double tol = 1e-6;
};

static double gamma_tol(double rows, double total) { return 1e-6 + 1e-12 * rows * std::fabs(lgamma(total + 200)); }
static double hyper(Ctx& c) {
  if (c.coin(0.4)) return 1.0;
  if (c.coin(0.3)) return c.pick(kAlphaGrid);
  return std::exp(3 * c.normal());
}
static string rand_str(Ctx& c, char lo, char hi, int maxlen) {
  int n = c.in(0, maxlen);
  string s;
  for (int i = 0; i < n; ++i) s += (char)c.in(lo, hi);
  return s;
}

static Sub<bool> mk_bernoulli(Ctx& c) {
  Sub<bool> s;
  s.name = "bernoulli";
  std::mt19937 r(c.u());
  BetaBernoulli* b = c.coin() ? new BetaBernoulli
      : dynamic_cast<BetaBernoulli*>(std::get<Distribution<bool>*>(get_prior(DistributionSpec("bernoulli"), &r)));
  b->alpha = hyper(c);
  b->beta = hyper(c);
  s.d.reset(b);
  s.twin = [b] { auto t = std::make_shared<BetaBernoulli>(); t->alpha = b->alpha; t->beta = b->beta; return t; };
  double p = c.unit();
  s.gen = [p](Ctx& c) { return c.coin(p); };
  s.support = {false, true};
  return s;
}
static Sub<int> mk_categorical(Ctx& c) {
  Sub<int> s;
  s.name = "categorical";
  int k = c.coin(0.1) ? 1 : c.in(2, 12);
  std::mt19937 r(c.u());
  DirichletCategorical* b = c.coin() ? new DirichletCategorical(k)
      : dynamic_cast<DirichletCategorical*>(std::get<Distribution<int>*>(
            get_prior(DistributionSpec("categorical(k=" + std::to_string(k) + ")"), &r)));
  b->alpha = hyper(c);
  s.d.reset(b);
  s.twin = [b, k] { auto t = std::make_shared<DirichletCategorical>(k); t->alpha = b->alpha; return t; };
  int hot = c.in(0, k - 1);
  s.gen = [k, hot](Ctx& c) { return c.coin(0.4) ? hot : (int)c.in(0, k - 1); };
  for (int i = 0; i < k; ++i) s.support.push_back(i);
  return s;
}
static Sub<string> mk_stringcat(Ctx& c) {
  Sub<string> s;
  s.name = "stringcat";
  std::set<string> st;
  int k = c.in(1, 6);
  while ((int)st.size() < k) st.insert(rand_str(c, 'a', 'e', 5) + "x");
  vector<string> v(st.begin(), st.end());
  std::shuffle(v.begin(), v.end(), c.rng);
  StringCat* b;
  if (c.coin()) b = new StringCat(v);
  else {
    std::mt19937 r(c.u());
    char delim = c.coin() ? ' ' : '|';
    string j;
    for (auto&& x : v) j += (j.empty() ? "" : string(1, delim)) + x;
    std::map<string, string> args{{"strings", j}};
    if (delim != ' ') args["delim"] = string(1, delim);
    b = dynamic_cast<StringCat*>(std::get<Distribution<string>*>(get_prior(DistributionSpec("stringcat", args), &r)));
    if (b->strings != v) c.fail("stringcat:strings", "the category set is not the one that was declared");
  }
  b->dc.alpha = hyper(c);
  s.d.reset(b);
  s.twin = [b, v] { auto t = std::make_shared<StringCat>(v); t->dc.alpha = b->dc.alpha; return t; };
  s.gen = [v](Ctx& c) { return c.pick(v); };
  s.support = v;
  return s;
}
static Sub<string> mk_bigram(Ctx& c) {
  Sub<string> s;
  s.name = "bigram";
  char lo = 'a', hi = 'a' + c.in(0, 3);
  size_t ml = c.coin() ? 0 : c.in(1, 8);
  Bigram* b;
  if (c.coin(0.15)) {
    std::mt19937 r(c.u());
    lo = ' '; hi = '~'; ml = c.in(3, 80);
    b = dynamic_cast<Bigram*>(std::get<Distribution<string>*>(
        get_prior(DistributionSpec("bigram(maxlength=" + std::to_string(ml) + ")"), &r)));
    s.name = "bigram-full";
  } else {
    b = new Bigram(ml, lo, hi);
  }
  b->set_alpha(hyper(c));
  s.d.reset(b);
  s.twin = [b, ml, lo, hi] { auto t = std::make_shared<Bigram>(ml, lo, hi); t->set_alpha(b->alpha); return t; };
  s.tol = gamma_tol(b->num_chars + 1, (b->num_chars + 1) * b->alpha);
  int L = ml ? std::min<int>(ml, 12) : 7;
  s.gen = [lo, hi, L](Ctx& c) { return rand_str(c, lo, hi, L); };
  return s;
}
static Sub<string> mk_stringnat(Ctx& c) {
  Sub<string> s;
  s.name = "string_nat";
  size_t ml = c.in(1, 20);
  StringNat* b;
  std::mt19937 r(c.u());
  if (c.coin()) b = new StringNat(ml);
  else b = dynamic_cast<StringNat*>(std::get<Distribution<string>*>(
           get_prior(DistributionSpec("string_nat(maxlength=" + std::to_string(ml) + ")"), &r)));
  b->set_alpha(hyper(c));
  s.d.reset(b);
  s.twin = [b, ml] { auto t = std::make_shared<StringNat>(ml); t->set_alpha(b->alpha); return t; };
  s.tol = gamma_tol(11, 11 * b->alpha);
  s.gen = [ml](Ctx& c) { return rand_str(c, '0', '9', std::min<int>(ml, 8)); };
  return s;
}
static double rand_real(Ctx& c, double loc, double scale) {
  if (c.coin(0.1)) return (double)c.in(-5, 5);
  return loc + scale * c.normal();
}
static void set_normal(Ctx& c, Normal* b) {
  if (c.coin(0.3)) return;
  b->r = c.pick(vector<double>{0.1, 1, 10});
  b->v = c.pick(vector<double>{0.5, 1, 2, 5});
  b->m = c.pick(vector<double>{-1, 0, 1});
  b->s = c.pick(vector<double>{0.5, 1, 2});
}
static Sub<double> mk_normal(Ctx& c) {
  Sub<double> s;
  s.name = "normal";
  Normal* b = new Normal;
  set_normal(c, b);
  s.d.reset(b);
  s.twin = [b] { auto t = std::make_shared<Normal>(); t->r = b->r; t->v = b->v; t->m = b->m; t->s = b->s; return t; };
  double loc = 5 * c.normal(), sc = std::exp(c.normal());
  if (c.coin(0.2)) loc *= 20;
  s.gen = [loc, sc](Ctx& c) { return rand_real(c, loc, sc); };
  return s;
}
static Sub<double> mk_zmn(Ctx& c) {
  Sub<double> s;
  s.name = "zero_mean_normal";
  ZeroMeanNormal* b = new ZeroMeanNormal;
  if (c.coin(0.7)) b->alpha = c.pick(kAlphaGrid), b->beta = c.pick(kAlphaGrid);
  s.d.reset(b);
  s.twin = [b] { auto t = std::make_shared<ZeroMeanNormal>(); t->alpha = b->alpha; t->beta = b->beta; return t; };
  double sc = std::exp(2 * c.normal());
  s.gen = [sc](Ctx& c) { return rand_real(c, 0, sc); };
  return s;
}
static Skellam* new_skellam(Ctx& c) {
  Skellam* b = new Skellam;
  b->mu1 = std::exp(c.normal());
  b->mu2 = std::exp(c.normal());
  b->mean1 = c.pick(vector<double>{-10, 0, 10});
  b->mean2 = c.pick(vector<double>{-10, 0, 10});
  b->stddev1 = c.pick(vector<double>{.1, 1, 10});
  b->stddev2 = c.pick(vector<double>{.1, 1, 10});
  return b;
}
static std::shared_ptr<Skellam> skellam_twin(const Skellam* b) {
  auto t = std::make_shared<Skellam>();
  t->mean1 = b->mean1; t->mean2 = b->mean2; t->stddev1 = b->stddev1; t->stddev2 = b->stddev2;
  t->mu1 = b->mu1; t->mu2 = b->mu2;
  return t;
}
static Sub<int> mk_skellam(Ctx& c) {
  Sub<int> s;
  s.name = "skellam";
  Skellam* b = new_skellam(c);
  s.d.reset(b);
  s.twin = [b] { return skellam_twin(b); };
  s.gen = [](Ctx& c) { return (int)c.in(-12, 12); };
  return s;
}
static Sub<string> mk_adapter_normal(Ctx& c) {
  Sub<string> s;
  s.name = "string_normal";
  Normal* b = new Normal;
  set_normal(c, b);
  s.d.reset(new DistributionAdapter<double>(b));
  s.twin = [b] {
    Normal* t = new Normal;
    t->r = b->r; t->v = b->v; t->m = b->m; t->s = b->s;
    return std::make_shared<DistributionAdapter<double>>(t);
  };
  double loc = 5 * c.normal();
  s.gen = [loc](Ctx& c) { return fmt("%.4f", loc + c.normal()); };
  return s;
}
static Sub<string> mk_adapter_skellam(Ctx& c) {
  Sub<string> s;
  s.name = "string_skellam";
  Skellam* b = new_skellam(c);
  s.d.reset(new DistributionAdapter<int>(b));
  s.twin = [b] {
    Skellam* t = new Skellam;
    *t = *skellam_twin(b);
    return std::make_shared<DistributionAdapter<int>>(t);
  };
  s.gen = [](Ctx& c) { return std::to_string(c.in(-12, 12)); };
  return s;
}
// ------------------------------------------------------------- noise models
template <class T>
using P = std::pair<T, T>;
static Sub<P<bool>> mk_em_bool(Ctx& c) {
  Sub<P<bool>> s;
  int k = c.in(0, 2);
  if (k == 0) {
    s.name = "bitflip";
    s.d.reset(new BitFlip);
    s.twin = [] { return std::make_shared<BitFlip>(); };
    s.gen = [](Ctx& c) { bool b = c.coin(); return P<bool>(b, !b); };
  } else if (k == 1) {
    s.name = "identity<bool>";
    s.d.reset(new IdentityEmission<bool>);
    s.twin = [] { return std::make_shared<IdentityEmission<bool>>(); };
    s.gen = [](Ctx& c) { bool b = c.coin(); return P<bool>(b, b); };
  } else {
    s.name = "sometimes_bitflip";
    Sometimes<bool>* b = c.coin() ? new Sometimes<bool>(new BitFlip)
        : dynamic_cast<Sometimes<bool>*>(std::get<Emission<bool>*>(get_prior(EmissionSpec("sometimes_bitflip"))));
    b->bb.alpha = hyper(c); b->bb.beta = hyper(c);
    s.d.reset(b);
    s.twin = [b] { auto t = std::make_shared<Sometimes<bool>>(new BitFlip); t->bb.alpha = b->bb.alpha; t->bb.beta = b->bb.beta; return t; };
    double p = c.unit();
    s.gen = [p](Ctx& c) { bool b = c.coin(); return P<bool>(b, b ^ c.coin(p)); };
  }
  return s;
}
static Sub<P<double>> mk_em_double(Ctx& c) {
  Sub<P<double>> s;
  int k = c.in(0, 1);
  double sc = std::exp(c.normal());
  if (k == 0) {
    s.name = "gaussian";
    GaussianEmission* b = c.coin() ? new GaussianEmission
        : dynamic_cast<GaussianEmission*>(std::get<Emission<double>*>(get_prior(EmissionSpec("gaussian"))));
    b->zmn.alpha = c.pick(kAlphaGrid); b->zmn.beta = c.pick(kAlphaGrid);
    s.d.reset(b);
    s.twin = [b] { auto t = std::make_shared<GaussianEmission>(); t->zmn.alpha = b->zmn.alpha; t->zmn.beta = b->zmn.beta; return t; };
    s.gen = [sc](Ctx& c) { double x = 10 * c.normal(); return P<double>(x, x + sc * c.normal()); };
  } else {
    s.name = "sometimes_gaussian";
    Sometimes<double>* b = c.coin() ? new Sometimes<double>(new GaussianEmission)
        : dynamic_cast<Sometimes<double>*>(std::get<Emission<double>*>(get_prior(EmissionSpec("sometimes_gaussian"))));
    b->bb.alpha = hyper(c); b->bb.beta = hyper(c);
    GaussianEmission* g = dynamic_cast<GaussianEmission*>(b->be);
    g->zmn.alpha = c.pick(kAlphaGrid); g->zmn.beta = c.pick(kAlphaGrid);
    s.d.reset(b);
    s.twin = [b, g] {
      GaussianEmission* h = new GaussianEmission;
      h->zmn.alpha = g->zmn.alpha; h->zmn.beta = g->zmn.beta;
      auto t = std::make_shared<Sometimes<double>>(h);
      t->bb.alpha = b->bb.alpha; t->bb.beta = b->bb.beta;
      return t;
    };
    double p = c.unit();
    s.gen = [sc, p](Ctx& c) { double x = 10 * c.normal(); return P<double>(x, c.coin(p) ? x : x + sc * c.normal()); };
  }
  return s;
}
static CategoricalEmission* new_cat_em(Ctx& c, int k) {
  auto* e = new CategoricalEmission(k);
  for (auto& d : e->emission_dists) d.alpha = hyper(c);
  return e;
}
static CategoricalEmission* copy_cat_em(const CategoricalEmission* b, int k) {
  auto* e = new CategoricalEmission(k);
  for (int i = 0; i < k; ++i) e->emission_dists[i].alpha = b->emission_dists[i].alpha;
  return e;
}
static Sub<P<int>> mk_em_cat(Ctx& c) {
  Sub<P<int>> s;
  int k = c.in(2, 6);
  s.name = "categorical_emission";
  CategoricalEmission* b = new_cat_em(c, k);
  s.d.reset(b);
  s.twin = [b, k] { return std::shared_ptr<CategoricalEmission>(copy_cat_em(b, k)); };
  s.gen = [k](Ctx& c) { int x = c.in(0, k - 1); return P<int>(x, c.coin() ? x : (int)c.in(0, k - 1)); };
  return s;
}
static Sub<P<int>> mk_em_sometimes_cat(Ctx& c) {
  Sub<P<int>> s;
  int k = c.in(2, 6);
  s.name = "sometimes_categorical";
  s.incremental = false;
  Sometimes<int>* b;
  if (c.coin()) b = new Sometimes<int>(new_cat_em(c, k), true);
  else b = dynamic_cast<Sometimes<int>*>(std::get<Emission<int>*>(
           get_prior(EmissionSpec("sometimes_categorical", {{"k", std::to_string(k)}}))));
  b->bb.alpha = std::exp(c.normal()); b->bb.beta = std::exp(c.normal());
  CategoricalEmission* g = dynamic_cast<CategoricalEmission*>(b->be);
  s.d.reset(b);
  s.twin = [b, g, k] {
    auto t = std::make_shared<Sometimes<int>>(copy_cat_em(g, k), true);
    t->bb.alpha = b->bb.alpha; t->bb.beta = b->bb.beta;
    return t;
  };
  s.gen = [k](Ctx& c) { int x = c.in(0, k - 1); return P<int>(x, c.coin() ? x : (int)c.in(0, k - 1)); };
  return s;
}
static string corrupt(Ctx& c, string s, int edits) {
  for (int i = 0; i < edits; ++i) {
    int k = c.in(0, 2);
    int pos = c.in(0, (long)s.size());
    if (k == 0) s.insert(pos, 1, (char)c.in(' ', '~'));
    else if (pos < (int)s.size()) { if (k == 1) s.erase(pos, 1); else s[pos] = (char)c.in(' ', '~'); }
  }
  return s;
}
static P<string> gen_typo(Ctx& c) {
  string a = rand_str(c, 'a', 'd', 6);
  return {a, corrupt(c, a, c.coin(0.5) ? 0 : c.in(1, 3))};
}
static Sub<P<string>> mk_em_simple(Ctx& c) {
  Sub<P<string>> s;
  s.name = "simple_string";
  SimpleStringEmission* b = c.coin() ? new SimpleStringEmission
      : dynamic_cast<SimpleStringEmission*>(std::get<Emission<string>*>(get_prior(EmissionSpec("simple_string"))));
  for (auto* x : {&b->substitutions, &b->insertions, &b->deletions}) x->alpha = std::exp(c.normal()), x->beta = std::exp(c.normal());
  s.d.reset(b);
  s.twin = [b] {
    auto t = std::make_shared<SimpleStringEmission>();
    t->substitutions.alpha = b->substitutions.alpha; t->substitutions.beta = b->substitutions.beta;
    t->insertions.alpha = b->insertions.alpha; t->insertions.beta = b->insertions.beta;
    t->deletions.alpha = b->deletions.alpha; t->deletions.beta = b->deletions.beta;
    return t;
  };
  s.gen = gen_typo;
  return s;
}

static Sub<P<string>> mk_em_bigram(Ctx& c) {
  Sub<P<string>> s;
  s.name = "bigram_string";
  s.incremental = false;
  BigramStringEmission* b = c.coin() ? new BigramStringEmission
      : dynamic_cast<BigramStringEmission*>(std::get<Emission<string>*>(get_prior(EmissionSpec("bigram"))));
  s.d.reset(b);
  s.twin = [] { return std::make_shared<BigramStringEmission>(); };
  s.gen = gen_typo;
  return s;
}

template <class F>
static void with_dist(Ctx& c, int k, F f) {
  switch (k) {
    case 0: { auto s = mk_bernoulli(c); f(s); break; }
    case 1: { auto s = mk_categorical(c); f(s); break; }
    case 2: { auto s = mk_stringcat(c); f(s); break; }
    case 3: { auto s = mk_bigram(c); f(s); break; }
    case 4: { auto s = mk_stringnat(c); f(s); break; }
    case 5: { auto s = mk_normal(c); f(s); break; }
    case 6: { auto s = mk_zmn(c); f(s); break; }
    case 7: { auto s = mk_skellam(c); f(s); break; }
    case 8: { auto s = mk_adapter_normal(c); f(s); break; }
    case 9: { auto s = mk_adapter_skellam(c); f(s); break; }
  }
}
template <class F>
static void with_emission(Ctx& c, int k, F f) {
  switch (k) {
    case 0: { auto s = mk_em_bool(c); f(s); break; }
    case 1: { auto s = mk_em_double(c); f(s); break; }
    case 2: { auto s = mk_em_cat(c); f(s); break; }
    case 3: { auto s = mk_em_simple(c); f(s); break; }
    case 4: { auto s = mk_em_sometimes_cat(c); f(s); break; }
    case 5: { auto s = mk_em_bigram(c); f(s); break; }
  }
}

template <class T>
static vector<T> gen_values(Ctx& c, Sub<T>& s, int n) {
  vector<T> v;
  for (int i = 0; i < n; ++i) v.push_back(i && c.coin(0.25) ? v[c.in(0, i - 1)] : s.gen(c));
  return v;
}
// Tolerance of a score comparison: rounding grows with the magnitude of the terms.
template <class T>
static double tol_of(const Sub<T>& s, size_t n) { return s.tol * (1 + n / 20.0); }

// ------------------------------------------------------------------ C01
template <class T>
static void c01(Ctx& c, Sub<T>& s) {
  int n = c.coin(0.1) ? c.in(30, 120) : c.in(0, 14);
  if (s.name == "bigram-full") n = std::min(n, 10);
  auto xs = gen_values(c, s, n);
  c.say(s.name + fmt(" n=%d first=", n) + (n ? show(xs[0]) : "-"));
  double tol = tol_of(s, n);
  c.near(s.d->logp_score(), 0.0, s.name + ":empty-score", "score of no data", tol);
  double prev = s.d->logp_score(), total = 0;
  string sg = s.name;
  for (int i = 0; i < n; ++i) {
    const T x = xs[i];
    double lp = s.d->logp(x);
    c.check(!std::isnan(lp), s.name + ":nan", "logp is NaN for " + show(x));
    if (i % 3 == 0) {
      T y = s.gen(c);
      double ly = s.d->logp(y);
      c.near(s.d->logp_score(), prev, s.name + ":query-changes-score", "score after asking logp", tol);
      c.near(s.d->logp(x), lp, s.name + ":query-changes-logp", "logp asked twice", tol);
      (void)ly;
    }
    s.d->incorporate(x);
    double now = s.d->logp_score();
    c.near(now - prev, lp, s.name + ":predictive", "score increase vs logp of " + show(x) + fmt(" (i=%d)", i), tol);
    c.near(s.d->N, i + 1, s.name + ":N", "count", 1e-9);
    total += lp;
    prev = now;
    sg += show(x);
  }
  c.near(prev, total, s.name + ":chain", "score vs sum of sequential logp", tol);
  c.count("values_incorporated", n);
  // other orders
  auto ys = xs;
  for (int k = 0; k < 2; ++k) {
    std::shuffle(ys.begin(), ys.end(), c.rng);
    auto t = s.twin();
    for (auto&& y : ys) t->incorporate(y);
    c.near(t->logp_score(), prev, s.name + ":order", "score after a different order", tol);
    if (n) c.near(t->logp(xs[0]), s.d->logp(xs[0]), s.name + ":order-logp", "logp after a different order", tol);
  }
  if (n > 1) c.sig(sg);
}
FAMILY("C01", "predictive_dist", 30000, 600000, [](Ctx& c) {
  with_dist(c, c.idx % 10, [&](auto& s) { c01(c, s); });
});
FAMILY("C01", "predictive_noise", 12000, 240000, [](Ctx& c) {
  with_emission(c, c.idx % 4, [&](auto& s) { c01(c, s); });
});
// Weighted data: a value of weight w counts like w copies of it.
template <class T>
static void weights(Ctx& c, Sub<T>& s) {
  auto xs = gen_values(c, s, c.in(1, 6));
  auto t = s.twin();
  string sg = s.name;
  for (auto&& x : xs) {
    int w = c.in(1, 4);
    s.d->incorporate(x, w);
    for (int i = 0; i < w; ++i) t->incorporate(x);
    sg += show(x) + show(w);
  }
  c.near(s.d->N, t->N, s.name + ":weight-N", "count with weights");
  c.near(s.d->logp_score(), t->logp_score(), s.name + ":weight", "weighted value vs repeated value", std::max(1e-5, 4 * s.tol));
  c.near(s.d->logp(xs[0]), t->logp(xs[0]), s.name + ":weight-logp", "logp, weighted vs repeated value", std::max(1e-5, 4 * s.tol));
  c.say(sg);
  c.sig(sg);
}
FAMILY("C01", "weighted_values", 6000, 100000, [](Ctx& c) {
  if (c.coin(0.7)) with_dist(c, c.idx % 10, [&](auto& s) { weights(c, s); });
  else with_emission(c, c.idx % 4, [&](auto& s) { weights(c, s); });
});
// Independent reference models: sequential predictive rules written here from the
// textbook, against the score and predictive of the code.
static double t_logpdf(double x, double nu, double loc, double scale2) {
  return lgamma((nu + 1) / 2) - lgamma(nu / 2) - 0.5 * std::log(std::numbers::pi * nu * scale2) -
         (nu + 1) / 2 * std::log1p((x - loc) * (x - loc) / (nu * scale2));
}
FAMILY("C01", "reference_models", 12000, 240000, [](Ctx& c) {
  int k = c.idx % 6;
  int n = c.in(1, 25);
  double total = 0;
  string sg = fmt("ref%d", k);
  if (k == 0) {
    auto s = mk_bernoulli(c);
    auto* b = dynamic_cast<BetaBernoulli*>(s.d.get());
    double a = b->alpha, be = b->beta, ones = 0;
    for (int i = 0; i < n; ++i) {
      bool x = s.gen(c);
      double p = std::log(((x ? ones + a : i - ones + be)) / (i + a + be));
      c.near(s.d->logp(x), p, "ref:bernoulli:logp", "logp vs reference");
      s.d->incorporate(x);
      total += p; ones += x; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:bernoulli:score", "score vs reference");
  } else if (k == 1) {
    auto s = mk_categorical(c);
    auto* b = dynamic_cast<DirichletCategorical*>(s.d.get());
    double a = b->alpha; size_t K = s.support.size();
    vector<double> cnt(K);
    for (int i = 0; i < n; ++i) {
      int x = s.gen(c);
      double p = std::log((cnt[x] + a) / (i + a * K));
      c.near(s.d->logp(x), p, "ref:categorical:logp", "logp vs reference");
      s.d->incorporate(x);
      total += p; cnt[x]++; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:categorical:score", "score vs reference", 1e-6, 1e-8);
  } else if (k == 2) {
    auto s = mk_normal(c);
    auto* b = dynamic_cast<Normal*>(s.d.get());
    // Normal-inverse-gamma: kappa=r, nu=v, mu=m, sum of squares s.
    double ka = b->r, nu = b->v, mu = b->m, ss = b->s;
    for (int i = 0; i < n; ++i) {
      double x = s.gen(c);
      double p = t_logpdf(x, nu, mu, ss * (ka + 1) / (nu * ka));
      c.near(s.d->logp(x), p, "ref:normal:logp", "logp vs Student-t reference", 1e-6, 1e-7);
      s.d->incorporate(x);
      ss += ka / (ka + 1) * (x - mu) * (x - mu);
      mu = (ka * mu + x) / (ka + 1);
      ka += 1; nu += 1; total += p; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:normal:score", "score vs reference", 1e-5, 1e-7);
  } else if (k == 3) {
    auto s = mk_zmn(c);
    auto* b = dynamic_cast<ZeroMeanNormal*>(s.d.get());
    double a = b->alpha, be = b->beta;
    for (int i = 0; i < n; ++i) {
      double x = s.gen(c);
      double p = t_logpdf(x, 2 * a, 0, be / a);
      c.near(s.d->logp(x), p, "ref:zmn:logp", "logp vs Student-t reference", 1e-6, 1e-7);
      s.d->incorporate(x);
      a += 0.5; be += 0.5 * x * x; total += p; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:zmn:score", "score vs reference", 1e-5, 1e-7);
  } else if (k == 4) {
    auto s = mk_skellam(c);
    auto* b = dynamic_cast<Skellam*>(s.d.get());
    for (int i = 0; i < n; ++i) {
      int x = s.gen(c);
      // direct convolution of the two Poisson laws
      double sum = 0;
      for (int j = std::max(0, -x); j < 400; ++j)
        sum += std::exp((x + j) * std::log(b->mu1) - b->mu1 - lgamma(x + j + 1.0) + j * std::log(b->mu2) - b->mu2 - lgamma(j + 1.0));
      double p = std::log(sum);
      c.near(s.d->logp(x), p, "ref:skellam:logp", "logp vs Poisson difference", 1e-6, 1e-7);
      s.d->incorporate(x);
      total += p; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:skellam:score", "score vs reference", 1e-5, 1e-7);
  } else {
    auto s = mk_bigram(c);
    auto* b = dynamic_cast<Bigram*>(s.d.get());
    double a = b->alpha;
    std::map<std::pair<int, int>, double> cnt;
    std::map<int, double> row;
    double K = b->num_chars + 1;
    for (int i = 0; i < std::min(n, 8); ++i) {
      string x = s.gen(c);
      double p = 0;
      int prev = -1;
      for (size_t j = 0; j <= x.size(); ++j) {
        int cur = j < x.size() ? x[j] : -1;
        p += std::log((cnt[{prev, cur}] + a) / (row[prev] + a * K));
        cnt[{prev, cur}]++; row[prev]++;
        prev = cur;
      }
      c.near(s.d->logp(x), p, "ref:bigram:logp", "logp vs reference", 1e-6, 1e-7);
      s.d->incorporate(x);
      total += p; sg += show(x);
    }
    c.near(s.d->logp_score(), total, "ref:bigram:score", "score vs reference", 1e-5, 1e-7);
  }
  c.say(sg);
  if (n > 1) c.sig(sg);
});

// ------------------------------------------------------------------ C02
template <class T>
static void c02(Ctx& c, Sub<T>& s, int steps) {
  vector<T> live;
  double tol = std::max(1e-5, 4 * s.tol);
  string sg = s.name;
  long rem = 0;
  double bias = 0.3 + 0.4 * c.unit();
  auto compare = [&](const char* when) {
    auto t = s.twin();
    for (auto&& x : live) t->incorporate(x);
    c.near(s.d->N, t->N, s.name + ":N", fmt("count %s", when), 1e-9);
    c.near(s.d->logp_score(), t->logp_score(), s.name + ":score", fmt("score %s vs freshly built, %zu live", when, live.size()), tol, 1e-8);
    for (int k = 0; k < 3; ++k) {
      T y = s.gen(c);
      c.near(s.d->logp(y), t->logp(y), s.name + ":logp", fmt("logp of %s %s", show(y).c_str(), when), tol, 1e-8);
    }
  };
  for (int i = 0; i < steps; ++i) {
    if (!live.empty() && c.coin(bias)) {
      size_t j = c.in(0, (long)live.size() - 1);
      s.d->unincorporate(live[j]);
      sg += "-" + show(live[j]);
      live.erase(live.begin() + j);
      ++rem;
    } else {
      T x = !live.empty() && c.coin(0.3) ? c.pick(live) : s.gen(c);
      s.d->incorporate(x);
      sg += "+" + show(x);
      live.push_back(x);
    }
    if (c.coin(0.1)) s.d->logp(s.gen(c));
    if (c.coin(0.15)) compare("mid-history");
  }
  compare("after history");
  std::shuffle(live.begin(), live.end(), c.rng);
  while (!live.empty()) { s.d->unincorporate(live.back()); live.pop_back(); ++rem; }
  compare("after removing everything");
  c.near(s.d->logp_score(), 0.0, s.name + ":prior", "score after removing everything", tol);
  c.say(sg.substr(0, 200));
  c.count("removals", rem);
  if (rem > 1) c.sig(sg);
}
FAMILY("C02", "remove_dist", 30000, 400000, [](Ctx& c) {
  with_dist(c, c.idx % 10, [&](auto& s) { c02(c, s, s.name == "bigram-full" ? c.in(2, 10) : c.coin(0.05) ? 300 : c.in(2, 40)); });
});
FAMILY("C02", "remove_noise", 15000, 200000, [](Ctx& c) {
  with_emission(c, c.idx % 4, [&](auto& s) { c02(c, s, c.in(2, 40)); });
});
// Models that apportion a value between explanations: removal must undo its own
// addition, whatever was learnt in between.
template <class T>
static void c02_frac(Ctx& c, Sub<T>& s, int steps) {
  vector<T> live;
  string sg = s.name;
  const double score0 = s.d->logp_score();
  auto sane = [&](const char* w) {
    c.near(s.d->N, live.size(), s.name + ":N", fmt("count %s", w), 1e-6);
    for (int k = 0; k < 3; ++k) {
      double lp = s.d->logp(s.gen(c));
      c.check(lp < 1e-9 && !std::isnan(lp), s.name + ":not-a-probability", fmt("logp=%g %s", lp, w));
    }
    double sc = s.d->logp_score();
    c.check(!std::isnan(sc) && sc < score0 + 1e-5, s.name + ":score", fmt("score=%g %s", sc, w));
  };
  for (int i = 0; i < steps; ++i) {
    if (!live.empty() && c.coin(0.45)) {
      size_t j = c.in(0, (long)live.size() - 1);
      s.d->unincorporate(live[j]);
      sg += "-" + show(live[j]);
      live.erase(live.begin() + j);
    } else {
      T x = !live.empty() && c.coin(0.3) ? c.pick(live) : s.gen(c);
      s.d->incorporate(x);
      sg += "+" + show(x);
      live.push_back(x);
    }
    sane("mid-history");
  }
  std::shuffle(live.begin(), live.end(), c.rng);
  while (!live.empty()) { s.d->unincorporate(live.back()); live.pop_back(); }
  sane("after removing everything");
  auto t = s.twin();
  c.near(s.d->logp_score(), t->logp_score(), s.name + ":prior", "score after removing everything", 1e-6);
  for (int k = 0; k < 4; ++k) {
    T y = s.gen(c);
    c.near(s.d->logp(y), t->logp(y), s.name + ":prior-logp", "logp after removing everything", 1e-6);
  }
  // undoing the latest addition restores the state exactly
  auto xs = gen_values(c, s, c.in(0, 6));
  for (auto&& x : xs) s.d->incorporate(x);
  T y = s.gen(c), z = s.gen(c);
  double sc = s.d->logp_score(), lz = s.d->logp(z);
  s.d->incorporate(y);
  s.d->unincorporate(y);
  c.near(s.d->logp_score(), sc, s.name + ":undo", "score after adding and removing " + show(y), 1e-6);
  c.near(s.d->logp(z), lz, s.name + ":undo-logp", "logp after adding and removing " + show(y), 1e-6);
  c.say(sg.substr(0, 200));
  c.sig(sg);
}
FAMILY("C02", "remove_apportioned", 6000, 80000, [](Ctx& c) {
  with_emission(c, 4, [&](auto& s) { c02_frac(c, s, c.in(2, 25)); });
});
// String noise whose pairs have one clearly best explanation: what is removed is
// what was added, up to the tiny weight of the other explanations.
static P<string> gen_clear(Ctx& c) {
  string pool = "abcdefghijklm", a;
  std::shuffle(pool.begin(), pool.end(), c.rng);
  a = pool.substr(0, c.in(1, 6));
  string b = a;
  int k = c.in(0, 5), pos = c.in(0, (long)a.size() - 1);
  if (k == 0) b[pos] = 'x';
  else if (k == 1) b.insert(pos, 1, 'x');
  else if (k == 2) b.erase(pos, 1);
  return {a, b};
}
FAMILY("C02", "remove_string_noise", 400, 8000, [](Ctx& c) {
  BigramStringEmission e;
  vector<P<string>> live;
  string sg;
  const double tol = 0.02;
  double score0 = e.logp_score();
  auto same_as_fresh = [&](const char* w) {
    BigramStringEmission t;
    for (auto& x : live) t.incorporate(x);
    c.near(e.N, live.size(), "bigram_string:N", fmt("count %s", w), 1e-6);
    c.near(e.logp_score(), t.logp_score(), "bigram_string:score", fmt("score %s vs freshly built", w), tol);
    for (int k = 0; k < 2; ++k) {
      auto y = live.size() && c.coin(0.3) ? c.pick(live) : gen_clear(c);
      c.near(e.logp(y), t.logp(y), "bigram_string:logp", fmt("logp %s vs freshly built", w), tol);
    }
  };
  for (int i = c.in(2, 14); i > 0; --i) {
    if (!live.empty() && c.coin(0.45)) {
      size_t j = c.in(0, (long)live.size() - 1);
      e.unincorporate(live[j]);
      sg += "-" + show(live[j]);
      live.erase(live.begin() + j);
    } else {
      live.push_back(!live.empty() && c.coin(0.3) ? c.pick(live) : gen_clear(c));
      e.incorporate(live.back());
      sg += "+" + show(live.back());
    }
    if (c.coin(0.2)) same_as_fresh("mid-history");
  }
  same_as_fresh("after history");
  while (!live.empty()) { e.unincorporate(live.back()); live.pop_back(); }
  c.near(e.logp_score(), score0, "bigram_string:prior", "score after removing everything", tol);
  c.near(e.N, 0, "bigram_string:N", "count after removing everything", 1e-6);
  c.say(sg.substr(0, 200));
  c.sig(sg);
});
// Pairs with several equally good explanations (known finding).
FAMILY("C02", "string_noise_ambiguous", 1, 1, [](Ctx& c) {
  BigramStringEmission e;
  std::mt19937 r(7);
  double sc = e.logp_score(), worst = 0;
  for (int i = 0; i < 20 && worst < 1e-3; ++i) {
    string a, b;
    for (int k = 4 + r() % 8; k > 0; --k) a += 'a' + r() % 3;
    for (int k = 4 + r() % 8; k > 0; --k) b += 'b' + r() % 3;
    e.incorporate({a, b});
    e.unincorporate({a, b});
    worst = std::max(worst, std::fabs(e.logp_score() - sc));
    e.incorporate({a, b});
    sc = e.logp_score();
  }
  c.sig("x");
  c.say("pairs of unrelated strings over a small alphabet added and removed");
  c.check(worst < 1e-3, "bigram_string:ambiguous-undo", fmt("score changes by %g when an ambiguous pair is added and removed", worst));
});

// ------------------------------------------------------------------ C03
static double logsum(const vector<double>& v) {
  double m = -INFINITY;
  for (double x : v) m = std::max(m, x);
  if (std::isinf(m)) return m;
  double s = 0;
  for (double x : v) s += std::exp(x - m);
  return m + std::log(s);
}
template <class T>
static void train(Ctx& c, Sub<T>& s, int maxn, bool hypers = true) {
  vector<T> live;
  int n = c.in(0, maxn);
  for (int i = 0; i < n; ++i) {
    if (!live.empty() && c.coin(0.25)) { s.d->unincorporate(live.back()); live.pop_back(); }
    else { live.push_back(s.gen(c)); s.d->incorporate(live.back()); }
  }
  if (hypers && c.coin(0.5)) for (int k = c.in(1, 3); k > 0; --k) s.d->transition_hyperparameters(&c.rng);
  c.say(s.name + fmt(" live=%zu ", live.size()) + (live.empty() ? "" : show(live[0])));
  c.sig(s.name + fmt("%zu:%.12g", live.size(), s.d->logp_score()));
}
template <class T>
static void sum_support(Ctx& c, Sub<T>& s) {
  vector<double> lps;
  for (auto&& x : s.support) {
    double lp = s.d->logp(x);
    c.check(!std::isnan(lp) && lp <= 1e-9, s.name + ":prob>1", fmt("logp(%s)=%g", show(x).c_str(), lp));
    lps.push_back(lp);
  }
  c.near(logsum(lps), 0.0, s.name + ":sum", "log of the total probability", 1e-7);
}
FAMILY("C03", "finite_support", 20000, 400000, [](Ctx& c) {
  with_dist(c, c.idx % 3, [&](auto& s) { train(c, s, 25); sum_support(c, s); });
});
// Strings: all strings up to a length, plus the mass the reference model gives to longer prefixes.
FAMILY("C03", "strings", 1500, 30000, [](Ctx& c) {
  char lo = 'a', hi = 'a' + c.in(0, 2);
  int K = hi - lo + 1;
  int L = K == 1 ? 12 : K == 2 ? 7 : 5;
  Bigram b(c.coin() ? 0 : L, lo, hi);
  b.set_alpha(hyper(c));
  std::map<std::pair<int, int>, double> cnt;
  std::map<int, double> row;
  int n = c.in(0, 10);
  string sg;
  for (int i = 0; i < n; ++i) {
    string x = rand_str(c, lo, hi, std::min(L, 5));
    b.incorporate(x);
    int prev = -1;
    for (size_t j = 0; j <= x.size(); ++j) {
      int cur = j < x.size() ? x[j] : -1;
      cnt[{prev, cur}]++; row[prev]++; prev = cur;
    }
    sg += x + ",";
  }
  if (c.coin(0.3)) b.transition_hyperparameters(&c.rng);
  double total = 0, a = b.alpha;
  long strings = 0;
  std::function<void(string, int, double)> rec = [&](string s, int prev, double lp) {
    // lp: reference log probability of the prefix s
    if ((int)s.size() == L + 1) { total += std::exp(lp); return; }
    if ((int)s.size() <= L) {
      double x = b.logp(s);
      c.check(x <= 1e-9 && !std::isnan(x), "bigram:prob>1", "logp " + show(s));
      total += std::exp(x);
      ++strings;
    }
    for (int ch = lo; ch <= hi; ++ch) {
      double q = std::log((cnt[{prev, ch}] + a) / (row[prev] + a * (K + 1)));
      cnt[{prev, ch}]++; row[prev]++;
      rec(s + (char)ch, ch, lp + q);
      cnt[{prev, ch}]--; row[prev]--;
    }
  };
  rec("", -1, 0);
  c.near(total, 1.0, "bigram:sum", fmt("total probability of all strings (%ld enumerated)", strings), 1e-7);
  c.count("strings_enumerated", strings);
  c.say(fmt("bigram alphabet %d L=%d alpha=%g data=", K, L, a) + sg);
  c.sig(fmt("%d,%g,", K, a) + sg);
});
// Integral of exp(logp) over the real line with x = loc + scale*sinh(t).
static double integrate(const std::function<double(double)>& lp, double loc, double scale, double T = 60, double h = 0.01) {
  double s = 0;
  for (double t = -T; t <= T; t += h) {
    double l = lp(loc + scale * std::sinh(t));
    double w = std::log(scale * std::cosh(t));
    s += std::exp(l + w);
  }
  return s * h;
}
FAMILY("C03", "densities", 1500, 30000, [](Ctx& c) {
  int k = c.idx % 3;
  double loc = 0, scale = 1;
  Sub<double> s = k == 0 ? mk_normal(c) : mk_zmn(c);
  if (k) { auto* z = dynamic_cast<ZeroMeanNormal*>(s.d.get()); z->alpha = std::max(z->alpha, 0.1); }
  train(c, s, 20, k == 0);
  if (auto* nn = dynamic_cast<Normal*>(s.d.get())) {
    double m, sp;
    nn->posterior_hypers(&m, &sp);
    loc = m; scale = std::sqrt(sp);
    double I = integrate([&](double x) { return s.d->logp(x); }, loc, scale, 40);
    c.near(I, 1.0, "normal:integral", "integral of the predictive density", 1e-4);
  } else if (auto* z = dynamic_cast<ZeroMeanNormal*>(s.d.get())) {
    scale = std::sqrt((z->beta + 1e-12) / z->alpha);
    double I;
    if (k == 1) I = integrate([&](double x) { return s.d->logp(x); }, 0, scale, 150);
    else {
      GaussianEmission g;
      g.zmn.alpha = z->alpha; g.zmn.beta = z->beta;
      int n = c.in(0, 10);
      for (int i = 0; i < n; ++i) { double x = c.normal(); g.incorporate({x, x + c.normal() * scale}); }
      double cl = 10 * c.normal();
      I = integrate([&](double x) { return g.logp({cl, cl + x}); }, 0, scale, 150);
    }
    c.near(I, 1.0, k == 1 ? "zmn:integral" : "gaussian:integral", "integral of the predictive density", 1e-4);
  }
});
FAMILY("C03", "skellam", 1500, 30000, [](Ctx& c) {
  Skellam s;
  s.mu1 = std::exp(1.5 * c.normal());
  s.mu2 = std::exp(1.5 * c.normal());
  if (c.coin(0.3)) { s.mu1 *= 30; s.mu2 *= 30; }
  for (int i = c.in(0, 5); i > 0; --i) s.incorporate(c.in(-9, 9));
  if (c.coin(0.3)) { auto v = s.store_latents(); s.set_latents(v); s.transition_hyperparameters(&c.rng); }
  s.mu1 = std::min(s.mu1, 300.); s.mu2 = std::min(s.mu2, 300.);
  double tot = 0, mean = s.mu1 - s.mu2, sd = std::sqrt(s.mu1 + s.mu2);
  long lo = std::floor(mean - 12 * sd - 30), hi = std::ceil(mean + 12 * sd + 30);
  for (long x = lo; x <= hi; ++x) {
    double lp = s.logp((int)x);
    c.check(!std::isnan(lp) && lp <= 1e-9, "skellam:prob>1", fmt("logp(%ld)=%g mu %g %g", x, lp, s.mu1, s.mu2));
    tot += std::exp(lp);
  }
  c.near(tot, 1.0, "skellam:sum", fmt("total probability mu1=%g mu2=%g", s.mu1, s.mu2), 1e-6);
  c.say(fmt("skellam mu=%g,%g", s.mu1, s.mu2));
  c.sig(fmt("%g,%g", s.mu1, s.mu2));
});
// Latent rates of any size the model itself can draw keep giving probabilities.
FAMILY("C03", "skellam_extreme", 300, 6000, [](Ctx& c) {
  Skellam s;
  s.mu1 = std::exp(12 * c.unit());
  s.mu2 = c.coin() ? s.mu1 * std::exp(0.3 * c.normal()) : std::exp(12 * c.unit() - 4);
  double mean = s.mu1 - s.mu2, sd = std::sqrt(s.mu1 + s.mu2);
  double tot = 0;
  long lo = std::floor(mean - 9 * sd - 5), hi = std::ceil(mean + 9 * sd + 5);
  for (long x = lo; x <= hi; ++x) {
    double lp = s.logp((int)x);
    c.check(!std::isnan(lp) && lp <= 1e-6, "skellam-extreme:prob>1", fmt("logp(%ld)=%g mu %g %g", x, lp, s.mu1, s.mu2));
    tot += std::exp(lp);
  }
  c.near(tot, 1.0, "skellam-extreme:sum", fmt("total probability mu1=%g mu2=%g", s.mu1, s.mu2), 1e-4);
  c.say(fmt("skellam mu=%g,%g", s.mu1, s.mu2));
  c.sig(fmt("%g,%g", s.mu1, s.mu2));
});
FAMILY("C03", "noise_models", 8000, 160000, [](Ctx& c) {
  int k = c.idx % 4;
  if (k == 0) {
    auto s = mk_em_bool(c);
    train(c, s, 25);
    if (s.name != "sometimes_bitflip") return;
    for (bool cl : {false, true})
      c.near(std::exp(s.d->logp({cl, false})) + std::exp(s.d->logp({cl, true})), 1.0, s.name + ":sum", "total over noisy values", 1e-8);
  } else if (k < 3) {
    auto s = k == 1 ? mk_em_cat(c) : mk_em_sometimes_cat(c);
    train(c, s, 25);
    size_t K = k == 1 ? dynamic_cast<CategoricalEmission*>(s.d.get())->emission_dists.size()
        : dynamic_cast<CategoricalEmission*>(dynamic_cast<Sometimes<int>*>(s.d.get())->be)->emission_dists.size();
    for (size_t cl = 0; cl < K; ++cl) {
      double t = 0;
      for (size_t x = 0; x < K; ++x) t += std::exp(s.d->logp({(int)cl, (int)x}));
      c.near(t, 1.0, s.name + ":sum", fmt("total over noisy values of clean %zu", cl), 1e-8);
    }
  } else {
    auto* g = new GaussianEmission;
    Sometimes<double> s(g);
    s.bb.alpha = hyper(c); s.bb.beta = hyper(c);
    g->zmn.alpha = 0.5 + c.unit(); g->zmn.beta = 0.5 + c.unit();
    int n = c.in(0, 12);
    for (int i = 0; i < n; ++i) { double x = c.normal(); s.incorporate({x, c.coin() ? x : x + c.normal()}); }
    double cl = c.normal();
    double I = integrate([&](double x) { return x == 0 ? -INFINITY : s.logp({cl, cl + x}); }, 1e-9, 1, 80);
    c.near(I + std::exp(s.logp({cl, cl})), 1.0, "sometimes_gaussian:sum", "point mass plus integral", 1e-4);
    c.say(fmt("sometimes_gaussian n=%d", n));
    c.sig(fmt("sg%d,%g", n, s.logp_score()));
  }
});
// Long and strange strings under the learnt string noise keep getting probabilities.
FAMILY("C03", "bigram_string", 200, 4000, [](Ctx& c) {
  BigramStringEmission e;
  for (int i = c.in(0, 4); i > 0; --i) e.incorporate(gen_typo(c));
  for (int i = 0; i < 3; ++i) {
    string a = rand_str(c, ' ', '~', c.coin(0.3) ? 90 : 12);
    string b = c.coin(0.2) ? rand_str(c, ' ', '~', 30) : corrupt(c, a, c.in(0, 6));
    double lp = e.logp({a, b});
    c.check(std::isfinite(lp) && lp < 1e-6, "bigram_string:prob>1", fmt("logp=%g for ", lp) + show(a) + "->" + show(b));
    if (!a.empty() && i == 0) {
      double l2 = e.logp({a, string(a.size() + 3, a[0] == '~' ? '!' : '~')});
      c.check(e.logp({a, a}) > l2, "bigram_string:copy", "an exact copy is less probable than total corruption");
    }
    e.incorporate({a, b});
    c.check(std::isfinite(e.logp_score()), "bigram_string:score", "score is not finite after " + show(a) + "->" + show(b));
    c.sig(a + ">" + b);
    c.say(show(a) + "->" + show(b) + " ");
  }
});
// Simple string noise: no outcome may be more probable than certain.
FAMILY("C03", "simple_string_prob", 1, 1, [](Ctx& c) {
  SimpleStringEmission e;
  double lp = e.logp({"", "a"});
  c.sig("ss");
  c.say("P('a' | clean '') under a fresh simple_string model");
  c.check(lp <= 1e-9, "simple_string:prob>1", fmt("log P('a'|'')=%g > 0", lp));
});

// ------------------------------------------------------------------ C04
template <class T>
static void freq(Ctx& c, Sub<T>& s, const vector<T>& cells, const vector<double>& prob, const std::function<T()>& draw, long n, const string& key) {
  std::map<T, size_t> ix;
  for (size_t i = 0; i < cells.size(); ++i) ix[cells[i]] = i;
  vector<double> pr = prob;
  double tot = 0;
  for (double p : pr) tot += p;
  pr.push_back(std::max(0.0, 1 - tot));
  if (pr.back() < 1e-12) pr.back() = 0;
  mon::stat_test(c, key, s.name + " sampled frequencies", n, pr, [&](long m) {
    vector<long> o(pr.size());
    for (long i = 0; i < m; ++i) {
      auto it = ix.find(draw());
      ++o[it == ix.end() ? pr.size() - 1 : it->second];
    }
    return o;
  });
}
template <class T>
static void freq_support(Ctx& c, Sub<T>& s, long n) {
  vector<double> p;
  for (auto&& x : s.support) p.push_back(std::exp(s.d->logp(x)));
  double sc = s.d->logp_score(), N = s.d->N;
  freq<T>(c, s, s.support, p, [&] { return s.d->sample(&c.rng); }, n, s.name + ":freq");
  c.near(s.d->logp_score(), sc, s.name + ":sample-changes", "score after sampling", 1e-9);
  c.near(s.d->N, N, s.name + ":sample-changes-N", "count after sampling", 1e-9);
}
FAMILY("C04", "finite_support", 900, 12000, [](Ctx& c) {
  with_dist(c, c.idx % 3, [&](auto& s) { train(c, s, 20); freq_support(c, s, 6000); });
});
FAMILY("C04", "strings", 150, 2400, [](Ctx& c) {
  bool nat = c.coin(0.3);
  char lo = nat ? '0' : 'a', hi = nat ? '9' : 'a' + c.in(0, 3);
  size_t ml = c.coin(0.6) ? c.in(1, 4) : 12;
  Sub<string> s;
  s.name = nat ? "string_nat" : "bigram";
  Bigram* b = nat ? new StringNat(ml) : new Bigram(ml, lo, hi);
  s.d.reset(b);
  b->set_alpha(c.coin() ? 1.0 : c.pick(vector<double>{0.1, 1, 10}));
  s.gen = [lo, hi, ml](Ctx& c) { return rand_str(c, lo, hi, std::min<int>(ml, 4)); };
  train(c, s, 15);
  vector<string> cells;
  vector<double> pr;
  size_t L = std::min<size_t>(ml, nat ? 2 : 3);
  std::function<void(string)> rec = [&](string x) {
    if (x.size() < ml) { cells.push_back(x); pr.push_back(std::exp(b->logp(x))); }
    if (x.size() >= L) return;
    for (int ch = lo; ch <= hi; ++ch) rec(x + (char)ch);
  };
  rec("");
  double sc = b->logp_score(), N = b->N;
  freq<string>(c, s, cells, pr, [&] {
    string x = b->sample(&c.rng);
    c.check(x.size() <= ml, s.name + ":length", "sample longer than the maximum length: " + show(x));
    for (char ch : x) c.check(ch >= lo && ch <= hi, s.name + ":alphabet", "sample outside the alphabet: " + show(x));
    return x;
  }, 4000, s.name + ":freq");
  c.near(b->logp_score(), sc, s.name + ":sample-changes", "score after sampling", 1e-7);
  c.near(b->N, N, s.name + ":sample-changes-N", "count after sampling", 1e-9);
});
// Continuous laws: draws fall into intervals with the integrated density.
// alt: the law that a known defect of the sampler follows instead; when that one fits,
// the finding is reported under its own key, and anything else as `name:freq`.
static void pit(Ctx& c, const string& name, const std::function<double(double)>& lp, double loc, double scale, const std::function<double()>& draw, long n,
                const std::function<double(double)>& alt = nullptr, const string& alt_key = "") {
  // cell edges at sinh-spaced points; probabilities by Simpson quadrature of exp(logp)
  vector<double> edges;
  for (double t = -3; t <= 3.001; t += 0.4) edges.push_back(loc + scale * std::sinh(t));
  auto cells = [&](const std::function<double(double)>& lp) {
    vector<double> pr;
    double tot = 0;
    for (size_t i = 0; i + 1 < edges.size(); ++i) {
      double a = edges[i], b = edges[i + 1];
      int m = 60;
      double h = (b - a) / m, s = std::exp(lp(a)) + std::exp(lp(b));
      for (int j = 1; j < m; ++j) s += (j % 2 ? 4 : 2) * std::exp(lp(a + j * h));
      pr.push_back(s * h / 3);
      tot += pr.back();
    }
    c.check(tot < 1 + 1e-3, name + ":mass", fmt("mass %g", tot));
    pr.push_back(std::max(0.0, 1 - tot));
    return pr;
  };
  vector<double> pr = cells(lp);
  auto sample = [&](long m) {
    vector<long> o(pr.size());
    for (long i = 0; i < m; ++i) {
      double x = draw();
      auto it = std::upper_bound(edges.begin(), edges.end(), x);
      size_t k = it - edges.begin();
      ++o[(k == 0 || k == edges.size()) ? pr.size() - 1 : k - 1];
    }
    return o;
  };
  try {
    mon::stat_test(c, name + ":freq", name + " sampled intervals", n, pr, sample);
  } catch (mon::Violation& v) {
    if (alt && mon::chi2_p(sample(4 * n), cells(alt)) > 1e-7) v.key = alt_key;
    throw;
  }
}
FAMILY("C04", "densities", 600, 9000, [](Ctx& c) {
  int k = c.idx % 4;
  if (k == 0) {
    auto s = mk_normal(c);
    train(c, s, 20);
    auto* nn = dynamic_cast<Normal*>(s.d.get());
    double m, sp;
    nn->posterior_hypers(&m, &sp);
    double sc = nn->logp_score();
    pit(c, "normal", [&](double x) { return s.d->logp(x); }, m, std::sqrt(sp / (nn->v + nn->N)), [&] { return s.d->sample(&c.rng); }, 6000);
    c.near(nn->logp_score(), sc, "normal:sample-changes", "score after sampling", 1e-9);
  } else if (k == 1) {
    auto s = mk_zmn(c);
    auto* z = dynamic_cast<ZeroMeanNormal*>(s.d.get());
    z->alpha = 0.3 + 3 * c.unit(); z->beta = std::exp(c.normal());
    train(c, s, 20, false);
    double ss = z->beta + 0.5 * z->var * z->N, a = z->alpha + z->N / 2;
    double ss2 = z->beta + z->var * z->N;
    pit(c, "zmn", [&](double x) { return s.d->logp(x); }, 0, std::sqrt(ss / a), [&] { return s.d->sample(&c.rng); }, 6000,
        [&](double x) { return t_logpdf(x, 2 * a, 0, ss2 / a); }, "zmn:freq-double-sum-of-squares");
  } else if (k == 2) {
    GaussianEmission g;
    g.zmn.alpha = 0.3 + 3 * c.unit(); g.zmn.beta = std::exp(c.normal());
    int n = c.in(0, 10);
    for (int i = 0; i < n; ++i) { double x = c.normal(); g.incorporate({x, x + c.normal()}); }
    double cl = 5 * c.normal();
    double ss = g.zmn.beta + 0.5 * g.zmn.var * g.zmn.N, a = g.zmn.alpha + g.zmn.N / 2;
    c.sig(fmt("ge%d,%g", n, g.logp_score()));
    double ss2 = g.zmn.beta + g.zmn.var * g.zmn.N;
    pit(c, "gaussian", [&](double x) { return g.logp({cl, x}); }, cl, std::sqrt(ss / a), [&] { return g.sample_corrupted(cl, &c.rng); }, 6000,
        [&](double x) { return t_logpdf(x, 2 * a, cl, ss2 / a); }, "gaussian:freq-double-sum-of-squares");
  } else {
    auto* g = new GaussianEmission;
    Sometimes<double> s(g);
    s.bb.alpha = 0.5 + c.unit(); s.bb.beta = 0.5 + c.unit();
    int n = c.in(0, 10);
    for (int i = 0; i < n; ++i) { double x = c.normal(); s.incorporate({x, c.coin() ? x : x + c.normal()}); }
    double cl = 5 * c.normal(), eq = std::exp(s.logp({cl, cl}));
    c.sig(fmt("sg%d,%g", n, s.logp_score()));
    mon::stat_test(c, "sometimes_gaussian:equal", "how often the noisy value equals the clean one", 6000, {eq, 1 - eq}, [&](long m) {
      vector<long> o(2);
      for (long i = 0; i < m; ++i) ++o[s.sample_corrupted(cl, &c.rng) == cl ? 0 : 1];
      return o;
    });
  }
});
FAMILY("C04", "skellam", 300, 4000, [](Ctx& c) {
  Sub<int> s;
  s.name = "skellam";
  auto* b = new Skellam;
  b->mu1 = std::exp(1.2 * c.normal()); b->mu2 = std::exp(1.2 * c.normal());
  s.d.reset(b);
  c.sig(fmt("%g,%g", b->mu1, b->mu2));
  c.say(fmt("skellam mu=%g,%g", b->mu1, b->mu2));
  vector<int> cells;
  vector<double> pr;
  for (int x = -60; x <= 60; ++x) cells.push_back(x), pr.push_back(std::exp(b->logp(x)));
  if (c.coin(0.5)) {
    freq<int>(c, s, cells, pr, [&] { return b->sample(&c.rng); }, 6000, "skellam:freq");
  } else {
    Skellam* own = new Skellam;
    own->mu1 = b->mu1; own->mu2 = b->mu2;
    DistributionAdapter<int> a(own);
    freq<int>(c, s, cells, pr, [&] { return atoi(a.sample(&c.rng).c_str()); }, 6000, "string_skellam:freq");
  }
});
FAMILY("C04", "noise_models", 900, 12000, [](Ctx& c) {
  int k = c.idx % 3;
  if (k == 0) {
    auto s = mk_em_bool(c);
    train(c, s, 20);
    auto* e = dynamic_cast<Emission<bool>*>(s.d.get());
    bool cl = c.coin();
    if (s.name == "bitflip") { c.check(e->sample_corrupted(cl, &c.rng) == !cl, "bitflip:value", "bit flip must flip"); return; }
    if (s.name != "sometimes_bitflip") { c.check(e->sample_corrupted(cl, &c.rng) == cl, "identity:value", "identity must keep"); return; }
    double p = std::exp(e->logp({cl, !cl}));
    mon::stat_test(c, "sometimes_bitflip:freq", "flip frequency", 6000, {1 - p, p}, [&](long m) {
      vector<long> o(2);
      for (long i = 0; i < m; ++i) ++o[e->sample_corrupted(cl, &c.rng) != cl];
      return o;
    });
  } else {
    auto s = k == 1 ? mk_em_cat(c) : mk_em_sometimes_cat(c);
    train(c, s, 20);
    auto* e = dynamic_cast<Emission<int>*>(s.d.get());
    auto* ce = k == 1 ? dynamic_cast<CategoricalEmission*>(e) : dynamic_cast<CategoricalEmission*>(dynamic_cast<Sometimes<int>*>(e)->be);
    int K = ce->emission_dists.size(), cl = c.in(0, K - 1);
    vector<double> pr;
    for (int x = 0; x < K; ++x) pr.push_back(std::exp(e->logp({cl, x})));
    mon::stat_test(c, s.name + ":freq", "noisy value frequency", 6000, pr, [&](long m) {
      vector<long> o(K);
      for (long i = 0; i < m; ++i) ++o.at(e->sample_corrupted(cl, &c.rng));
      return o;
    });
  }
});
// String noise: only printable characters come out, every sample can be scored, and
// the amount of noise follows the learnt rates.
FAMILY("C04", "simple_string", 200, 3000, [](Ctx& c) {
  SimpleStringEmission e;
  int n = c.in(20, 60);
  for (int i = 0; i < n; ++i) e.incorporate(gen_typo(c));
  string clean = rand_str(c, 'a', 'd', 8) + "x";
  c.sig(fmt("%d,%g,", n, e.logp_score()) + clean);
  c.say("clean=" + clean);
  double pi = std::exp(e.insertions.logp(true)), pd = std::exp(e.deletions.logp(true));
  // length = kept + inserted; moments
  double mean = clean.size() * (1 - pd) + (clean.size() + 1) * pi / (1 - pi);
  double var = clean.size() * pd * (1 - pd) + (clean.size() + 1) * pi / (1 - pi) / (1 - pi);
  auto z_of = [&](int m) {
    double s = 0;
    for (int i = 0; i < m; ++i) {
      string d = e.sample_corrupted(clean, &c.rng);
      for (char ch : d) c.check(ch >= e.lowest_char && ch <= e.highest_char, "simple_string:alphabet", fmt("sampled character 0x%02x is outside the printable range", (unsigned char)ch));
      s += d.size();
      if (i < 5) c.check(!std::isnan(e.logp({clean, d})), "simple_string:score", "cannot score " + d);
    }
    return (s / m - mean) / std::sqrt(var / m);
  };
  if (std::fabs(z_of(3000)) > 5) c.check(std::fabs(z_of(12000)) < 6, "simple_string:length", fmt("mean noisy length deviates from the learnt rates (expected %g)", mean));
});
FAMILY("C04", "bigram_string", 60, 1000, [](Ctx& c) {
  BigramStringEmission e;
  int n = c.in(0, 10);
  for (int i = 0; i < n; ++i) e.incorporate(gen_typo(c));
  string clean = rand_str(c, 'a', 'd', 6);
  c.sig(fmt("%d,%g,", n, e.logp_score()) + clean);
  c.say("clean=" + clean);
  // noise-free probability: no insertion anywhere, every character copied
  double p0 = 0;
  int ctx = 0;
  for (char ch : clean) {
    p0 += e.insertions[ctx].logp(0);
    ctx = e.get_index(ch);
    p0 += e.substitutions[ctx].logp(ctx);
  }
  p0 = std::exp(p0 + e.insertions[ctx].logp(0));
  // (different corruptions could recreate the clean string, with negligible probability)
  mon::stat_test(c, "bigram_string:copy", "how often a string is copied unchanged", 400, {p0, 1 - p0}, [&](long m) {
    vector<long> o(2);
    for (long i = 0; i < m; ++i) {
      string d = e.sample_corrupted(clean, &c.rng);
      for (char ch : d) c.check(ch >= ' ' && ch <= '~', "bigram_string:alphabet", fmt("sampled character 0x%02x", (unsigned char)ch));
      ++o[d == clean ? 0 : 1];
    }
    return o;
  });
});
// All reals of a text-valued numeric distribution read back as a scoreable number.
FAMILY("C04", "string_normal", 200, 3000, [](Ctx& c) {
  auto s = mk_adapter_normal(c);
  train(c, s, 10);
  for (int i = 0; i < 200; ++i) {
    string x = s.d->sample(&c.rng);
    char* end;
    strtod(x.c_str(), &end);
    c.check(*end == 0 && !x.empty(), "string_normal:text", "not a number: " + show(x));
    c.check(std::isfinite(s.d->logp(x)), "string_normal:score", "not scoreable: " + show(x));
  }
});

// ------------------------------------------------------------------ C05
// Generic: `key` reads the hyperparameters, `set` writes them; the reachable settings
// are found by running the update many times with and without data.
struct Hyp {
  string name;
  std::function<vector<double>()> get;
  std::function<void(const vector<double>&)> set;
  std::function<double()> score;
  std::function<void()> step;
  std::function<double()> count;
  std::set<vector<double>> grid;
};
static void c05(Ctx& c, Hyp& h, long n) {
  c.sig(h.name + fmt("%g,%.10g", h.count(), h.score()));
  c.say(h.name + fmt(" N=%g grid=%zu", h.count(), h.grid.size()));
  vector<vector<double>> g(h.grid.begin(), h.grid.end());
  auto keep = h.get();
  vector<double> lps;
  for (auto& x : g) { h.set(x); lps.push_back(h.score()); }
  h.set(keep);
  double z = logsum(lps), N = h.count();
  vector<double> pr;
  for (double l : lps) pr.push_back(std::exp(l - z));
  pr.push_back(0);  // anything outside the grid
  std::map<vector<double>, size_t> ix;
  for (size_t i = 0; i < g.size(); ++i) ix[g[i]] = i;
  mon::stat_test(c, h.name + ":law", h.name + " setting frequencies", n, pr, [&](long m) {
    vector<long> o(pr.size());
    for (long i = 0; i < m; ++i) {
      h.step();
      auto it = ix.find(h.get());
      ++o[it == ix.end() ? g.size() : it->second];
    }
    return o;
  });
  c.near(h.count(), N, h.name + ":count", "count after the update", 1e-9);
  for (int k = 0; k < 3; ++k) {
    size_t i = c.in(0, (long)g.size() - 1);
    h.set(g[i]);
    c.near(h.score(), lps[i], h.name + ":data", "score at a fixed setting after updates", 1e-9);
  }
}
static void discover(Hyp& h, long n) {
  for (long i = 0; i < n; ++i) { h.step(); h.grid.insert(h.get()); }
}
static Hyp hyp_bb(const string& n, BetaBernoulli* b, std::mt19937* r) {
  Hyp h;
  h.name = n;
  h.get = [b] { return vector<double>{b->alpha, b->beta}; };
  h.set = [b](const vector<double>& v) { b->alpha = v[0]; b->beta = v[1]; };
  h.score = [b] { return b->logp_score(); };
  h.step = [b, r] { b->transition_hyperparameters(r); };
  h.count = [b] { return b->N; };
  return h;
}
static Hyp hyp_dc(const string& n, DirichletCategorical* b, std::mt19937* r) {
  Hyp h;
  h.name = n;
  h.get = [b] { return vector<double>{b->alpha}; };
  h.set = [b](const vector<double>& v) { b->alpha = v[0]; };
  h.score = [b] { return b->logp_score(); };
  h.step = [b, r] { b->transition_hyperparameters(r); };
  h.count = [b] { return b->N; };
  return h;
}
static Hyp hyp_zmn(const string& n, ZeroMeanNormal* b, std::mt19937* r) {
  Hyp h;
  h.name = n;
  h.get = [b] { return vector<double>{b->alpha, b->beta}; };
  h.set = [b](const vector<double>& v) { b->alpha = v[0]; b->beta = v[1]; };
  h.score = [b] { return b->logp_score(); };
  h.step = [b, r] { b->transition_hyperparameters(r); };
  h.count = [b] { return b->N; };
  return h;
}
static const int kC05Kinds = 8;
FAMILY("C05", "grid_updates", 240, 6000, [](Ctx& c) {
  int k = c.idx % kC05Kinds;
  std::mt19937* r = &c.rng;
  // a quarter of the cases have (almost) no data, where the law is flat
  int n = c.coin(0.2) ? 0 : c.in(1, 12);
  const long draws = 5000;
  if (k == 0) {
    BetaBernoulli e, b;
    auto h0 = hyp_bb("bernoulli", &e, r);
    discover(h0, 3000);
    c.check(h0.grid.size() > 1, "bernoulli:grid", "only one setting is ever chosen");
    double p = c.unit();
    for (int i = 0; i < n; ++i) b.incorporate(c.coin(p));
    auto h = hyp_bb("bernoulli", &b, r);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 1) {
    int K = c.in(2, 6);
    DirichletCategorical e(K), b(K);
    auto h0 = hyp_dc("categorical", &e, r);
    discover(h0, 600);
    c.check(h0.grid.size() > 1, "categorical:grid", "only one setting is ever chosen");
    for (int i = 0; i < n; ++i) b.incorporate(c.coin() ? 0 : c.in(0, K - 1));
    auto h = hyp_dc("categorical", &b, r);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 2) {
    vector<string> v{"a", "bb", "ccc"};
    StringCat e(v), b(v);
    auto mk = [&](StringCat* b) {
      Hyp h = hyp_dc("stringcat", &b->dc, r);
      h.score = [b] { return b->logp_score(); };
      h.step = [b, r] { b->transition_hyperparameters(r); };
      return h;
    };
    auto h0 = mk(&e);
    discover(h0, 600);
    c.check(h0.grid.size() > 1, "stringcat:grid", "only one setting is ever chosen");
    for (int i = 0; i < n; ++i) b.incorporate(c.pick(v));
    auto h = mk(&b);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 3) {
    Bigram e(6, 'a', 'c'), b(6, 'a', 'c');
    auto mk = [&](Bigram* b) {
      Hyp h;
      h.name = "bigram";
      h.get = [b] { return vector<double>{b->alpha}; };
      h.set = [b](const vector<double>& v) { b->set_alpha(v[0]); };
      h.score = [b] { return b->logp_score(); };
      h.step = [b, r] { b->transition_hyperparameters(r); };
      h.count = [b] { return b->N; };
      return h;
    };
    auto h0 = mk(&e);
    discover(h0, 600);
    c.check(h0.grid.size() > 1, "bigram:grid", "only one setting is ever chosen");
    for (int i = 0; i < std::min(n, 5); ++i) b.incorporate(rand_str(c, 'a', 'c', 5));
    auto h = mk(&b);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 4) {
    Normal e, b;
    auto mk = [&](Normal* b) {
      Hyp h;
      h.name = "normal";
      h.get = [b] { return vector<double>{b->r, b->v, b->m, b->s}; };
      h.set = [b](const vector<double>& v) { b->r = v[0]; b->v = v[1]; b->m = v[2]; b->s = v[3]; };
      h.score = [b] { return b->logp_score(); };
      h.step = [b, r] { b->transition_hyperparameters(r); };
      h.count = [b] { return b->N; };
      return h;
    };
    auto h0 = mk(&e);
    discover(h0, 4000);
    c.check(h0.grid.size() > 1, "normal:grid", "only one setting is ever chosen");
    double loc = 2 * c.normal(), sc = std::exp(c.normal());
    for (int i = 0; i < n; ++i) b.incorporate(loc + sc * c.normal());
    auto h = mk(&b);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 5) {
    ZeroMeanNormal e, b;
    auto h0 = hyp_zmn("zero_mean_normal", &e, r);
    discover(h0, 3000);
    c.check(h0.grid.size() > 1, "zero_mean_normal:grid", "only one setting is ever chosen");
    double sc = std::exp(2 * c.normal());
    for (int i = 0; i < n; ++i) b.incorporate(sc * c.normal());
    auto h = hyp_zmn("zero_mean_normal", &b, r);
    h.grid = h0.grid;
    c05(c, h, draws);
  } else if (k == 6) {
    // Skellam: prior settings given the current rates.
    Skellam b;
    b.mu1 = std::exp(2 * c.normal()); b.mu2 = std::exp(2 * c.normal());
    Hyp h;
    h.name = "skellam";
    auto ln = [](double x, double m, double s) { double y = (std::log(x) - m) / s; return -y * y / 2 - std::log(x * s); };
    h.get = [&] { return vector<double>{b.mean1, b.stddev1, b.mean2, b.stddev2}; };
    h.set = [&](const vector<double>& v) { b.mean1 = v[0]; b.stddev1 = v[1]; b.mean2 = v[2]; b.stddev2 = v[3]; };
    h.score = [&] { return ln(b.mu1, b.mean1, b.stddev1) + ln(b.mu2, b.mean2, b.stddev2); };
    h.step = [&] { b.transition_hyperparameters(r); };
    h.count = [&] { return b.N; };
    // settings reachable from several different rates
    Skellam e;
    Hyp h0 = h;
    std::set<std::pair<double, double>> g1, g2;
    for (double m : {-20., -10., 0., 10., 20.})
      for (double m2 : {-20., -10., 0., 10., 20.}) {
        e.mu1 = std::exp(m); e.mu2 = std::exp(m2);
        for (int i = 0; i < 200; ++i) { e.transition_hyperparameters(r); g1.insert({e.mean1, e.stddev1}); g2.insert({e.mean2, e.stddev2}); }
      }
    for (auto& a : g1) for (auto& q : g2) h.grid.insert({a.first, a.second, q.first, q.second});
    c.check(h.grid.size() > 1, "skellam:grid", "only one setting is ever chosen");
    for (int i = 0; i < n; ++i) b.incorporate(c.in(-4, 4));
    double m1 = b.mu1, m2 = b.mu2;
    c05(c, h, draws);
    c.check(b.mu1 == m1 && b.mu2 == m2, "skellam:rates", "a prior update changed the rates");
  } else {
    // concentration of the clustering prior: log-spaced grid between 1/N and N+1
    CRP b;
    int m = c.in(1, 12);
    for (int i = 0; i < m; ++i) b.incorporate(i, b.sample(r));
    Hyp h;
    h.name = "crp";
    h.get = [&] { return vector<double>{b.alpha}; };
    h.set = [&](const vector<double>& v) { b.alpha = v[0]; };
    h.score = [&] { return b.logp_score(); };
    h.step = [&] { b.transition_alpha(r); };
    h.count = [&] { return (double)b.N; };
    discover(h, 4000);
    c.check(h.grid.size() > 1, "crp:grid", "only one setting is ever chosen");
    auto before = b.tables;
    // settings never chosen in 4000 tries have negligible weight; give them no cell
    c.sig(fmt("crp%d,%g", m, b.logp_score()));
    vector<vector<double>> g(h.grid.begin(), h.grid.end());
    auto keep = h.get();
    vector<double> lps;
    for (auto& x : g) { h.set(x); lps.push_back(h.score()); }
    h.set(keep);
    double z = logsum(lps);
    vector<double> pr;
    for (double l : lps) pr.push_back(std::exp(l - z) * (1 - 1e-4));
    pr.push_back(1e-4);
    mon::stat_test(c, "crp:law", "concentration frequencies", draws, pr, [&](long mm) {
      vector<long> o(pr.size());
      for (long i = 0; i < mm; ++i) {
        h.step();
        auto it = std::find(g.begin(), g.end(), h.get());
        ++o[it - g.begin()];
      }
      return o;
    });
    c.check(b.tables == before, "crp:data", "a concentration update changed the clusters");
    c.say(fmt("crp N=%d tables=%zu", m, before.size()));
  }
});
FAMILY("C05", "noise_updates", 80, 1600, [](Ctx& c) {
  std::mt19937* r = &c.rng;
  int k = c.idx % 4;
  const long draws = 4000;
  BetaBernoulli eb;
  auto g_bb = hyp_bb("g", &eb, r);
  discover(g_bb, 3000);
  int n = c.in(0, 12);
  if (k == 0) {
    Sometimes<bool> s(new BitFlip);
    for (int i = 0; i < n; ++i) { bool x = c.coin(); s.incorporate({x, x ^ c.coin(0.3)}); }
    Hyp h = hyp_bb("sometimes_bitflip", &s.bb, r);
    h.score = [&] { return s.logp_score(); };
    h.step = [&] { s.transition_hyperparameters(r); };
    h.count = [&] { return s.N; };
    h.grid = g_bb.grid;
    c05(c, h, draws);
  } else if (k == 1) {
    GaussianEmission s;
    ZeroMeanNormal ez;
    auto g = hyp_zmn("g", &ez, r);
    discover(g, 3000);
    for (int i = 0; i < n; ++i) { double x = c.normal(); s.incorporate({x, x + c.normal()}); }
    Hyp h = hyp_zmn("gaussian", &s.zmn, r);
    h.score = [&] { return s.logp_score(); };
    h.step = [&] { s.transition_hyperparameters(r); };
    h.count = [&] { return s.N; };
    h.grid = g.grid;
    c05(c, h, draws);
  } else if (k == 2) {
    int K = c.in(2, 4);
    CategoricalEmission s(K);
    DirichletCategorical ed(K);
    auto g = hyp_dc("g", &ed, r);
    discover(g, 600);
    for (int i = 0; i < n; ++i) s.incorporate({(int)c.in(0, K - 1), (int)c.in(0, K - 1)});
    int row = c.in(0, K - 1);
    Hyp h = hyp_dc("categorical_emission", &s.emission_dists[row], r);
    h.step = [&] { s.transition_hyperparameters(r); };
    h.grid = g.grid;
    c05(c, h, draws);
  } else {
    SimpleStringEmission s;
    for (int i = 0; i < n; ++i) s.incorporate(gen_typo(c));
    BetaBernoulli* w = c.pick(vector<BetaBernoulli*>{&s.substitutions, &s.insertions, &s.deletions});
    Hyp h = hyp_bb("simple_string", w, r);
    h.step = [&] { s.transition_hyperparameters(r); };
    h.grid = g_bb.grid;
    c05(c, h, draws);
  }
});
// Latent rates: Metropolis-Hastings with the prior as proposal.
FAMILY("C05", "latent_updates", 100, 2000, [](Ctx& c) {
  Skellam s;
  s.mean1 = c.normal() * 0.5; s.mean2 = c.normal() * 0.5;
  s.stddev1 = 0.2 + c.unit(); s.stddev2 = 0.2 + c.unit();
  int n = c.in(0, 6);
  vector<int> data;
  for (int i = 0; i < n; ++i) { data.push_back(c.in(-3, 3)); s.incorporate(data.back()); }
  double m1 = std::exp(s.mean1 + 0.5 * c.normal()), m2 = std::exp(s.mean2 + 0.5 * c.normal());
  s.mu1 = m1; s.mu2 = m2;
  double base = s.logp_score();
  c.sig(fmt("%d,%g,%g,%g", n, m1, m2, base));
  c.say(fmt("skellam n=%d mu=%g,%g", n, m1, m2));
  // expected acceptance, by drawing proposals here
  auto expect = [&](long m, double* var) {
    Skellam q;
    for (int x : data) q.incorporate(x);
    double sum = 0, sq = 0;
    for (long i = 0; i < m; ++i) {
      q.mu1 = std::exp(s.mean1 + s.stddev1 * c.normal());
      q.mu2 = std::exp(s.mean2 + s.stddev2 * c.normal());
      double a = std::min(1.0, std::exp(q.logp_score() - base));
      sum += a; sq += a * a;
    }
    double mean = sum / m;
    *var = std::max(1e-12, sq / m - mean * mean) / m;
    return mean;
  };
  auto observe = [&](long m) {
    long acc = 0;
    for (long i = 0; i < m; ++i) {
      s.mu1 = m1; s.mu2 = m2;
      s.transition_theta(&c.rng);
      bool same = s.mu1 == m1 && s.mu2 == m2;
      c.check(same || (s.mu1 != m1 && s.mu2 != m2), "skellam:half", "only one rate was replaced");
      acc += !same;
    }
    return acc / (double)m;
  };
  double v, z = 0;
  for (long m : {3000L, 12000L}) {
    double e = expect(m, &v), o = observe(m);
    z = (o - e) / std::sqrt(v + std::max(1e-9, e * (1 - e)) / m + 1e-12);
    c.count("draws", m);
    if (std::fabs(z) < 5) return;
  }
  c.check(std::fabs(z) < 6.5, "skellam:acceptance", fmt("acceptance rate deviates by z=%g", z));
});

// ------------------------------------------------------------------ C06
static int edit(const string& a, const string& b) {
  vector<int> p(b.size() + 1), q(b.size() + 1);
  for (size_t j = 0; j <= b.size(); ++j) p[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) {
    q[0] = i;
    for (size_t j = 1; j <= b.size(); ++j) q[j] = std::min({p[j] + 1, q[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1])});
    std::swap(p, q);
  }
  return p[b.size()];
}
template <class T>
static void near_common(Ctx& c, Sub<T>& s, const T& x, bool representable) {
  T y = s.d->nearest(x);
  c.sig(s.name + show(x));
  c.say(s.name + " nearest(" + show(x) + ")=" + show(y));
  if (representable) c.check(y == x, s.name + ":moved", "a representable value was changed: " + show(x) + " -> " + show(y));
  double lp = s.d->logp(y);
  c.check(std::isfinite(lp), s.name + ":prob", "the nearest value has no positive probability: " + show(y));
  double sc = s.d->logp_score();
  s.d->incorporate(y);
  s.d->unincorporate(y);
  c.near(s.d->logp_score(), sc, s.name + ":inc", "score after adding and removing the nearest value", std::max(1e-5, 4 * s.tol), 1e-8);
  c.check(s.d->nearest(y) == y, s.name + ":idempotent", "nearest is not idempotent at " + show(y));
}
FAMILY("C06", "nearest", 30000, 400000, [](Ctx& c) {
  int k = c.idx % 6;
  if (k == 0) {
    auto s = mk_categorical(c);
    train(c, s, 8);
    int K = s.support.size();
    int x = c.coin(0.1) ? c.pick(vector<int>{INT32_MIN, INT32_MAX, -1, K}) : c.in(-3 * K, 3 * K);
    near_common(c, s, x, x >= 0 && x < K);
    int y = s.d->nearest(x);
    for (int z = 0; z < K; ++z) c.check(std::labs((long)z - x) >= std::labs((long)y - x), "categorical:far", fmt("%d is closer to %d than %d", z, x, y));
  } else if (k == 1) {
    auto s = mk_stringcat(c);
    train(c, s, 8);
    string x = c.coin(0.3) ? c.pick(s.support) : c.coin() ? corrupt(c, c.pick(s.support), c.in(1, 4)) : rand_str(c, ' ', '~', 8);
    bool rep = std::find(s.support.begin(), s.support.end(), x) != s.support.end();
    near_common(c, s, x, rep);
    string y = s.d->nearest(x);
    for (auto&& z : s.support) c.check(edit(z, x) >= edit(y, x), "stringcat:far", "closer category to " + show(x) + " than " + show(y) + ": " + show(z));
  } else if (k == 2) {
    auto s = mk_bernoulli(c);
    train(c, s, 8);
    bool x = c.coin();
    near_common(c, s, x, true);
  } else if (k == 3) {
    auto s = mk_stringnat(c);
    train(c, s, 8);
    size_t ml = dynamic_cast<Bigram*>(s.d.get())->max_length;
    string x = rand_str(c, c.coin() ? '0' : ' ', c.coin() ? '9' : '~', std::min<int>(ml, 12));
    bool rep = std::all_of(x.begin(), x.end(), [](char ch) { return ch >= '0' && ch <= '9'; });
    near_common(c, s, x, rep);
    string y = s.d->nearest(x), dig;
    for (char ch : x) if (ch >= '0' && ch <= '9') dig += ch;
    c.check(y == dig, "string_nat:digits", "digits of " + show(x) + " became " + show(y));
  } else if (k == 4) {
    if (c.coin()) {
      auto s = mk_normal(c);
      train(c, s, 8);
      near_common(c, s, s.gen(c) * (c.coin(0.2) ? 1e3 : 1), true);
    } else {
      auto s = mk_skellam(c);
      train(c, s, 8, false);
      near_common(c, s, s.gen(c), true);
    }
  } else {
    auto s = mk_bigram(c);
    train(c, s, 6);
    near_common(c, s, s.gen(c), true);
  }
});
// Values that are too long or contain foreign characters, as the noisy data may.
FAMILY("C06", "nearest_far_strings", 6000, 80000, [](Ctx& c) {
  auto s = c.coin() ? mk_stringnat(c) : mk_bigram(c);
  train(c, s, 6);
  auto* b = dynamic_cast<Bigram*>(s.d.get());
  string x;
  int n = c.in(0, b->max_length ? b->max_length + 6 : 12);
  for (int i = 0; i < n; ++i) x += (char)(c.coin(0.7) ? c.in(b->min_char, b->max_char) : c.in(1, 255));
  bool rep = (!b->max_length || x.size() <= b->max_length);
  for (char ch : x) rep = rep && ch >= b->min_char && ch <= b->max_char;
  near_common(c, s, x, rep);
});
template <class T>
static void propose(Ctx& c, Emission<T>& e, const string& name, const vector<T>& noisy, const std::function<bool(const T&)>& valid) {
  std::mt19937 r1(c.u()), r2(c.u());
  double sc = e.logp_score(), N = e.N;
  T a = e.propose_clean(noisy, &r1), b = e.propose_clean(noisy, &r2);
  string t = name;
  for (auto&& x : noisy) t += show(x);
  c.sig(t);
  c.say(t + " => " + show(a));
  c.check(a == b, name + ":repeat", "two proposals from the same list differ: " + show(a) + " " + show(b));
  c.check(valid(a), name + ":kind", "proposed clean value is not a valid value: " + show(a));
  c.near(e.logp_score(), sc, name + ":changes", "score after proposing", 1e-9);
  c.near(e.N, N, name + ":changes-N", "count after proposing", 1e-9);
}
FAMILY("C06", "proposals", 8000, 160000, [](Ctx& c) {
  int k = c.idx % 8;
  int n = c.in(1, 7);
  bool same = c.coin(0.3);
  if (k == 0) {
    BitFlip e;
    bool x = c.coin();
    vector<bool> v(n, x);
    std::mt19937 r(1);
    c.sig(fmt("bf%d%d", n, x));
    c.check(e.propose_clean(v, &r) == !x, "bitflip:proposal", "the clean value of a flipped bit is its opposite");
  } else if (k == 1) {
    int K = c.in(2, 6);
    CategoricalEmission e(K);
    // a model that has learnt to copy
    for (int i = 0; i < K; ++i) for (int j = 0; j < 5; ++j) e.incorporate({i, i});
    for (int i = c.in(0, 10); i > 0; --i) { int x = c.in(0, K - 1); e.incorporate({x, c.coin(0.8) ? x : (int)c.in(0, K - 1)}); }
    vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(same && i ? v[0] : c.in(0, K - 1));
    propose<int>(c, e, "categorical", v, [&](int x) { return x >= 0 && x < K; });
    // maximum likelihood among all clean values
    std::mt19937 r(1);
    int got = e.propose_clean(v, &r);
    auto lik = [&](int cl) { double s = 0; for (int x : v) s += e.logp({cl, x}); return s; };
    for (int cl = 0; cl < K; ++cl) c.check(lik(cl) <= lik(got) + 1e-9, "categorical:likelihood", fmt("clean %d is likelier than the proposed %d", cl, got));
  } else if (k == 2) {
    GaussianEmission e;
    vector<double> v;
    for (int i = 0; i < n; ++i) v.push_back(same && i ? v[0] : c.normal() * std::exp(3 * c.normal()));
    propose<double>(c, e, "gaussian", v, [](double x) { return std::isfinite(x); });
    std::mt19937 r(1);
    double mean = 0;
    for (double x : v) mean += x / v.size();
    c.near(e.propose_clean(v, &r), mean, "gaussian:mean", "proposal vs mean of the noisy values", 1e-7, 1e-9);
  } else if (k == 3) {
    Sometimes<bool> e(new BitFlip);
    vector<double> dummy;
    vector<bool> v;
    int ones = 0;
    for (int i = 0; i < n; ++i) { v.push_back(same && i ? (bool)v[0] : c.coin()); ones += v.back(); }
    std::mt19937 r(1);
    bool got = e.propose_clean(v, &r);
    c.sig(fmt("sb%d,%d", n, ones));
    if (2 * ones != n) c.check(got == (2 * ones > n), "sometimes_bitflip:mode", fmt("%d ones of %d gave %d", ones, n, got));
  } else if (k == 4) {
    int K = c.in(2, 5);
    Sometimes<int> e(new CategoricalEmission(K), true);
    vector<int> v;
    std::map<int, int> cnt;
    for (int i = 0; i < n; ++i) { v.push_back(same && i ? v[0] : c.in(0, K - 1)); cnt[v.back()]++; }
    propose<int>(c, e, "sometimes_categorical", v, [&](int x) { return cnt.count(x) > 0; });
    std::mt19937 r(1);
    int got = e.propose_clean(v, &r);
    for (auto& [x, m] : cnt) c.check(m <= cnt[got], "sometimes:mode", fmt("%d occurs more often than the proposed %d", x, got));
  } else if (k == 5) {
    SimpleStringEmission e;
    vector<string> v;
    string base = rand_str(c, 'a', 'e', 7);
    for (int i = 0; i < n; ++i) v.push_back(same ? base : corrupt(c, base, c.coin() ? 0 : c.in(1, 3)));
    propose<string>(c, e, "simple_string", v, [&](const string& s) { for (char ch : s) if (ch < ' ' || ch > '~') return false; return true; });
    std::mt19937 r(1);
    if (same) c.check(e.propose_clean(v, &r) == base, "simple_string:agree", "all noisy values are " + show(base));
    // positionwise majority
    string got = e.propose_clean(v, &r);
    for (size_t i = 0; i < got.size(); ++i) {
      std::map<char, int> cnt;
      for (auto& s : v) cnt[i < s.size() ? s[i] : '\0']++;
      for (auto& [ch, m] : cnt) c.check(m <= cnt[got[i]], "simple_string:mode", "position not decided by majority");
    }
  } else if (k == 6) {
    BigramStringEmission e;
    for (int i = c.in(0, 4); i > 0; --i) { string s = rand_str(c, 'a', 'e', 5); e.incorporate({s, c.coin(0.7) ? s : corrupt(c, s, 1)}); }
    vector<string> v;
    string base = rand_str(c, 'a', 'e', 7);
    for (int i = 0; i < n; ++i) v.push_back(same ? base : corrupt(c, base, c.coin() ? 0 : c.in(1, 2)));
    propose<string>(c, e, "bigram_string", v, [&](const string& s) { for (char ch : s) if (ch < ' ' || ch > '~') return false; return true; });
    std::mt19937 r(1);
    if (same) c.check(e.propose_clean(v, &r) == base, "bigram_string:agree", "all noisy values are " + show(base));
    if (n == 1) c.check(e.propose_clean(v, &r) == v[0], "bigram_string:one", "the only noisy value is " + show(v[0]));
  } else {
    IdentityEmission<string> e;
    vector<string> v(n, rand_str(c, 'a', 'e', 7));
    propose<string>(c, e, "identity", v, [&](const string& s) { return s == v[0]; });
  }
});
