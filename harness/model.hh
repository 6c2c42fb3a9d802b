// Shared by the model monitors: random schemas and data, and the oracle that
// compares a live model with what was put into it.
#pragma once
#include <algorithm>
#include <memory>
#include <numbers>

#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/get_distribution.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "hirm.hh"
#include "inference.hh"
#include "irm.hh"
#include "mon.hh"

using mon::Ctx;
using mon::fmt;
using std::map;
using std::string;
using std::vector;
using Val = ObservationVariant;

inline string show(const T_items& v) {
  string s = "(";
  for (int i : v) s += (s.size() > 1 ? "," : "") + std::to_string(i);
  return s + ")";
}
inline string show(const Val& v) {
  return std::visit([](auto x) -> string {
    using T = decltype(x);
    if constexpr (std::is_same_v<T, string>) return "'" + x + "'";
    else if constexpr (std::is_same_v<T, double>) return fmt("%.17g", x);
    else return std::to_string((int)x);
  }, v);
}
template <class T>
string show1(const T& v) { return show(Val(v)); }
template <class T>
string show1(const std::pair<T, T>& v) { return show(Val(v.first)) + "->" + show(Val(v.second)); }

// ------------------------------------------------------- independent twins
// A data-free copy of a distribution with the same hyperparameters (and, for
// latent-parameter models, parameters); null when the type is not known or its
// score depends on the order of incorporation.
template <class V>
std::unique_ptr<Distribution<V>> twin(Distribution<V>* d);

inline std::unique_ptr<Normal> twin_normal(const Normal* b) {
  auto t = std::make_unique<Normal>();
  t->r = b->r; t->v = b->v; t->m = b->m; t->s = b->s;
  return t;
}
inline std::unique_ptr<Skellam> twin_skellam(const Skellam* b) {
  auto t = std::make_unique<Skellam>();
  t->mean1 = b->mean1; t->mean2 = b->mean2; t->stddev1 = b->stddev1; t->stddev2 = b->stddev2;
  t->mu1 = b->mu1; t->mu2 = b->mu2;
  return t;
}
inline std::unique_ptr<GaussianEmission> twin_gauss(const GaussianEmission* b) {
  auto t = std::make_unique<GaussianEmission>();
  t->zmn.alpha = b->zmn.alpha; t->zmn.beta = b->zmn.beta;
  return t;
}
template <>
inline std::unique_ptr<Distribution<bool>> twin(Distribution<bool>* d) {
  if (auto b = dynamic_cast<BetaBernoulli*>(d)) {
    auto t = std::make_unique<BetaBernoulli>();
    t->alpha = b->alpha; t->beta = b->beta;
    return t;
  }
  return nullptr;
}
template <>
inline std::unique_ptr<Distribution<double>> twin(Distribution<double>* d) {
  if (auto b = dynamic_cast<Normal*>(d)) return twin_normal(b);
  return nullptr;
}
template <>
inline std::unique_ptr<Distribution<int>> twin(Distribution<int>* d) {
  if (auto b = dynamic_cast<DirichletCategorical*>(d)) {
    auto t = std::make_unique<DirichletCategorical>((int)b->counts.size());
    t->alpha = b->alpha;
    return t;
  }
  if (auto b = dynamic_cast<Skellam*>(d)) return twin_skellam(b);
  return nullptr;
}
template <>
inline std::unique_ptr<Distribution<string>> twin(Distribution<string>* d) {
  if (auto b = dynamic_cast<StringCat*>(d)) {
    auto t = std::make_unique<StringCat>(b->strings);
    t->dc.alpha = b->dc.alpha;
    return t;
  }
  if (auto b = dynamic_cast<Bigram*>(d)) {
    auto t = std::make_unique<Bigram>(b->max_length, b->min_char, b->max_char);
    t->set_alpha(b->alpha);
    return t;
  }
  if (auto b = dynamic_cast<DistributionAdapter<double>*>(d)) {
    if (auto n = dynamic_cast<Normal*>(b->d))
      return std::make_unique<DistributionAdapter<double>>(twin_normal(n).release());
  }
  if (auto b = dynamic_cast<DistributionAdapter<int>*>(d)) {
    if (auto n = dynamic_cast<Skellam*>(b->d))
      return std::make_unique<DistributionAdapter<int>>(twin_skellam(n).release());
  }
  return nullptr;
}
template <class T>
std::unique_ptr<Distribution<std::pair<T, T>>> twin_sometimes(Sometimes<T>* b, Emission<T>* inner) {
  auto t = std::make_unique<Sometimes<T>>(inner);
  t->bb.alpha = b->bb.alpha; t->bb.beta = b->bb.beta;
  return t;
}
template <>
inline std::unique_ptr<Distribution<std::pair<bool, bool>>> twin(Distribution<std::pair<bool, bool>>* d) {
  if (auto b = dynamic_cast<Sometimes<bool>*>(d))
    if (dynamic_cast<BitFlip*>(b->be)) return twin_sometimes<bool>(b, new BitFlip);
  return nullptr;
}
template <>
inline std::unique_ptr<Distribution<std::pair<double, double>>> twin(Distribution<std::pair<double, double>>* d) {
  if (auto g = dynamic_cast<GaussianEmission*>(d)) return twin_gauss(g);
  if (auto b = dynamic_cast<Sometimes<double>*>(d))
    if (auto g = dynamic_cast<GaussianEmission*>(b->be)) return twin_sometimes<double>(b, twin_gauss(g).release());
  return nullptr;
}
template <>
inline std::unique_ptr<Distribution<std::pair<int, int>>> twin(Distribution<std::pair<int, int>>* d) {
  return nullptr;  // sometimes_categorical apportions: no order-free score
}
template <>
inline std::unique_ptr<Distribution<std::pair<string, string>>> twin(Distribution<std::pair<string, string>>* d) {
  if (auto b = dynamic_cast<SimpleStringEmission*>(d)) {
    auto t = std::make_unique<SimpleStringEmission>();
    t->substitutions.alpha = b->substitutions.alpha; t->substitutions.beta = b->substitutions.beta;
    t->insertions.alpha = b->insertions.alpha; t->insertions.beta = b->insertions.beta;
    t->deletions.alpha = b->deletions.alpha; t->deletions.beta = b->deletions.beta;
    return t;
  }
  return nullptr;
}

// ------------------------------------------------------------------ schemas
struct Rel {
  string name;
  vector<string> doms;
  bool noisy = false, observed = true;
  string base;   // for noisy relations
  string kind;   // distribution of the root clean relation
  string em;     // emission name
  int k = 0;     // categories
  vector<string> strs;
  int depth = 0;  // noisy relations below
  int words = 4;  // longest bigram string drawn
  bool string_num() const { return kind == "string_normal" || kind == "string_skellam"; }
};

struct Opts {
  bool noisy = true;        // noisy relations (possibly stacked)
  bool repeats = true;      // relations that use a domain twice
  bool theta = false;       // latent-parameter distributions (skellam)
  bool apportion = false;   // sometimes_categorical (its score depends on history)
  bool hidden_base = true;  // unobserved clean relations
  bool base_first = true;   // noisy relation names sort after their base
  int max_rels = 5, max_arity = 3, max_domains = 3, max_ents = 5, min_ents = 2;
  vector<string> kinds;     // restrict the clean kinds
  int words = 4;            // longest bigram string
};

struct World {
  vector<Rel> rels;
  T_schema schema;
  map<string, int> ents;  // number of entity ids to draw from
  map<string, map<T_items, Val>> obs;  // what the model must hold
  const Rel& rel(const string& n) const {
    for (auto& r : rels)
      if (r.name == n) return r;
    throw std::runtime_error("no relation " + n);
  }
  vector<string> children(const string& n) const {
    vector<string> v;
    for (auto& r : rels)
      if (r.noisy && r.base == n) v.push_back(r.name);
    return v;
  }
  bool leaf(const string& n) const { return children(n).empty(); }
  T_items base_items(const Rel& r, const T_items& it) const {
    return T_items(it.begin(), it.begin() + rel(r.base).doms.size());
  }
  string text() const {
    string s;
    for (auto& r : rels) {
      s += r.name + (r.noisy ? "~" + r.em + "[" + r.base + "]" : (r.observed ? "=" : "~") + r.kind) + "(";
      for (auto& d : r.doms) s += (s.back() == '(' ? "" : ",") + d;
      s += ") ";
    }
    return s;
  }
};

inline string rand_word(Ctx& c, char lo, char hi, int maxlen) {
  int n = c.in(0, maxlen);
  string s;
  for (int i = 0; i < n; ++i) s += (char)c.in(lo, hi);
  return s;
}

inline Val gen_clean(Ctx& c, const Rel& r) {
  if (r.kind == "bernoulli") return c.coin();
  if (r.kind == "normal") return c.coin(0.15) ? (double)c.in(-3, 3) : 2 * c.normal();
  if (r.kind == "categorical") return (int)c.in(0, r.k - 1);
  if (r.kind == "skellam") return (int)c.in(-6, 6);
  if (r.kind == "stringcat") return c.pick(r.strs);
  if (r.kind == "string_nat") return rand_word(c, '0', '9', 3);
  if (r.kind == "bigram") return r.words > 4 ? rand_word(c, ' ', '~', r.words) : rand_word(c, 'a', 'd', 4);
  if (r.kind == "string_normal") return fmt("%.3f", c.normal());
  if (r.kind == "string_skellam") return std::to_string(c.in(-6, 6));
  throw std::runtime_error("kind " + r.kind);
}
inline Val gen_noisy(Ctx& c, const Rel& r, const Val& base) {
  if (std::holds_alternative<bool>(base)) return c.coin(0.3) ? Val(!std::get<bool>(base)) : base;
  if (std::holds_alternative<double>(base))
    return r.em == "sometimes_gaussian" && c.coin() ? base : Val(std::get<double>(base) + 0.3 * c.normal());
  if (std::holds_alternative<int>(base)) return c.coin(0.3) ? Val((int)c.in(0, r.k - 1)) : base;
  string s = std::get<string>(base);
  int e = c.coin() ? 0 : c.in(1, 2);
  for (int i = 0; i < e; ++i) {
    int pos = c.in(0, (long)s.size()), k = c.in(0, 2);
    char ch = c.in('a', 'd');
    if (k == 0) s.insert(pos, 1, ch);
    else if (pos < (int)s.size()) { if (k == 1) s.erase(pos, 1); else s[pos] = ch; }
  }
  return s;
}
inline bool in_support(const Rel& r, const Val& v) {
  if (r.kind == "categorical") return std::get<int>(v) >= 0 && std::get<int>(v) < r.k;
  if (r.noisy) return true;
  if (r.kind == "stringcat") return std::find(r.strs.begin(), r.strs.end(), std::get<string>(v)) != r.strs.end();
  if (r.kind == "string_nat") {
    auto s = std::get<string>(v);
    return s.size() <= 20 && std::all_of(s.begin(), s.end(), [](char ch) { return ch >= '0' && ch <= '9'; });
  }
  if (r.kind == "bigram") {
    auto s = std::get<string>(v);
    return s.size() <= 80 && std::all_of(s.begin(), s.end(), [](char ch) { return ch >= ' ' && ch <= '~'; });
  }
  if (r.kind == "normal") return std::isfinite(std::get<double>(v));
  return true;
}

inline string dist_text(const Rel& r) {
  if (r.kind == "categorical") return "categorical(k=" + std::to_string(r.k) + ")";
  if (r.kind == "stringcat") {
    string j;
    for (auto& s : r.strs) j += (j.empty() ? "" : " ") + s;
    return "stringcat(strings=" + j + ")";
  }
  return r.kind;
}

inline World make_world(Ctx& c, const Opts& o) {
  World w;
  int nd = c.in(1, o.max_domains);
  vector<string> ds;
  for (int i = 0; i < nd; ++i) {
    ds.push_back(string("D") + (char)('a' + i));
    w.ents[ds.back()] = c.in(o.min_ents, o.max_ents);
  }
  vector<string> kinds = o.kinds;
  if (kinds.empty()) {
    kinds = {"bernoulli", "bernoulli", "normal", "categorical", "stringcat", "string_nat", "bigram", "string_normal"};
    if (o.theta) kinds.push_back("skellam"), kinds.push_back("string_skellam");
  }
  int nr = c.in(1, o.max_rels);
  for (int i = 0; i < nr; ++i) {
    Rel r;
    r.words = o.words;
    bool noisy = o.noisy && i && c.coin(0.45);
    if (noisy) {
      const Rel& b = w.rels[c.in(0, i - 1)];
      string em;
      if (b.kind == "bernoulli") em = "sometimes_bitflip";
      else if (b.kind == "normal") em = c.coin() ? "gaussian" : "sometimes_gaussian";
      else if (b.kind == "categorical" && o.apportion) em = "sometimes_categorical";
      else if (b.kind != "categorical" && b.kind != "skellam" && !b.string_num()) em = "simple_string";
      if (em.empty() || (b.noisy && b.em != em && b.kind != "normal")) noisy = false;
      else {
        r.noisy = true;
        r.em = em;
        r.base = b.name;
        r.kind = b.kind;
        r.k = b.k;
        r.strs = b.strs;
        r.depth = b.depth + 1;
        r.doms = b.doms;
        int extra = c.coin(0.35) ? 1 : 0;
        for (int j = 0; j < extra && (int)r.doms.size() < o.max_arity + 1; ++j) {
          string d = c.pick(ds);
          if (!o.repeats && std::find(r.doms.begin(), r.doms.end(), d) != r.doms.end()) continue;
          r.doms.push_back(d);
        }
      }
    }
    if (!noisy) {
      r.kind = c.pick(kinds);
      if (r.kind == "categorical") r.k = c.in(2, 5);
      if (r.kind == "stringcat") {
        std::set<string> st;
        int k = c.in(2, 4);
        while ((int)st.size() < k) st.insert(rand_word(c, 'a', 'd', 2) + "s");
        r.strs.assign(st.begin(), st.end());
      }
      int ar = c.coin(0.45) ? 1 : c.in(1, o.max_arity);
      for (int j = 0; j < ar; ++j) {
        string d = c.pick(ds);
        if (!o.repeats && std::find(r.doms.begin(), r.doms.end(), d) != r.doms.end()) continue;
        r.doms.push_back(d);
      }
    }
    r.name = fmt("R%02d%s", i, r.noisy ? "n" : "");
    if (!o.base_first) r.name = fmt("%c_", (char)c.in('A', 'Z')) + r.name;
    w.rels.push_back(r);
  }
  // which clean relations are latent
  for (auto& r : w.rels) {
    if (o.hidden_base && !w.leaf(r.name) && c.coin(0.7)) r.observed = false;
    if (r.noisy) {
      T_noisy_relation t;
      t.domains = r.doms;
      t.is_observed = r.observed;
      map<string, string> args;
      if (r.em == "sometimes_categorical") args["k"] = std::to_string(r.k);
      t.emission_spec = EmissionSpec(r.em, args);
      t.base_relation = r.base;
      w.schema[r.name] = t;
    } else {
      T_clean_relation t;
      t.domains = r.doms;
      t.is_observed = r.observed;
      t.distribution_spec = DistributionSpec(dist_text(r));
      w.schema[r.name] = t;
    }
  }
  return w;
}

// Models with many entities and big clusters.
inline Opts large_opts(Ctx& c) {
  Opts o;
  o.min_ents = 40;
  o.max_ents = c.in(60, 400);
  o.max_rels = 3;
  o.max_domains = 2;
  o.max_arity = 2;
  o.kinds = {"bernoulli", "bernoulli", "normal", "categorical", "stringcat"};
  return o;
}

inline T_items rand_items(Ctx& c, const World& w, const Rel& r) {
  T_items it;
  for (auto& d : r.doms) {
    // favour repeating the same entity where a domain is used twice
    if (!it.empty() && c.coin(0.2)) {
      bool done = false;
      for (size_t j = 0; j < it.size(); ++j)
        if (r.doms[j] == d) { it.push_back(it[j]); done = true; break; }
      if (done) continue;
    }
    it.push_back(c.in(0, w.ents.at(d) - 1));
  }
  return it;
}

// Adds one observation (and the clean values it needs) to the expectation.
// Returns what has to be incorporated, bases first.
inline vector<std::tuple<string, T_items, Val>> plan_add(Ctx& c, World& w, const string& name, const T_items& it) {
  vector<std::tuple<string, T_items, Val>> out;
  const Rel& r = w.rel(name);
  if (w.obs[name].contains(it)) return out;
  Val v;
  if (r.noisy) {
    T_items b = w.base_items(r, it);
    out = plan_add(c, w, r.base, b);
    v = gen_noisy(c, r, w.obs[r.base].at(b));
  } else {
    v = gen_clean(c, r);
  }
  w.obs[name][it] = v;
  out.push_back({name, it, v});
  return out;
}
// True when no noisy observation refers to it.
inline bool removable(const World& w, const string& name, const T_items& it) {
  for (auto& ch : w.children(name)) {
    auto f = w.obs.find(ch);
    if (f == w.obs.end()) continue;
    for (auto& [ci, v] : f->second)
      if (std::equal(it.begin(), it.end(), ci.begin())) return false;
  }
  return true;
}
inline size_t num_obs(const World& w) {
  size_t n = 0;
  for (auto& [r, m] : w.obs) n += m.size();
  return n;
}

// ------------------------------------------------------------------ oracle
inline double crp_score(const vector<double>& sizes, double alpha) {
  double n = 0, s = 0;
  for (double k : sizes) {
    s += std::log(alpha);
    for (double i = 1; i < k; ++i) s += std::log(i);
    n += k;
  }
  for (double i = 0; i < n; ++i) s -= std::log(alpha + i);
  return s;
}
inline void check_crp(Ctx& c, const CRP& crp, const std::set<int>& want, const string& key) {
  size_t n = 0;
  std::set<int> seen;
  for (auto& [t, items] : crp.tables) {
    c.check(!items.empty(), key + ":empty-table", fmt("table %d is empty", t));
    for (int i : items) {
      c.check(seen.insert(i).second, key + ":two-tables", fmt("item %d sits at two tables", i));
      auto a = crp.assignments.find(i);
      c.check(a != crp.assignments.end() && a->second == t, key + ":assignment", fmt("item %d: table and assignment differ", i));
      ++n;
    }
  }
  c.check(crp.N == (int)n, key + ":N", fmt("N=%d but %zu items", crp.N, n));
  c.check(crp.assignments.size() == n, key + ":assignments", "assignments of items at no table");
  string d;
  for (int i : seen) if (!want.contains(i)) d += fmt(" +%d", i);
  for (int i : want) if (!seen.contains(i)) d += fmt(" -%d", i);
  c.check(seen == want, key + ":items", "clustered items differ from the expected ones:" + d);
}
inline double crp_score_of(const CRP& crp) {
  vector<double> s;
  for (auto& [t, items] : crp.tables) s.push_back(items.size());
  return crp_score(s, crp.alpha);
}

// Models of real numbers lose precision when a value far larger than the others
// (a draw from a heavy-tailed prior, say) passes through them. Where that
// happens naturally, such clusters are counted, and judged by how many differ.
// (real_clusters_drift: in the whole harness; real_latents: in this world.)
inline bool real_clusters_drift = false, real_latents = false;
template <class V>
bool is_real_model(Distribution<V>* d) {
  if constexpr (std::is_same_v<V, double> || std::is_same_v<V, std::pair<double, double>>) return true;
  if constexpr (std::is_same_v<V, string>) return dynamic_cast<DistributionAdapter<double>*>(d) != nullptr;
  return false;
}

struct Scores {
  double data = 0;
  bool known = true;  // every cluster's score could be recomputed
};

// One relation's store against the observations it must hold.
template <class V>
void check_store(Ctx& c, const CleanRelation<V>* r, const map<T_items, V>& want, const string& key, Scores* sc) {
  c.count("relations_compared");
  c.count("observations_compared", want.size());
  c.check(r->get_data().size() == want.size(), key + ":count",
          fmt("%s holds %zu observations, %zu expected", r->name.c_str(), r->get_data().size(), want.size()));
  for (auto& [it, v] : want) {
    auto f = r->get_data().find(it);
    c.check(f != r->get_data().end(), key + ":missing", r->name + " lost the observation at " + show(it));
    c.check(f->second == v, key + ":value",
            r->name + " at " + show(it) + " holds " + show1(f->second) + " instead of " + show1(v));
  }
  // reverse index
  map<string, map<int, std::set<T_items>>> rev;
  for (auto* d : r->get_domains()) rev[d->name];
  for (auto& [it, v] : want)
    for (size_t i = 0; i < it.size(); ++i) rev[r->get_domains()[i]->name][it[i]].insert(it);
  c.check(r->get_data_r().size() == rev.size(), key + ":index-domains", r->name + ": reverse index over other domains");
  for (auto& [d, m] : rev) {
    auto& have = r->get_data_r().at(d);
    c.check(have.size() == m.size(), key + ":index-items",
            fmt("%s: reverse index of %s has %zu entities, %zu expected", r->name.c_str(), d.c_str(), have.size(), m.size()));
    for (auto& [i, st] : m) {
      auto f = have.find(i);
      c.check(f != have.end(), key + ":index-missing", fmt("%s: entity %s %d not in the reverse index", r->name.c_str(), d.c_str(), i));
      c.check(std::set<T_items>(f->second.begin(), f->second.end()) == st, key + ":index-set",
              fmt("%s: reverse index of %s %d differs", r->name.c_str(), d.c_str(), i));
    }
  }
  for (auto* d : r->get_domains())
    for (int i = 0; i < 8; ++i)
      c.check(r->has_observation(*d, i) == rev[d->name].contains(i), key + ":has_observation",
              fmt("%s: has_observation(%s, %d) is wrong", r->name.c_str(), d->name.c_str(), i));
  // clusters
  map<vector<int>, vector<V>> group;
  for (auto& [it, v] : want) {
    vector<int> z;
    for (size_t i = 0; i < it.size(); ++i) z.push_back(r->get_domains()[i]->get_cluster_assignment(it[i]));
    c.check(r->get_cluster_assignment(it) == z, key + ":assignment", r->name + ": cluster assignment of " + show(it));
    group[z].push_back(v);
  }
  for (auto& [z, d] : r->clusters)
    c.check(group.contains(z), key + ":stray-cluster", r->name + ": cluster " + show(z) + fmt(" (N=%g) without observations", d->N));
  double total = 0, tol = 1e-6;
  bool known = true;
  for (auto& [z, vs] : group) {
    auto f = r->clusters.find(z);
    c.check(f != r->clusters.end(), key + ":no-cluster", r->name + ": no cluster " + show(z) + " for its observations");
    Distribution<V>* d = f->second;
    c.near(d->N, (double)vs.size(), key + ":cluster-count", r->name + ": count of cluster " + show(z), 1e-6);
    auto t = twin<V>(d);
    if (!t) { known = false; continue; }
    double mag = 0;
    for (auto&& v : vs) t->incorporate(v);
    double s = t->logp_score();
    mag = std::fabs(s);
    tol += 1e-5 + 1e-8 * mag;
    if ((real_clusters_drift || real_latents) && is_real_model(d)) {
      double g = d->logp_score();
      c.count("real_scores_compared");
      if (!(std::fabs(g - s) <= 1e-5 + 1e-7 * mag)) {
        c.count("real_scores_off");
        known = false;
        continue;
      }
    }
    c.near(d->logp_score(), s, key + ":cluster-score", r->name + ": score of cluster " + show(z) + " against a rebuilt one", 1e-5, 1e-7);
    c.near(d->logp(vs[0]), t->logp(vs[0]), key + ":cluster-logp", r->name + ": prediction of cluster " + show(z), 1e-5, 1e-7);
    c.count("clusters_rebuilt");
    total += s;
  }
  if (known) c.near(r->logp_score(), total, key + ":score", r->name + ": score against its clusters", tol, 1e-7);
  if (sc) {
    sc->data += known ? total : r->logp_score();
    sc->known &= known;
  }
}

template <class T>
map<T_items, T> typed(const map<T_items, Val>& m) {
  map<T_items, T> o;
  for (auto& [k, v] : m) o[k] = std::get<T>(v);
  return o;
}

// `rel` against the expectation; `base` is the live base relation for noisy ones.
inline void check_relation(Ctx& c, const World& w, const Rel& r, RelationVariant rv, const RelationVariant* base,
                           const string& key, Scores* sc = nullptr) {
  static const map<T_items, Val> none;
  auto& want = w.obs.contains(r.name) ? w.obs.at(r.name) : none;
  std::visit(
      [&](auto rel) {
        using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
        auto m = typed<T>(want);
        if (!r.noisy) {
          auto* cr = dynamic_cast<CleanRelation<T>*>(rel);
          c.check(cr != nullptr, key + ":kind", r.name + " is not a clean relation");
          check_store<T>(c, cr, m, key, sc);
          return;
        }
        auto* nr = dynamic_cast<NoisyRelation<T>*>(rel);
        c.check(nr != nullptr, key + ":kind", r.name + " is not a noisy relation");
        if (base)
          c.check(nr->base_relation == std::get<Relation<T>*>(*base), key + ":base-pointer",
                  r.name + " does not refer to the live copy of its clean relation");
        c.check(nr->get_data().size() == m.size(), key + ":noisy-count",
                fmt("%s holds %zu observations, %zu expected", r.name.c_str(), nr->get_data().size(), m.size()));
        auto bm = typed<T>(w.obs.contains(r.base) ? w.obs.at(r.base) : none);
        map<T_items, std::pair<T, T>> pairs;
        map<T_items, std::set<T_items>> b2n;
        for (auto& [it, v] : m) {
          auto f = nr->get_data().find(it);
          c.check(f != nr->get_data().end(), key + ":noisy-missing", r.name + " lost the observation at " + show(it));
          c.check(f->second == v, key + ":noisy-value", r.name + " at " + show(it) + " holds " + show1(f->second) + " instead of " + show1(v));
          T_items b = w.base_items(r, it);
          c.check(bm.contains(b), key + ":clean-value-missing", r.name + " at " + show(it) + " has no clean value");
          pairs[it] = {bm.at(b), v};
          b2n[b].insert(it);
        }
        for (auto& [b, st] : nr->base_to_noisy_items) {
          if (st.empty()) continue;
          c.check(b2n.contains(b) && std::set<T_items>(st.begin(), st.end()) == b2n.at(b), key + ":base-index",
                  r.name + ": noisy observations listed for clean value " + show(b) + " differ");
        }
        for (auto& [b, st] : b2n)
          c.check(nr->base_to_noisy_items.contains(b), key + ":base-index-missing",
                  r.name + ": no noisy observations listed for clean value " + show(b));
        check_store<std::pair<T, T>>(c, &nr->emission_relation, pairs, key + ":emission", sc);
        if (sc && sc->known)
          c.near(nr->logp_score(), nr->emission_relation.logp_score(), key + ":noisy-score", r.name + ": score");
      },
      rv);
}

// A view against the expectation. `names`: the relations it must hold.
// strict: its entities are exactly those its observations mention.
inline double check_view(Ctx& c, const World& w, IRM* irm, const std::set<string>& names,
                         const std::function<RelationVariant(const string&)>& find, const string& key, bool* known,
                         bool strict = true) {
  real_latents = false;
  for (auto& r : w.rels)
    if (!r.observed && !w.leaf(r.name) && (r.kind == "normal" || r.kind == "string_normal")) real_latents = true;
  c.count("views_compared");
  c.check(irm->relations.size() == names.size(), key + ":relations", fmt("view holds %zu relations, %zu expected", irm->relations.size(), names.size()));
  map<string, std::set<int>> mention;
  map<string, std::set<string>> users;
  Scores sc;
  for (auto& n : names) {
    c.check(irm->relations.contains(n), key + ":relation-missing", "view does not hold relation " + n);
    c.check(irm->schema.contains(n), key + ":schema-missing", "view's schema lacks relation " + n);
    const Rel& r = w.rel(n);
    RelationVariant rv = irm->relations.at(n);
    auto doms = std::visit([](auto rel) { return rel->get_domains(); }, rv);
    c.check(doms.size() == r.doms.size(), key + ":arity", n + ": arity");
    for (size_t i = 0; i < doms.size(); ++i) {
      c.check(irm->domains.contains(r.doms[i]) && doms[i] == irm->domains.at(r.doms[i]), key + ":domain-pointer",
              n + ": domain " + r.doms[i] + " is not the view's");
      users[r.doms[i]].insert(n);
    }
    if (w.obs.contains(n))
      for (auto& [it, v] : w.obs.at(n))
        for (size_t i = 0; i < it.size(); ++i) mention[r.doms[i]].insert(it[i]);
    if (r.noisy) {
      RelationVariant b = find(r.base);
      check_relation(c, w, r, rv, &b, key, &sc);
    } else {
      check_relation(c, w, r, rv, nullptr, key, &sc);
    }
  }
  c.check(irm->domains.size() == users.size(), key + ":domains", fmt("view has %zu domains, %zu expected", irm->domains.size(), users.size()));
  double crps = 0;
  for (auto& [d, us] : users) {
    Domain* dom = irm->domains.at(d);
    auto& have = irm->domain_to_relations.at(d);
    c.check(std::set<string>(have.begin(), have.end()) == us, key + ":domain-users", "relations listed for domain " + d + " differ");
    std::set<int> items(dom->items.begin(), dom->items.end());
    if (strict) {
      string diff;
      for (int i : items) if (!mention[d].contains(i)) diff += fmt(" +%d", i);
      for (int i : mention[d]) if (!items.contains(i)) diff += fmt(" -%d", i);
      c.check(items == mention[d], key + ":entities", "entities of domain " + d + " differ from those the observations mention:" + diff);
    } else {
      for (int i : mention[d]) c.check(items.contains(i), key + ":entities", fmt("entity %d of %s is missing", i, d.c_str()));
    }
    for (int i : items) {
      bool has = irm->has_observation(d, i);
      c.check(has == (mention[d].count(i) > 0), key + ":has_observation", fmt("has_observation(%s, %d)", d.c_str(), i));
    }
    check_crp(c, dom->crp, items, key + ":crp");
    crps += crp_score_of(dom->crp);
    c.count("entities_compared", items.size());
  }
  double total = crps + sc.data;
  if (known) *known = sc.known;
  c.near(irm->logp_score(), total, key + ":view-score", "score of the view against its parts", 1e-5 * (1 + names.size()), 1e-7);
  return total;
}

inline void check_irm(Ctx& c, const World& w, IRM* irm, const string& key, bool strict = true) {
  std::set<string> names;
  for (auto& r : w.rels) names.insert(r.name);
  bool known;
  check_view(c, w, irm, names, [&](const string& n) { return irm->relations.at(n); }, key, &known, strict);
}

inline double check_hirm(Ctx& c, const World& w, HIRM* h, const string& key) {
  map<int, std::set<string>> views;
  std::set<int> codes;
  c.check(h->schema.size() == w.rels.size(), key + ":hirm-schema", "number of relations in the schema");
  c.check(h->relation_to_code.size() == w.rels.size() && h->code_to_relation.size() == w.rels.size(), key + ":codes", "relation codes");
  for (auto& r : w.rels) {
    c.check(h->relation_to_code.contains(r.name), key + ":no-code", "no code for relation " + r.name);
    int code = h->relation_to_code.at(r.name);
    c.check(h->code_to_relation.contains(code) && h->code_to_relation.at(code) == r.name, key + ":code-map", "code of relation " + r.name);
    codes.insert(code);
    c.check(h->crp.assignments.contains(code), key + ":unassigned", "relation " + r.name + " is in no view");
    views[h->crp.assignments.at(code)].insert(r.name);
    c.check(h->relation_to_table(r.name) == h->crp.assignments.at(code), key + ":table", "view of relation " + r.name);
  }
  check_crp(c, h->crp, codes, key + ":relation-crp");
  c.check(h->irms.size() == views.size(), key + ":views", fmt("%zu views, %zu expected", h->irms.size(), views.size()));
  double total = crp_score_of(h->crp);
  for (auto& [t, names] : views) {
    c.check(h->irms.contains(t), key + ":view-missing", fmt("no view %d", t));
    total += check_view(c, w, h->irms.at(t), names, [&](const string& n) { return h->get_relation(n); }, key, nullptr);
  }
  for (auto& r : w.rels) {
    auto ch = w.children(r.name);
    std::multiset<string> want(ch.begin(), ch.end()), have;
    auto f = h->base_to_noisy_relations.find(r.name);
    if (f != h->base_to_noisy_relations.end()) have.insert(f->second.begin(), f->second.end());
    c.check(have == want, key + ":base-to-noisy", "noisy relations listed for " + r.name);
  }
  c.near(h->logp_score(), total, key + ":total-score", "total score against its parts", 1e-5 * (1 + w.rels.size()), 1e-7);
  return total;
}

// Refresh the expected values of latent relations from the model: the tuples
// must be the expected ones, the values in the support; values are then taken
// over (the other checks compare everything that depends on them).
inline void adopt_latents(Ctx& c, World& w, const std::function<RelationVariant(const string&)>& find, const string& key) {
  for (auto& r : w.rels) {
    if (r.observed || w.leaf(r.name) || !w.obs.contains(r.name)) continue;
    std::visit(
        [&](auto rel) {
          auto& want = w.obs.at(r.name);
          c.check(rel->get_data().size() == want.size(), key + ":latent-count",
                  fmt("%s holds %zu latent values, %zu expected", r.name.c_str(), rel->get_data().size(), want.size()));
          for (auto& [it, v] : want) {
            auto f = rel->get_data().find(it);
            c.check(f != rel->get_data().end(), key + ":latent-missing", r.name + " lost its latent value at " + show(it));
            Val nv = f->second;
            c.check(in_support(r, nv), key + ":latent-support", r.name + " at " + show(it) + " took the impossible value " + show(nv));
            if (!(nv == v)) c.count("latent_values_changed");
            v = nv;
          }
        },
        find(r.name));
  }
}
inline string state_sig(const World& w) {
  string s = w.text();
  for (auto& [n, m] : w.obs)
    for (auto& [it, v] : m) s += n + show(it) + show(v);
  return s;
}
