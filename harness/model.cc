// Monitors for the clustering prior, relations, views and whole models (C07-C15).
#include "model.hh"

// ------------------------------------------------------------------ C07
// An independent record of the seating.
struct Seats {
  map<int, int> at;
  map<int, int> sizes() const {
    map<int, int> s;
    for (auto& [i, t] : at) ++s[t];
    return s;
  }
  std::set<int> items() const {
    std::set<int> s;
    for (auto& [i, t] : at) s.insert(i);
    return s;
  }
};
static void crp_against(Ctx& c, const CRP& crp, const Seats& s) {
  check_crp(c, crp, s.items(), "crp");
  for (auto& [i, t] : s.at) c.check(crp.assignments.at(i) == t, "crp:seat", fmt("item %d sits at %d, expected %d", i, crp.assignments.at(i), t));
  auto sz = s.sizes();
  vector<double> v;
  for (auto& [t, n] : sz) v.push_back(n);
  double sc = crp_score(v, crp.alpha);
  c.near(crp.logp_score(), sc, "crp:score", "seating score", 1e-6, 1e-9);
  // predictive probabilities
  double tot = 0, N = s.at.size();
  auto w = crp.tables_weights();
  c.check(w.size() == sz.size() + 1, "crp:weights-size", fmt("%zu seating weights for %zu clusters", w.size(), sz.size()));
  int fresh = 0;
  for (auto& [t, wt] : w) {
    double want = sz.contains(t) ? sz.at(t) : crp.alpha;
    if (!sz.contains(t)) ++fresh;
    c.near(wt, want, "crp:weight", fmt("seating weight of table %d", t));
    double lp = crp.logp(t);
    c.near(lp, std::log(want / (N + crp.alpha)), "crp:logp", fmt("seating probability of table %d", t));
    tot += std::exp(lp);
  }
  c.check(fresh == 1, "crp:fresh", "not exactly one fresh table");
  c.near(tot, 1.0, "crp:normalised", "seating probabilities sum");
  if (N > 0) c.near(crp.logp_new_table(), std::log(crp.alpha / (N + crp.alpha)), "crp:new-table", "fresh table probability");
  // reseating weights equal the weights after removal
  for (auto& [i, t] : s.at) {
    if (!c.coin(0.4)) continue;
    Seats s2 = s;
    s2.at.erase(i);
    auto sz2 = s2.sizes();
    auto g = crp.tables_weights_gibbs(t);
    int nf = 0;
    for (auto& [u, wt] : g) {
      if (sz2.contains(u)) c.near(wt, sz2.at(u), "crp:gibbs-weight", fmt("reseating weight of table %d", u));
      else { c.near(wt, crp.alpha, "crp:gibbs-fresh", "reseating weight of a fresh table"); ++nf; }
    }
    c.check(nf == 1 && g.size() == sz2.size() + 1, "crp:gibbs-tables", "reseating candidates");
  }
}
FAMILY("C07", "crp_history", 3000, 60000, [](Ctx& c) {
  CRP crp;
  crp.alpha = c.coin(0.3) ? 1.0 : std::exp(2 * c.normal());
  Seats s;
  std::mt19937 prng(c.u());
  int steps = c.coin(0.1) ? 150 : c.in(1, 30), next = 0;
  string sg = fmt("%.4f", crp.alpha);
  crp_against(c, crp, s);
  double chain = 0;
  bool pure = true;
  for (int i = 0; i < steps; ++i) {
    double u = c.unit();
    if (u < 0.45 || s.at.empty()) {
      int item = c.coin(0.2) ? -next - 1000 : next * 7;
      ++next;
      int t = c.coin() ? crp.sample(&prng) : (c.coin(0.5) ? c.in(0, 6) : crp.max_table() + 1);
      auto w = crp.tables_weights();
      if (w.contains(t)) chain += crp.logp(t);
      else chain += crp.logp_new_table();  // any unused id is the fresh table
      crp.incorporate(item, t);
      s.at[item] = t;
      sg += fmt("+%d@%d", item, t);
      c.count("seated");
      if (pure) c.near(crp.logp_score(), chain, "crp:chain", "score against sequential seating probabilities", 1e-6, 1e-9);
    } else if (u < 0.8) {
      int item = c.pick(s.items());
      crp.unincorporate(item);
      s.at.erase(item);
      sg += fmt("-%d", item);
      pure = false;
      c.count("unseated");
    } else if (u < 0.9) {
      int item = c.pick(s.items());
      int old = s.at.at(item);
      auto g = crp.tables_weights_gibbs(old);
      int t = std::next(g.begin(), c.in(0, (long)g.size() - 1))->first;
      crp.unincorporate(item);
      crp.incorporate(item, t);
      s.at[item] = t;
      sg += fmt("~%d@%d", item, t);
      pure = false;
    } else {
      double before = 0;
      (void)before;
      crp.transition_alpha(&prng);
      c.check(crp.alpha > 0 && std::isfinite(crp.alpha), "crp:alpha", "concentration is not positive");
      pure = false;
      sg += "a";
    }
    if (i % 4 == 0 || i + 1 == steps) crp_against(c, crp, s);
  }
  // relabelling and another order give the same score
  CRP other;
  other.alpha = crp.alpha;
  vector<int> order;
  for (auto& [i, t] : s.at) order.push_back(i);
  std::shuffle(order.begin(), order.end(), c.rng);
  map<int, int> relab;
  for (int i : order) {
    int t = s.at.at(i);
    if (!relab.contains(t)) relab[t] = (int)relab.size() * 3;
    other.incorporate(i, relab[t]);
  }
  c.near(other.logp_score(), crp.logp_score(), "crp:exchangeable", "score of the relabelled seating", 1e-6, 1e-9);
  c.sig(sg);
  c.say(sg);
});
// Big tables: seatings of hundreds, with large parts of them leaving again.
FAMILY("C07", "crp_large", 60, 1500, [](Ctx& c) {
  CRP crp;
  crp.alpha = std::exp(2 * c.normal());
  Seats s;
  int tables = c.in(1, 6), n = c.in(40, 600);
  vector<double> share;
  for (int t = 0; t < tables; ++t) share.push_back(0.05 + c.unit() * c.unit());
  std::discrete_distribution<int> where(share.begin(), share.end());
  string sg = fmt("n=%d tables=%d alpha=%.4f", n, tables, crp.alpha);
  for (int round = c.in(1, 3); round > 0; --round) {
    for (int i = 0; i < n; ++i) {
      if (s.at.contains(i)) continue;
      int t = where(c.rng);
      crp.incorporate(i, t);
      s.at[i] = t;
      if (i % 97 == 0) crp_against(c, crp, s);
    }
    crp_against(c, crp, s);
    for (auto& t : crp.tables) c.count(t.second.size() > 50 ? "tables_over_50" : "tables_up_to_50");
    double keep = c.unit();
    for (int i : s.items())
      if (!c.coin(keep)) crp.unincorporate(i), s.at.erase(i);
    crp_against(c, crp, s);
    sg += fmt(" %zu", s.at.size());
  }
  c.sig(sg);
  c.say(sg);
});
FAMILY("C07", "domain_history", 2000, 40000, [](Ctx& c) {
  Domain d("dom");
  d.crp.alpha = std::exp(c.normal());
  std::mt19937 prng(c.u());
  Seats s;
  string sg;
  int steps = c.in(1, 40);
  for (int i = 0; i < steps; ++i) {
    double u = c.unit();
    if (u < 0.5 || s.at.empty()) {
      int item = c.in(0, 12);
      bool had = s.at.contains(item);
      if (had || c.coin()) d.incorporate(&prng, item);
      else d.incorporate(&prng, item, c.in(0, 5));
      int t = d.get_cluster_assignment(item);
      if (had) c.check(t == s.at.at(item), "domain:readd", fmt("adding item %d again moved it", item));
      s.at[item] = t;
    } else if (u < 0.75) {
      int item = c.pick(s.items());
      d.unincorporate(item);
      s.at.erase(item);
    } else {
      int item = c.pick(s.items());
      auto w = d.tables_weights_gibbs(item);
      int t = std::next(w.begin(), c.in(0, (long)w.size() - 1))->first;
      if (t != s.at.at(item)) d.set_cluster_assignment_gibbs(item, t), s.at[item] = t;
    }
    c.check(std::set<int>(d.items.begin(), d.items.end()) == s.items(), "domain:items", "items of the domain differ from those added and not removed");
    if (i % 3 == 0 || i + 1 == steps) crp_against(c, d.crp, s);
    for (auto& [j, t] : s.at) {
      c.check(d.get_cluster_assignment(j) == t, "domain:assignment", fmt("cluster of item %d", j));
      sg += fmt("%d@%d", j, t);
    }
    sg += ";";
  }
  auto w = d.tables_weights(), v = d.crp.tables_weights();
  c.check(w == v, "domain:weights", "weights of the domain and its clustering differ");
  c.sig(sg);
  c.say(sg.substr(0, 200));
});
FAMILY("C07", "crp_sample", 24, 300, [](Ctx& c) {
  CRP crp;
  crp.alpha = c.coin(0.3) ? 1.0 : std::exp(1.5 * c.normal());
  int n = c.in(0, 12);
  for (int i = 0; i < n; ++i) crp.incorporate(i, c.coin(0.5) ? c.in(0, 4) : c.in(0, 9));
  auto w = crp.tables_weights();
  vector<int> ids;
  vector<double> p;
  map<int, int> sizes;
  for (auto& [i, t] : crp.assignments) ++sizes[t];
  int fresh = -1;
  for (auto& [t, x] : w) if (!sizes.contains(t)) fresh = t;
  for (auto& [t, k] : sizes) ids.push_back(t), p.push_back(k / (n + crp.alpha));
  ids.push_back(fresh);
  p.push_back(crp.alpha / (n + crp.alpha));
  std::mt19937 prng(c.u());
  mon::stat_test(c, "crp:sample", "seating frequencies", 20000, p, [&](long m) {
    vector<long> o(p.size());
    for (long i = 0; i < m; ++i) {
      int t = crp.sample(&prng);
      auto f = std::find(ids.begin(), ids.end(), t);
      c.check(f != ids.end(), "crp:sample-table", fmt("sampled table %d is neither used nor fresh", t));
      ++o[f - ids.begin()];
    }
    return o;
  });
  c.check(crp.N == n, "crp:sample-pure", "sampling changed the seating");
  c.sig(fmt("%d %.4f", n, crp.alpha));
  c.say(fmt("n=%d alpha=%.3f tables=%zu", n, crp.alpha, sizes.size()));
});
// Sequential sampled seatings produce each partition with its scored probability.
FAMILY("C07", "crp_partition_law", 10, 60, [](Ctx& c) {
  double alpha = std::exp(c.normal());
  int n = c.in(2, 4);
  map<vector<int>, double> law;
  std::function<void(vector<int>&)> rec = [&](vector<int>& z) {
    if ((int)z.size() == n) {
      CRP crp;
      crp.alpha = alpha;
      for (int i = 0; i < n; ++i) crp.incorporate(i, z[i]);
      law[z] = std::exp(crp.logp_score());
      return;
    }
    int m = z.empty() ? -1 : *std::max_element(z.begin(), z.end());
    for (int t = 0; t <= m + 1; ++t) { z.push_back(t); rec(z); z.pop_back(); }
  };
  vector<int> z;
  rec(z);
  double tot = 0;
  vector<vector<int>> keys;
  vector<double> p;
  for (auto& [k, v] : law) keys.push_back(k), p.push_back(v), tot += v;
  c.near(tot, 1, "crp:partitions-normalised", "sum over all partitions");
  std::mt19937 prng(c.u());
  mon::stat_test(c, "crp:partition-law", "frequency of seated partitions", 20000, p, [&](long m) {
    vector<long> o(p.size());
    for (long k = 0; k < m; ++k) {
      CRP crp;
      crp.alpha = alpha;
      for (int i = 0; i < n; ++i) crp.incorporate(i, crp.sample(&prng));
      map<int, int> lab;
      vector<int> zz;
      for (int i = 0; i < n; ++i) {
        int t = crp.assignments.at(i);
        if (!lab.contains(t)) { int q = lab.size(); lab[t] = q; }
        zz.push_back(lab[t]);
      }
      ++o[std::find(keys.begin(), keys.end(), zz) - keys.begin()];
    }
    return o;
  });
  c.sig(fmt("%d %.4f", n, alpha));
  c.say(fmt("n=%d alpha=%.3f", n, alpha));
});

// ------------------------------------------------------------------ helpers
static void add_obs(Ctx& c, World& w, IRM* irm, std::mt19937* prng, const string& r, const T_items& it, bool via_rel) {
  for (auto& [n, i, v] : plan_add(c, w, r, it)) {
    if (via_rel)
      std::visit([&](auto rel) {
        using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
        rel->incorporate(prng, i, std::get<T>(v));
      }, irm->relations.at(n));
    else
      irm->incorporate(prng, n, i, v);
    c.count("observations_added");
  }
}
static bool pick_obs(Ctx& c, const World& w, string* n, T_items* it) {
  size_t tot = num_obs(w);
  if (!tot) return false;
  long k = c.in(0, tot - 1);
  for (auto& [r, m] : w.obs) {
    if (k < (long)m.size()) {
      *n = r;
      *it = std::next(m.begin(), k)->first;
      return true;
    }
    k -= m.size();
  }
  return false;
}
// Move an entity the way the inference step does, to a candidate table.
static void move_entity(IRM* irm, const string& d, int item, int table, std::mt19937* prng) {
  Domain* dom = irm->domains.at(d);
  if (dom->get_cluster_assignment(item) == table) return;
  for (auto& r : irm->domain_to_relations.at(d))
    std::visit([&](auto rel) {
      if (rel->has_observation(*dom, item)) rel->set_cluster_assignment_gibbs(*dom, item, table, prng);
    }, irm->relations.at(r));
  dom->set_cluster_assignment_gibbs(item, table);
}
static bool pick_entity(Ctx& c, IRM* irm, string* d, int* item) {
  vector<std::pair<string, int>> all;
  map<string, std::set<int>> ord;
  for (auto& [n, dom] : irm->domains) ord[n].insert(dom->items.begin(), dom->items.end());
  for (auto& [n, s] : ord)
    for (int i : s) all.push_back({n, i});
  if (all.empty()) return false;
  auto p = all[c.in(0, (long)all.size() - 1)];
  *d = p.first;
  *item = p.second;
  return true;
}

// ------------------------------------------------------------------ C08
// Histories of relation-level operations on one view.
static void relation_history(Ctx& c, const Opts& o, bool strict, int bulk = 0) {
  World w = make_world(c, o);
  IRM irm({});
  for (auto& r : w.rels) std::visit([&](auto t) { irm.add_relation(r.name, t); }, w.schema.at(r.name));
  std::mt19937 prng(c.u());
  c.say(w.text());
  int steps = c.coin(0.15) ? c.in(40, 90) : c.in(4, 30);
  string ops;
  auto find = [&](const string& n) { return irm.relations.at(n); };
  for (int i = 0; i < bulk; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &irm, &prng, r.name, rand_items(c, w, r), c.coin(0.3));
  }
  if (bulk) ops = fmt("bulk%d", bulk);
  for (int s = 0; s < steps; ++s) {
    double u = c.unit();
    if (u < 0.42 || num_obs(w) == 0) {
      const Rel& r = c.pick(w.rels);
      T_items it = rand_items(c, w, r);
      add_obs(c, w, &irm, &prng, r.name, it, c.coin(0.3));
      ops += "+" + r.name + show(it);
    } else if (u < 0.55) {
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      if (!removable(w, n, it)) continue;
      irm.unincorporate(n, it);
      w.obs[n].erase(it);
      c.count("observations_removed");
      ops += "-" + n + show(it);
    } else if (u < 0.62) {
      // change a value nothing refers to
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      if (!removable(w, n, it)) continue;
      const Rel& r = w.rel(n);
      Val v = r.noisy ? gen_noisy(c, r, w.obs[r.base].at(w.base_items(r, it))) : gen_clean(c, r);
      std::visit([&](auto rel) {
        using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
        rel->update_value(it, std::get<T>(v));
      }, irm.relations.at(n));
      w.obs[n][it] = v;
      c.count("values_updated");
      ops += "=" + n + show(it);
    } else if (u < 0.80) {
      string d; int item;
      if (!pick_entity(c, &irm, &d, &item)) continue;
      auto tw = irm.domains.at(d)->tables_weights_gibbs(item);
      int t = std::next(tw.begin(), c.in(0, (long)tw.size() - 1))->first;
      move_entity(&irm, d, item, t, &prng);
      c.count("entities_moved");
      ops += fmt("m%s%d>%d", d.c_str(), item, t);
    } else if (u < 0.85) {
      // a hidden clean value is re-estimated
      vector<string> bases;
      for (auto& r : w.rels) if (!r.observed && !w.leaf(r.name) && w.obs.contains(r.name)) bases.push_back(r.name);
      if (bases.empty()) continue;
      string b = c.pick(bases);
      irm.transition_latent_values_relation(&prng, b);
      adopt_latents(c, w, find, "rel");
      c.count("latent_updates");
      ops += "L" + b;
    } else if (u < 0.90) {
      const Rel& r = c.pick(w.rels);
      std::visit([&](auto rel) { rel->transition_cluster_hparams(&prng, 2); }, irm.relations.at(r.name));
      ops += "h" + r.name;
    } else if (u < 0.94) {
      // take an observation out of its cluster and put it back
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      std::visit([&](auto rel) {
        auto v = rel->get_value(it);
        rel->unincorporate_from_cluster(it);
        rel->incorporate_to_cluster(it, v);
      }, irm.relations.at(n));
      ops += "c" + n + show(it);
    } else if (u < 0.97) {
      // remove it in two steps, as the entity updates do
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      if (!removable(w, n, it)) continue;
      std::visit([&](auto rel) {
        rel->unincorporate_from_cluster(it);
        rel->cleanup_data(it);
        rel->cleanup_clusters();
      }, irm.relations.at(n));
      w.obs[n].erase(it);
      strict = false;  // the entities stay in the domain by contract
      ops += "d" + n + show(it);
    } else {
      // sample a value at fresh entities
      const Rel& r = c.pick(w.rels);
      T_items it = rand_items(c, w, r);
      if (w.obs[r.name].contains(it)) continue;
      if (r.noisy) {
        T_items b = w.base_items(r, it);
        add_obs(c, w, &irm, &prng, r.base, b, false);
      }
      Val v = std::visit([&](auto rel) { return Val(rel->sample_and_incorporate(&prng, it)); }, irm.relations.at(r.name));
      c.check(in_support(r, v), "rel:sampled-support", "sampled the impossible value " + show(v) + " for " + r.name);
      w.obs[r.name][it] = v;
      c.count("values_sampled");
      ops += "s" + r.name + show(it);
    }
    c.count("operations");
    if (s % 3 == 0 || s + 1 == steps) check_irm(c, w, &irm, "rel", strict);
  }
  c.say(" | " + ops);
  // the surviving observations in a fresh view with the same clusters
  if (num_obs(w) >= 2) c.sig(w.text() + ops);
}
FAMILY("C08", "relation_history", 10000, 60000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  relation_history(c, o, true);
});
FAMILY("C08", "relation_history_wide", 2400, 15000, [](Ctx& c) {
  Opts o;
  o.max_arity = 4;
  o.max_rels = 3;
  o.max_domains = 2;
  o.max_ents = 4;
  relation_history(c, o, true);
});
FAMILY("C08", "relation_history_large", 120, 2000, [](Ctx& c) { relation_history(c, large_opts(c), true, c.in(60, 700)); });
// apportioning noise: counts and values only
FAMILY("C08", "relation_history_apportion", 1600, 8000, [](Ctx& c) {
  Opts o;
  o.apportion = true;
  o.kinds = {"categorical", "categorical", "bernoulli"};
  relation_history(c, o, true);
});
// A relation rebuilt from the surviving observations and clusters scores the same.
FAMILY("C08", "relation_rebuild", 6000, 30000, [](Ctx& c) {
  Opts o;
  World w = make_world(c, o);
  IRM irm({});
  for (auto& r : w.rels) std::visit([&](auto t) { irm.add_relation(r.name, t); }, w.schema.at(r.name));
  std::mt19937 prng(c.u());
  int n = c.in(2, 25);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &irm, &prng, r.name, rand_items(c, w, r), false);
    if (c.coin(0.4)) irm.transition_cluster_assignments_all(&prng);
    string rn; T_items it;
    if (c.coin(0.3) && pick_obs(c, w, &rn, &it) && removable(w, rn, it)) irm.unincorporate(rn, it), w.obs[rn].erase(it);
  }
  IRM irm2({});
  for (auto& r : w.rels) std::visit([&](auto t) { irm2.add_relation(r.name, t); }, w.schema.at(r.name));
  for (auto& [d, dom] : irm.domains) {
    irm2.domains.at(d)->crp.alpha = dom->crp.alpha;
    for (int i : dom->items) irm2.domains.at(d)->incorporate(nullptr, i, dom->get_cluster_assignment(i));
  }
  for (auto& r : w.rels)
    if (w.obs.contains(r.name))
      for (auto& [it, v] : w.obs.at(r.name)) irm2.incorporate(&prng, r.name, it, v);
  check_irm(c, w, &irm, "rebuild:a");
  check_irm(c, w, &irm2, "rebuild:b");
  c.near(irm.logp_score(), irm2.logp_score(), "rebuild:score", "score of the model against a rebuilt one", 1e-5, 1e-8);
  // predictions of rebuilt relations agree as well
  for (auto& r : w.rels) {
    if (r.noisy || !w.obs.contains(r.name) || w.obs.at(r.name).empty()) continue;
    auto it = std::next(w.obs.at(r.name).begin(), c.in(0, (long)w.obs.at(r.name).size() - 1))->first;
    Val v = gen_clean(c, r);
    std::visit([&](auto rel) {
      using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
      auto rel2 = std::get<Relation<T>*>(irm2.relations.at(r.name));
      T x = std::get<T>(v);
      c.near(rel->cluster_or_prior_logp_from_items(&prng, it, x), rel2->cluster_or_prior_logp_from_items(&prng, it, x),
             "rebuild:prediction", r.name + ": prediction against a rebuilt relation", 1e-6, 1e-7);
    }, irm.relations.at(r.name));
  }
  if (num_obs(w) >= 2) c.sig(state_sig(w));
  c.say(w.text() + fmt(" n=%zu", num_obs(w)));
});

// ------------------------------------------------------------------ C09
// Score of the view's data if `item` of `d` sat at `table`, recomputed from the
// observations; hyperparameters of clusters that keep some other observation
// (or of all, for the current table) stay, others are the prior's.
template <class V>
static double moved_score(Ctx& c, const CleanRelation<V>* r, const string& d, int item, int table, bool* ok) {
  map<vector<int>, vector<V>> group;
  std::set<vector<int>> keeps;
  double total = 0;
  bool current = false;
  for (auto& [it, v] : r->get_data()) {
    vector<int> z, z0;
    bool touched = false;
    for (size_t i = 0; i < it.size(); ++i) {
      int a = r->get_domains()[i]->get_cluster_assignment(it[i]);
      z0.push_back(a);
      if (r->get_domains()[i]->name == d && it[i] == item) {
        touched = true;
        current = a == table;
        a = table;
      }
      z.push_back(a);
    }
    group[z].push_back(v);
    if (!touched) keeps.insert(z0);
  }
  std::mt19937 dummy(1);
  for (auto& [z, vs] : group) {
    std::unique_ptr<Distribution<V>> t;
    std::unique_ptr<Distribution<V>> fresh;
    if (current || keeps.contains(z)) t = twin<V>(r->clusters.at(z));
    else {
      fresh.reset(r->make_new_distribution(&dummy));
      t = twin<V>(fresh.get());
    }
    if (!t) { *ok = false; return 0; }
    for (auto&& v : vs) t->incorporate(v);
    total += t->logp_score();
  }
  return total;
}
static double moved_score(Ctx& c, const World& w, IRM* irm, const string& d, int item, int table, bool* ok) {
  double s = 0;
  for (auto& r : w.rels)
    s += std::visit([&](auto rel) -> double {
      using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
      if (r.noisy) return moved_score<std::pair<T, T>>(c, &dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation, d, item, table, ok);
      return moved_score<T>(c, dynamic_cast<CleanRelation<T>*>(rel), d, item, table, ok);
    }, irm->relations.at(r.name));
  return s;
}
// Random model: schema, observations, partitions and hyperparameters.
struct Built {
  World w;
  std::unique_ptr<IRM> irm;
};
static Built build_irm(Ctx& c, const Opts& o, std::mt19937* prng, int max_obs, bool hypers) {
  Built b{make_world(c, o), nullptr};
  b.irm = std::make_unique<IRM>(T_schema{});
  for (auto& r : b.w.rels) std::visit([&](auto t) { b.irm->add_relation(r.name, t); }, b.w.schema.at(r.name));
  int n = c.in(1, max_obs);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(b.w.rels);
    add_obs(c, b.w, b.irm.get(), prng, r.name, rand_items(c, b.w, r), false);
  }
  int moves = c.in(0, 12);
  for (int i = 0; i < moves; ++i) {
    string d; int item;
    if (!pick_entity(c, b.irm.get(), &d, &item)) break;
    auto tw = b.irm->domains.at(d)->tables_weights_gibbs(item);
    move_entity(b.irm.get(), d, item, std::next(tw.begin(), c.in(0, (long)tw.size() - 1))->first, prng);
  }
  if (hypers) {
    for (auto& r : b.w.rels)
      if (c.coin(0.6)) std::visit([&](auto rel) { rel->transition_cluster_hparams(prng, 1); }, b.irm->relations.at(r.name));
    for (auto& [d, dom] : b.irm->domains) dom->crp.alpha = std::exp(c.normal());
  }
  return b;
}
static void c09_case(Ctx& c, const Opts& o, int n = 0) {
  std::mt19937 prng(c.u());
  bool hypers = c.coin();
  Built b = build_irm(c, o, &prng, n ? n : c.coin(0.1) ? 80 : 25, hypers);
  World& w = b.w;
  IRM* irm = b.irm.get();
  c.say(w.text() + fmt(" n=%zu hypers=%d", num_obs(w), hypers));
  int tries = 3;
  for (int k = 0; k < tries; ++k) {
    string d; int item;
    if (!pick_entity(c, irm, &d, &item)) return;
    Domain* dom = irm->domains.at(d);
    auto tw = dom->tables_weights_gibbs(item);
    vector<int> tables;
    vector<double> lp;
    for (auto& [t, wt] : tw) tables.push_back(t), lp.push_back(std::log(wt));
    for (auto& r : irm->domain_to_relations.at(d))
      std::visit([&](auto rel) {
        if (!rel->has_observation(*dom, item)) return;
        auto v = rel->logp_gibbs_exact(*dom, item, tables, &prng);
        c.check(v.size() == tables.size(), "gibbs:size", "one log probability per candidate");
        for (size_t i = 0; i < v.size(); ++i) lp[i] += v[i];
      }, irm->relations.at(r));
    bool ok = true;
    vector<double> want;
    map<int, int> sizes;
    for (auto& [i, t] : dom->crp.assignments) ++sizes[t];
    int cur = dom->get_cluster_assignment(item);
    --sizes[cur];
    if (!sizes[cur]) sizes.erase(cur);
    for (int t : tables) {
      vector<double> sz;
      auto s2 = sizes;
      ++s2[t];
      for (auto& [x, n] : s2) sz.push_back(n);
      want.push_back(crp_score(sz, dom->crp.alpha) + moved_score(c, w, irm, d, item, t, &ok));
    }
    if (!ok) { c.count("skipped_unknown_kind"); continue; }
    size_t ref = std::find(tables.begin(), tables.end(), cur) - tables.begin();
    c.check(ref < tables.size(), "gibbs:current", "the current cluster is not a candidate");
    bool rep = false;
    for (auto& r : w.rels)
      if (std::count(r.doms.begin(), r.doms.end(), d) > 1) rep = true;
    for (size_t i = 0; i < tables.size(); ++i)
      c.near(lp[i] - lp[ref], want[i] - want[ref], rep ? "gibbs:difference-repeated" : "gibbs:difference",
             fmt("moving %s %d from %d to %d: log weight difference against score difference", d.c_str(), item, cur, tables[i]), 1e-5, 1e-7);
    c.count("candidate_clusters", tables.size());
    c.count("moves_scored");
    check_irm(c, w, irm, "gibbs:unchanged");
    // and by really moving, when clusters have the prior's hyperparameters
    if (!hypers) {
      vector<double> real;
      for (int t : tables) {
        move_entity(irm, d, item, t, &prng);
        real.push_back(irm->logp_score());
      }
      move_entity(irm, d, item, cur, &prng);
      for (size_t i = 0; i < tables.size(); ++i)
        c.near(lp[i] - lp[ref], real[i] - real[ref], rep ? "gibbs:moved-repeated" : "gibbs:moved",
               fmt("log weight difference against the score after moving %s %d to %d", d.c_str(), item, tables[i]), 1e-5, 1e-7);
      check_irm(c, w, irm, "gibbs:moved-back");
    }
    // the transition itself keeps everything
    irm->transition_cluster_assignment_item(&prng, d, item);
    check_irm(c, w, irm, "gibbs:transition");
  }
  if (num_obs(w) >= 2) c.sig(state_sig(w));
}
FAMILY("C09", "move_scores", 7500, 60000, [](Ctx& c) {
  Opts o;
  o.repeats = false;
  c09_case(c, o);
});
FAMILY("C09", "move_scores_repeated", 7500, 60000, [](Ctx& c) {
  Opts o;
  o.max_domains = c.in(1, 2);
  o.max_rels = 3;
  c09_case(c, o);
});
FAMILY("C09", "move_scores_dense", 900, 6000, [](Ctx& c) {
  Opts o;
  o.max_domains = 1;
  o.max_rels = 2;
  o.max_ents = 4;
  o.max_arity = 4;
  c09_case(c, o);
});

FAMILY("C09", "move_scores_large", 150, 2500, [](Ctx& c) { c09_case(c, large_opts(c), 800); });

// ------------------------------------------------------------------ C10 / C11
static void add_obs(Ctx& c, World& w, HIRM* h, std::mt19937* prng, const string& r, const T_items& it) {
  for (auto& [n, i, v] : plan_add(c, w, r, it)) {
    h->incorporate(prng, n, i, v);
    c.count("observations_added");
  }
}
static void remove_rel(World& w, const string& n) {
  w.obs.erase(n);
  w.schema.erase(n);
  for (size_t i = 0; i < w.rels.size(); ++i)
    if (w.rels[i].name == n) { w.rels.erase(w.rels.begin() + i); break; }
}
// Inference and edit operations on a single view.
static void view_history(Ctx& c, const Opts& o) {
  World w = make_world(c, o);
  bool at_once = c.coin();
  IRM irm(at_once ? w.schema : T_schema{});
  if (!at_once)
    for (auto& r : w.rels) std::visit([&](auto t) { irm.add_relation(r.name, t); }, w.schema.at(r.name));
  std::mt19937 prng(c.u());
  c.say(w.text());
  auto find = [&](const string& n) { return irm.relations.at(n); };
  string ops;
  int steps = c.coin(0.1) ? c.in(30, 60) : c.in(4, 22);
  for (int s = 0; s < steps; ++s) {
    double u = c.unit();
    if (u < 0.35 || num_obs(w) == 0) {
      const Rel& r = c.pick(w.rels);
      int k = c.in(1, 4);
      for (int i = 0; i < k; ++i) add_obs(c, w, &irm, &prng, r.name, rand_items(c, w, r), false);
      ops += "+" + r.name;
    } else if (u < 0.5) {
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      if (!removable(w, n, it)) continue;
      irm.unincorporate(n, it);
      w.obs[n].erase(it);
      c.count("observations_removed");
      ops += "-" + n + show(it);
    } else if (u < 0.6) {
      irm.transition_cluster_assignments_all(&prng);
      ops += "A";
    } else if (u < 0.65) {
      vector<string> ds;
      for (auto& [d, dom] : irm.domains) if (c.coin()) ds.push_back(d);
      std::sort(ds.begin(), ds.end());
      irm.transition_cluster_assignments(&prng, ds);
      ops += "a";
    } else if (u < 0.75) {
      double t = 0;
      single_step_irm_inference(&prng, &irm, t, c.coin(0.2), c.in(0, 3), true);
      adopt_latents(c, w, find, "view");
      ops += "S";
    } else if (u < 0.8) {
      inference_irm(&prng, &irm, 1, c.coin(0.2) ? 100 : 0, false);
      adopt_latents(c, w, find, "view");
      ops += "I";
    } else if (u < 0.85) {
      for (auto& r : w.rels)
        if (!r.observed && !w.leaf(r.name)) irm.transition_latent_values_relation(&prng, r.name);
      adopt_latents(c, w, find, "view");
      ops += "L";
    } else if (u < 0.92) {
      // drop a relation nothing refers to
      vector<string> cand;
      for (auto& r : w.rels) if (w.leaf(r.name)) cand.push_back(r.name);
      if (w.rels.size() < 2 || cand.empty()) continue;
      string n = c.pick(cand);
      irm.remove_relation(n);
      remove_rel(w, n);
      c.count("relations_removed");
      ops += "R" + n;
    } else {
      string d; int item;
      if (!pick_entity(c, &irm, &d, &item)) continue;
      irm.transition_cluster_assignment_item(&prng, d, item);
      ops += "i";
    }
    c.count("operations");
    check_irm(c, w, &irm, "view");
  }
  c.say("| " + ops);
  if (num_obs(w) >= 2) c.sig(state_sig(w) + ops);
}
// Inference and edit operations on a whole model.
static void model_history(Ctx& c, const Opts& o, int mode, int bulk = 0) {
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  auto h = std::make_unique<HIRM>(w.schema, &prng);
  c.say(w.text());
  auto find = [&](const string& n) { return h->get_relation(n); };
  string ops;
  check_hirm(c, w, h.get(), "model:empty");
  int steps = c.coin(0.1) ? c.in(25, 50) : c.in(3, 18);
  std::set<int> view_shapes;
  int added = 0;
  for (int i = 0; i < bulk; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, h.get(), &prng, r.name, rand_items(c, w, r));
  }
  if (bulk) ops = fmt("bulk%d", bulk);
  for (int s = 0; s < steps; ++s) {
    double u = c.unit();
    if (u < 0.25 || num_obs(w) == 0) {
      const Rel& r = c.pick(w.rels);
      int k = c.in(1, 5);
      for (int i = 0; i < k; ++i) add_obs(c, w, h.get(), &prng, r.name, rand_items(c, w, r));
      ops += "+" + r.name;
    } else if (u < 0.35) {
      string n; T_items it;
      pick_obs(c, w, &n, &it);
      if (!removable(w, n, it)) continue;
      h->unincorporate(n, it);
      w.obs[n].erase(it);
      c.count("observations_removed");
      ops += "-" + n + show(it);
    } else if (u < 0.5) {
      string n = c.pick(w.rels).name;
      h->transition_cluster_assignment_relation(&prng, n);
      ops += "T" + n;
    } else if (u < 0.62) {
      string n = c.pick(w.rels).name;
      int cur = h->relation_to_table(n);
      auto tw = h->crp.tables_weights_gibbs(cur);
      int t = std::next(tw.begin(), c.in(0, (long)tw.size() - 1))->first;
      if (t == cur) continue;
      h->set_cluster_assignment_gibbs(&prng, n, t);
      c.count("relations_moved");
      ops += "M" + n + fmt(">%d", t);
    } else if (u < 0.68) {
      h->transition_cluster_assignments_all(&prng);
      ops += "A";
    } else if (u < 0.76) {
      vector<string> cand;
      for (auto& r : w.rels) if (!r.observed && !w.leaf(r.name)) cand.push_back(r.name);
      if (cand.empty()) continue;
      string n = c.pick(cand);
      h->transition_latent_values_relation(&prng, n);
      adopt_latents(c, w, find, "model");
      ops += "L" + n;
    } else if (u < 0.84) {
      vector<int> ts;
      for (auto& [t, irm] : h->irms) ts.push_back(t);
      std::sort(ts.begin(), ts.end());
      double tt = 0;
      single_step_irm_inference(&prng, h->irms.at(c.pick(ts)), tt, false, c.in(0, 2), false);
      ops += "S";
    } else if (u < 0.92) {
      inference_hirm(&prng, h.get(), 1, c.coin(0.2) ? 100 : 0, c.coin(0.1));
      adopt_latents(c, w, find, "model");
      ops += "I";
    } else if (u < 0.95 && mode == 0) {
      vector<string> cand;
      for (auto& r : w.rels) if (w.leaf(r.name) && !r.noisy) cand.push_back(r.name);
      if (w.rels.size() < 2 || cand.empty()) continue;
      string n = c.pick(cand);
      h->remove_relation(n);
      remove_rel(w, n);
      c.count("relations_removed");
      ops += "R" + n;
    } else if (mode == 0) {
      // a new relation over known or new domains
      Opts o2 = o;
      o2.noisy = false;
      o2.max_rels = 1;
      World x = make_world(c, o2);
      Rel r = x.rels[0];
      r.name = fmt("X%02d", added++);
      r.observed = true;
      for (auto& d : r.doms)
        if (!w.ents.contains(d)) w.ents[d] = x.ents.at(d);
      auto t = std::get<T_clean_relation>(x.schema.begin()->second);
      h->add_relation(&prng, r.name, t);
      w.rels.push_back(r);
      w.schema[r.name] = t;
      c.count("relations_added");
      ops += "N" + r.name;
    }
    c.count("operations");
    c.count("views_seen", h->irms.size());
    check_hirm(c, w, h.get(), "model");
  }
  c.say("| " + ops);
  if (num_obs(w) >= 2) c.sig(state_sig(w) + ops);
}
FAMILY("C10", "view_history", 4800, 30000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.15);
  view_history(c, o);
});
FAMILY("C10", "model_history", 6000, 40000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.15);
  o.max_rels = c.in(1, 7);
  model_history(c, o, 0);
});
FAMILY("C10", "model_history_noisy", 2400, 15000, [](Ctx& c) {
  Opts o;
  o.kinds = {"bernoulli", "normal", "stringcat"};
  o.max_rels = c.in(3, 8);
  o.max_arity = 2;
  o.base_first = false;
  model_history(c, o, 1);
});
FAMILY("C10", "model_history_large", 40, 800, [](Ctx& c) { model_history(c, large_opts(c), 0, c.in(60, 400)); });
// Observed values survive whole inference runs; latents stay complete.
FAMILY("C11", "inference_keeps_data", 1000, 25000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  o.base_first = c.coin();
  o.max_rels = c.in(1, 7);
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  auto h = std::make_unique<HIRM>(w.schema, &prng);
  int n = c.coin(0.1) ? c.in(40, 90) : c.in(1, 25);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, h.get(), &prng, r.name, rand_items(c, w, r));
  }
  c.say(w.text() + fmt(" n=%zu", num_obs(w)));
  auto find = [&](const string& n) { return h->get_relation(n); };
  string sg = state_sig(w);
  int rounds = c.in(1, 4);
  for (int i = 0; i < rounds; ++i) {
    inference_hirm(&prng, h.get(), c.in(1, 2), 0, c.coin(0.1));
    if (c.coin(0.3)) h->transition_cluster_assignments_all(&prng);
    adopt_latents(c, w, find, "data");
    check_hirm(c, w, h.get(), "data");
    c.count("inference_rounds");
    c.count("views_seen", h->irms.size());
  }
  if (num_obs(w) >= 2) c.sig(sg);
});
FAMILY("C11", "inference_keeps_data_irm", 600, 15000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  IRM irm({});
  for (auto& r : w.rels) std::visit([&](auto t) { irm.add_relation(r.name, t); }, w.schema.at(r.name));
  int n = c.in(1, 30);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &irm, &prng, r.name, rand_items(c, w, r), false);
  }
  c.say(w.text() + fmt(" n=%zu", num_obs(w)));
  auto find = [&](const string& n) { return irm.relations.at(n); };
  string sg = state_sig(w);
  for (int i = 0; i < 3; ++i) {
    inference_irm(&prng, &irm, c.in(1, 2), 0, c.coin(0.1));
    adopt_latents(c, w, find, "data");
    check_irm(c, w, &irm, "data");
    c.count("inference_rounds");
  }
  if (num_obs(w) >= 2) c.sig(sg);
});
// Latent updates: several noisy relations (in other views) over one clean one.
FAMILY("C11", "latent_updates", 1000, 25000, [](Ctx& c) {
  Opts o;
  o.kinds = {c.pick(vector<string>{"bernoulli", "normal", "stringcat", "string_nat", "bigram"})};
  o.max_rels = c.in(2, 6);
  o.max_arity = 2;
  o.max_ents = 3;
  World w = make_world(c, o);
  for (auto& r : w.rels)
    if (!w.leaf(r.name)) {
      r.observed = false;
      std::visit([&](auto& t) { t.is_observed = false; }, w.schema.at(r.name));
    }
  std::mt19937 prng(c.u());
  auto h = std::make_unique<HIRM>(w.schema, &prng);
  int n = c.in(2, 20);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, h.get(), &prng, r.name, rand_items(c, w, r));
  }
  c.say(w.text() + fmt(" n=%zu", num_obs(w)));
  auto find = [&](const string& n) { return h->get_relation(n); };
  string sg = state_sig(w);
  bool any = false;
  for (int i = 0; i < 6; ++i) {
    for (auto& r : w.rels)
      if (!w.leaf(r.name)) {
        h->transition_latent_values_relation(&prng, r.name);
        any = true;
        c.count("latent_updates");
        adopt_latents(c, w, find, "latent");
        check_hirm(c, w, h.get(), "latent");
      }
    if (c.coin()) h->transition_cluster_assignment_relation(&prng, c.pick(w.rels).name);
  }
  if (any) c.sig(sg);
});
// With apportioning noise (whose score is history dependent): data only, and
// in a build without assertions (see the finding below, which they report).
#ifdef NDEBUG
FAMILY("C11", "inference_keeps_data_apportion", 300, 6000, [](Ctx& c) {
  Opts o;
  o.apportion = true;
  o.kinds = {"categorical", "categorical", "bernoulli"};
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  auto h = std::make_unique<HIRM>(w.schema, &prng);
  int n = c.in(1, 20);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, h.get(), &prng, r.name, rand_items(c, w, r));
  }
  c.say(w.text());
  string sg = state_sig(w);
  auto find = [&](const string& n) { return h->get_relation(n); };
  for (int i = 0; i < 2; ++i) {
    inference_hirm(&prng, h.get(), 1, 0, false);
    adopt_latents(c, w, find, "data");
    check_hirm(c, w, h.get(), "data");
  }
  if (num_obs(w) >= 2) c.sig(sg);
});
#endif
// Finding: with apportioning noise, taking an entity's observations out of a
// cluster and putting them back (what every Gibbs step does) moves its state.
FAMILY("C11", "apportion_move_drift", 1, 1, [](Ctx& c) {
  EmissionSpec spec("sometimes_categorical", {{"k", "2"}});
  std::mt19937 prng(5);
  double worst = 0;
  for (int t = 0; t < 20; ++t) {
    auto v = get_prior(spec, &prng);
    auto* e = std::get<Emission<int>*>(v);
    vector<std::pair<int, int>> in, one;
    for (int i = 0; i < 12; ++i) in.push_back({int(prng() % 2), 0});
    for (int i = 0; i < 12; ++i) in.push_back({1, 1});
    for (auto& x : in) e->incorporate(x);
    double before = e->logp_score();
    for (size_t i = 0; i < in.size(); i += 2) e->unincorporate(in[i]);
    for (size_t i = 0; i < in.size(); i += 2) e->incorporate(in[i]);
    worst = std::max(worst, std::fabs(e->logp_score() - before));
    delete e;
  }
  c.sig("x");
  c.say("sometimes_categorical: half of the pairs of a cluster taken out and put back");
  c.check(worst < 1e-3, "sometimes_categorical:move-drift", fmt("score changes by %g", worst));
});
// Finding: a value far from the others takes their statistics along when it
// leaves their cluster.
FAMILY("C11", "wide_values", 1, 1, [](Ctx& c) {
  Normal a, b;
  for (double x : {0.5, 0.7, 0.1, -0.3, 0.25}) a.incorporate(x), b.incorporate(x);
  a.incorporate(1e9);
  a.unincorporate(1e9);
  c.sig("x");
  c.say("normal: 1e9 joins and leaves a cluster of 0.5 0.7 0.1 -0.3 0.25");
  c.near(a.logp_score(), b.logp_score(), "wide_values:normal", "score after it left", 1e-3);
});

// ------------------------------------------------------------------ C12
// One resampling step from a fixed state: the chosen clusters' frequencies.
static void item_conditional(Ctx& c, const Opts& o, int max_obs, long draws) {
  std::mt19937 prng(c.u());
  Built b = build_irm(c, o, &prng, max_obs, false);
  World& w = b.w;
  IRM* irm = b.irm.get();
  for (auto& [d, dom] : irm->domains) dom->crp.alpha = std::exp(c.normal());
  string d; int item;
  pick_entity(c, irm, &d, &item);
  Domain* dom = irm->domains.at(d);
  int cur = dom->get_cluster_assignment(item);
  map<int, int> sizes;
  for (auto& [i, t] : dom->crp.assignments)
    if (i != item) ++sizes[t];
  // candidates by what they mean: each other cluster, or alone
  vector<int> tables;
  for (auto& [t, n] : sizes) tables.push_back(t);
  int alone = sizes.contains(cur) ? 1000000 : cur;
  tables.push_back(alone);
  bool ok = true;
  vector<double> lp;
  for (int t : tables) {
    auto s2 = sizes;
    ++s2[t];
    vector<double> sz;
    for (auto& [x, n] : s2) sz.push_back(n);
    lp.push_back(crp_score(sz, dom->crp.alpha) + moved_score(c, w, irm, d, item, t, &ok));
  }
  if (!ok) return;
  double mx = *std::max_element(lp.begin(), lp.end()), Z = 0;
  vector<double> p;
  for (double x : lp) p.push_back(std::exp(x - mx)), Z += p.back();
  for (double& x : p) x /= Z;
  c.say(w.text() + fmt(" n=%zu %s%d candidates=%zu", num_obs(w), d.c_str(), item, tables.size()));
  for (auto& r : irm->domain_to_relations.at(d))
    std::visit([&](auto rel) {
      if (!rel->has_observation(*dom, item)) return;
      auto v = rel->logp_gibbs_exact(*dom, item, {cur}, &prng);
      if (v[0] < -750) c.count("candidates_beyond_exp");
    }, irm->relations.at(r));
  mon::stat_test(c, "conditional:frequency", "clusters chosen for " + d + fmt("%d", item) + " in " + w.text(), draws, p, [&](long n) {
    vector<long> k(tables.size());
    for (long i = 0; i < n; ++i) {
      irm->transition_cluster_assignment_item(&prng, d, item);
      int t = dom->get_cluster_assignment(item);
      auto f = std::find(tables.begin(), tables.end(), t);
      bool shared = dom->crp.tables.at(t).size() > 1;
      c.check(shared == (f != tables.end() && sizes.contains(t)), "conditional:cluster", fmt("chose cluster %d", t));
      ++k[shared ? f - tables.begin() : (long)tables.size() - 1];
      if (t != cur) move_entity(irm, d, item, cur, &prng);
    }
    return k;
  });
  check_irm(c, w, irm, "conditional:after");
  c.count("candidates", tables.size());
  if (tables.size() > 1) c.sig(state_sig(w) + d + fmt("%d", item));
}
FAMILY("C12", "item_conditional", 60, 1000, [](Ctx& c) {
  Opts o;
  o.max_rels = 3;
  o.max_ents = 4;
  o.hidden_base = false;
  item_conditional(c, o, 14, 3000);
}, 120);
// Entities whose data are so surprising that every candidate is far below
// what exp() can represent: only the differences count.
FAMILY("C12", "item_conditional_far", 60, 1000, [](Ctx& c) {
  Opts o;
  o.noisy = false;
  o.max_rels = 2;
  o.max_domains = 2;
  o.min_ents = 4;
  o.max_ents = 7;
  o.max_arity = 3;
  o.kinds = {"bigram", "bigram", "bigram", "normal"};
  o.words = c.in(50, 78);
  item_conditional(c, o, c.in(40, 160), 300);
}, 120);
// Starting from the exact posterior over all partitions, sweeps must keep it.
static void partitions_of(int n, vector<vector<int>>* out) {
  std::function<void(vector<int>&)> rec = [&](vector<int>& z) {
    if ((int)z.size() == n) { out->push_back(z); return; }
    int m = z.empty() ? -1 : *std::max_element(z.begin(), z.end());
    for (int t = 0; t <= m + 1; ++t) { z.push_back(t); rec(z); z.pop_back(); }
  };
  vector<int> z;
  rec(z);
}
FAMILY("C12", "sweep_stationary", 24, 300, [](Ctx& c) {
  Opts o;
  o.max_rels = 2;
  o.max_domains = 2;
  o.max_ents = c.in(2, 4);
  o.max_arity = 2;
  o.hidden_base = false;
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  int n = c.in(2, 9);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    plan_add(c, w, r.name, rand_items(c, w, r));
  }
  // entities mentioned, per domain
  map<string, vector<int>> ents;
  for (auto& [rn, m] : w.obs)
    for (auto& [it, v] : m)
      for (size_t i = 0; i < it.size(); ++i) ents[w.rel(rn).doms[i]].push_back(it[i]);
  vector<string> ds;
  vector<vector<vector<int>>> parts;
  size_t states = 1;
  for (auto& [d, v] : ents) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    ds.push_back(d);
    parts.emplace_back();
    partitions_of(v.size(), &parts.back());
    states *= parts.back().size();
  }
  if (states > 300 || states < 2) { c.count("skipped_size"); return; }
  map<string, double> alpha;
  for (auto& d : ds) alpha[d] = std::exp(0.7 * c.normal());
  auto build = [&](const vector<int>& st) {
    auto irm = std::make_unique<IRM>(T_schema{});
    for (auto& r : w.rels) std::visit([&](auto t) { irm->add_relation(r.name, t); }, w.schema.at(r.name));
    for (size_t k = 0; k < ds.size(); ++k) {
      Domain* dom = irm->domains.at(ds[k]);
      dom->crp.alpha = alpha[ds[k]];
      for (size_t i = 0; i < ents[ds[k]].size(); ++i) dom->incorporate(nullptr, ents[ds[k]][i], parts[k][st[k]][i]);
    }
    for (auto& r : w.rels)
      if (w.obs.contains(r.name))
        for (auto& [it, v] : w.obs.at(r.name)) irm->incorporate(&prng, r.name, it, v);
    return irm;
  };
  vector<vector<int>> all;
  vector<double> lp;
  map<vector<vector<int>>, int> index;
  std::function<void(vector<int>&)> rec = [&](vector<int>& st) {
    if (st.size() == ds.size()) {
      auto irm = build(st);
      // the posterior, recomputed: CRP scores and rebuilt clusters
      Ctx quiet;
      double s = check_view(quiet, w, irm.get(), [&] { std::set<string> x; for (auto& r : w.rels) x.insert(r.name); return x; }(),
                            [&](const string& n) { return irm->relations.at(n); }, "sweep:state", nullptr);
      vector<vector<int>> key;
      for (size_t k = 0; k < ds.size(); ++k) key.push_back(parts[k][st[k]]);
      index[key] = all.size();
      all.push_back(st);
      lp.push_back(s);
      return;
    }
    for (size_t i = 0; i < parts[st.size()].size(); ++i) { st.push_back(i); rec(st); st.pop_back(); }
  };
  vector<int> st;
  rec(st);
  double mx = *std::max_element(lp.begin(), lp.end()), Z = 0;
  vector<double> p;
  for (double x : lp) p.push_back(std::exp(x - mx)), Z += p.back();
  for (double& x : p) x /= Z;
  std::discrete_distribution<int> start(p.begin(), p.end());
  int sweeps = c.in(1, 2);
  c.say(w.text() + fmt(" n=%zu states=%zu sweeps=%d", num_obs(w), all.size(), sweeps));
  mon::stat_test(c, "sweep:stationary", "partitions after exact start and sweeps, " + w.text(), 6000, p, [&](long m) {
    vector<long> k(p.size());
    for (long i = 0; i < m; ++i) {
      auto irm = build(all[start(prng)]);
      for (int s = 0; s < sweeps; ++s) irm->transition_cluster_assignments_all(&prng);
      vector<vector<int>> key;
      for (size_t q = 0; q < ds.size(); ++q) {
        map<int, int> lab;
        vector<int> z;
        for (int e : ents[ds[q]]) {
          int t = irm->domains.at(ds[q])->get_cluster_assignment(e);
          if (!lab.contains(t)) { int l = lab.size(); lab[t] = l; }
          z.push_back(lab[t]);
        }
        key.push_back(z);
      }
      ++k[index.at(key)];
    }
    return k;
  });
  c.count("partitions_enumerated", all.size());
  c.sig(state_sig(w));
}, 200);

// ------------------------------------------------------------------ C13
static double lse(const vector<double>& v) {
  double m = -INFINITY;
  for (double x : v) m = std::max(m, x);
  if (std::isinf(m)) return m;
  double s = 0;
  for (double x : v) s += std::exp(x - m);
  return m + std::log(s);
}
using Obs = vector<std::tuple<string, T_items, ObservationVariant>>;
// The mixture, by direct enumeration.
static double mixture(const World& w, const std::function<IRM*(const string&)>& view, const Obs& obs, std::mt19937* prng, size_t* terms) {
  struct E { string d; int item; vector<std::pair<int, double>> seats; };
  double total = 0;
  map<IRM*, Obs> by;
  for (auto& o : obs) by[view(std::get<0>(o))].push_back(o);
  for (auto& [irm, os] : by) {
    vector<E> es;
    map<std::pair<string, int>, size_t> where;
    for (auto& [r, it, v] : os)
      for (size_t i = 0; i < it.size(); ++i) {
        std::pair<string, int> k{w.rel(r).doms[i], it[i]};
        if (where.contains(k)) continue;
        where[k] = es.size();
        E e{k.first, k.second, {}};
        auto& crp = irm->domains.at(k.first)->crp;
        if (crp.assignments.contains(k.second)) e.seats = {{crp.assignments.at(k.second), 0.0}};
        else {
          double den = crp.N + crp.alpha;
          int mx = -1;
          for (auto& [t, s] : crp.tables) e.seats.push_back({t, std::log(s.size() / den)}), mx = std::max(mx, t);
          e.seats.push_back({mx + 1, std::log(crp.alpha / den)});
        }
        es.push_back(e);
      }
    vector<double> lps;
    vector<size_t> pos(es.size());
    while (true) {
      double lp = 0;
      for (size_t i = 0; i < es.size(); ++i) lp += es[i].seats[pos[i]].second;
      for (auto& [r, it, v] : os) {
        vector<int> z;
        for (size_t i = 0; i < it.size(); ++i) {
          size_t e = where.at({w.rel(r).doms[i], it[i]});
          z.push_back(es[e].seats[pos[e]].first);
        }
        lp += std::visit([&](auto rel) -> double {
          using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
          auto* cr = dynamic_cast<CleanRelation<T>*>(rel);
          std::unique_ptr<Distribution<T>> fresh;
          Distribution<T>* dist;
          if (cr->clusters.contains(z)) dist = cr->clusters.at(z);
          else fresh.reset(cr->make_new_distribution(prng)), dist = fresh.get();
          return dist->logp(std::get<T>(v));
        }, irm->relations.at(r));
      }
      lps.push_back(lp);
      size_t k = 0;
      while (k < es.size() && ++pos[k] == es[k].seats.size()) pos[k++] = 0;
      if (k == es.size()) break;
    }
    *terms += lps.size();
    total += lse(lps);
  }
  return total;
}
static Obs heldout(Ctx& c, const World& w, int n, const std::function<size_t(const string&, int)>& branching) {
  Obs out;
  std::set<std::pair<string, T_items>> seen;
  map<std::pair<string, int>, size_t> fresh;
  double combos = 1;
  for (int t = 0; t < 40 && (int)out.size() < n; ++t) {
    const Rel& r = c.pick(w.rels);
    T_items it = rand_items(c, w, r);
    for (size_t i = 0; i < it.size(); ++i)
      if (c.coin(0.35)) it[i] = 1000 + c.in(0, 2);
    if (seen.contains({r.name, it})) continue;
    double more = 1;
    std::set<std::pair<string, int>> mine;
    for (size_t i = 0; i < it.size(); ++i)
      if (mine.insert({r.doms[i], it[i]}).second && !fresh.contains({r.doms[i], it[i]})) more *= branching(r.doms[i], it[i]);
    if (combos * more > 3000) continue;
    combos *= more;
    for (auto& k : mine) fresh[k] = 1;
    seen.insert({r.name, it});
    out.push_back({r.name, it, gen_clean(c, r)});
  }
  return out;
}
static void heldout_view(Ctx& c, const Opts& o, int n, bool extreme) {
  std::mt19937 prng(c.u());
  Built b = build_irm(c, o, &prng, n, c.coin());
  World& w = b.w;
  IRM* irm = b.irm.get();
  auto br = [&](const string& d, int i) -> size_t {
    auto& crp = irm->domains.at(d)->crp;
    return crp.assignments.contains(i) ? 1 : crp.tables.size() + 1;
  };
  Obs obs = heldout(c, w, c.in(1, 4), br);
  if (obs.empty()) return;
  if (extreme) {
    // improbable seatings whose data speak for them, and the other way round
    for (auto& [d, dom] : irm->domains) dom->crp.alpha = std::exp(-c.in(0, 40) / 2.0);
    for (auto& [r, it, v] : obs)
      if (auto* x = std::get_if<double>(&v)) *x *= std::exp(c.in(0, 5));
  }
  size_t terms = 0;
  double want = mixture(w, [&](const string&) { return irm; }, obs, &prng, &terms);
  double before = irm->logp_score();
  double have = irm->logp(obs, &prng);
  c.near(have, want, "heldout:mixture", fmt("held-out log probability of %zu observations (%zu seatings)", obs.size(), terms), 1e-6, 1e-9);
  c.near(irm->logp_score(), before, "heldout:changes-score", "score before and after the query", 1e-9, 1e-12);
  check_irm(c, w, irm, "heldout:unchanged");
  c.near(irm->logp(obs, &prng), have, "heldout:repeat", "the same query twice", 1e-9, 1e-12);
  Obs sh = obs;
  std::shuffle(sh.begin(), sh.end(), c.rng);
  c.near(irm->logp(sh, &prng), have, "heldout:order", "the query in another order", 1e-7, 1e-9);
  c.count("seatings_enumerated", terms);
  // the relation's own prediction of one observation
  auto& [r, it, v] = obs[0];
  std::set<std::pair<string, int>> u;
  bool dup = false;
  for (size_t i = 0; i < it.size(); ++i)
    if (!u.insert({w.rel(r).doms[i], it[i]}).second && br(w.rel(r).doms[i], it[i]) > 1) dup = true;
  if (!dup) {
    double one = irm->logp({obs[0]}, &prng);
    double own = std::visit([&](auto rel) {
      using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
      return rel->logp(it, std::get<T>(v), &prng);
    }, irm->relations.at(r));
    c.near(own, one, "heldout:relation", r + " at " + show(it) + ": the relation's prediction against the view's", 1e-6, 1e-9);
  }
  // probabilities over all values of a finite relation
  for (auto& rl : w.rels) {
    vector<Val> vals;
    if (rl.kind == "bernoulli") vals = {Val(false), Val(true)};
    if (rl.kind == "categorical") for (int i = 0; i < rl.k; ++i) vals.push_back(i);
    if (rl.kind == "stringcat") for (auto& s : rl.strs) vals.push_back(s);
    if (vals.empty() || !c.coin(0.5)) continue;
    T_items it = rand_items(c, w, rl);
    for (auto& x : it) if (c.coin(0.4)) x = 1000;
    double s = 0;
    for (auto& v : vals) s += std::exp(irm->logp({{rl.name, it, v}}, &prng));
    c.near(s, 1.0, "heldout:normalised", rl.name + " at " + show(it) + ": total probability", 1e-6);
    c.count("normalisation_checks");
  }
  c.say(w.text() + fmt(" n=%zu heldout=%zu terms=%zu", num_obs(w), obs.size(), terms));
  if (terms > 1) c.sig(state_sig(w) + fmt("%zu", terms) + show(std::get<1>(obs[0])));
}
FAMILY("C13", "heldout_view", 10000, 40000, [](Ctx& c) {
  Opts o;
  o.noisy = false;
  o.max_ents = 4;
  heldout_view(c, o, 20, false);
});
FAMILY("C13", "heldout_extreme", 3000, 20000, [](Ctx& c) {
  Opts o;
  o.noisy = false;
  o.max_ents = 4;
  if (c.coin(0.7)) o.kinds = {"normal", "bigram", "bernoulli"};
  o.max_rels = c.in(1, 3);
  o.words = c.in(5, 40);
  heldout_view(c, o, 12, true);
});
FAMILY("C13", "heldout_large", 150, 2000, [](Ctx& c) {
  Opts o = large_opts(c);
  o.noisy = false;
  heldout_view(c, o, 700, c.coin(0.3));
});
FAMILY("C13", "heldout_model", 6000, 25000, [](Ctx& c) {
  Opts o;
  o.noisy = false;
  o.max_ents = 4;
  o.max_rels = 6;
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  HIRM h(w.schema, &prng);
  int n = c.in(1, 25);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &h, &prng, r.name, rand_items(c, w, r));
  }
  if (c.coin(0.7)) inference_hirm(&prng, &h, 1, 0, false);
  auto br = [&](const string& d, int i) -> size_t {
    size_t m = 1;
    for (auto& [t, irm] : h.irms)
      if (irm->domains.contains(d)) {
        auto& crp = irm->domains.at(d)->crp;
        m = std::max(m, crp.assignments.contains(i) ? 1 : crp.tables.size() + 1);
      }
    return m;
  };
  Obs obs = heldout(c, w, c.in(1, 5), br);
  if (obs.empty()) return;
  size_t terms = 0;
  double want = mixture(w, [&](const string& r) { return h.relation_to_irm(r); }, obs, &prng, &terms);
  double have = h.logp(obs, &prng);
  c.near(have, want, "heldout:model", fmt("held-out log probability of %zu observations in %zu views", obs.size(), h.irms.size()), 1e-6, 1e-9);
  check_hirm(c, w, &h, "heldout:model-unchanged");
  // views are independent
  map<IRM*, Obs> by;
  for (auto& x : obs) by[h.relation_to_irm(std::get<0>(x))].push_back(x);
  double s = 0;
  for (auto& [irm, os] : by) s += irm->logp(os, &prng);
  c.near(have, s, "heldout:views", "sum over the views", 1e-7, 1e-9);
  c.count("seatings_enumerated", terms);
  c.count("views_queried", by.size());
  c.say(w.text() + fmt(" n=%zu heldout=%zu views=%zu", num_obs(w), obs.size(), by.size()));
  if (terms > 1) c.sig(state_sig(w) + fmt("%zu", terms) + show(std::get<1>(obs[0])));
});

// ------------------------------------------------------------------ C14
// Scores at every point of a history against the parts (see check_hirm), and
// against a model built afresh, in another order, with the same partitions.
static std::unique_ptr<HIRM> rebuilt(Ctx& c, const World& w, HIRM* h, std::mt19937* prng) {
  auto g = std::make_unique<HIRM>(w.schema, prng);
  vector<string> names;
  for (auto& r : w.rels) names.push_back(r.name);
  // temporary distinct views first, so that target ids do not clash
  map<int, int> target;
  int next = 100;
  std::shuffle(names.begin(), names.end(), c.rng);
  for (auto& n : names) {
    int t = h->relation_to_table(n);
    if (!target.contains(t)) target[t] = next++;
    g->set_cluster_assignment_gibbs(prng, n, target[t]);
  }
  g->crp.alpha = h->crp.alpha;
  for (auto& [t, irm] : h->irms)
    for (auto& [d, dom] : irm->domains) {
      Domain* gd = g->irms.at(target.at(t))->domains.at(d);
      gd->crp.alpha = dom->crp.alpha;
      for (int i : dom->items) gd->incorporate(nullptr, i, dom->get_cluster_assignment(i));
    }
  // bases before what refers to them, otherwise in a random order
  vector<std::tuple<int, uint32_t, string, T_items, Val>> todo;
  for (auto& [n, m] : w.obs)
    for (auto& [it, v] : m) todo.push_back({w.rel(n).depth, c.u(), n, it, v});
  std::sort(todo.begin(), todo.end());
  for (auto& [dep, k, n, it, v] : todo) g->incorporate(prng, n, it, v);
  return g;
}
static void score_case(Ctx& c, const Opts& o, int bulk) {
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  HIRM h(w.schema, &prng);
  h.crp.alpha = std::exp(0.5 * c.normal());
  string sg;
  auto find = [&](const string& n) { return h.get_relation(n); };
  for (int i = 0; i < bulk; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &h, &prng, r.name, rand_items(c, w, r));
  }
  int steps = c.in(2, bulk ? 6 : 20);
  for (int i = 0; i < steps; ++i) {
    double u = c.unit();
    string n; T_items it;
    if (u < 0.5 || num_obs(w) == 0) {
      const Rel& r = c.pick(w.rels);
      for (int k = 0; k < 3; ++k) add_obs(c, w, &h, &prng, r.name, rand_items(c, w, r));
    } else if (u < 0.65) {
      pick_obs(c, w, &n, &it);
      if (removable(w, n, it)) h.unincorporate(n, it), w.obs[n].erase(it);
    } else if (u < 0.75) {
      h.transition_cluster_assignment_relation(&prng, c.pick(w.rels).name);
    } else if (u < 0.9) {
      for (auto& [t, irm] : h.irms) irm->transition_cluster_assignments_all(&prng);
    } else {
      for (auto& r : w.rels) if (!r.observed && !w.leaf(r.name)) h.transition_latent_values_relation(&prng, r.name);
      adopt_latents(c, w, find, "score");
    }
    check_hirm(c, w, &h, "score");
    c.count("operations");
  }
  auto g = rebuilt(c, w, &h, &prng);
  check_hirm(c, w, g.get(), "score:rebuilt");
  c.near(h.logp_score(), g->logp_score(), "score:history", "score of the model against one built afresh in another order", 1e-5, 1e-8);
  c.count("rebuilt_models");
  // a move made and undone leaves the score
  for (int k = 0; k < 3; ++k) {
    vector<int> ts;
    for (auto& [t, irm] : h.irms) ts.push_back(t);
    std::sort(ts.begin(), ts.end());
    IRM* irm = h.irms.at(c.pick(ts));
    string d; int item;
    if (!pick_entity(c, irm, &d, &item)) continue;
    double s0 = h.logp_score();
    int cur = irm->domains.at(d)->get_cluster_assignment(item);
    auto tw = irm->domains.at(d)->tables_weights_gibbs(item);
    for (auto& [t, wt] : tw) move_entity(irm, d, item, t, &prng);
    move_entity(irm, d, item, cur, &prng);
    c.near(h.logp_score(), s0, "score:undone", "score after moves made and undone", 1e-5, 1e-8);
  }
  c.say(w.text() + fmt(" n=%zu views=%zu", num_obs(w), h.irms.size()));
  if (num_obs(w) >= 2) c.sig(state_sig(w));
}
FAMILY("C14", "score_any_history", 1200, 30000, [](Ctx& c) {
  Opts o;
  o.max_rels = 6;
  o.base_first = c.coin();
  score_case(c, o, 0);
});
FAMILY("C14", "score_large", 40, 800, [](Ctx& c) { score_case(c, large_opts(c), c.in(60, 500)); });
FAMILY("C14", "score_inference", 600, 15000, [](Ctx& c) {
  Opts o;
  o.max_rels = 6;
  o.theta = c.coin(0.3);
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  HIRM h(w.schema, &prng);
  int n = c.in(2, 30);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &h, &prng, r.name, rand_items(c, w, r));
  }
  auto find = [&](const string& n) { return h.get_relation(n); };
  for (int i = 0; i < 3; ++i) {
    inference_hirm(&prng, &h, 1, 0, false);
    adopt_latents(c, w, find, "score");
    check_hirm(c, w, &h, "score");
    double s = h.crp.logp_score();
    for (auto& [t, irm] : h.irms) s += irm->logp_score();
    c.near(h.logp_score(), s, "score:views", "score against the sum over views", 1e-7, 1e-10);
  }
  c.say(w.text() + fmt(" n=%zu views=%zu", num_obs(w), h.irms.size()));
  if (num_obs(w) >= 2) c.sig(state_sig(w));
});

// ------------------------------------------------------------------ C15
FAMILY("C15", "forward_samples", 9000, 30000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  o.base_first = c.coin();
  o.apportion = c.coin(0.1);
  World w = make_world(c, o);
  std::mt19937 prng(c.u());
  HIRM h(w.schema, &prng);
  int n0 = c.coin(0.3) ? 0 : c.in(1, 15);
  for (int i = 0; i < n0; ++i) {
    const Rel& r = c.pick(w.rels);
    add_obs(c, w, &h, &prng, r.name, rand_items(c, w, r));
  }
  auto find = [&](const string& n) { return h.get_relation(n); };
  bool inferred = false;
  // (values far from the others are the finding of "wide_values")
  auto wide = [&] {
    for (auto& [n, m] : w.obs)
      for (auto& [it, v] : m) {
        double x = 0;
        if (auto* d = std::get_if<double>(&v)) x = *d;
        if (auto* s = std::get_if<string>(&v); s && w.rel(n).string_num()) x = strtod(s->c_str(), nullptr);
        if (!(std::fabs(x) <= 1e6)) { c.count("wide_samples_not_inferred"); return true; }
      }
    return false;
  };
  // a trained simple_string model can be almost sure of insertions: the strings
  // it then samples have no useful length limit
  bool runaway = false;
  for (auto& r : w.rels) runaway |= r.em == "simple_string";
  if (!o.apportion && !runaway && c.coin()) {
    inferred = true;
    inference_hirm(&prng, &h, 1, 0, false);
    adopt_latents(c, w, find, "sample");
  }
  c.say(w.text() + fmt(" n=%zu", num_obs(w)));
  int rounds = c.in(1, 2);
  string sg = state_sig(w);
  // With hyperparameters inferred from (almost) nothing, most of the mass of a
  // real-valued model can lie beyond the range of double.
  auto overflowed = [&] {
    if (!inferred) return false;
    bool inf = false;
    for (auto& r : w.rels)
      if (r.kind == "normal")
        for (auto& [it, v] : std::get<Relation<double>*>(find(r.name))->get_data()) inf |= !std::isfinite(v);
    return inf;
  };
  for (int k = 0; k < rounds; ++k) {
    // sampling entities from a nearly full, concentrated seating is documented
    // to take very long: keep n small
    int n = c.in(0, 4);
    T_encoded_observations got = h.sample_and_incorporate(&prng, n);
    if (overflowed()) { c.count("samples_beyond_double"); return; }
    map<string, std::set<T_items>> fresh;
    size_t leaves = 0;
    for (auto& r : w.rels) {
      if (!w.leaf(r.name)) {
        c.check(!got.contains(r.name), "sample:returned-base", "returned samples of " + r.name + ", which is observed by another relation");
        continue;
      }
      ++leaves;
      size_t cnt = got.contains(r.name) ? got.at(r.name).size() : 0;
      c.check((int)cnt == n, "sample:count", fmt("%zu samples of %s returned, %d asked for", cnt, r.name.c_str(), n));
      if (!cnt) continue;
      for (auto& [it, s] : got.at(r.name)) {
        c.check(it.size() == r.doms.size(), "sample:arity", "sampled tuple of the wrong size");
        c.check(!w.obs[r.name].contains(it), "sample:existing", "sampled the existing observation " + r.name + show(it));
        c.check(fresh[r.name].insert(it).second, "sample:duplicate", "sampled " + r.name + show(it) + " twice");
        // the value in the model, and what was returned for it
        std::visit([&](auto rel) {
          using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
          auto f = rel->get_data().find(it);
          c.check(f != rel->get_data().end(), "sample:not-added", r.name + show(it) + " was returned but not added");
          w.obs[r.name][it] = f->second;
          c.check(in_support(r, f->second), "sample:support", "sampled the impossible value " + show(Val(f->second)) + " for " + r.name);
          T back = rel->from_string(s);
          if constexpr (std::is_same_v<T, double>)
            c.near(back, f->second, "sample:returned-double", r.name + show(it) + ": value returned as '" + s + "'", 1e-12, 1e-12);
          else
            c.check(back == f->second, "sample:returned-value", r.name + show(it) + ": returned '" + s + "' but added " + show(Val(f->second)));
        }, h.get_relation(r.name));
      }
    }
    for (auto& [rn, v] : got) c.check(w.leaf(rn), "sample:returned-unknown", "returned samples of " + rn);
    // clean values: exactly those needed
    vector<Rel> deepest = w.rels;
    std::sort(deepest.begin(), deepest.end(), [](auto& a, auto& b) { return a.depth > b.depth; });
    for (auto& r : deepest)
      if (r.noisy)
        for (auto& [it, v] : w.obs[r.name]) {
          T_items b = w.base_items(r, it);
          if (w.obs[r.base].contains(b)) continue;
          std::visit([&](auto rel) {
            auto f = rel->get_data().find(b);
            c.check(f != rel->get_data().end(), "sample:no-clean", r.base + show(b) + " was not added for " + r.name);
            w.obs[r.base][b] = f->second;
            c.check(in_support(w.rel(r.base), f->second), "sample:base-support", "sampled an impossible clean value for " + r.base);
            c.count("clean_values_sampled");
          }, h.get_relation(r.base));
        }
    c.count("values_sampled", n * leaves);
    check_hirm(c, w, &h, "sample");
    if (!o.apportion && !runaway && c.coin(0.5) && !wide()) {
      inferred = true;
      inference_hirm(&prng, &h, 1, 0, false);
      adopt_latents(c, w, find, "sample");
      check_hirm(c, w, &h, "sample:inference");
    }
  }
  c.sig(sg + fmt("%zu", num_obs(w)));
}, 60);
