// C27, C28: the laws of the two whole-model moves, relations between views and
// latent values between their proposals.
#include "model.hh"
#include "transition_latent_value.hh"

// The score of one relation's data when its entities sit as `seat` says:
// domain -> entity -> cluster.  Clusters have the prior's hyperparameters.
typedef map<string, map<int, int>> Seats;
template <class V>
static double seated_score(const CleanRelation<V>* r, const vector<string>& doms, const map<T_items, V>& data, const Seats& seat) {
  map<vector<int>, std::unique_ptr<Distribution<V>>> cl;
  std::mt19937 dummy(1);
  for (auto& [it, v] : data) {
    vector<int> z;
    for (size_t i = 0; i < it.size(); ++i) z.push_back(seat.at(doms[i]).at(it[i]));
    auto& d = cl[z];
    if (!d) d.reset(r->make_new_distribution(&dummy));
    d->incorporate(v);
  }
  double s = 0;
  for (auto& [z, d] : cl) s += d->logp_score();
  return s;
}
static double seated_score(const World& w, const Rel& r, RelationVariant rv, const Seats& seat) {
  static const map<T_items, Val> none;
  auto& obs = w.obs.contains(r.name) ? w.obs.at(r.name) : none;
  return std::visit([&](auto rel) -> double {
    using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
    auto m = typed<T>(obs);
    if (!r.noisy) return seated_score<T>(dynamic_cast<CleanRelation<T>*>(rel), r.doms, m, seat);
    map<T_items, std::pair<T, T>> pairs;
    for (auto& [it, v] : m) pairs[it] = {std::get<T>(w.obs.at(r.base).at(w.base_items(r, it))), v};
    return seated_score<std::pair<T, T>>(&dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation, r.doms, pairs, seat);
  }, rv);
}

// A model whose views, entity clusters and concentrations are given.
struct Layout {
  map<string, int> view;               // relation -> view
  map<int, Seats> seats;               // view -> domain -> entity -> cluster
  map<int, map<string, double>> alpha; // view -> domain -> concentration
  double rel_alpha = 1;
};
static std::unique_ptr<HIRM> build(const World& w, const Layout& l, std::mt19937* prng) {
  auto h = std::make_unique<HIRM>(w.schema, prng);
  h->crp.alpha = l.rel_alpha;
  // through fresh numbers, so that no relation is asked to stay where it is
  int k = 1000;
  for (auto& r : w.rels) h->set_cluster_assignment_gibbs(prng, r.name, k++);
  for (auto& r : w.rels) h->set_cluster_assignment_gibbs(prng, r.name, l.view.at(r.name));
  for (auto& [v, irm] : h->irms)
    for (auto& [d, dom] : irm->domains) {
      dom->crp.alpha = l.alpha.at(v).at(d);
      for (auto& [e, t] : l.seats.at(v).at(d)) dom->incorporate(nullptr, e, t);
    }
  for (auto& r : w.rels)
    if (w.obs.contains(r.name))
      for (auto& [it, v] : w.obs.at(r.name)) h->incorporate(prng, r.name, it, v);
  return h;
}
static std::set<int> mentioned(const World& w, const Rel& r, const string& d) {
  std::set<int> s;
  if (w.obs.contains(r.name))
    for (auto& [it, v] : w.obs.at(r.name))
      for (size_t i = 0; i < it.size(); ++i)
        if (r.doms[i] == d) s.insert(it[i]);
  return s;
}
static Layout random_layout(Ctx& c, const World& w) {
  Layout l;
  l.rel_alpha = c.coin(0.3) ? 1 : std::exp(c.normal());
  int nv = c.in(1, std::min<long>(3, w.rels.size()));
  for (auto& r : w.rels) {
    int v = c.in(0, nv - 1) * 2;
    l.view[r.name] = v;
    for (auto& d : r.doms) {
      auto& s = l.seats[v][d];
      if (!l.alpha[v].contains(d)) l.alpha[v][d] = c.coin(0.5) ? 1 : std::exp(0.8 * c.normal());
      for (int e : mentioned(w, r, d))
        if (!s.contains(e)) s[e] = c.in(0, 2);
    }
  }
  return l;
}

// All ways of seating `fresh` entities one after another, with probabilities.
struct Way { double p; map<int, int> seat; string key; };
static vector<Way> ways(const map<int, int>& seated, const std::set<int>& fresh, double alpha) {
  vector<Way> out{{1, seated, ""}};
  for (int e : fresh) {
    vector<Way> next;
    for (auto& x : out) {
      map<int, int> n;
      int mx = -1;
      for (auto& [i, t] : x.seat) ++n[t], mx = std::max(mx, t);
      n[mx + 1] = 0;
      double N = x.seat.size();
      for (auto& [t, k] : n) {
        Way y = x;
        y.p *= (k ? k : alpha) / (N + alpha);
        y.seat[e] = t;
        next.push_back(y);
      }
    }
    out = next;
  }
  // clusters are named by their members
  for (auto& x : out) {
    map<int, std::set<int>> m;
    for (auto& [i, t] : x.seat) m[t].insert(i);
    std::set<std::set<int>> parts;
    for (auto& [t, s] : m) parts.insert(s);
    for (auto& s : parts) {
      for (int i : s) x.key += std::to_string(i) + ",";
      x.key += "/";
    }
  }
  return out;
}
static string partition_key(const CRP& crp) {
  std::set<std::set<int>> parts;
  for (auto& [t, s] : crp.tables) parts.insert(std::set<int>(s.begin(), s.end()));
  string k;
  for (auto& s : parts) {
    for (int i : s) k += std::to_string(i) + ",";
    k += "/";
  }
  return k;
}
struct Cand {
  int view;             // -1: a view of its own
  double weight;        // of the clustering prior of views
  vector<double> p, w;  // outcomes: probability of the seating, weight of the move
  vector<string> key;
};

static void view_case(Ctx& c, bool noisy) {
  Opts o;
  o.noisy = noisy;
  o.hidden_base = false;
  o.max_rels = c.in(1, 4);
  o.max_domains = 2;
  o.max_arity = 2;
  o.max_ents = c.in(2, 3);
  World w = make_world(c, o);
  int n = c.in(1, 14);
  for (int i = 0; i < n; ++i) {
    const Rel& r = c.pick(w.rels);
    plan_add(c, w, r.name, rand_items(c, w, r));
  }
  Layout l = random_layout(c, w);
  const Rel& r = c.pick(w.rels);
  int cur = l.view.at(r.name);
  std::mt19937 prng(c.u());
  auto h0 = build(w, l, &prng);
  check_hirm(c, w, h0.get(), "layout");
  RelationVariant rv = h0->get_relation(r.name);
  map<int, int> sizes;
  for (auto& x : w.rels)
    if (x.name != r.name) ++sizes[l.view.at(x.name)];
  vector<Cand> cands;
  auto add = [&](int view, double weight, bool stay) {
    Cand k{view, weight, {}, {}, {}};
    if (stay) {
      k.p.push_back(1);
      k.w.push_back(std::log(weight) + seated_score(w, r, rv, l.seats.at(cur)));
      k.key.push_back("");
      cands.push_back(k);
      return true;
    }
    vector<std::tuple<double, Seats, string>> all{{1.0, Seats{}, ""}};
    std::set<string> ds(r.doms.begin(), r.doms.end());
    for (auto& d : ds) {
      map<int, int> have;
      double alpha = 1;
      if (view >= 0 && l.seats.contains(view) && l.seats.at(view).contains(d)) have = l.seats.at(view).at(d), alpha = l.alpha.at(view).at(d);
      std::set<int> fresh;
      for (int e : mentioned(w, r, d))
        if (!have.contains(e)) fresh.insert(e);
      auto ws = ways(have, fresh, alpha);
      decltype(all) next;
      for (auto& [p, s, key] : all)
        for (auto& x : ws) {
          Seats t = s;
          t[d] = x.seat;
          next.push_back({p * x.p, t, key + d + ":" + x.key});
        }
      all = next;
      if (all.size() > 400) return false;
    }
    for (auto& [p, s, key] : all) {
      k.p.push_back(p);
      k.w.push_back(std::log(weight) + seated_score(w, r, rv, s));
      k.key.push_back(key);
    }
    cands.push_back(k);
    return true;
  };
  for (auto& [v, m] : sizes)
    if (!add(v, m, v == cur)) return c.count("skipped_size");
  if (!sizes.contains(cur)) {
    if (!add(cur, l.rel_alpha, true)) return;
  } else if (!add(-1, l.rel_alpha, false)) return c.count("skipped_size");
  if (cands.size() < 2) return;
  double combos = 1;
  for (auto& k : cands) combos *= k.p.size();
  if (combos > 40000) return c.count("skipped_size");
  // probability of every (view, seating)
  map<std::pair<int, string>, int> index;
  vector<double> prob;
  vector<vector<int>> cell(cands.size());
  for (size_t i = 0; i < cands.size(); ++i)
    for (auto& key : cands[i].key) {
      auto [it, fresh] = index.insert({{cands[i].view, key}, (int)prob.size()});
      if (fresh) prob.push_back(0);
      cell[i].push_back(it->second);
    }
  vector<size_t> at(cands.size(), 0);
  double mx = -INFINITY;
  for (auto& k : cands) for (double x : k.w) mx = std::max(mx, x);
  if (!std::isfinite(mx)) return;
  for (;;) {
    double p = 1, Z = 0, m = -INFINITY;
    for (size_t i = 0; i < cands.size(); ++i) p *= cands[i].p[at[i]], m = std::max(m, cands[i].w[at[i]]);
    for (size_t i = 0; i < cands.size(); ++i) Z += std::exp(cands[i].w[at[i]] - m);
    for (size_t i = 0; i < cands.size(); ++i) prob[cell[i][at[i]]] += p * std::exp(cands[i].w[at[i]] - m) / Z;
    size_t i = 0;
    while (i < at.size() && ++at[i] == cands[i].p.size()) at[i++] = 0;
    if (i == at.size()) break;
  }
  c.say(w.text() + fmt(" n=%zu, %s leaves view %d, %zu candidate views, %zu outcomes", num_obs(w), r.name.c_str(), cur, cands.size(), prob.size()));
  auto draw = [&](long n) {
    vector<long> k(prob.size());
    for (long i = 0; i < n; ++i) {
      auto h = build(w, l, &prng);
      h->transition_cluster_assignment_relation(&prng, r.name);
      int v = h->relation_to_table(r.name);
      IRM* irm = h->irms.at(v);
      std::pair<int, string> key{sizes.contains(v) || v == cur ? v : -1, ""};
      if (key.first != cur) {
        std::set<string> ds(r.doms.begin(), r.doms.end());
        for (auto& d : ds) key.second += d + ":" + partition_key(irm->domains.at(d)->crp);
      }
      auto f = index.find(key);
      c.check(f != index.end(), "view:outcome", fmt("%s moved to view %d with clusters %s, which is impossible", r.name.c_str(), v, key.second.c_str()));
      ++k[f->second];
      if (i % 16 == 0) check_hirm(c, w, h.get(), "view:after");
    }
    return k;
  };
  mon::stat_test(c, "view:frequency", "views chosen for " + r.name + " in " + w.text(), 1500, prob, draw);
  c.count("candidate_views", cands.size());
  c.count("outcomes", prob.size());
  string sig = state_sig(w) + r.name;
  for (auto& [x, v] : l.view) sig += fmt("%d", v);
  c.sig(sig);
}
FAMILY("C27", "view_conditional", 260, 4000, [](Ctx& c) { view_case(c, false); }, 120);
FAMILY("C27", "view_conditional_noisy", 160, 2500, [](Ctx& c) { view_case(c, true); }, 120);

// ------------------------------------------------------------------ C28
// Without the value and its noisy observations, what would every noise cluster
// propose?  Each proposal is then scored in a model rebuilt around it.
template <class T>
static bool latent_law(Ctx& c, const World& w, const Rel& r, const T_items& at, IRM* without, const map<string, vector<T_items>>& noisy,
                       const std::function<std::unique_ptr<IRM>(const T&)>& with, vector<T>* values, vector<double>* lp) {
  vector<T> list;
  for (auto& [n, its] : noisy)
    for (auto& it : its) list.push_back(std::get<T>(w.obs.at(n).at(it)));
  auto base = std::get<Relation<T>*>(without->relations.at(r.name));
  auto clusters = [&](auto* rel, const std::set<vector<int>>& zs, auto use) {
    for (auto& z : zs) {
      std::mt19937 dummy(1);
      auto f = rel->clusters.find(z);
      if (f != rel->clusters.end()) use(f->second);
      else {
        std::unique_ptr<std::remove_pointer_t<decltype(rel->make_new_distribution(&dummy))>> d(rel->make_new_distribution(&dummy));
        use(d.get());
      }
    }
  };
  auto seat = [&](const Rel& x, const T_items& it) {
    vector<int> z;
    for (size_t i = 0; i < it.size(); ++i) z.push_back(without->domains.at(x.doms[i])->get_cluster_assignment(it[i]));
    return z;
  };
  bool ok = true;
  for (auto& ch : w.children(r.name)) {
    const Rel& x = w.rel(ch);
    auto* nr = dynamic_cast<NoisyRelation<T>*>(std::get<Relation<T>*>(without->relations.at(ch)));
    std::set<vector<int>> zs;
    if (w.obs.contains(ch))
      for (auto& [it, v] : w.obs.at(ch)) zs.insert(seat(x, it));
    clusters(&nr->emission_relation, zs, [&](auto* d) {
      auto* em = reinterpret_cast<Emission<T>*>(d);
      T first{};
      for (int k = 0; k < 60; ++k) {
        auto l2 = list;
        std::shuffle(l2.begin(), l2.end(), c.rng);
        std::mt19937 g(c.u());
        T v = em->propose_clean(l2, &g);
        std::mt19937 g2(c.u());
        if (!r.noisy) {
          auto* cr = dynamic_cast<CleanRelation<T>*>(base);
          std::set<vector<int>> z{seat(r, at)};
          clusters(cr, z, [&](auto* bd) { v = bd->nearest(v); });
        }
        if (k == 0) first = v;
        else if constexpr (std::is_same_v<T, double>) ok &= std::fabs(v - first) <= 1e-9 * (1 + std::fabs(v));
        else ok &= v == first;
      }
      values->push_back(first);
    });
  }
  if (!ok) return false;
  for (size_t i = 0; i < values->size(); ++i) {
    const T v = (*values)[i];
    auto irm = with(v);
    double s = 0;
    for (auto& ch : w.children(r.name)) {
      // a relation's score, as its clusters rebuilt from the pairs
      World w2 = w;
      w2.obs[r.name][at] = v;
      Seats seats;
      for (auto& [d, dom] : irm->domains)
        for (auto& [i, t] : dom->crp.assignments) seats[d][i] = t;
      s += seated_score(w2, w.rel(ch), irm->relations.at(ch), seats);
    }
    lp->push_back(s);
  }
  return true;
}

// A clean relation of numbers with several kinds of noise over it: the mean of
// the noisy values and their mode are then different proposals.
static World noisy_numbers(Ctx& c) {
  World w;
  w.ents = {{"Da", (int)c.in(1, 3)}, {"Db", (int)c.in(1, 3)}};
  Rel b;
  b.name = "R00";
  b.kind = "normal";
  b.doms = {"Da"};
  if (c.coin(0.3)) b.doms.push_back(c.coin() ? "Da" : "Db");
  b.observed = c.coin(0.2);
  w.rels.push_back(b);
  int n = c.in(1, 3);
  for (int i = 0; i < n; ++i) {
    Rel r = b;
    r.name = fmt("R%02dn", i + 1);
    r.noisy = r.observed = true;
    r.base = b.name;
    r.em = i == 0 ? "gaussian" : i == 1 ? "sometimes_gaussian" : c.coin() ? "gaussian" : "sometimes_gaussian";
    if (c.coin(0.75)) r.doms.push_back(c.coin() ? "Da" : "Db");
    w.rels.push_back(r);
  }
  for (auto& r : w.rels) {
    if (r.noisy) {
      T_noisy_relation t;
      t.domains = r.doms;
      t.is_observed = true;
      t.emission_spec = EmissionSpec(r.em);
      t.base_relation = r.base;
      w.schema[r.name] = t;
    } else {
      T_clean_relation t;
      t.domains = r.doms;
      t.is_observed = r.observed;
      t.distribution_spec = DistributionSpec("normal");
      w.schema[r.name] = t;
    }
  }
  return w;
}

static void latent_case(Ctx& c, bool numbers) {
  Opts o;
  o.max_rels = c.in(2, 5);
  o.max_domains = 2;
  o.max_arity = 2;
  o.max_ents = 3;
  World w = numbers ? noisy_numbers(c) : make_world(c, o);
  vector<string> bases;
  for (auto& r : w.rels)
    if (!w.leaf(r.name)) bases.push_back(r.name);
  if (bases.empty()) return c.count("skipped_no_base");
  const Rel& r = w.rel(c.pick(bases));
  int n = c.in(2, 12);
  double step = std::exp(c.normal() - 1);
  for (int i = 0; i < n; ++i) {
    const Rel& x = c.pick(w.rels);
    T_items it = rand_items(c, w, x);
    plan_add(c, w, x.name, it);
    // more noisy observations of the same value, some of them equal
    for (auto& ch : w.children(x.name))
      if (c.coin(0.6)) {
        T_items ci = it;
        for (size_t j = ci.size(); j < w.rel(ch).doms.size(); ++j) ci.push_back(c.in(0, w.ents.at(w.rel(ch).doms[j]) - 1));
        plan_add(c, w, ch, ci);
      }
  }
  if (numbers)
    for (auto& [rn, m] : w.obs)
      if (w.rel(rn).noisy)
        for (auto& [it, v] : m)
          if (c.coin(0.8)) v = step * c.in(-1, 1);
  if (!w.obs.contains(r.name) || w.obs.at(r.name).empty()) return;
  T_items at = std::next(w.obs.at(r.name).begin(), c.in(0, (long)w.obs.at(r.name).size() - 1))->first;
  map<string, vector<T_items>> noisy;
  size_t total = 0;
  for (auto& ch : w.children(r.name))
    if (w.obs.contains(ch))
      for (auto& [it, v] : w.obs.at(ch))
        if (w.base_items(w.rel(ch), it) == at) noisy[ch].push_back(it), ++total;
  std::mt19937 prng(c.u());
  map<string, map<int, int>> seat;
  for (auto& [d, k] : w.ents)
    for (int e = 0; e < k; ++e) seat[d][e] = c.in(0, 1);
  auto make = [&](const World& x) {
    auto irm = std::make_unique<IRM>(T_schema{});
    for (auto& q : w.rels) std::visit([&](auto t) { irm->add_relation(q.name, t); }, w.schema.at(q.name));
    for (auto& [d, dom] : irm->domains)
      for (auto& [e, t] : seat.at(d)) dom->incorporate(nullptr, e, t);
    for (auto& q : w.rels)
      if (x.obs.contains(q.name))
        for (auto& [it, v] : x.obs.at(q.name)) irm->incorporate(&prng, q.name, it, v);
    return irm;
  };
  auto irm = make(w);
  c.say(w.text() + fmt(" n=%zu, value of %s at %s with %zu noisy observations", num_obs(w), r.name.c_str(), show(at).c_str(), total));
  std::visit([&](auto rel) {
    using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
    std::unordered_map<string, NoisyRelation<T>*> nrs;
    for (auto& ch : w.children(r.name)) nrs[ch] = dynamic_cast<NoisyRelation<T>*>(std::get<Relation<T>*>(irm->relations.at(ch)));
    if (!total) {
      T before = rel->get_value(at);
      transition_latent_value<T>(&prng, at, rel, nrs);
      c.check(rel->get_value(at) == before, "latent:nothing", r.name + " at " + show(at) + " changed though nothing observes it");
      c.count("unobserved_values");
      return;
    }
    World w0 = w;
    for (auto& [ch, its] : noisy)
      for (auto& it : its) w0.obs[ch].erase(it);
    // (its own removal leaves further noisy layers in place: only their base changes)
    for (auto& [ch, its] : noisy)
      for (auto& it : its)
        if (!removable(w, ch, it)) return c.count("skipped_stacked");
    if (r.noisy) return c.count("skipped_noisy_base");
    w0.obs[r.name].erase(at);
    auto without = make(w0);
    vector<T> values;
    vector<double> lp;
    if (!latent_law<T>(c, w, r, at, without.get(), noisy, [&](const T& v) { World x = w; x.obs[r.name][at] = v; return make(x); }, &values, &lp))
      return c.count("skipped_order_dependent");
    vector<T> cells;
    vector<double> prob;
    double mx = *std::max_element(lp.begin(), lp.end());
    auto cell = [&](const T& v) {
      for (size_t i = 0; i < cells.size(); ++i) {
        if constexpr (std::is_same_v<T, double>) {
          if (std::fabs(cells[i] - v) <= 1e-8 * (1 + std::fabs(v))) return (int)i;
        } else if (cells[i] == v) return (int)i;
      }
      return -1;
    };
    double Z = 0;
    for (size_t i = 0; i < values.size(); ++i) {
      int k = cell(values[i]);
      if (k < 0) k = cells.size(), cells.push_back(values[i]), prob.push_back(0);
      prob[k] += std::exp(lp[i] - mx);
      Z += std::exp(lp[i] - mx);
    }
    for (double& p : prob) p /= Z;
    mon::stat_test(c, "latent:frequency", "clean values chosen for " + r.name + " at " + show(at) + " in " + w.text(), cells.size() > 1 ? 3000 : 20, prob, [&](long n) {
      vector<long> k(cells.size());
      for (long i = 0; i < n; ++i) {
        transition_latent_value<T>(&prng, at, rel, nrs);
        int f = cell(rel->get_value(at));
        c.check(f >= 0, "latent:proposal", r.name + " at " + show(at) + " became " + show1(T(rel->get_value(at))) + ", which no noise cluster proposes");
        ++k[f];
      }
      return k;
    });
    World w2 = w;
    w2.obs[r.name][at] = rel->get_value(at);
    check_irm(c, w2, irm.get(), "latent:after", false);
    c.count(cells.size() > 1 ? "several_values" : "single_value");
    c.count("proposals", values.size());
    c.sig(state_sig(w) + r.name + show(at));
  }, irm->relations.at(r.name));
}
FAMILY("C28", "latent_numbers", 2500, 40000, [](Ctx& c) { latent_case(c, true); }, 120);
FAMILY("C28", "latent_conditional", 3000, 40000, [](Ctx& c) { latent_case(c, false); }, 120);
