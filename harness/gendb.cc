// C21 (compilation of class schemas), C22 (referential integrity) and C23
// (observed cells and consistency) of the data-cleaning database.
#include "gworld.hh"
#include "pclean/get_joint_relations.hh"

// ------------------------------------------------------------ compilation
struct Compiled {
  map<string, map<int, Path>> paths;  // relation, index -> chain from the primary entity
  map<string, Rel> rels;
};

static vector<string> doms_of(const T_relation& t) {
  return std::visit([](auto& x) { return x.domains; }, t);
}

static bool same_spec(const DistributionSpec& a, const DistributionSpec& b) {
  return a.distribution == b.distribution && a.observation_type == b.observation_type && a.distribution_args == b.distribution_args;
}

// Checks the compiled relations against the class schema; returns for every
// relation the chain of fields behind each index.
static Compiled check_compiled(Ctx& c, const GWorld& w, const GenDB& g) {
  Compiled out;
  const T_schema& sch = g.hirm->schema;
  const string& rec = w.s.query.record_class;
  auto index_paths = [&](const string& rel, const vector<string>& doms, const string& primary, const vector<Path>& want) {
    map<int, Path> have;
    std::function<void(int, Path)> walk = [&](int i, Path p) {
      c.check(i >= 0 && i < (int)doms.size(), "indices", rel + ": a reference index is out of range");
      c.check(!have.contains(i), "indices", rel + fmt(": index %d is reached twice", i));
      have[i] = p;
      c.check(doms[i] == w.at(primary, p), "indices", rel + fmt(": domain %d is %s, not the class its references lead to", i, doms[i].c_str()));
      auto r = g.relation_reference_indices.find(rel);
      if (r == g.relation_reference_indices.end()) return;
      auto m = r->second.find(i);
      if (m == r->second.end()) return;
      for (auto& [f, j] : m->second) {
        c.check(w.refs(doms[i]).contains(f), "indices", rel + fmt(": index %d (%s) has no field %s", i, doms[i].c_str(), f.c_str()));
        Path q = p;
        q.push_back(f);
        walk(j, q);
      }
    };
    c.check(!doms.empty() && doms.back() == primary, "primary", rel + " does not end with its class " + primary);
    walk((int)doms.size() - 1, {});
    c.check(have.size() == doms.size(), "indices", rel + fmt(": only %zu of %zu domains are reached by references", have.size(), doms.size()));
    std::multiset<Path> a, b(want.begin(), want.end());
    for (auto& [i, p] : have) a.insert(p);
    c.check(a == b, "domains", rel + ": its domains are not the expected reference chains");
    if (g.relation_reference_indices.contains(rel))
      for (auto& [i, m] : g.relation_reference_indices.at(rel))
        c.check(have.contains(i), "indices", rel + fmt(": reference index for position %d outside of the relation", i));
    out.paths[rel] = have;
    c.count("index_chains", have.size());
  };
  std::set<string> expected;
  auto add_rel = [&](const string& name, const ScalarVar& sv, const string& base) {
    Rel r;
    r.name = name;
    r.doms = doms_of(sch.at(name));
    r.noisy = !base.empty();
    r.base = base;
    static const map<string, string> dist = {{"bool", "bernoulli"}, {"categorical", "categorical"}, {"real", "normal"}, {"string", "bigram"},
                                             {"stringcat", "stringcat"}, {"typo_int", "string_skellam"}, {"typo_nat", "string_nat"}, {"typo_real", "string_normal"}};
    static const map<string, string> em = {{"bool", "sometimes_bitflip"}, {"categorical", "sometimes_categorical"}, {"real", "sometimes_gaussian"}};
    r.kind = dist.at(sv.joint_name);
    r.em = em.contains(sv.joint_name) ? em.at(sv.joint_name) : "bigram";
    if (sv.params.contains("k")) r.k = atoi(sv.params.at("k").c_str());
    if (r.kind == "stringcat") r.strs = {"ab", "abc", "bd", "cc"};
    if (!r.noisy) {
      auto* t = std::get_if<T_clean_relation>(&sch.at(name));
      c.check(t, "kind", name + " is not a clean relation");
      c.check(same_spec(t->distribution_spec, DistributionSpec(r.kind, sv.params)), "spec", name + " has another distribution than declared");
      r.observed = t->is_observed;
    } else {
      auto* t = std::get_if<T_noisy_relation>(&sch.at(name));
      c.check(t, "kind", name + " is not a noisy relation");
      EmissionSpec e(r.em, sv.params);
      c.check(t->emission_spec.emission == e.emission && t->emission_spec.observation_type == e.observation_type &&
                  t->emission_spec.emission_args == e.emission_args,
              "spec", name + " has another noise model than declared");
      r.observed = t->is_observed;
    }
    out.rels[name] = r;
    expected.insert(name);
  };
  // clean relations, except for those a query of the record class renames
  std::set<string> renamed;
  if (w.clean)
    for (auto& [n, f] : w.s.query.fields)
      if (f.class_path.size() == 1) renamed.insert(rec + ":" + f.class_path[0]);
  for (auto& k : w.order)
    for (auto& a : w.attrs(k)) {
      string name = k + ":" + a;
      if (renamed.contains(name)) continue;
      c.check(sch.contains(name), "missing", "no relation for attribute " + name);
      add_rel(name, w.attr(k, a), "");
      c.check(!out.rels[name].observed, "observed", name + " counts as observed");
      index_paths(name, doms_of(sch.at(name)), k, w.chains(k));
    }
  for (auto& [n, f] : w.s.query.fields) {
    c.check(sch.contains(n), "missing", "no relation for query field " + n);
    Path p(f.class_path.begin(), f.class_path.end() - 1);
    string k = w.at(rec, p), a = f.class_path.back(), leaf = k + ":" + a;
    const ScalarVar& sv = w.attr(k, a);
    if (p.empty() && w.clean) {
      add_rel(n, sv, "");
      c.check(out.rels[n].observed, "observed", n + " is not marked observed");
      index_paths(n, doms_of(sch.at(n)), rec, w.chains(rec));
      continue;
    }
    // follow the chain from the observed end
    string cur = n;
    size_t i = 0;  // primary class is the one after i steps of the path
    while (true) {
      auto* t = std::get_if<T_noisy_relation>(&sch.at(cur));
      c.check(t, "kind", cur + " is not a noisy relation");
      add_rel(cur, sv, t->base_relation);
      c.check(out.rels[cur].observed == (i == 0), "observed", cur + ": observed flag");
      Path rest(p.begin() + i, p.end());
      vector<Path> want;
      for (size_t j = 0; j < rest.size(); ++j) want.push_back(Path(rest.begin(), rest.begin() + j));
      for (auto& ch : w.chains(k)) {
        Path q = rest;
        q.insert(q.end(), ch.begin(), ch.end());
        want.push_back(q);
      }
      index_paths(cur, doms_of(sch.at(cur)), w.at(rec, Path(p.begin(), p.begin() + i)), want);
      auto bd = doms_of(sch.at(t->base_relation)), d = doms_of(sch.at(cur));
      c.check(bd.size() <= d.size() && std::equal(bd.begin(), bd.end(), d.begin()), "prefix", cur + ": domains do not start with those of its base");
      i = w.only_final ? p.size() : i + 1;
      if (i >= p.size()) {
        c.check(t->base_relation == leaf, "base", cur + " is based on " + t->base_relation + " instead of " + leaf);
        break;
      }
      cur = t->base_relation;
      c.check(sch.contains(cur) && !expected.contains(cur), "base", n + ": its chain runs into " + cur);
    }
  }
  for (auto& [n, t] : sch) c.check(expected.contains(n), "extra", "unexpected relation " + n);
  c.count("relations_checked", expected.size());
  return out;
}

FAMILY("C21", "compile", 2500, 30000, [](Ctx& c) {
  GOpts o;
  o.max_classes = c.coin(0.5) ? 4 : 7;
  o.max_refs = c.coin(0.8) ? 2 : 3;
  o.numeric_strings = o.categorical = true;
  o.max_fields = 8;
  GWorld w = make_gworld(c, o);
  if (w.chains(w.order.back()).size() > 60) return;
  c.say(w.text());
  c.sig(w.text());
  std::mt19937 prng(c.u());
  GenDB g(&prng, w.s, w.only_final, w.clean);
  check_compiled(c, w, g);
  // domains listed per class: its ancestors, itself last
  for (auto& k : w.order) {
    std::multiset<string> a(g.domains.at(k).begin(), g.domains.at(k).end()), b;
    for (auto& p : w.chains(k)) b.insert(w.at(k, p));
    c.check(a == b && g.domains.at(k).back() == k, "class_domains", "domains of class " + k);
  }
  // the entity tuple is rebuilt from the primary entity
  Compiled cm = check_compiled(c, w, g);
  map<string, int> next;
  for (auto& k : w.order)
    for (int e = 0; e < 3; ++e)
      for (auto& [f, r] : w.refs(k)) g.reference_values.at(k)[{f, e}] = c.in(0, 2);
  for (auto& [n, r] : cm.rels)
    for (int e = 0; e < 3; ++e) {
      T_items it(r.doms.size(), -1);
      g.get_relation_items(n, r.doms.size() - 1, e, it);
      for (auto& [i, p] : cm.paths.at(n)) {
        int x = e;
        string k = r.doms.back();
        for (auto& f : p) {
          x = g.reference_values.at(k).at({f, x});
          k = w.refs(k).at(f);
        }
        c.check(it[i] == x, "rebuild", n + fmt(": entity at position %d is not the referenced one", i));
      }
      c.count("tuples_rebuilt");
    }
});

// ---------------------------------------------------------------- monitors
struct State {
  GWorld w;
  std::unique_ptr<GenDB> g;
  Compiled cm;
  map<int, map<string, Val>> rows;  // inserted rows: query field -> value
  string log;
};

static T_items follow(Ctx& c, const State& s, const string& rel, int primary, const string& key) {
  const Rel& r = s.cm.rels.at(rel);
  T_items it(r.doms.size());
  for (auto& [i, p] : s.cm.paths.at(rel)) {
    int x = primary;
    string k = r.doms.back();
    for (auto& f : p) {
      auto& m = s.g->reference_values.at(k);
      auto v = m.find({f, x});
      c.check(v != m.end(), key, rel + fmt(": entity %s %d has stored data but no reference %s", k.c_str(), x, f.c_str()));
      x = v->second;
      k = s.w.refs(k).at(f);
    }
    it[i] = x;
  }
  return it;
}

// C22
static void check_integrity(Ctx& c, const State& s, const string& when) {
  GenDB& g = *s.g;
  const string& rec = s.w.s.query.record_class;
  map<string, std::set<int>> live;
  for (auto& k : s.w.order)
    if (k == rec) {
      for (auto& [id, r] : s.rows) live[k].insert(id);
    } else {
      for (auto& [t, m] : g.entity_crps.at(k).tables) live[k].insert(t);
    }
  map<string, map<int, int>> nref;
  for (auto& k : s.w.order) {
    auto f = g.reference_values.find(k);
    if (f == g.reference_values.end()) continue;
    for (auto& [fk, v] : f->second) {
      auto& [field, e] = fk;
      c.check(s.w.refs(k).contains(field), "field", when + ": unknown reference field " + field);
      const string rc = s.w.refs(k).at(field);
      c.check(live[k].contains(e), "dead_entity_refers", when + fmt(": %s %d is not live but refers to %s %d", k.c_str(), e, rc.c_str(), v));
      c.check(live[rc].contains(v), "dangling", when + fmt(": %s %d.%s refers to %s %d, which is not live", k.c_str(), e, field.c_str(), rc.c_str(), v));
      ++nref[rc][v];
      int id = g.get_reference_id(k, field, e);
      auto& as = g.entity_crps.at(rc).assignments;
      auto a = as.find(id);
      c.check(a != as.end(), "uncounted", when + fmt(": the reference %s %d.%s is not counted", k.c_str(), e, field.c_str()));
      c.check(a->second == v, "counted_elsewhere", when + fmt(": the reference %s %d.%s is counted for entity %d instead of %d", k.c_str(), e, field.c_str(), a->second, v));
      c.count("references_checked");
    }
  }
  for (auto& [k, crp] : g.entity_crps) {
    c.check(s.w.s.classes.contains(k), "class", "unknown class " + k);
    long n = 0;
    for (auto& [v, m] : nref[k]) {
      n += m;
      c.check(crp.tables.contains(v) && (int)crp.tables.at(v).size() == m, "count", when + fmt(": %s %d is referred to %d times, counted %zu times",
              k.c_str(), v, m, crp.tables.contains(v) ? crp.tables.at(v).size() : 0));
    }
    for (auto& [t, m] : crp.tables) c.check(nref[k].contains(t), "unreferred", when + fmt(": %s %d is live but nothing refers to it", k.c_str(), t));
    c.check(crp.N == n && (long)crp.assignments.size() == n, "total", when + fmt(": %d references of %s counted, %ld exist", crp.N, k.c_str(), n));
    c.count("entities_live", crp.tables.size());
  }
  for (auto& [n, r] : s.cm.rels)
    std::visit([&](auto rel) {
      for (auto& [it, v] : rel->get_data()) {
        const string& k = r.doms.back();
        c.check(live[k].contains(it.back()), "data_of_dead", when + ": " + n + " holds data at " + show(it) + " though its " + k + " is not live");
        T_items e = follow(c, s, n, it.back(), "data_without_reference");
        c.check(it == e, "tuple", when + ": " + n + " holds data at " + show(it) + ", its references lead to " + show(e));
        c.count("tuples_checked");
      }
    }, g.hirm->get_relation(n));
}

// C23
static void check_cells(Ctx& c, const State& s, const string& when) {
  real_clusters_drift = true;
  GenDB& g = *s.g;
  World w;
  for (auto& [n, r] : s.cm.rels) w.rels.push_back(r);
  size_t cells = 0;
  for (auto& [id, r] : s.rows) cells += r.size();
  size_t seen = 0;
  for (auto& [n, r] : s.cm.rels)
    std::visit([&](auto rel) {
      for (auto& [it, v] : rel->get_data()) {
        w.obs[n][it] = v;
        if (!r.observed) {
          c.check(in_support(r, Val(v)), "latent_support", when + ": " + n + " at " + show(it) + " holds the impossible value " + show(Val(v)));
          continue;
        }
        ++seen;
        auto row = s.rows.find(it.back());
        c.check(row != s.rows.end() && row->second.contains(n), "invented", when + ": " + n + " holds a value at " + show(it) + " that was not in the input");
        Val want = row->second.at(n);
        c.check(want == Val(v), "changed", when + ": " + n + " of row " + std::to_string(it.back()) + " became " + show(Val(v)) + " instead of " + show(want));
      }
    }, g.hirm->get_relation(n));
  c.check(seen == cells, "lost", when + fmt(": %zu of %zu cells are left", seen, cells));
  for (auto& [n, r] : s.cm.rels) {
    if (!r.noisy || !w.obs.contains(n)) continue;
    for (auto& [it, v] : w.obs.at(n)) {
      T_items b = w.base_items(r, it);
      c.check(w.obs.contains(r.base) && w.obs.at(r.base).contains(b), "disconnected", when + ": " + n + " at " + show(it) + " has no value it is based on");
    }
  }
  c.count("cells_checked", cells);
  double t = check_hirm(c, w, g.hirm, "model");
  for (auto& [k, crp] : g.entity_crps) t += crp_score_of(crp);
  c.near(g.logp_score(), t, "score", when + ": total score against its parts", 1e-4 + 1e-7 * std::fabs(t));
  c.check(std::isfinite(g.logp_score()), "score_not_finite", when + ": score");
}

static Val gen_cell(Ctx& c, const Rel& r, map<string, vector<Val>>& pool) {
  auto& p = pool[r.kind + std::to_string(r.k) + (r.noisy ? "~" : "")];
  if (!p.empty() && c.coin(0.6)) return c.pick(p);
  Val v = gen_clean(c, r);
  if (r.noisy && r.kind != "bernoulli" && c.coin(0.3)) {
    Rel q = r;
    if (r.em == "bigram") q.em = "simple_string";
    v = gen_noisy(c, q, v);
  }
  p.push_back(v);
  return v;
}

struct WOpts {
  bool missing = true;
  int max_rows = 7, min_rows = 1;
  int ops = 10;
  bool transitions = true, hirm_moves = true;
};

static void workload(Ctx& c, const GOpts& go, const WOpts& wo, int prop) {
  State s;
  s.w = make_gworld(c, go);
  if (s.w.chains(s.w.order.back()).size() > 14) return;
  c.say(s.w.text());
  std::mt19937 prng(c.u());
  s.g = std::make_unique<GenDB>(&prng, s.w.s, s.w.only_final, s.w.clean);
  s.cm = check_compiled(c, s.w, *s.g);
  auto check = [&](const string& when) {
    c.count("states_checked");
    if (prop == 22) check_integrity(c, s, when);
    else check_cells(c, s, when);
  };
  map<string, vector<Val>> pool;
  vector<string> fields;
  for (auto& [n, f] : s.w.s.query.fields) fields.push_back(n);
  int next_id = c.coin(0.8) ? 0 : c.in(0, 1000);
  auto insert = [&] {
    std::map<string, Val> row;
    double miss = wo.missing ? (c.coin(0.5) ? 0.0 : c.coin() ? 0.2 : 0.7) : 0;
    for (auto& f : fields)
      if (!c.coin(miss)) row[f] = gen_cell(c, s.cm.rels.at(f), pool);
    bool uniq = c.coin(0.6);
    s.g->incorporate(&prng, {next_id, row}, uniq);
    s.rows[next_id] = row;
    s.log += fmt("insert %d (%zu cells%s); ", next_id, row.size(), uniq ? ", unique" : "");
    next_id += c.coin(0.8) ? 1 : c.in(1, 5);
  };
  int n0 = c.in(wo.min_rows, wo.max_rows), step = 1 + n0 / 8;
  for (int i = 0; i < n0; ++i) {
    insert();
    if (i % step == 0 || i + 1 == n0) check(s.log);
  }
  int ops = wo.transitions ? c.in(2, wo.ops) : 0;
  for (int k = 0; k < ops; ++k) {
    double u = c.unit();
    std::ostringstream cap;
    if (u < 0.12) insert();
    else if (u < 0.72) {
      vector<std::tuple<string, string, int>> refs;
      for (auto& [cl, m] : s.g->reference_values)
        for (auto& [fk, v] : m) refs.push_back({cl, fk.first, fk.second});
      if (refs.empty()) continue;
      auto [cl, f, e] = c.pick(refs);
      int before = s.g->reference_values.at(cl).at({f, e});
      s.g->transition_reference(&prng, cl, f, e);
      int after = s.g->reference_values.at(cl).at({f, e});
      s.log += fmt("move %s %d.%s %d->%d; ", cl.c_str(), e, f.c_str(), before, after);
      c.count(before == after ? "reference_kept" : "reference_moved");
    } else if (u < 0.8) {
      string cl = c.pick(s.w.order);
      s.g->transition_reference_class_and_ancestors(&prng, cl);
      s.log += "sweep " + cl + "; ";
    } else if (wo.hirm_moves) {
      if (c.coin()) {
        inference_hirm(&prng, s.g->hirm, 1, 0, false);
        s.log += "hirm; ";
      } else {
        inference_gendb(&prng, s.g.get(), 1, c.in(0, 1), 0, false);
        s.log += "gendb; ";
      }
    }
    check(s.log);
  }
  c.sig(s.w.text() + s.log);
  c.say(" | " + s.log);
}
FAMILY("C22", "integrity_insert", 900, 9000, [](Ctx& c) { GOpts g; WOpts w; w.transitions = false; workload(c, g, w, 22); });
FAMILY("C22", "integrity_moves", 2500, 30000, [](Ctx& c) { GOpts g; WOpts w; g.strings = false; workload(c, g, w, 22); });
#ifdef NDEBUG
// The string noise model (and the categorical one) drift when data is taken out
// and put back (known findings of C02 and C11), which aborts builds with assertions.
FAMILY("C22", "integrity_drifting", 500, 6000, [](Ctx& c) { GOpts g; WOpts w; w.max_rows = 5; w.ops = 7; g.p_strings = 0.4; g.numeric_strings = g.categorical = true; workload(c, g, w, 22); });
FAMILY("C23", "cells_drifting", 500, 6000, [](Ctx& c) { GOpts g; WOpts w; w.max_rows = 5; w.ops = 7; g.p_strings = 0.4; g.numeric_strings = g.categorical = true; workload(c, g, w, 23); });
#endif
FAMILY("C23", "cells_insert", 900, 9000, [](Ctx& c) { GOpts g; WOpts w; w.transitions = false; workload(c, g, w, 23); });
FAMILY("C23", "cells_moves", 2500, 30000, [](Ctx& c) { GOpts g; WOpts w; g.strings = false; workload(c, g, w, 23); });

// Tables of many rows, so that entities gather many references.
FAMILY("C22", "integrity_large", 60, 1000, [](Ctx& c) { GOpts g; WOpts w; g.strings = false; w.min_rows = 20; w.max_rows = 120; w.ops = 12; workload(c, g, w, 22); }, 120);
FAMILY("C23", "cells_large", 60, 1000, [](Ctx& c) { GOpts g; WOpts w; g.strings = false; w.min_rows = 20; w.max_rows = 120; w.ops = 12; workload(c, g, w, 23); }, 120);

// -------------------------------------------------------------------- C29
// Entity moves: from one state, the referenced entity is chosen among the live
// candidates in proportion to the exponentiated score of the resulting
// database.  Those databases are made by hand, not by the code under test.
struct Move { string cl, f; int e; };

static map<string, vector<T_items>> old_tuples(Ctx& c, const State& s) {
  map<string, vector<T_items>> m;
  for (auto& [n, r] : s.cm.rels)
    std::visit([&](auto rel) {
      for (auto& [it, v] : rel->get_data()) m[n].push_back(it);
    }, s.g->hirm->get_relation(n));
  return m;
}
static bool has_chain(const State& s, const string& k, int e) {
  for (auto& [f, r] : s.w.refs(k)) {
    auto& m = s.g->reference_values.at(k);
    auto v = m.find({f, e});
    if (v == m.end() || !has_chain(s, r, v->second)) return false;
  }
  return true;
}
// Puts the reference to t. False when that takes values or clusters that do not
// exist yet (the code would have to draw them).
static bool force_move(Ctx& c, State& s, const Move& m, int t) {
  GenDB& g = *s.g;
  HIRM* h = g.hirm;
  const string rc = s.w.refs(m.cl).at(m.f);
  int cur = g.reference_values.at(m.cl).at({m.f, m.e});
  if (cur == t) return true;
  if (!has_chain(s, rc, t)) return false;
  auto before = old_tuples(c, s);
  g.reference_values.at(m.cl).at({m.f, m.e}) = t;
  struct Ch { string rel; T_items from, to; Val v; int depth; };
  vector<Ch> ch;
  auto depth = [&](string n) { int d = 0; while (s.cm.rels.at(n).noisy) n = s.cm.rels.at(n).base, ++d; return d; };
  for (auto& [n, its] : before)
    for (auto& it : its) {
      T_items now = follow(c, s, n, it.back(), "move:chain");
      if (now != it) ch.push_back({n, it, now, std::visit([&](auto rel) { return Val(rel->get_value(it)); }, h->get_relation(n)), depth(n)});
    }
  // every entity of the new tuples must be in its domain for another reason
  map<int, map<string, std::set<int>>> kept;
  for (auto& [n, its] : before)
    for (auto& it : its) {
      bool moved = false;
      for (auto& x : ch) moved |= x.rel == n && x.from == it;
      if (!moved)
        for (size_t i = 0; i < it.size(); ++i) kept[h->relation_to_table(n)][s.cm.rels.at(n).doms[i]].insert(it[i]);
    }
  for (auto& x : ch)
    for (size_t i = 0; i < x.to.size(); ++i)
      if (!kept[h->relation_to_table(x.rel)][s.cm.rels.at(x.rel).doms[i]].contains(x.to[i])) {
        g.reference_values.at(m.cl).at({m.f, m.e}) = cur;
        return false;
      }
  std::stable_sort(ch.begin(), ch.end(), [](auto& a, auto& b) { return a.depth < b.depth; });
  for (auto& x : ch) {
    const Rel& r = s.cm.rels.at(x.rel);
    if (!r.noisy) continue;
    T_items b(x.to.begin(), x.to.begin() + s.cm.rels.at(r.base).doms.size());
    bool there = std::visit([&](auto rel) { return rel->get_data().contains(b); }, h->get_relation(r.base));
    for (auto& y : ch) there |= y.rel == r.base && y.to == b;
    if (!there) {
      g.reference_values.at(m.cl).at({m.f, m.e}) = cur;
      return false;
    }
  }
  std::mt19937 none(1);
  for (auto& x : ch) h->incorporate(&none, x.rel, x.to, x.v);
  for (auto x = ch.rbegin(); x != ch.rend(); ++x) h->unincorporate(x->rel, x->from);
  int id = g.get_reference_id(m.cl, m.f, m.e);
  g.entity_crps.at(rc).unincorporate(id);
  g.entity_crps.at(rc).incorporate(id, t);
  // the entity nothing refers to any more goes, with its data and references
  std::function<void(const string&, int)> drop = [&](const string& k, int e) {
    if (g.entity_crps.at(k).tables.contains(e)) return;
    vector<std::pair<int, std::pair<string, T_items>>> gone;
    for (auto& [n, its] : old_tuples(c, s))
      for (auto& it : its)
        if (s.cm.rels.at(n).doms.back() == k && it.back() == e) gone.push_back({-depth(n), {n, it}});
    std::sort(gone.begin(), gone.end());
    for (auto& [d, x] : gone) h->unincorporate(x.first, x.second);
    for (auto& [f, r] : s.w.refs(k)) {
      auto& rv = g.reference_values.at(k);
      auto v = rv.find({f, e});
      if (v == rv.end()) continue;
      int to = v->second;
      g.entity_crps.at(r).unincorporate(g.get_reference_id(k, f, e));
      rv.erase(v);
      drop(r, to);
    }
  };
  drop(rc, cur);
  return true;
}

static void move_case(Ctx& c, const GOpts& go, int max_rows) {
  GWorld w = make_gworld(c, go);
  if (w.chains(w.order.back()).size() > 10) return;
  // a plan that can be repeated: rows, the moves before, one view or several
  unsigned seed = c.u(), warm = c.in(0, 12);
  bool single = c.coin(0.7);
  double miss = c.coin(0.8) ? 0 : 0.1;
  bool uniq = c.coin(0.5);
  vector<string> fields;
  for (auto& [n, f] : w.s.query.fields) fields.push_back(n);
  vector<std::map<string, Val>> rows;
  map<string, vector<Val>> pool;
  {
    std::mt19937 prng(seed);
    GenDB g(&prng, w.s, w.only_final, w.clean);
    auto cm = check_compiled(c, w, g);
    int n = c.in(2, max_rows);
    for (int i = 0; i < n; ++i) {
      rows.emplace_back();
      for (auto& f : fields)
        if (!c.coin(miss)) rows.back()[f] = gen_cell(c, cm.rels.at(f), pool);
    }
  }
  Compiled cm;
  auto fresh = [&]() {
    auto s = std::make_unique<State>();
    s->w = w;
    std::mt19937 prng(seed);
    s->g = std::make_unique<GenDB>(&prng, s->w.s, w.only_final, w.clean);
    if (cm.rels.empty()) cm = check_compiled(c, w, *s->g);
    s->cm = cm;
    for (size_t i = 0; i < rows.size(); ++i) {
      s->g->incorporate(&prng, {(int)i, rows[i]}, uniq);
      s->rows[i] = rows[i];
    }
    if (single)
      for (auto& [n, r] : s->cm.rels)
        if (s->g->hirm->relation_to_table(n) != 77) s->g->hirm->set_cluster_assignment_gibbs(&prng, n, 77);
    for (unsigned k = 0; k < warm; ++k) {
      vector<std::tuple<string, string, int>> refs;
      for (auto& [cl, m] : s->g->reference_values)
        for (auto& [fk, v] : m) refs.push_back({cl, fk.first, fk.second});
      if (refs.empty()) break;
      auto& [cl, f, e] = refs[prng() % refs.size()];
      s->g->transition_reference(&prng, cl, f, e);
    }
    for (auto& [v, irm] : s->g->hirm->irms)
      for (auto& [d, dom] : irm->domains) dom->crp.alpha = std::exp(1.5 * (prng() % 1000) / 1000. - 0.7);
    return s;
  };
  auto s0 = fresh();
  double start = s0->g->logp_score();
  vector<Move> moves;
  for (auto& [cl, m] : s0->g->reference_values)
    for (auto& [fk, v] : m) moves.push_back({cl, fk.first, fk.second});
  if (moves.empty()) return;
  Move m = c.pick(moves);
  if (go.chain && c.coin(0.8)) {
    // of an entity that goes, and has references of its own
    vector<Move> sole;
    for (auto& x : moves) {
      const string k = w.refs(x.cl).at(x.f);
      if (!w.refs(k).empty() && s0->g->entity_crps.at(k).tables.at(s0->g->reference_values.at(x.cl).at({x.f, x.e})).size() == 1) sole.push_back(x);
    }
    if (!sole.empty()) m = c.pick(sole), c.count("moves_of_sole_referrers");
  }
  const string rc = w.refs(m.cl).at(m.f);
  int cur = s0->g->reference_values.at(m.cl).at({m.f, m.e});
  map<int, double> score;
  map<int, size_t> values;
  map<int, int> index;
  vector<double> lp;
  for (auto& [t, members] : s0->g->entity_crps.at(rc).tables) {
    auto s = fresh();
    if (std::fabs(s->g->logp_score() - start) > 1e-9 * (1 + std::fabs(start))) return c.count("skipped_not_repeatable");
    // (values drawn for one candidate stay and weigh on the next, so the law
    // is only exact where nothing has to be drawn)
    if (!force_move(c, *s, m, t)) return c.count("skipped_values_drawn");
    if (t != cur) {
      check_integrity(c, *s, fmt("by hand to %d", t));
      check_cells(c, *s, fmt("by hand to %d", t));
    }
    score[t] = s->g->logp_score();
    for (auto& [n, its] : old_tuples(c, *s)) values[t] += its.size();
    index[t] = lp.size();
    lp.push_back(score[t]);
  }
  if (lp.size() < 2) return c.count("skipped_one_candidate");
  double mx = *std::max_element(lp.begin(), lp.end()), Z = 0;
  vector<double> p;
  for (double x : lp) p.push_back(std::exp(x - mx)), Z += p.back();
  for (double& x : p) x /= Z;
  c.say(w.text() + fmt(" rows=%zu %s %d.%s, now %d, %zu candidates%s", rows.size(), m.cl.c_str(), m.e, m.f.c_str(), cur, lp.size(), single ? ", one view" : ""));
  std::mt19937 prng(c.u());
  mon::stat_test(c, "move:frequency", fmt("entities chosen for %s %d.%s (was %d) in ", m.cl.c_str(), m.e, m.f.c_str(), cur) + w.text(), 400, p, [&](long n) {
    vector<long> k(p.size());
    for (long i = 0; i < n; ++i) {
      auto s = fresh();
      s->g->transition_reference(&prng, m.cl, m.f, m.e);
      int t = s->g->reference_values.at(m.cl).at({m.f, m.e});
      auto f = index.find(t);
      if (f == index.end()) { c.count("drawn_candidate_chosen"); continue; }
      ++k[f->second];
      // a fresh entity that was considered may leave drawn values of its (live) ancestors
      size_t held = 0;
      for (auto& [n, its] : old_tuples(c, *s)) held += its.size();
      if (held != values.at(t)) c.count("values_left_by_fresh_candidate");
      else if (i % 8 == 0 || k[f->second] == 1)
        c.near(s->g->logp_score(), score.at(t), "move:state", fmt("%s %d.%s moved from %d to %d: score of the database", m.cl.c_str(), m.e, m.f.c_str(), cur, t),
               1e-5, 1e-7);
    }
    return k;
  });
  c.count("candidates", p.size());
  c.count(s0->g->entity_crps.at(rc).tables.at(cur).size() == 1 ? "from_sole_reference" : "from_shared_entity");
  c.count(m.cl == w.order.back() ? "moves_of_rows" : "moves_of_entities");
  c.sig(w.text() + fmt("%u %s %d %s", seed, m.cl.c_str(), m.e, m.f.c_str()));
}
FAMILY("C29", "move_conditional", 1500, 15000, [](Ctx& c) {
  GOpts g;
  g.strings = false;
  g.max_classes = 4;
  g.max_attrs = 2;
  g.unqueried = c.coin(0.7);
  move_case(c, g, 6);
}, 120);
FAMILY("C29", "move_conditional_chain", 700, 8000, [](Ctx& c) {
  GOpts g;
  g.strings = false;
  g.chain = true;
  g.max_classes = 4;
  g.max_refs = c.coin(0.7) ? 1 : 2;
  g.max_attrs = 2;
  g.unqueried = false;
  move_case(c, g, 6);
}, 120);
