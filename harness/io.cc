// C16 (schema languages), C17 (data files) and C18 (saved models).
#include "emissions/bigram_string.hh"
#include "text.hh"
#include "pclean/csv.hh"
#include "pclean/get_joint_relations.hh"
#include "pclean/io.hh"
#include "pclean/pclean_lib.hh"
#include "util_io.hh"

// ------------------------------------------------------------- hirm schemas
struct DistInfo {
  int num;
  ObservationEnum type;
};
static const map<string, DistInfo>& dists() {
  static const map<string, DistInfo> m = {
      {"bernoulli", {(int)DistributionEnum::bernoulli, ObservationEnum::bool_type}},
      {"bigram", {(int)DistributionEnum::bigram, ObservationEnum::string_type}},
      {"categorical", {(int)DistributionEnum::categorical, ObservationEnum::int_type}},
      {"normal", {(int)DistributionEnum::normal, ObservationEnum::double_type}},
      {"skellam", {(int)DistributionEnum::skellam, ObservationEnum::int_type}},
      {"stringcat", {(int)DistributionEnum::stringcat, ObservationEnum::string_type}},
      {"string_nat", {(int)DistributionEnum::string_nat, ObservationEnum::string_type}},
      {"string_normal", {(int)DistributionEnum::string_normal, ObservationEnum::string_type}},
      {"string_skellam", {(int)DistributionEnum::string_skellam, ObservationEnum::string_type}}};
  return m;
}
static const map<string, DistInfo>& emissions() {
  static const map<string, DistInfo> m = {
      {"bigram", {(int)EmissionEnum::bigram_string, ObservationEnum::string_type}},
      {"gaussian", {(int)EmissionEnum::gaussian, ObservationEnum::double_type}},
      {"simple_string", {(int)EmissionEnum::simple_string, ObservationEnum::string_type}},
      {"sometimes_bitflip", {(int)EmissionEnum::sometimes_bitflip, ObservationEnum::bool_type}},
      {"sometimes_categorical", {(int)EmissionEnum::sometimes_categorical, ObservationEnum::int_type}},
      {"sometimes_gaussian", {(int)EmissionEnum::sometimes_gaussian, ObservationEnum::double_type}}};
  return m;
}
static string args_text(const map<string, string>& m) {
  string s;
  for (auto& [k, v] : m) s += k + "\x02" + v + "\x02";
  return s;
}
static string doms_text(const vector<string>& d) {
  string s;
  for (auto& x : d) s += x + ",";
  return s;
}

template <class D, class B>
const D* as(B* p) { return dynamic_cast<const D*>(p); }

// What a distribution made from a specification is.
static string model_text(const DistributionVariant& d) {
  return std::visit([](auto* p) -> string {
    if (as<BetaBernoulli>(p)) return "beta-bernoulli";
    if (auto* x = as<StringNat>(p)) return fmt("string-nat %zu", x->max_length);
    if (auto* x = as<Bigram>(p)) return fmt("bigram %zu %d-%d", x->max_length, x->min_char, x->max_char);
    if (auto* x = as<DirichletCategorical>(p)) return fmt("categorical %zu", x->counts.size());
    if (as<Normal>(p)) return "normal";
    if (as<Skellam>(p)) return "skellam";
    if (auto* x = as<StringCat>(p)) {
      string t = "stringcat";
      for (auto& s : x->strings) t += "\x03" + s;
      return t;
    }
    if (auto* x = as<DistributionAdapter<double>>(p)) return as<Normal>(x->d) ? "adapter normal" : "adapter ?";
    if (auto* x = as<DistributionAdapter<int>>(p)) return as<Skellam>(x->d) ? "adapter skellam" : "adapter ?";
    return "?";
  }, d);
}
static string model_text(const EmissionVariant& d) {
  return std::visit([](auto* p) -> string {
    if (as<BigramStringEmission>(p)) return "bigram-string";
    if (as<GaussianEmission>(p)) return "gaussian";
    if (as<SimpleStringEmission>(p)) return "simple-string";
    if (auto* x = as<Sometimes<bool>>(p)) return as<BitFlip>(x->be) && !x->dirty_can_equal_clean ? "sometimes bitflip" : "sometimes ?";
    if (auto* x = as<Sometimes<double>>(p)) return as<GaussianEmission>(x->be) && !x->dirty_can_equal_clean ? "sometimes gaussian" : "sometimes ?";
    if (auto* x = as<Sometimes<int>>(p)) {
      auto* e = as<CategoricalEmission>(x->be);
      return e && x->dirty_can_equal_clean ? fmt("sometimes categorical %zu %zu", e->emission_dists.size(), e->emission_dists[0].counts.size()) : "sometimes ?";
    }
    return "?";
  }, d);
}
static string spec_text(const T_relation& t) {
  if (auto* r = std::get_if<T_clean_relation>(&t))
    return fmt("C|%d|%d|", (int)r->distribution_spec.distribution, (int)r->distribution_spec.observation_type) +
           args_text(r->distribution_spec.distribution_args) + "|" + doms_text(r->domains) + fmt("|%d", r->is_observed);
  auto& r = std::get<T_noisy_relation>(t);
  return fmt("N|%d|%d|", (int)r.emission_spec.emission, (int)r.emission_spec.observation_type) + args_text(r.emission_spec.emission_args) + "|" +
         doms_text(r.domains) + fmt("|%d|", r.is_observed) + r.base_relation;
}
static string schema_text_of(const T_schema& s) {
  string t;
  for (auto& [n, r] : s) t += n + "|" + spec_text(r) + "\n";
  return t;
}
// The same, from the declarations.
static string decl_text(const Decl& d) {
  map<string, string> args;
  for (auto& [k, v] : d.params) args[k] = v.v;
  if (d.base.empty())
    return fmt("C|%d|%d|", dists().at(d.dist).num, (int)dists().at(d.dist).type) + args_text(args) + "|" + doms_text(d.doms) + "|0";
  return fmt("N|%d|%d|", emissions().at(d.dist).num, (int)emissions().at(d.dist).type) + args_text(args) + "|" + doms_text(d.doms) + "|0|" + d.base;
}
static string decls_text(const vector<Decl>& ds) {
  map<string, string> m;
  for (auto& d : ds) m[d.name] = decl_text(d);
  string t;
  for (auto& [n, x] : m) t += n + "|" + x + "\n";
  return t;
}
static ObservationEnum type_of(const Decl& d) { return d.base.empty() ? dists().at(d.dist).type : emissions().at(d.dist).type; }
// What get_prior must make of a declaration.
static string decl_model(const Decl& d) {
  map<string, string> a;
  for (auto& [k, v] : d.params) a[k] = v.v;
  auto num = [&](const char* k, int def) { return a.contains(k) ? atoi(a.at(k).c_str()) : def; };
  if (!d.base.empty()) {
    static const map<string, string> m = {{"bigram", "bigram-string"}, {"gaussian", "gaussian"}, {"simple_string", "simple-string"},
                                          {"sometimes_bitflip", "sometimes bitflip"}, {"sometimes_gaussian", "sometimes gaussian"}};
    if (d.dist == "sometimes_categorical") return fmt("sometimes categorical %d %d", num("k", 0), num("k", 0));
    return m.at(d.dist);
  }
  if (d.dist == "bernoulli") return "beta-bernoulli";
  if (d.dist == "bigram") return fmt("bigram %d 32-126", num("maxlength", 80));
  if (d.dist == "string_nat") return fmt("string-nat %d", num("maxlength", 20));
  if (d.dist == "categorical") return fmt("categorical %d", num("k", 0));
  if (d.dist == "stringcat") {
    string t = "stringcat";
    for (auto& s : split_on(a.at("strings"), a.contains("delim") ? a.at("delim")[0] : ' ')) t += "\x03" + s;
    return t;
  }
  if (d.dist == "string_normal") return "adapter normal";
  if (d.dist == "string_skellam") return "adapter skellam";
  return d.dist;
}

static vector<std::pair<string, Tok>> gen_params(Ctx& c, const string& dist) {
  vector<std::pair<string, Tok>> p;
  auto num = [&](long lo, long hi) { return c.coin(0.8) ? Tok{'n', std::to_string(c.in(lo, hi))} : Tok{'s', std::to_string(c.in(lo, hi))}; };
  if (dist == "categorical" || dist == "sometimes_categorical") p.push_back({"k", num(1, 30)});
  if ((dist == "bigram" || dist == "string_nat") && c.coin(0.5)) p.push_back({"maxlength", num(1, 90)});
  if (dist == "stringcat") {
    static const vector<std::pair<Tok, string>> del = {{Y(":"), ":"}, {Y(","), ","}, {{'s', ";"}, ";"}, {{'s', " "}, " "}, {I("x"), "x"}, {{'n', "0"}, "0"}};
    auto d = c.coin(0.5) ? c.pick(del) : std::pair<Tok, string>{{}, ""};
    string sep = d.second.empty() ? " " : d.second, s;
    for (long i = 0, n = c.in(1, 5); i < n; ++i) s += (i ? sep : "") + string(1, 'a' + i) + fmt("%ld", c.in(1, 99));
    p.push_back({"strings", {'s', s}});
    if (!d.second.empty()) p.push_back({"delim", d.first});
  }
  if (dist != "categorical" && c.coin(0.12)) p.push_back({"extra" + ident(c), any_tok(c)});
  std::shuffle(p.begin(), p.end(), c.rng);
  return p;
}
static vector<Decl> gen_decls(Ctx& c) {
  vector<Decl> ds;
  std::set<string> names;
  vector<string> doms;
  for (long n = c.in(1, 4); n > 0; --n) doms.push_back(ident(c, c.coin()));
  for (long n = c.coin(0.03) ? 0 : c.in(1, 7); n > 0; --n) {
    Decl d;
    d.name = ident(c);
    if (!names.insert(d.name).second) continue;
    if (!ds.empty() && c.coin(0.45)) {
      const Decl& b = c.pick(ds);
      vector<string> ok;
      for (auto& [e, i] : emissions())
        if (i.type == type_of(b)) ok.push_back(e);
      d.dist = c.pick(ok);
      d.base = b.name;
      d.doms = b.doms;
      for (long k = c.coin() ? 0 : c.in(1, 2); k > 0; --k) d.doms.push_back(c.pick(doms));
    } else {
      d.dist = std::next(dists().begin(), c.in(0, dists().size() - 1))->first;
      for (long k = c.in(1, 4); k > 0; --k) d.doms.push_back(c.pick(doms));
    }
    d.params = gen_params(c, d.dist);
    ds.push_back(d);
  }
  std::shuffle(ds.begin(), ds.end(), c.rng);
  return ds;
}
static Format gen_format(Ctx& c) { return {c.coin(0.2), c.coin(0.4), false}; }

// An independent reading of the grammar.
static bool ref_decl(const Line& l, Decl* d) {
  size_t i = 0;
  if (!is(l, 0, 'i') || !is(l, 1, 'y', "~") || !is(l, 2, 'i')) return false;
  d->name = l[0].v;
  d->dist = l[2].v;
  i = 3;
  if (is(l, i, 'y', "[")) {
    do {
      ++i;
      if (!is(l, i, 'i') || !is(l, i + 1, 'y', "=") || i + 2 >= l.size()) return false;
      for (auto& [k, v] : d->params)
        if (k == l[i].v) return false;
      d->params.push_back({l[i].v, l[i + 2]});
      i += 3;
    } while (is(l, i, 'y', ","));
    if (!is(l, i, 'y', "]")) return false;
    ++i;
  }
  if (!is(l, i, 'y', "(") || !is(l, i + 1, 'i')) return false;
  ++i;
  if (is(l, i + 1, 'y', ";")) {
    d->base = l[i].v;
    i += 2;
    if (!is(l, i, 'i')) return false;
  }
  d->doms.push_back(l[i++].v);
  while (is(l, i, 'y', ",")) {
    if (!is(l, i + 1, 'i')) return false;
    d->doms.push_back(l[i + 1].v);
    i += 2;
  }
  return is(l, i, 'y', ")") && i + 1 == l.size();
}
static bool ref_schema(const vector<Line>& ls, vector<Decl>* out) {
  map<string, Decl> m;
  for (auto& l : ls) {
    if (l.empty()) continue;
    Decl d;
    if (!ref_decl(l, &d) || m.contains(d.name)) return false;
    if (d.base.empty() ? !dists().contains(d.dist) : !emissions().contains(d.dist)) return false;
    m[d.name] = d;
    out->push_back(d);
  }
  for (auto& [n, d] : m) {
    if (d.base.empty()) continue;
    if (!m.contains(d.base)) return false;
    const Decl& b = m.at(d.base);
    if (b.doms.size() > d.doms.size() || !std::equal(b.doms.begin(), b.doms.end(), d.doms.begin())) return false;
    if (type_of(b) != type_of(d)) return false;
  }
  return true;
}
static bool has_loop(const vector<Decl>& ds) {
  map<string, string> b;
  for (auto& d : ds) b[d.name] = d.base;
  for (auto& d : ds) {
    string n = d.name;
    for (size_t k = 0; k <= ds.size() && !n.empty(); ++k) n = b[n];
    if (!n.empty()) return true;
  }
  return false;
}

FAMILY("C16", "schema_formats", 2100, 15000, [](Ctx& c) {
  vector<Decl> ds = gen_decls(c);
  vector<Line> ls;
  string sg;
  for (auto& d : ds) ls.push_back(decl_line(d)), sg += show(ls.back()) + "; ";
  c.say(sg);
  if (!ds.empty()) c.sig(sg);
  string want = decls_text(ds);
  for (int k = 0; k < 2; ++k) {
    string text = decls_file(c, ls, gen_format(c));
    write_text(c.tmp + "/s.schema", text);
    Outcome o = in_child(c, [&] { return schema_text_of(load_schema(c.tmp + "/s.schema")); });
    c.check(o.kind != 'H' && o.kind != 'C', "schema_crash", "loading a schema crashed: " + o.text + " | " + text);
    c.check(o.ok(), "schema_rejected", "a well-formed schema was not accepted (" + o.text + "): " + text);
    c.check(o.text == want, "schema_differs", "read as " + o.text + " instead of " + want + " from " + text);
    c.count("schemas_read");
    std::shuffle(ls.begin(), ls.end(), c.rng);
  }
  // the models made of the specifications
  std::mt19937 prng(c.u());
  T_schema sch = load_schema(c.tmp + "/s.schema");
  for (auto& d : ds) {
    string got = std::visit([&](auto& t) {
      using T = std::decay_t<decltype(t)>;
      if constexpr (std::is_same_v<T, T_clean_relation>) return model_text(get_prior(t.distribution_spec, &prng));
      else return model_text(get_prior(t.emission_spec, &prng));
    }, sch.at(d.name));
    c.check(got == decl_model(d), "model", d.name + " ~ " + d.dist + " is made as " + got + " instead of " + decl_model(d));
    c.count("models_checked");
  }
});

static void mutate(Ctx& c, vector<Line>& ls) {
  if (ls.empty()) ls.push_back({});
  for (int n = c.coin(0.75) ? 1 : 2; n > 0; --n) {
    size_t li = c.in(0, ls.size() - 1);
    Line& l = ls[li];
    if (l.empty()) {
      l.push_back(any_tok(c));
      continue;
    }
    size_t i = c.in(0, l.size() - 1);
    switch (c.in(0, 8)) {
      case 0: l.erase(l.begin() + i); break;
      case 1: l.insert(l.begin() + i, l[i]); break;
      case 2: l[i] = any_tok(c); break;
      case 3: l.insert(l.begin() + c.in(0, l.size()), any_tok(c)); break;
      case 4: l.resize(i); break;
      case 5: std::swap(l[i], l[c.in(0, l.size() - 1)]); break;
      case 6: {  // a token of another line
        const Line& m = c.pick(ls);
        if (!m.empty()) l[i] = m[c.in(0, m.size() - 1)];
        break;
      }
      case 7: l[i].t = l[i].t == 's' ? 'i' : 's'; break;  // quoted or not
      default: {
        Line copy = l;
        if (c.coin()) ls.insert(ls.begin() + c.in(0, ls.size()), copy);
        else l.insert(l.end(), copy.begin(), copy.end());
      }
    }
    for (auto& l : ls)
      for (auto& t : l)
        if (t.t == 'i' && (t.v.empty() || !(isalpha((unsigned char)t.v[0]) || t.v[0] == '_') ||
                           !std::all_of(t.v.begin(), t.v.end(), [](unsigned char x) { return x < 128 && (isalnum(x) || x == '_'); })))
          t.t = 's';
  }
}

FAMILY("C16", "schema_malformed", 5400, 40000, [](Ctx& c) {
  vector<Decl> ds = gen_decls(c), back;
  vector<Line> ls;
  for (auto& d : ds) ls.push_back(decl_line(d));
  mutate(c, ls);
  string sg;
  for (auto& l : ls) sg += show(l) + "; ";
  c.say(sg);
  c.sig(sg);
  bool good = ref_schema(ls, &back);
  Format f{false, false, true};
  string text = decls_file(c, ls, f);
  write_text(c.tmp + "/s.schema", text);
  Outcome o = in_child(c, [&] { return schema_text_of(load_schema(c.tmp + "/s.schema")); });
  c.check(o.kind != 'H' && o.kind != 'C', "schema_crash", "loading a schema crashed: " + o.text + " | " + text);
  if (good) {
    c.count("still_well_formed");
    if (has_loop(back)) return;  // refused when the model is built
    c.check(o.ok(), "schema_rejected", "a well-formed schema was not accepted (" + o.text + "): " + text);
    c.check(o.text == decls_text(back), "schema_differs", "read as " + o.text + " instead of " + decls_text(back) + " from " + text);
  } else {
    c.count("malformed");
    c.check(!o.ok(), "malformed_accepted", "read as " + o.text + " from the malformed " + text);
  }
});

// A schema with a loop of base relations makes no model.
FAMILY("C16", "schema_loops", 60, 600, [](Ctx& c) {
  int n = c.in(1, 4);
  string text;
  for (int i = 0; i < n; ++i) text += fmt("r%d ~ simple_string(r%d; D)\n", i, (i + 1) % n);
  if (c.coin()) text += "other ~ bigram(D)\n";
  write_text(c.tmp + "/s.schema", text);
  c.sig(text);
  for (int k = 0; k < 2; ++k) {
    Outcome o = in_child(c, [&] {
      T_schema s = load_schema(c.tmp + "/s.schema");
      std::mt19937 prng(1);
      if (k) HIRM h(s, &prng);
      else IRM m(s);
      return string("built");
    });
    c.check(o.kind == 'R', "loop", "a schema whose relations are based on each other: " + o.text);
  }
});

// The text form used for distributions in code, and the joint relations.
FAMILY("C16", "joint_relations", 450, 1500, [](Ctx& c) {
  static const map<string, std::pair<string, string>> table = {
      {"bool", {"bernoulli", "sometimes_bitflip"}}, {"categorical", {"categorical", "sometimes_categorical"}}, {"real", {"normal", "sometimes_gaussian"}},
      {"string", {"bigram", "bigram"}}, {"stringcat", {"stringcat", "bigram"}}, {"typo_int", {"string_skellam", "bigram"}},
      {"typo_nat", {"string_nat", "bigram"}}, {"typo_real", {"string_normal", "bigram"}}};
  for (auto& [j, p] : table) {
    Decl d, e;
    d.dist = p.first;
    e.dist = p.second;
    e.base = ident(c);
    for (long k = c.in(1, 4); k > 0; --k) d.doms.push_back(ident(c));
    e.doms = d.doms;
    d.params = e.params = gen_params(c, p.first);
    ScalarVar sv;
    sv.joint_name = j;
    for (auto& [k, v] : d.params) sv.params[k] = v.v;
    T_clean_relation cr = get_distribution_relation(sv, d.doms);
    T_noisy_relation nr = get_emission_relation(sv, e.doms, e.base);
    c.check(spec_text(cr) == decl_text(d), "joint_clean", j + ": clean relation " + spec_text(cr));
    c.check(spec_text(nr) == decl_text(e), "joint_noisy", j + ": noisy relation " + spec_text(nr));
    c.sig(decl_text(d));
    c.count("joint_relations");
    // "name(a=b,c=d)"
    bool plain = !d.params.empty();
    string t = d.dist + "(";
    for (auto& [k, v] : d.params) {
      if (v.v.find_first_of(",=()") != string::npos || v.v.empty()) plain = false;
      t += (t.back() == '(' ? "" : ",") + k + "=" + v.v;
    }
    DistributionSpec s1(plain ? t + ")" : d.dist, plain ? map<string, string>{} : sv.params);
    cr.distribution_spec = s1;
    c.check(spec_text(cr) == decl_text(d), "dist_text", t + ") reads as " + spec_text(cr));
  }
  string bad = ident(c);
  if (!table.contains(bad)) {
    Outcome o = in_child(c, [&] {
      ScalarVar sv;
      sv.joint_name = bad;
      if (c.idx % 2) get_distribution_relation(sv, {"D"});
      else get_emission_relation(sv, {"D"}, "b");
      return string("accepted");
    });
    c.check(o.kind == 'R', "joint_unknown", "unknown joint distribution " + bad + ": " + o.text);
  }
});

// ------------------------------------------------------ class schema files
static string pschema_text(const PCleanSchema& s) {
  string t;
  for (auto& [n, k] : s.classes) {
    t += "class " + n + "=" + k.name + "\n";
    for (auto& [v, x] : k.vars) {
      t += "  " + v + "=" + x.name + " ";
      if (auto* cv = std::get_if<ClassVar>(&x.spec)) t += "class " + cv->class_name;
      else {
        auto& sv = std::get<ScalarVar>(x.spec);
        t += "attr " + sv.joint_name + " " + args_text(sv.params);
      }
      t += "\n";
    }
  }
  t += "query " + s.query.record_class + "\n";
  for (auto& [n, f] : s.query.fields) {
    t += "  " + n + "=" + f.name + " ";
    for (auto& p : f.class_path) t += p + ".";
    t += "\n";
  }
  return t;
}
// A file as blocks of lines; blocks are separated by blank lines.
static vector<vector<Line>> gen_blocks(Ctx& c) {
  vector<vector<Line>> bs;
  std::set<string> cls;
  vector<string> names;
  for (long n = c.in(1, 4); n > 0; --n) {
    string k = ident(c, c.coin(0.93));
    if (cls.insert(k).second) names.push_back(k);
  }
  for (auto& k : names) {
    vector<Line> b{{I("class"), I(k)}};
    std::set<string> vars;
    for (long n = c.in(0, 5); n > 0; --n) {
      string v = ident(c);
      if (!vars.insert(v).second) continue;
      Line l{I(v), Y("~")};
      if (c.coin(0.35)) {
        l.push_back(I(c.coin(0.8) && isupper(names[0][0]) ? names[0] : ident(c, true)));
      } else {
        static const vector<string> js = {"bool", "categorical", "real", "string", "stringcat", "typo_int", "typo_nat", "typo_real", "other"};
        string j = c.coin(0.95) ? c.pick(js) : ident(c, true);
        l.push_back(I(j));
        vector<std::pair<string, Tok>> ps;
        for (long k = c.coin(0.5) ? 0 : c.in(1, 3); k > 0; --k) {
          string pn = ident(c);
          if (std::none_of(ps.begin(), ps.end(), [&](auto& p) { return p.first == pn; })) ps.push_back({pn, any_tok(c)});
        }
        if (isupper(j[0]) && ps.empty()) ps.push_back({"k", {'n', "2"}});
        for (size_t i = 0; i < ps.size(); ++i) {
          l.push_back(Y(i ? "," : "("));
          l.push_back(I(ps[i].first));
          l.push_back(Y("="));
          l.push_back(ps[i].second);
        }
        if (!ps.empty()) l.push_back(Y(")"));
      }
      b.push_back(l);
    }
    bs.push_back(b);
  }
  vector<Line> q;
  std::set<string> fields;
  for (long n = c.in(1, 6); n > 0; --n) {
    Tok name = c.coin(0.75) ? I(ident(c)) : Tok{'s', quoted_text(c)};
    if (!fields.insert(name.v).second) continue;
    Line l;
    for (long k = c.in(1, 4); k > 0; --k) {
      if (!l.empty()) l.push_back(Y("."));
      string s = ident(c);
      l.push_back(I(s));
    }
    l.push_back(I("as"));
    l.push_back(name);
    q.push_back(l);
  }
  q.insert(c.coin(0.8) ? q.end() : q.begin() + c.in(0, q.size()), {I("from"), I(c.pick(names))});
  q.insert(q.begin(), {I("observe")});
  bs.insert(c.coin(0.7) ? bs.end() : bs.begin() + c.in(0, bs.size()), q);
  return bs;
}
static bool ref_var(const Line& l, PCleanVariable* v) {
  if (!is(l, 0, 'i') || !is(l, 1, 'y', "~") || !is(l, 2, 'i')) return false;
  v->name = l[0].v;
  if (l.size() == 3 && isupper((unsigned char)l[2].v[0])) {
    v->spec = ClassVar{l[2].v};
    return true;
  }
  ScalarVar sv;
  sv.joint_name = l[2].v;
  if (l.size() > 3) {
    if (!is(l, 3, 'y', "(")) return false;
    size_t i = 4;
    if (!is(l, i, 'y', ")") || l.size() != 5)
      while (true) {
        if (!is(l, i, 'i') || !is(l, i + 1, 'y', "=") || i + 2 >= l.size() || sv.params.contains(l[i].v)) return false;
        sv.params[l[i].v] = l[i + 2].v;
        i += 3;
        if (is(l, i, 'y', ",")) ++i;
        else break;
      }
    if (!is(l, i, 'y', ")") || i + 1 != l.size()) return false;
  }
  v->spec = sv;
  return true;
}
// blocks: lines of the file, an empty vector being a blank line.
static bool ref_pschema(const vector<Line>& ls, PCleanSchema* s) {
  size_t i = 0;
  while (i < ls.size()) {
    const Line& l = ls[i++];
    if (l.empty()) continue;
    if (is(l, 0, 'i', "class") && l.size() == 2 && l[1].t == 'i') {
      PCleanClass k;
      k.name = l[1].v;
      for (; i < ls.size() && !ls[i].empty(); ++i) {
        PCleanVariable v;
        if (!ref_var(ls[i], &v) || k.vars.contains(v.name)) return false;
        k.vars[v.name] = v;
      }
      if (s->classes.contains(k.name)) return false;
      s->classes[k.name] = k;
    } else if (is(l, 0, 'i', "observe") && l.size() == 1) {
      if (!s->query.record_class.empty()) return false;
      for (; i < ls.size() && !ls[i].empty(); ++i) {
        const Line& q = ls[i];
        if (is(q, 0, 'i', "from")) {
          if (q.size() != 2 || q[1].t != 'i' || !s->query.record_class.empty()) return false;
          s->query.record_class = q[1].v;
          continue;
        }
        QueryField f;
        size_t j = 0;
        if (!is(q, 0, 'i')) return false;
        f.class_path.push_back(q[0].v);
        for (j = 1; is(q, j, 'y', "."); j += 2) {
          if (!is(q, j + 1, 'i')) return false;
          f.class_path.push_back(q[j + 1].v);
        }
        if (!is(q, j, 'i', "as") || q.size() != j + 2 || (q[j + 1].t != 'i' && q[j + 1].t != 's')) return false;
        f.name = q[j + 1].v;
        if (s->query.fields.contains(f.name)) return false;
        s->query.fields[f.name] = f;
      }
    } else {
      return false;
    }
  }
  return true;
}
static string pschema_file(Ctx& c, const vector<vector<Line>>& bs, const Format& f) {
  string t;
  for (auto& b : bs) {
    filler(c, t, f);
    for (size_t i = 0; i < b.size(); ++i) {
      // comment lines may stand inside of a class or query
      if (!f.plain && i && c.coin(0.15)) t += blanks(c, 0, 3) + comment(c) + (f.crlf ? "\r\n" : "\n");
      t += render(c, b[i], f);
    }
    t += (f.plain || c.coin() ? "" : blanks(c, 1, 3)) + string(f.crlf ? "\r\n" : "\n");
  }
  filler(c, t, f);
  if (!f.plain && c.coin(0.3))
    while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
  return t;
}
static Outcome read_pschema(Ctx& c, const string& text) {
  write_text(c.tmp + "/p.schema", text);
  return in_child(c, [&] {
    PCleanSchema s;
    bool ok;
    if (c.idx % 2) ok = read_schema_file(c.tmp + "/p.schema", &s);
    else {
      std::istringstream is(text);
      ok = read_schema(is, &s);
    }
    if (!ok) throw std::runtime_error("refused");
    return pschema_text(s);
  });
}
FAMILY("C16", "class_formats", 2100, 15000, [](Ctx& c) {
  auto bs = gen_blocks(c);
  vector<Line> flat;
  string sg;
  for (auto& b : bs) {
    for (auto& l : b) flat.push_back(l), sg += show(l) + "; ";
    flat.push_back({});
  }
  c.say(sg);
  PCleanSchema want;
  c.check(ref_pschema(flat, &want), "generator", "the generated schema is not well-formed: " + sg);
  c.sig(sg);
  for (int k = 0; k < 2; ++k) {
    string text = pschema_file(c, bs, gen_format(c));
    Outcome o = read_pschema(c, text);
    c.check(o.kind != 'H' && o.kind != 'C', "class_schema_crash", "loading crashed: " + o.text + " | " + text);
    c.check(o.ok(), "class_schema_rejected", "a well-formed schema was not accepted (" + o.text + "): " + text);
    c.check(o.text == pschema_text(want), "class_schema_differs", "read as " + o.text + " instead of " + pschema_text(want) + " from " + text);
    c.count("schemas_read");
    // Blocks may come in any order.
    std::shuffle(bs.begin(), bs.end(), c.rng);
  }
});
FAMILY("C16", "class_malformed", 4500, 40000, [](Ctx& c) {
  auto bs = gen_blocks(c);
  mutate(c, bs[c.in(0, bs.size() - 1)]);
  if (c.coin(0.1)) bs.push_back(c.pick(bs));
  vector<Line> flat;
  string sg;
  for (auto& b : bs) {
    if (b.empty() || b[0].empty()) continue;
    for (auto& l : b) flat.push_back(l), sg += show(l) + "; ";
    flat.push_back({});
  }
  c.say(sg);
  c.sig(sg);
  PCleanSchema want;
  bool good = ref_pschema(flat, &want);
  Format f{false, false, true};
  string text;
  for (auto& l : flat) text += render(c, l, f);
  Outcome o = read_pschema(c, text);
  c.check(o.kind != 'H' && o.kind != 'C', "class_schema_crash", "loading crashed: " + o.text + " | " + text);
  if (good) {
    c.count("still_well_formed");
    c.check(o.ok(), "class_schema_rejected", "a well-formed schema was not accepted (" + o.text + "): " + text);
    c.check(o.text == pschema_text(want), "class_schema_differs", "read as " + o.text + " instead of " + pschema_text(want) + " from " + text);
  } else {
    c.count("malformed");
    c.check(!o.ok(), "malformed_accepted", "read as " + o.text + " from the malformed " + text);
  }
});

// The world with the codes of an encoding instead of the ids.
static World recode(Ctx& c, const World& w, const Names& names, const T_encoding& enc) {
  World x = w;
  x.obs.clear();
  auto& f = std::get<0>(enc);
  for (auto& [r, m] : w.obs) {
    const Rel& rel = w.rel(r);
    for (auto& [it, v] : m) {
      T_items e;
      for (size_t i = 0; i < it.size(); ++i) {
        const string& n = names.at(rel.doms[i]).at(it[i]);
        c.check(f.contains(rel.doms[i]) && f.at(rel.doms[i]).contains(n), "entity_without_code", "no code for entity " + n + " of " + rel.doms[i]);
        e.push_back(f.at(rel.doms[i]).at(n));
      }
      x.obs[r][e] = v;
    }
  }
  return x;
}
// Bijective and about exactly these entities.
static void check_encoding(Ctx& c, const T_encoding& enc, const map<string, std::set<string>>& ents) {
  auto& f = std::get<0>(enc);
  auto& b = std::get<1>(enc);
  for (auto& [d, m] : f) c.check(m.empty() || ents.contains(d), "encoding", "codes for unknown domain " + d);
  for (auto& [d, s] : ents) {
    c.check(f.contains(d) && b.contains(d), "encoding", "no codes for domain " + d);
    c.check(f.at(d).size() == s.size() && b.at(d).size() == s.size(), "encoding",
            fmt("%s: %zu entities, %zu codes, %zu names", d.c_str(), s.size(), f.at(d).size(), b.at(d).size()));
    std::set<int> codes;
    for (auto& n : s) {
      c.check(f.at(d).contains(n), "encoding", "no code for " + d + " " + n);
      int k = f.at(d).at(n);
      c.check(codes.insert(k).second, "encoding", fmt("code %d of %s is used twice", k, d.c_str()));
      c.check(b.at(d).contains(k) && b.at(d).at(k) == n, "encoding", fmt("code %d of %s does not lead back to ", k, d.c_str()) + n);
      c.count("entities_encoded");
    }
  }
}
static vector<Row> rows_of(const T_observations& o) {
  vector<Row> v;
  for (auto& [r, m] : o)
    for (auto& [items, val] : m) v.push_back({val, r, items});
  return v;
}
static void same_rows(Ctx& c, vector<Row> a, vector<Row> b, const string& key, const string& what) {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i < a.size() && i < b.size() && a[i] == b[i]) continue;
    c.fail(key, what + ": " + (i < a.size() ? rows_text({a[i]}) : "(none)") + " instead of " + (i < b.size() ? rows_text({b[i]}) : "(none)"));
  }
  c.count("rows_compared", a.size());
  c.count("oracle_checks");
}

static void data_case(Ctx& c, Opts o, int n = 0) {
  World w = make_world(c, o);
  Names names = gen_names(c, w, true);
  vector<Row> rows = gen_rows(c, w, names, n ? n : c.coin(0.1) ? 60 : c.in(1, 25));
  string schema = world_schema(c, w), text = rows_text(rows);
  if (c.coin(0.2) && !text.empty()) text.pop_back();
  write_text(c.tmp + "/d.schema", schema);
  write_text(c.tmp + "/d.obs", text);
  c.say(w.text() + " | " + text.substr(0, 300));
  if (rows.size() >= 2) c.sig(schema + text);
  Outcome out = in_child(c, [&] {
    T_schema s = load_schema(c.tmp + "/d.schema");
    load_observations(c.tmp + "/d.obs", s);
    return string();
  });
  c.check(out.ok(), "rows_rejected", "well-formed observations were not accepted (" + out.text + "): " + text);
  T_schema sch = load_schema(c.tmp + "/d.schema");
  T_observations obs = load_observations(c.tmp + "/d.obs", sch);
  // rows of each relation, in order
  map<string, vector<Row>> want;
  for (auto& r : rows) want[r.rel].push_back(r);
  c.check(obs.size() == want.size(), "rows", fmt("observations of %zu relations, %zu expected", obs.size(), want.size()));
  for (auto& [r, v] : want) {
    c.check(obs.contains(r), "rows", "no observations of " + r);
    vector<Row> got;
    for (auto& [items, val] : obs.at(r)) got.push_back({val, r, items});
    c.check(got == v, "rows", "observations of " + r + " are read as " + rows_text(got) + " instead of " + rows_text(v));
    c.count("rows_compared", v.size());
  }
  for (auto& r : w.rels) {
    bool flag = std::visit([](auto& t) { return t.is_observed; }, sch.at(r.name));
    c.check(flag == want.contains(r.name), "observed_flag", r.name + fmt(" is marked observed=%d", flag));
  }
  T_encoding enc = calculate_encoding(sch, obs);
  map<string, std::set<string>> ents;
  for (auto& r : w.rels)
    for (auto& d : r.doms) ents[d];
  for (auto& r : rows)
    for (size_t i = 0; i < r.items.size(); ++i) ents[w.rel(r.rel).doms[i]].insert(r.items[i]);
  check_encoding(c, enc, ents);
  World x = recode(c, w, names, enc);
  for (auto& r : x.rels)
    if (!r.noisy && w.leaf(r.name) && !want.contains(r.name)) r.observed = false;
  std::mt19937 prng(c.u());
  bool multi = c.coin();
  std::unique_ptr<HIRM> h;
  std::unique_ptr<IRM> irm;
  std::variant<IRM*, HIRM*> m;
  if (multi) h = std::make_unique<HIRM>(sch, &prng), m = h.get();
  else irm = std::make_unique<IRM>(sch), m = irm.get();
  // codes and back
  T_encoded_observations eo = encode_observations(obs, enc, m);
  vector<Row> back;
  for (auto& [r, v] : eo)
    for (auto& [items, val] : v) {
      Row row{val, r, {}};
      for (size_t i = 0; i < items.size(); ++i) row.items.push_back(std::get<1>(enc).at(w.rel(r).doms.at(i)).at(items[i]));
      back.push_back(row);
    }
  same_rows(c, back, rows, "encoded_rows", "after encoding and decoding");
  if (c.coin(0.5)) {
    write_observations(c.tmp + "/w.obs", eo, enc, m);
    T_schema s2 = load_schema(c.tmp + "/d.schema");
    same_rows(c, rows_of(load_observations(c.tmp + "/w.obs", s2)), rows, "written_rows", "after writing and reading");
  }
  incorporate_observations(&prng, m, enc, obs);
  auto find = [&](const string& n) { return std::visit([&](auto* p) { return p->get_relation(n); }, m); };
  adopt_latents(c, x, find, "loaded");
  if (multi) check_hirm(c, x, h.get(), "loaded");
  else check_irm(c, x, irm.get(), "loaded");
  c.count("observations_loaded", rows.size());
  // merged files
  if (c.coin(0.3)) {
    T_observations a, b;
    for (auto& [r, v] : obs)
      for (auto& e : v) (c.coin() ? a : b)[r].push_back(e);
    same_rows(c, rows_of(merge_observations(a, b)), rows, "merged_rows", "after merging two parts");
  }
}
FAMILY("C17", "observations", 2700, 20000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  o.base_first = c.coin();
  o.max_rels = c.in(1, 7);
  o.max_ents = c.coin(0.1) ? 30 : 6;
  data_case(c, o);
});
FAMILY("C17", "observations_large", 60, 600, [](Ctx& c) { data_case(c, large_opts(c), c.in(200, 2000)); }, 120);
FAMILY("C17", "observations_stacked", 1200, 8000, [](Ctx& c) {
  Opts o;
  o.kinds = {c.pick(vector<string>{"bernoulli", "normal", "stringcat", "categorical"})};
  o.apportion = true;
  o.base_first = false;
  o.max_rels = c.in(3, 8);
  data_case(c, o);
});
// Rows that are not well-formed are refused, whatever else the file holds.
FAMILY("C17", "observations_malformed", 750, 5000, [](Ctx& c) {
  Opts o;
  World w = make_world(c, o);
  Names names = gen_names(c, w, true);
  vector<Row> rows = gen_rows(c, w, names, c.in(1, 8));
  string how;
  Row bad = c.pick(rows);
  switch (c.in(0, 5)) {
    case 0: bad.items.pop_back(); how = "an item is missing"; break;
    case 1: bad.items.push_back("x"); how = "an item too many"; break;
    case 2: bad.rel += "q"; how = "unknown relation"; break;
    case 3: how = "the same observation twice"; break;
    case 4: bad.value += "9"; how = "another value for the same observation"; break;
    default: {
      const Rel& r = w.rel(bad.rel);
      static const vector<string> ks = {"bernoulli", "normal", "categorical", "skellam"};
      if (std::find(ks.begin(), ks.end(), r.kind) == ks.end()) return;
      std::erase(rows, bad);
      bad.value = c.pick(vector<string>{"", "x", "1x", "1 2", "--1", "0x", "1.5.5", "nan?"});
      how = "unreadable value '" + bad.value + "'";
    }
  }
  rows.insert(rows.begin() + c.in(0, rows.size()), bad);
  string schema = world_schema(c, w), text = rows_text(rows);
  write_text(c.tmp + "/d.schema", schema);
  write_text(c.tmp + "/d.obs", text);
  c.say(how);
  c.sig(schema + text);
  Outcome out = in_child(c, [&] {
    T_schema s = load_schema(c.tmp + "/d.schema");
    T_observations ob = load_observations(c.tmp + "/d.obs", s);
    std::mt19937 prng(1);
    HIRM h(s, &prng);
    incorporate_observations(&prng, &h, calculate_encoding(s, ob), ob);
    return string("loaded");
  });
  c.check(out.kind == 'R', "malformed_rows", how + ": " + out.text + " | " + schema + text);
});

// ------------------------------------------------------------------ tables
static DataFrame frame(const vector<string>& h, const Table& rows) {
  DataFrame d;
  d.columns = h;
  for (size_t j = 0; j < h.size(); ++j) {
    d.data[h[j]];
    for (auto& r : rows) d.data[h[j]].push_back(r[j]);
  }
  return d;
}
static void check_frame(Ctx& c, const DataFrame& d, const vector<string>& h, const Table& rows, const string& key) {
  c.check(d.columns == h, key + ":columns", fmt("%zu columns read, %zu expected, or other names", d.columns.size(), h.size()));
  c.check(d.data.size() == h.size(), key + ":columns", "data of other columns");
  c.check(d.num_rows() == rows.size(), key + ":rows", fmt("%zu rows read, %zu expected", d.num_rows(), rows.size()));
  for (size_t j = 0; j < h.size(); ++j) {
    auto& col = d.data.at(h[j]);
    c.check(col.size() == rows.size(), key + ":rows", fmt("column %s has %zu rows, %zu expected", h[j].c_str(), col.size(), rows.size()));
    for (size_t i = 0; i < rows.size(); ++i)
      c.check(col[i] == rows[i][j], key + ":cell", fmt("row %zu of column %s holds '%s' instead of '%s'", i, h[j].c_str(), col[i].c_str(), rows[i][j].c_str()));
  }
  c.count("cells_compared", rows.size() * h.size());
}
static void table_case(Ctx& c, bool special) {
  int k = c.coin(0.15) ? 1 : c.in(2, 7), n = c.in(special ? 1 : 0, 12);
  vector<string> h = header(c, k);
  Table rows;
  for (int i = 0; i < n; ++i) {
    rows.emplace_back();
    for (int j = 0; j < k; ++j) rows.back().push_back(cell(c, special && c.coin(0.4)));
    if (k == 1 && rows.back()[0].empty()) rows.back()[0] = "x";
  }
  string sg;
  for (auto& r : rows)
    for (auto& x : r) sg += x + ",";
  c.say(sg);
  if (n) c.sig(sg);
  DataFrame d = frame(h, rows);
  if (special) {
    // written and read back
    string p = c.tmp + "/special.csv";
    c.check(d.to_csv(p), "written_special", "the table was not written");
    Outcome o = in_child(c, [&] {
      DataFrame e = DataFrame::from_csv(p);
      return string(e.columns == d.columns && e.data == d.data ? "same" : "different");
    });
    c.check(o.kind != 'H' && o.kind != 'C', "csv_crash", o.text);
    c.check(o.ok() && o.text == "same", "written_special", "a table with commas or trailing blanks in its cells is read back otherwise");
    return;
  }
  std::ostringstream os;
  c.check(d.to_csv(os), "written", "the table was not written");
  std::istringstream is(os.str());
  check_frame(c, DataFrame::from_csv(is), h, rows, "written");
  string p = c.tmp + "/t.csv";
  if (c.coin(0.3)) {
    c.check(d.to_csv(p), "written", "the table was not written");
    check_frame(c, DataFrame::from_csv(p), h, rows, "written_file");
  }
  Table all = rows;
  all.insert(all.begin(), h);
  // a column of blanks is a blank line
  string text = csv_text(c, all, false);
  write_text(p, text);
  check_frame(c, DataFrame::from_csv(p), h, rows, "read");
  // names given, no header in the file
  std::istringstream is2(csv_text(c, rows, true));
  check_frame(c, DataFrame::from_csv(is2, h), h, rows, "headless");
  // malformed: too few or many cells in a row, the same column twice
  if (k < 2 || !n) return;
  Table bad = all;
  int i = c.in(0, bad.size() - 1);
  if (c.coin(0.2)) bad[0][c.in(0, k - 2)] = bad[0][k - 1];
  else if (c.coin()) bad[i].push_back(c.coin() ? "" : "x");
  else if (k > 2 || !bad[i][0].empty()) bad[i].pop_back();
  else return;
  std::set<string> cs(bad[0].begin(), bad[0].end());
  if (bad.size() == 2 && i == 0 && bad[0].size() == bad[1].size() && cs.size() == bad[0].size()) return;
  text = csv_text(c, bad, true);
  Outcome o = in_child(c, [&] {
    std::istringstream is(text);
    DataFrame::from_csv(is);
    return string("accepted");
  });
  c.check(o.kind == 'R', "malformed_table", "a malformed table: " + o.text + " | " + text);
}
FAMILY("C17", "tables", 2700, 20000, [](Ctx& c) { table_case(c, false); });
FAMILY("C17", "tables_special", 20, 200, [](Ctx& c) { table_case(c, true); });

// ---------------------------------------------- tables into the database
// All query relations hold exactly the cells of the rows.
static void check_query_data(Ctx& c, const GWorld& w, GenDB& g, const map<int, map<string, string>>& cells, const string& key) {
  map<string, size_t> n;
  for (auto& [row, m] : cells)
    for (auto& [f, v] : m) ++n[f];
  for (auto& [f, q] : w.s.query.fields)
    std::visit([&](auto rel) {
      c.check(rel->get_data().size() == n[f], key + ":cells", fmt("%s holds %zu cells, the table %zu", f.c_str(), rel->get_data().size(), n[f]));
      std::set<int> rows;
      for (auto& [it, v] : rel->get_data()) {
        int r = it.back();
        c.check(cells.contains(r) && cells.at(r).contains(f), key + ":invented", fmt("%s holds a value for row %d, which has none", f.c_str(), r));
        c.check(rows.insert(r).second, key + ":twice", fmt("%s holds row %d twice", f.c_str(), r));
        auto want = rel->from_string(cells.at(r).at(f));
        c.check(want == v, key + ":value", fmt("%s of row %d is ", f.c_str(), r) + show1(v) + " instead of " + cells.at(r).at(f));
        c.count("cells_compared");
      }
    }, g.hirm->get_relation(f));
}
static void load_table(Ctx& c, const GWorld& w, GenDB& g, std::mt19937* prng, int start, int n, map<int, map<string, string>>& cells, map<string, vector<string>>& pool) {
  vector<string> h;
  for (auto& [f, q] : w.s.query.fields) h.push_back(f);
  h.push_back("unused");  // also keeps rows of missing cells from being blank lines
  if (c.coin(0.3)) h.push_back("more,"), h.back().pop_back();
  std::shuffle(h.begin(), h.end(), c.rng);
  double miss = c.coin(0.4) ? 0 : c.coin() ? 0.2 : 0.7;
  Table t{h};
  for (int i = 0; i < n; ++i) {
    t.emplace_back();
    for (auto& col : h) {
      string v;
      if (w.s.query.fields.contains(col)) {
        if (!c.coin(miss)) {
          v = gen_cell_text(c, w, w.s.query.fields.at(col), pool);
          cells[start + i][col] = v;
        }
      } else v = cell(c, false);
      t.back().push_back(v);
    }
  }
  write_text(c.tmp + "/g.csv", csv_text(c, t, c.coin()));
  DataFrame df = DataFrame::from_csv(c.tmp + "/g.csv");
  c.check((int)df.num_rows() == n, "table_rows", fmt("%zu rows read, %d expected", df.num_rows(), n));
  if (start == 0 && c.coin()) incorporate_observations(prng, &g, df);
  else incorporate_observations(prng, &g, df, start);
}
FAMILY("C17", "table_cells", 1350, 9000, [](Ctx& c) {
  GOpts o;
  o.numeric_strings = o.categorical = c.coin(0.3);
  GWorld w = make_gworld(c, o);
  if (w.chains(w.order.back()).size() > 14 || w.s.query.fields.empty()) return;
  std::mt19937 prng(c.u());
  GenDB g(&prng, w.s, w.only_final, w.clean);
  map<int, map<string, string>> cells;
  map<string, vector<string>> pool;
  int n = c.in(1, 6);
  load_table(c, w, g, &prng, 0, n, cells, pool);
  string sg = w.text();
  for (auto& [r, m] : cells)
    for (auto& [f, v] : m) sg += f + v;
  c.say(sg);
  if (!cells.empty()) c.sig(sg);
  check_query_data(c, w, g, cells, "table");
  if (c.coin(0.4)) {
    int k = c.in(1, 3);
    load_table(c, w, g, &prng, n, k, cells, pool);
    n += k;
    check_query_data(c, w, g, cells, "second_table");
  }
  if (c.coin(0.5)) {
    // samples: one value per query field and row, held by the model
    int k = c.in(1, 4);
    DataFrame d = make_pclean_samples(k, n, &g, &prng);
    vector<string> h;
    for (auto& [f, q] : w.s.query.fields) h.push_back(f);
    c.check(d.columns == h, "sample_columns", "the columns of the samples are not the query fields");
    c.check((int)d.num_rows() == k, "sample_rows", fmt("%zu rows of samples, %d expected", d.num_rows(), k));
    Table rows(k);
    bool special = false;
    for (int i = 0; i < k; ++i)
      for (auto& f : h) {
        const string& v = d.data.at(f).at(i);
        cells[n + i][f] = v;
        rows[i].push_back(v);
        special |= v.find(',') != string::npos || (!v.empty() && isspace((unsigned char)v.back())) || (h.size() == 1 && v.empty());
      }
    check_query_data(c, w, g, cells, "samples");
    if (!special) {
      c.check(d.to_csv(c.tmp + "/s.csv"), "samples_written", "not written");
      check_frame(c, DataFrame::from_csv(c.tmp + "/s.csv"), h, rows, "samples_read");
    } else c.count("samples_with_commas");
  }
});
FAMILY("C17", "relation_samples", 1500, 10000, [](Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  World w = make_world(c, o);
  Names names = gen_names(c, w, true);
  vector<Row> rows = gen_rows(c, w, names, c.in(1, 15));
  write_text(c.tmp + "/d.schema", world_schema(c, w));
  write_text(c.tmp + "/d.obs", rows_text(rows));
  T_schema sch = load_schema(c.tmp + "/d.schema");
  T_observations obs = load_observations(c.tmp + "/d.obs", sch);
  T_encoding enc = calculate_encoding(sch, obs);
  std::mt19937 prng(c.u());
  HIRM h(sch, &prng);
  incorporate_observations(&prng, &h, enc, obs);
  string sg = w.text() + rows_text(rows);
  c.say(sg);
  c.sig(sg);
  for (auto& r : w.rels)  // sampling needs entities in every domain
    for (auto& d : r.doms) {
      bool any = false;
      for (auto& [t, irm] : h.irms) any |= irm->domains.contains(d) && !irm->domains.at(d)->items.empty();
      if (!any) return;
    }
  int n = c.in(1, 4);
  T_encoded_observations so = h.sample_and_incorporate(&prng, n);
  bool special = false;
  vector<Row> want;
  for (auto& [r, v] : so) {
    std::visit([&](auto rel) {
      for (auto& [it, val] : v) {
        auto f = rel->get_data().find(it);
        c.check(f != rel->get_data().end(), "sample_not_held", r + " does not hold its sample at " + show(it));
        c.check(f->second == rel->from_string(val), "sample_value", r + " holds " + show1(f->second) + " for the sample " + val);
        c.count("samples_compared");
      }
    }, h.get_relation(r));
    for (auto& [it, val] : v) {
      Row row{val, r, {}};
      for (size_t i = 0; i < it.size(); ++i) {
        const string& d = w.rel(r).doms.at(i);
        auto& back = std::get<1>(enc).at(d);
        row.items.push_back(back.contains(it[i]) ? back.at(it[i]) : fmt("new_%s_%d", d.c_str(), it[i]));
      }
      want.push_back(row);
      special |= val.find(',') != string::npos;
    }
  }
  // names such as new_Da_1 may already belong to an entity
  for (auto& [d, v] : names)
    for (auto& x : v)
      if (x.starts_with("new_")) return;
  write_observations(c.tmp + "/x.samples", so, enc, &h);
  if (special) {
    c.count("samples_with_commas");
    Outcome out = in_child(c, [&] {
      T_schema s2 = load_schema(c.tmp + "/d.schema");
      auto got = rows_of(load_observations(c.tmp + "/x.samples", s2));
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      return string(got == want ? "same" : "different");
    });
    c.check(out.ok() && out.text == "same", "written_special", "sampled strings with commas are read back otherwise");
    return;
  }
  T_schema s2 = load_schema(c.tmp + "/d.schema");
  same_rows(c, rows_of(load_observations(c.tmp + "/x.samples", s2)), want, "samples_read", "samples written and read");
});

// ------------------------------------------------------------ saved models
// What the live model says.
static Parts live_parts(const IRM& irm, const std::function<string(const string&, int)>& name) {
  Parts p;
  for (auto& [d, dom] : irm.domains)
    for (auto& [t, items] : dom->crp.tables)
      for (int i : items) p[d][t].insert(name(d, i));
  return p;
}
static Saved live(const HIRM& h, const std::function<string(const string&, int)>& name) {
  Saved s;
  for (auto& [t, rs] : h.crp.tables)
    for (int r : rs) s.relations[t].insert(h.code_to_relation.at(r));
  for (auto& [t, irm] : h.irms) s.views[t] = live_parts(*irm, name);
  return s;
}
static string text_of(const Parts& p) {
  string s;
  for (auto& [d, m] : p)
    for (auto& [t, es] : m) {
      s += d + fmt(" %d:", t);
      for (auto& e : es) s += " " + e;
      s += "; ";
    }
  return s;
}
static string text_of(const Saved& x) {
  string s;
  for (auto& [t, rs] : x.relations) {
    s += fmt("view %d:", t);
    for (auto& r : rs) s += " " + r;
    s += "; ";
  }
  for (auto& [t, p] : x.views) s += fmt("[%d] ", t) + text_of(p);
  return s;
}
// A partition of exactly these names, whatever the cluster numbers.
static std::set<std::set<string>> blocks(const map<int, std::set<string>>& m) {
  std::set<std::set<string>> s;
  for (auto& [t, x] : m) s.insert(x);
  return s;
}
static void same_clustering(Ctx& c, const Parts& a, const Parts& b, const string& key) {
  for (auto& [d, m] : b) c.check(a.contains(d), key, "no clusters of domain " + d);
  for (auto& [d, m] : a) {
    c.check(b.contains(d) && blocks(m) == blocks(b.at(d)), key, text_of(a) + " instead of " + text_of(b));
    c.count("partitions_compared");
  }
}
static void same_clustering(Ctx& c, const Saved& a, const Saved& b, const string& key) {
  c.check(blocks(a.relations) == blocks(b.relations), key, text_of(a) + " instead of " + text_of(b));
  for (auto& [t, rs] : a.relations)
    for (auto& [u, qs] : b.relations)
      if (rs == qs) {
        c.check(a.views.contains(t) && b.views.contains(u), key, fmt("no view %d", t));
        same_clustering(c, a.views.at(t), b.views.at(u), key);
      }
}
// The clean values of relations without observations are drawn anew on loading.
static void save_case(Ctx& c, const Opts& o, bool multi, bool spaces, int n = 0) {
  World w = make_world(c, o);
  Names names = gen_names(c, w, spaces);
  vector<Row> rows = gen_rows(c, w, names, n ? n : c.coin(0.1) ? 60 : c.in(1, 25));
  write_text(c.tmp + "/d.schema", world_schema(c, w));
  write_text(c.tmp + "/d.obs", rows_text(rows));
  string sg = w.text() + rows_text(rows);
  c.say(sg);
  if (rows.size() >= 2) c.sig(sg);
  T_schema sch = load_schema(c.tmp + "/d.schema");
  T_observations obs = load_observations(c.tmp + "/d.obs", sch);
  T_encoding enc = calculate_encoding(sch, obs);
  if (!spaces && c.coin(0.3)) {
    // an encoding that knows more entities than the data
    for (auto& [d, m] : std::get<0>(enc))
      for (int k = 0; k < 2; ++k) {
        string n = fmt("other%d", k);
        int code = m.size() + 3 * k;
        while (std::get<1>(enc)[d].contains(code)) ++code;
        m[n] = code;
        std::get<1>(enc)[d][code] = n;
      }
  }
  auto name = [&](const string& d, int i) { return std::get<1>(enc).at(d).at(i); };
  std::mt19937 prng(c.u());
  World x = recode(c, w, names, enc);
  string path = c.tmp + "/m.save", path2 = c.tmp + "/m2.save";
  map<string, std::set<string>> ents;
  for (auto& r : rows)
    for (size_t i = 0; i < r.items.size(); ++i) ents[w.rel(r.rel).doms[i]].insert(r.items[i]);
  if (multi) {
    HIRM h(sch, &prng);
    incorporate_observations(&prng, &h, enc, obs);
    int iters = c.in(0, 3);
    if (iters) inference_hirm(&prng, &h, iters, 0, false);
    c.count("inference_steps", iters);
    c.count("views_saved", h.irms.size());
    Saved now = live(h, name);
    to_txt(path, h, enc);
    Saved file;
    if (!spaces) {
      file = parse_hirm(c, read_text(path));
      c.check(file == now, "saved_differs", "saved as " + text_of(file) + " instead of " + text_of(now));
      std::multiset<string> rels;
      for (auto& [t, rs] : file.relations) rels.insert(rs.begin(), rs.end());
      c.check(rels.size() == w.rels.size(), "saved_relations", fmt("%zu relations are listed, %zu exist", rels.size(), w.rels.size()));
      for (auto& r : w.rels) c.check(rels.count(r.name) == 1, "saved_relations", r.name + " is not listed once");
      for (auto& [t, p] : file.views)
        for (auto& [d, m] : p) {
          std::set<string> want;
          for (auto& r : x.rels) {
            if (!file.relations.at(t).contains(r.name) || !x.obs.contains(r.name)) continue;
            for (auto& [it, v] : x.obs.at(r.name))
              for (size_t i = 0; i < it.size(); ++i)
                if (r.doms[i] == d) want.insert(name(d, it[i]));
          }
          std::set<string> got;
          for (auto& [k, es] : m)
            for (auto& e : es) c.check(got.insert(e).second, "saved_entity_twice", e + " of " + d + " is in two clusters");
          c.check(got == want, "saved_entities", "the entities listed for " + d + fmt(" in view %d are not those of its data", t));
          c.count("entities_saved", got.size());
        }
    }
    int how = c.in(0, 2);
    if (spaces) {
      Outcome out = in_child(c, [&] {
        HIRM l({}, &prng);
        from_txt(&prng, &l, c.tmp + "/d.schema", c.tmp + "/d.obs", path, &enc);
        return string(text_of(live(l, name)) == text_of(now) ? "same" : "different");
      });
      c.check(out.ok() && out.text == "same", "names_with_blanks", "a model whose entity names hold blanks does not load back: " + out.text);
      return;
    }
    HIRM l({}, &prng);
    T_encoding plain = calculate_encoding(sch, obs);
    if (how == 0 && std::get<0>(plain) == std::get<0>(enc)) from_txt(&prng, &l, c.tmp + "/d.schema", c.tmp + "/d.obs", path);
    else from_txt(&prng, &l, c.tmp + "/d.schema", c.tmp + "/d.obs", path, &enc);
    same_clustering(c, live(l, name), now, "loaded_differs");
    auto find = [&](const string& n) { return l.get_relation(n); };
    adopt_latents(c, x, find, "loaded");
    check_hirm(c, x, &l, "loaded");
    to_txt(path2, l, enc);
    same_clustering(c, parse_hirm(c, read_text(path2)), file, "saved_again_differs");
    // and inference goes on from there
    if (c.coin(0.3)) {
      inference_hirm(&prng, &l, 1, 0, false);
      adopt_latents(c, x, find, "continued");
      check_hirm(c, x, &l, "continued");
    }
  } else {
    IRM h(sch);
    incorporate_observations(&prng, &h, enc, obs);
    int iters = c.in(0, 3);
    if (iters) inference_irm(&prng, &h, iters, 0, false);
    c.count("inference_steps", iters);
    Parts now = live_parts(h, name);
    to_txt(path, h, enc);
    if (spaces) {
      Outcome out = in_child(c, [&] {
        IRM l({});
        from_txt(&prng, &l, c.tmp + "/d.schema", c.tmp + "/d.obs", path, &enc);
        return string(text_of(live_parts(l, name)) == text_of(now) ? "same" : "different");
      });
      c.check(out.ok() && out.text == "same", "names_with_blanks", "a model whose entity names hold blanks does not load back: " + out.text);
      return;
    }
    Parts file = parse_irm(c, read_text(path));
    c.check(file == now, "saved_differs", "saved as " + text_of(file) + " instead of " + text_of(now));
    for (auto& [d, m] : file) {
      std::set<string> got;
      for (auto& [k, es] : m)
        for (auto& e : es) c.check(got.insert(e).second, "saved_entity_twice", e + " of " + d + " is in two clusters");
      c.check(got == ents[d], "saved_entities", "the entities listed for " + d + " are not those of the data");
      c.count("entities_saved", got.size());
    }
    IRM l({});
    from_txt(&prng, &l, c.tmp + "/d.schema", c.tmp + "/d.obs", path, &enc);
    same_clustering(c, live_parts(l, name), now, "loaded_differs");
    auto find = [&](const string& n) { return l.relations.at(n); };
    adopt_latents(c, x, find, "loaded");
    check_irm(c, x, &l, "loaded");
    to_txt(path2, l, enc);
    same_clustering(c, parse_irm(c, read_text(path2)), file, "saved_again_differs");
    if (c.coin(0.3)) {
      inference_irm(&prng, &l, 1, 0, false);
      adopt_latents(c, x, find, "continued");
      check_irm(c, x, &l, "continued");
    }
  }
}
static Opts save_opts(Ctx& c) {
  Opts o;
  o.theta = c.coin(0.2);
  o.base_first = c.coin();
  o.max_rels = c.in(1, 7);
  return o;
}
// The same promise from the files on: what the data file says stays as it is
// through inference, for clean relations and for noisy ones in between.
static void loaded_case(Ctx& c, bool multi, int n = 0) {
  Opts o = n ? large_opts(c) : save_opts(c);
  if (!n && c.coin(0.6)) {
    o.kinds = {"bernoulli", "normal", "stringcat"};
    o.max_rels = c.in(3, 8);
    o.max_arity = 2;
  }
  World w = make_world(c, o);
  Names names = gen_names(c, w, false);
  vector<Row> rows = gen_rows(c, w, names, n ? n : c.in(2, 25));
  write_text(c.tmp + "/d.schema", world_schema(c, w));
  write_text(c.tmp + "/d.obs", rows_text(rows));
  string sg = w.text() + rows_text(rows);
  c.say(sg);
  if (rows.size() >= 2) c.sig(sg);
  T_schema sch = load_schema(c.tmp + "/d.schema");
  T_observations obs = load_observations(c.tmp + "/d.obs", sch);
  T_encoding enc = calculate_encoding(sch, obs);
  std::mt19937 prng(c.u());
  World x = recode(c, w, names, enc);
  auto run = [&](auto& m, auto find, auto infer, auto check) {
    incorporate_observations(&prng, &m, enc, obs);
    for (int i = c.in(1, 3); i > 0; --i) {
      infer(m);
      c.count("inference_rounds");
      for (auto& r : x.rels) {
        if (!r.observed || !x.obs.contains(r.name)) continue;
        std::visit([&](auto rel) {
          for (auto& [it, v] : x.obs.at(r.name)) {
            auto f = rel->get_data().find(it);
            c.check(f != rel->get_data().end(), "loaded:lost", r.name + " lost its observation at " + show(it));
            c.check(Val(f->second) == v, "loaded:changed",
                    r.name + " at " + show(it) + " was observed as " + show(v) + " and is now " + show(Val(f->second)));
            c.count("loaded_cells_compared");
            if (!w.leaf(r.name)) c.count(r.noisy ? "observed_noisy_bases" : "observed_clean_bases");
          }
        }, find(r.name));
      }
      adopt_latents(c, x, find, "loaded");
      check(m);
    }
  };
  if (multi) {
    HIRM h(sch, &prng);
    run(h, [&](const string& n) { return h.get_relation(n); }, [&](HIRM& m) { inference_hirm(&prng, &m, c.in(1, 2), 0, false); },
        [&](HIRM& m) { check_hirm(c, x, &m, "loaded"); });
  } else {
    IRM h(sch);
    run(h, [&](const string& n) { return h.relations.at(n); }, [&](IRM& m) { inference_irm(&prng, &m, c.in(1, 2), 0, false); },
        [&](IRM& m) { check_irm(c, x, &m, "loaded"); });
  }
}
FAMILY("C11", "loaded_data_kept", 700, 6000, [](Ctx& c) { loaded_case(c, true); });
FAMILY("C11", "loaded_data_kept_irm", 400, 3000, [](Ctx& c) { loaded_case(c, false); });
FAMILY("C11", "loaded_data_kept_large", 40, 500, [](Ctx& c) { loaded_case(c, c.coin(), c.in(60, 300)); }, 120);
FAMILY("C18", "saved_model", 3200, 20000, [](Ctx& c) { save_case(c, save_opts(c), true, false); });
FAMILY("C18", "saved_model_noisy", 1600, 10000, [](Ctx& c) {
  Opts o = save_opts(c);
  o.kinds = {"bernoulli", "normal", "stringcat"};
  o.max_rels = c.in(3, 9);
  o.max_arity = 2;
  save_case(c, o, true, false);
});
FAMILY("C18", "saved_view", 2000, 10000, [](Ctx& c) { save_case(c, save_opts(c), false, false); });
// Clusters of hundreds of entities.
FAMILY("C18", "saved_large", 50, 600, [](Ctx& c) {
  Opts o = large_opts(c);
  o.max_rels = c.in(1, 3);
  o.max_ents = c.in(200, 2500);
  o.min_ents = o.max_ents / 2;
  o.max_arity = c.coin(0.7) ? 1 : 2;
  save_case(c, o, c.coin(), false, c.in(200, 3000));
}, 120);
FAMILY("C18", "names_with_blanks", 20, 100, [](Ctx& c) { save_case(c, save_opts(c), c.coin(), true); });
// The data-cleaning program's output lists rows and entities as "class:number".
FAMILY("C18", "saved_database", 1200, 6000, [](Ctx& c) {
  GOpts o;
  o.strings = false;
  GWorld w = make_gworld(c, o);
  if (w.chains(w.order.back()).size() > 14 || w.s.query.fields.empty()) return;
  std::mt19937 prng(c.u());
  GenDB g(&prng, w.s, w.only_final, w.clean);
  map<int, map<string, string>> cells;
  map<string, vector<string>> pool;
  load_table(c, w, g, &prng, 0, c.in(1, 6), cells, pool);
  if (c.coin(0.7)) inference_gendb(&prng, &g, c.in(1, 2), c.in(0, 2), 0, false);
  string sg = w.text();
  for (auto& [r, m] : cells)
    for (auto& [f, v] : m) sg += f + v;
  c.say(sg);
  c.sig(sg);
  T_encoding enc = make_dummy_encoding_from_gendb(g);
  string path = c.tmp + "/g.save";
  to_txt(path, *g.hirm, enc);
  Saved file = parse_hirm(c, read_text(path));
  Saved now = live(*g.hirm, [](const string& d, int i) { return d + ":" + std::to_string(i); });
  c.check(file == now, "saved_differs", "saved as " + text_of(file) + " instead of " + text_of(now));
  c.count("views_saved", file.views.size());
});
