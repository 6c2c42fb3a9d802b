// Random class schemas for the data-cleaning monitors.
#pragma once
#include "model.hh"
#include "gendb.hh"

using Path = vector<string>;

// --------------------------------------------------------------- schemas
struct GOpts {
  int max_classes = 5, max_refs = 2, max_attrs = 3, max_fields = 6;
  bool strings = true;     // string attributes (their noise model is slow)
  double p_strings = 0.3;
  bool numeric_strings = false;
  bool categorical = false;
  bool record_attrs = true;
  bool unqueried = true;   // attributes no query mentions
  int only_final = -1, clean = -1;
  bool chain = false;      // each class refers to the one before
};

struct GWorld {
  PCleanSchema s;
  bool only_final, clean;
  vector<string> order;  // classes, referenced before referring
  std::set<string> reach;

  const PCleanClass& cls(const string& n) const { return s.classes.at(n); }
  map<string, string> refs(const string& n) const {
    map<string, string> m;
    for (auto& [f, v] : cls(n).vars)
      if (auto* cv = std::get_if<ClassVar>(&v.spec)) m[f] = cv->class_name;
    return m;
  }
  vector<string> attrs(const string& n) const {
    vector<string> m;
    for (auto& [f, v] : cls(n).vars)
      if (std::holds_alternative<ScalarVar>(v.spec)) m.push_back(f);
    return m;
  }
  const ScalarVar& attr(const string& n, const string& a) const { return std::get<ScalarVar>(cls(n).vars.at(a).spec); }
  // All chains of reference fields that start at class n, the empty one included.
  vector<Path> chains(const string& n) const {
    vector<Path> out{{}};
    for (auto& [f, r] : refs(n))
      for (auto p : chains(r)) {
        p.insert(p.begin(), f);
        out.push_back(p);
      }
    return out;
  }
  string at(string n, const Path& p) const {
    for (auto& f : p) n = refs(n).at(f);
    return n;
  }
  string text() const {
    string t;
    for (auto& n : order) {
      t += "class " + n + "{";
      for (auto& [f, v] : cls(n).vars) {
        t += f + "~" + (std::holds_alternative<ClassVar>(v.spec) ? std::get<ClassVar>(v.spec).class_name : std::get<ScalarVar>(v.spec).joint_name) + " ";
      }
      t += "} ";
    }
    t += "observe ";
    for (auto& [n, f] : s.query.fields) {
      for (auto& x : f.class_path) t += x + ".";
      t.back() = ' ';
      t += "as " + n + ", ";
    }
    t += "from " + s.query.record_class + fmt(" only_final=%d clean=%d", only_final, clean);
    return t;
  }
};

inline GWorld make_gworld(Ctx& c, const GOpts& o) {
  GWorld w;
  w.only_final = o.only_final < 0 ? c.coin(0.35) : o.only_final;
  w.clean = o.clean < 0 ? c.coin(0.5) : o.clean;
  vector<string> names = {"Ape", "Bee", "Cow", "Dog", "Eel", "Fox", "Gnu"};
  std::shuffle(names.begin(), names.end(), c.rng);
  int n = o.chain ? c.in(3, o.max_classes) : c.coin(0.1) ? 1 : c.in(2, o.max_classes);
  for (int i = 0; i < n; ++i) {
    PCleanClass k;
    k.name = names[i];
    bool rec = i == n - 1;
    vector<string> pool = {"a", "b", "c", "d", "x", "y", "z", "p", "q"};
    std::shuffle(pool.begin(), pool.end(), c.rng);
    auto fresh = [&] { string f = pool.back(); pool.pop_back(); return f; };
    if (i) {
      int r = rec || o.chain ? c.in(1, o.max_refs) : c.in(0, o.max_refs);
      for (int j = 0; j < r; ++j) {
        PCleanVariable v;
        v.name = fresh();
        ClassVar cv;
        cv.class_name = (o.chain && !j) || c.coin(0.5) ? names[i - 1] : names[c.in(0, i - 1)];
        v.spec = cv;
        k.vars[v.name] = v;
      }
    }
    int na = rec ? (o.record_attrs ? c.in(n == 1 ? 1 : 0, 2) : 0) : c.in(i == 0 ? 1 : 0, o.max_attrs);
    for (int j = 0; j < na; ++j) {
      PCleanVariable v;
      v.name = fresh();
      ScalarVar sv;
      vector<string> kinds = {"bool", "bool", "real"};
      if (o.strings && c.coin(o.p_strings)) kinds = {"string", "stringcat", "typo_nat"};
      if (o.numeric_strings && c.coin(0.2)) kinds = {"typo_int", "typo_real"};
      if (o.categorical && c.coin(0.2)) kinds = {"categorical"};
      sv.joint_name = c.pick(kinds);
      if (sv.joint_name == "categorical") sv.params["k"] = std::to_string(c.in(2, 4));
      if (sv.joint_name == "stringcat") sv.params["strings"] = "ab abc bd cc";
      v.spec = sv;
      k.vars[v.name] = v;
    }
    w.s.classes[k.name] = k;
    w.order.push_back(k.name);
  }
  w.s.query.record_class = w.order.back();
  // queries
  vector<Path> paths;
  for (auto& p : w.chains(w.order.back())) {
    w.reach.insert(w.at(w.order.back(), p));
    for (auto& a : w.attrs(w.at(w.order.back(), p))) {
      paths.push_back(p);
      paths.back().push_back(a);
    }
  }
  std::shuffle(paths.begin(), paths.end(), c.rng);
  std::set<string> seen;
  int nf = std::min<int>(paths.size(), o.unqueried ? c.in(1, o.max_fields) : 100);
  for (int i = 0; i < nf; ++i) {
    QueryField f;
    f.class_path = paths[i];
    string base = i % 2 ? "Q" : "aq";
    f.name = base + std::to_string(c.in(0, 9)) + "_" + std::to_string(i);
    w.s.query.fields[f.name] = f;
    // occasionally the same (latent) attribute under two names
    if (paths[i].size() > 1 && c.coin(0.08)) {
      f.name = "Z" + std::to_string(i);
      w.s.query.fields[f.name] = f;
    }
  }
  return w;
}
