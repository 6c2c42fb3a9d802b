// Random input files for the programs, in text form.
#pragma once
#include "gworld.hh"
#include "fork.hh"

// ------------------------------------------------------------------- tokens
struct Tok {
  char t;  // 'i'dentifier, 'n'umber, 's'tring, 'y' symbol
  string v;
  bool operator==(const Tok&) const = default;
};
using Line = vector<Tok>;
inline Tok I(const string& v) { return {'i', v}; }
inline Tok Y(const string& v) { return {'y', v}; }
inline bool is(const Line& l, size_t i, char t, const string& v = "") { return i < l.size() && l[i].t == t && (v.empty() || l[i].v == v); }

inline string ident(Ctx& c, bool upper = false) {
  static const vector<string> odd = {"_", "class", "observe", "as", "x1", "R2D2", "a_b_c", "k", "strings", "bigram", "_0", "Zz", "isnt", "e5"};
  if (!upper && c.coin(0.15)) return c.pick(odd);
  string s;
  const string first = upper ? "ABCXYZ" : "abcxyzABXYZ_", rest = "abcxyzABC_0189";
  s += first[c.in(0, first.size() - 1)];
  for (long n = c.in(0, 6); n > 0; --n) s += rest[c.in(0, rest.size() - 1)];
  return s;
}
inline string number(Ctx& c) {
  switch (c.in(0, 3)) {
    case 0: return std::to_string(c.in(0, 12));
    case 1: return std::to_string(c.in(0, 99)) + "." + std::to_string(c.in(0, 99));
    case 2: return std::to_string(c.in(0, 999)) + "_" + std::to_string(c.in(0, 9));
    default: return std::to_string(c.in(0, 1000000));
  }
}
inline string quoted_text(Ctx& c) {
  static const vector<string> odd = {"", " ", "#", "a#b", "it's", "say \"x\"", "~()[]", "a,b", "\xc3\xa9t\xc3\xa9", "class", "\t", "-1", "(", ")", "x=y"};
  if (c.coin(0.4)) return c.pick(odd);
  string s;
  for (long n = c.in(0, 8); n > 0; --n) s += (char)c.in(' ', '~');
  if (s.find('"') != string::npos)
    s.erase(std::remove(s.begin(), s.end(), '\''), s.end());
  return s;
}
inline Tok any_tok(Ctx& c) {
  switch (c.in(0, 3)) {
    case 0: return {'i', ident(c)};
    case 1: return {'n', number(c)};
    case 2: return {'s', quoted_text(c)};
    default: {
      static const string sy = "~()[]{}<>.,:;=+*-/";
      return {'y', string(1, sy[c.in(0, sy.size() - 1)])};
    }
  }
}
inline string show(const Line& l) {
  string s;
  for (auto& t : l) s += (s.empty() ? "" : " ") + (t.t == 's' ? "\"" + t.v + "\"" : t.v);
  return s;
}

struct Format {
  bool crlf, tight, plain;
};
inline string blanks(Ctx& c, long lo, long hi) {
  string s;
  for (long n = c.in(lo, hi); n > 0; --n) s += c.coin(0.8) ? ' ' : '\t';
  return s;
}
inline string comment(Ctx& c) {
  static const vector<string> cs = {"#", "# note", "#a ~ bernoulli(D)", "# \"unclosed", "# class X", "## 'x' ~", "#\xc3\xa9 $%^&!"};
  return c.pick(cs);
}
inline string render(Ctx& c, const Line& l, const Format& f) {
  string s = f.plain ? "" : blanks(c, 0, 4);
  for (size_t i = 0; i < l.size(); ++i) {
    if (i) {
      auto wordy = [](const Tok& t) { return t.t == 'i' || t.t == 'n'; };
      bool need = wordy(l[i - 1]) && wordy(l[i]);
      // a dot would continue a number
      if (l[i - 1].t == 'n' && l[i].v == ".") need = true;
      if (f.plain) s += " ";
      else s += blanks(c, need ? 1 : 0, f.tight ? (need ? 1 : 0) : 3);
    }
    if (l[i].t == 's') {
      char q = l[i].v.find('"') != string::npos ? '\'' : l[i].v.find('\'') != string::npos ? '"' : c.coin() ? '"' : '\'';
      s += q + l[i].v + q;
    } else {
      s += l[i].v;
    }
  }
  if (!f.plain) {
    s += blanks(c, 0, 2);
    if (c.coin(0.2)) s += comment(c);
  }
  if (f.crlf) s += "\r";
  return s + "\n";
}

struct Decl {
  string name, dist, base;
  vector<std::pair<string, Tok>> params;
  vector<string> doms;
};
inline Line decl_line(const Decl& d) {
  Line l{I(d.name), Y("~"), I(d.dist)};
  for (size_t i = 0; i < d.params.size(); ++i) {
    l.push_back(Y(i ? "," : "["));
    l.push_back(I(d.params[i].first));
    l.push_back(Y("="));
    l.push_back(d.params[i].second);
  }
  if (!d.params.empty()) l.push_back(Y("]"));
  l.push_back(Y("("));
  if (!d.base.empty()) l.push_back(I(d.base)), l.push_back(Y(";"));
  for (size_t i = 0; i < d.doms.size(); ++i) {
    if (i) l.push_back(Y(","));
    l.push_back(I(d.doms[i]));
  }
  l.push_back(Y(")"));
  return l;
}
inline void filler(Ctx& c, string& text, const Format& f) {
  if (f.plain) return;
  while (c.coin(0.25)) {
    int k = c.in(0, 2);
    text += (k == 0 ? "" : k == 1 ? blanks(c, 1, 5) : blanks(c, 0, 3) + comment(c)) + (f.crlf ? "\r\n" : "\n");
  }
}
inline string decls_file(Ctx& c, const vector<Line>& ls, const Format& f) {
  string t;
  for (auto& l : ls) {
    filler(c, t, f);
    t += render(c, l, f);
  }
  filler(c, t, f);
  if (!f.plain && c.coin(0.2) && !t.empty()) t.pop_back();
  return t;
}
// ------------------------------------------------------------------- data
inline string entity_name(Ctx& c, bool spaces) {
  static const vector<string> odd = {"0", "-1", "a.b", "#x", "\"q\"", "it's", "\xc3\xa9", "1e5", "irm=0", "new_Da_1", "~", "Da", "nan", "x=y;z"};
  if (c.coin(0.2)) return c.pick(odd);
  string s;
  for (long n = c.in(1, 6); n > 0; --n) {
    char ch = spaces && c.coin(0.2) ? ' ' : c.in('!', '~');
    s += ch == ',' ? '_' : ch;
  }
  return s;
}
using Names = map<string, vector<string>>;  // domain -> entity id -> name
inline Names gen_names(Ctx& c, const World& w, bool spaces) {
  Names n;
  for (auto& [d, k] : w.ents) {
    std::set<string> used;
    while ((int)n[d].size() < k) {
      string s = entity_name(c, spaces);
      if (used.insert(s).second) n[d].push_back(s);
    }
  }
  return n;
}
inline string world_schema(Ctx& c, const World& w) {
  vector<Line> ls;
  for (auto& r : w.rels) {
    Decl d;
    d.name = r.name;
    d.dist = r.noisy ? r.em : r.kind;
    d.base = r.base;
    d.doms = r.doms;
    if (d.dist == "categorical" || d.dist == "sometimes_categorical") d.params.push_back({"k", {'n', std::to_string(r.k)}});
    if (d.dist == "stringcat") {
      string s;
      for (auto& x : r.strs) s += (s.empty() ? "" : " ") + x;
      d.params.push_back({"strings", {'s', s}});
    }
    ls.push_back(decl_line(d));
  }
  std::shuffle(ls.begin(), ls.end(), c.rng);
  return decls_file(c, ls, Format{false, false, true});
}
inline string val_text(Ctx& c, Val& v) {
  if (auto* b = std::get_if<bool>(&v)) return *b ? "1" : "0";
  if (auto* i = std::get_if<int>(&v)) return std::to_string(*i);
  if (auto* d = std::get_if<double>(&v)) {
    string s = fmt(c.coin() ? "%.17g" : c.coin() ? "%.3f" : "%.2e", *d);
    *d = strtod(s.c_str(), nullptr);
    return s;
  }
  return std::get<string>(v);
}
struct Row {
  string value, rel;
  vector<string> items;
  auto operator<=>(const Row&) const = default;
};
inline string rows_text(const vector<Row>& rows) {
  string t;
  for (auto& r : rows) {
    t += r.value + "," + r.rel;
    for (auto& i : r.items) t += "," + i;
    t += "\n";
  }
  return t;
}
// Random data for the world (ids), and the rows that state it.
inline vector<Row> gen_rows(Ctx& c, World& w, const Names& names, int n, bool leaves_only_full = true) {
  vector<string> can;
  for (auto& r : w.rels)
    if (r.observed) can.push_back(r.name);
  vector<std::pair<string, T_items>> todo;
  for (auto& r : w.rels)
    if (r.noisy && w.leaf(r.name)) todo.push_back({r.name, rand_items(c, w, r)});  // these must be observed
  for (int i = 0; i < n; ++i) {
    const Rel& r = w.rel(c.pick(can));
    todo.push_back({r.name, rand_items(c, w, r)});
  }
  for (auto& [r, it] : todo) plan_add(c, w, r, it);
  vector<Row> rows;
  for (auto& r : w.rels) {
    if (!r.observed || !w.obs.contains(r.name)) continue;
    for (auto& [it, v] : w.obs.at(r.name)) {
      Row row{val_text(c, v), r.name, {}};
      for (size_t i = 0; i < it.size(); ++i) row.items.push_back(names.at(r.doms[i]).at(it[i]));
      rows.push_back(row);
    }
  }
  std::shuffle(rows.begin(), rows.end(), c.rng);
  return rows;
}
using Table = vector<vector<string>>;
inline string cell(Ctx& c, bool special) {
  if (c.coin(0.15)) return "";
  static const vector<string> odd = {"0", "\"x\"", "a b", " lead", "#", "\xc3\xa9", "'", "~", "NA", "1e9", ";", "a\tb"};
  if (special) {
    static const vector<string> sp = {"a,b", ",", "x ", " ", "\t"};
    return c.pick(sp);
  }
  if (c.coin(0.2)) return c.pick(odd);
  string s;
  for (long n = c.in(1, 6); n > 0; --n) {
    char ch = c.in(' ', '~');
    s += ch == ',' ? ';' : ch;
  }
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
inline vector<string> header(Ctx& c, int k) {
  vector<string> h;
  std::set<string> seen;
  while ((int)h.size() < k) {
    string s = c.coin(0.05) ? "" : cell(c, false);
    if ((k == 1 && s.empty()) || !seen.insert(s).second) continue;
    h.push_back(s);
  }
  return h;
}
inline string csv_text(Ctx& c, const Table& t, bool plain) {
  string s;
  bool crlf = !plain && c.coin(0.3);
  for (auto& row : t) {
    while (!plain && c.coin(0.08)) s += crlf ? "\r\n" : "\n";
    for (size_t i = 0; i < row.size(); ++i) s += (i ? "," : "") + row[i] + (plain || row.size() == 1 ? "" : blanks(c, 0, c.coin(0.1) ? 2 : 0));
    s += crlf ? "\r\n" : "\n";
  }
  if (!plain && c.coin(0.2)) s.pop_back();
  return s;
}
inline string gen_cell_text(Ctx& c, const GWorld& w, const QueryField& f, map<string, vector<string>>& pool) {
  auto& p = pool[f.name];
  if (!p.empty() && c.coin(0.4)) return c.pick(p);
  string k = w.at(w.s.query.record_class, Path(f.class_path.begin(), f.class_path.end() - 1));
  const ScalarVar& sv = w.attr(k, f.class_path.back());
  bool noisy = f.class_path.size() > 1 || !w.clean;
  const string& j = sv.joint_name;
  string s;
  if (j == "bool") s = c.coin() ? "1" : "0";
  else if (j == "categorical") s = std::to_string(c.in(0, atoi(sv.params.at("k").c_str()) - 1));
  else if (j == "real") s = fmt(c.coin() ? "%.3f" : "%.17g", 2 * c.normal());
  else if (j == "stringcat") s = c.pick(vector<string>{"ab", "abc", "bd", "cc"});
  else if (j == "typo_nat") s = fmt("%ld", c.in(0, 999));
  else if (j == "typo_int") s = fmt("%ld", c.in(-9, 9));
  else if (j == "typo_real") s = fmt("%.2f", c.normal());
  else s = rand_word(c, 'a', 'd', 4) + "e";
  if (noisy && !std::set<string>{"bool", "categorical", "real"}.contains(j) && c.coin(0.3)) s = (c.coin() ? " " : "") + s + c.pick(vector<string>{"z", "!", " x", "\"", "#"});
  p.push_back(s);
  return s;
}
// ------------------------------------------------------------ saved models
using Parts = map<string, map<int, std::set<string>>>;  // domain -> cluster -> entities
struct Saved {
  map<int, std::set<string>> relations;
  map<int, Parts> views;
  bool operator==(const Saved&) const = default;
};
inline void parse_parts(Ctx& c, const string& line, Parts* p) {
  std::istringstream is(line);
  string d, n, e;
  is >> d >> n;
  c.check(!n.empty() && n.find_first_not_of("0123456789") == string::npos, "saved_line", "unexpected line " + line);
  auto& m = (*p)[d];
  c.check(!m.contains(atoi(n.c_str())), "saved_cluster_twice", "cluster listed twice: " + line);
  auto& s = m[atoi(n.c_str())];
  while (is >> e) c.check(s.insert(e).second, "saved_entity_twice", "entity listed twice: " + line);
  c.check(!s.empty(), "saved_empty_cluster", "empty cluster: " + line);
}
inline Parts parse_irm(Ctx& c, const string& text) {
  Parts p;
  for (auto& l : split_on(text, '\n'))
    if (!l.empty()) parse_parts(c, l, &p);
  return p;
}
inline Saved parse_hirm(Ctx& c, const string& text) {
  Saved s;
  int view = -1;
  bool head = true;
  for (auto& l : split_on(text, '\n')) {
    if (l.empty()) {
      head = false;
      view = -1;
      continue;
    }
    if (head) {
      std::istringstream is(l);
      string n, r;
      is >> n;
      c.check(n.find_first_not_of("0123456789") == string::npos && !s.relations.contains(atoi(n.c_str())), "saved_line", "unexpected line " + l);
      auto& v = s.relations[atoi(n.c_str())];
      while (is >> r) c.check(v.insert(r).second, "saved_relation_twice", "relation listed twice: " + l);
      c.check(!v.empty(), "saved_empty_cluster", "empty cluster: " + l);
    } else if (l.starts_with("irm=")) {
      c.check(view == -1, "saved_line", "unexpected line " + l);
      view = atoi(l.c_str() + 4);
      c.check(!s.views.contains(view), "saved_view_twice", l);
      s.views[view];
    } else {
      c.check(view >= 0, "saved_line", "a cluster outside of any view: " + l);
      parse_parts(c, l, &s.views[view]);
    }
  }
  return s;
}
