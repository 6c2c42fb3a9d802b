// C19 (no input file corrupts memory) and C20 (whole runs of the programs).
#include <dirent.h>
#include <sys/stat.h>

#include "emissions/bigram_string.hh"
#include "text.hh"
#include "pclean/csv.hh"
#include "pclean/io.hh"
#include "pclean/pclean_lib.hh"
#include "util_io.hh"

// ------------------------------------------------------ running a program
struct Run {
  int code = -1, sig = 0;
  string out, err;
};
// With a `twist`, fresh memory holds other bytes than by default.
static Run run(const vector<string>& argv, const string& dir, int cpu, bool twist = false) {
  string o = dir + "/_out", e = dir + "/_err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int a = open(o.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), b = open(e.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    dup2(a, 1);
    dup2(b, 2);
    struct rlimit rl{(rlim_t)cpu, (rlim_t)cpu + 2}, fs{64 << 20, 64 << 20}, core{0, 0};
    setrlimit(RLIMIT_CPU, &rl);
    setrlimit(RLIMIT_FSIZE, &fs);
    setrlimit(RLIMIT_CORE, &core);
    if (chdir(dir.c_str())) _exit(126);
    if (twist) {
      const char* old = getenv("ASAN_OPTIONS");
      setenv("ASAN_OPTIONS", (string(old ? old : "") + ":malloc_fill_byte=7:max_malloc_fill_size=1000000").c_str(), 1);
    }
    vector<char*> av;
    for (auto& s : argv) av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    execv(av[0], av.data());
    _exit(127);
  }
  int st;
  waitpid(pid, &st, 0);
  Run r;
  if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
  else r.sig = WTERMSIG(st);
  r.out = read_text(o);
  r.err = read_text(e);
  if (r.err.size() > 6000) r.err.resize(6000);
  return r;
}
static string prog(const char* var) {
  const char* p = getenv(var);
  if (!p) throw std::runtime_error(string(var) + " is not set");
  return p;
}
static string cmdline(const vector<string>& argv) {
  string s;
  for (auto& a : argv) s += a.substr(a.rfind('/') == string::npos || a.starts_with("-") ? 0 : a.rfind('/') + 1) + " ";
  return s;
}
// Names the report: the sanitizer's, the failed check or the exception.
static string reason(const string& err) {
  auto at = err.find("ERROR: AddressSanitizer: ");
  if (at != string::npos) return "asan " + err.substr(at + 25, err.find_first_of(" \n", at + 25) - at - 25);
  at = err.find("runtime error: ");
  if (at != string::npos) {
    string s = err.substr(at + 15, err.find('\n', at) - at - 15);
    for (char& ch : s) if (isdigit((unsigned char)ch)) ch = 'N';
    return "undefined " + s.substr(0, 70);
  }
  at = err.find("Assertion `");
  if (at != string::npos) return "check " + err.substr(at + 11, std::min<size_t>(60, err.find('\'', at) - at - 11));
  if (err.find("/c++/") != string::npos) return "library bounds check";
  at = err.find("terminate called");
  if (at != string::npos) return "exception";
  return "?";
}
static bool too_much_memory(const string& err) {
  for (const char* s : {"allocation-size-too-big", "out-of-memory", "requested allocation size", "hard rss limit", "calloc-overflow"})
    if (err.find(s) != string::npos) return true;
  return false;
}
// Runs of 4 to 10 digits are cut: sizes that only take time and memory.
static string tame(const string& s) {
  string t;
  for (size_t i = 0; i < s.size();) {
    if (!isdigit((unsigned char)s[i])) {
      t += s[i++];
      continue;
    }
    size_t j = i;
    while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '_')) ++j;
    string run = s.substr(i, j - i), d;
    for (char ch : run) if (ch != '_') d += ch;
    size_t lead = 0;
    while (lead < d.size() && d[lead] == '0') ++lead;
    size_t k = d.size() - lead;
    t += k >= 4 && k <= 10 ? run.substr(0, 3) : run;
    i = j;
  }
  return t;
}

// ------------------------------------------------------------------- bytes
static string mutate_bytes(Ctx& c, string s, const vector<string>& dict, const string& other) {
  int n = c.coin(0.5) ? 1 : c.in(1, 6);
  for (int k = 0; k < n; ++k) {
    size_t i = s.empty() ? 0 : c.in(0, s.size());
    switch (c.in(0, 10)) {
      case 0: if (i < s.size()) s[i] = (char)c.in(0, 255); break;
      case 1: if (i < s.size()) s[i] ^= 1 << c.in(0, 7); break;
      case 2: s.insert(i, 1, (char)c.in(0, 255)); break;
      case 3: s.erase(i, c.in(1, 4)); break;
      case 4: s.resize(i); break;
      case 5: case 6: case 7: s.insert(i, c.pick(dict)); break;
      case 8: {  // part of the file, again or somewhere else
        if (s.empty()) break;
        size_t a = c.in(0, s.size() - 1), l = c.in(1, 30);
        s.insert(i, s.substr(a, l));
        break;
      }
      case 9: {  // part of another file
        if (other.empty()) break;
        s.insert(i, other.substr(c.in(0, other.size() - 1), c.in(1, 60)));
        break;
      }
      default: {  // a line goes, comes twice or moves
        vector<string> ls = split_on(s, '\n');
        size_t a = c.in(0, ls.size() - 1);
        string l = ls[a];
        if (c.coin()) ls.erase(ls.begin() + a);
        if (c.coin()) ls.insert(ls.begin() + c.in(0, ls.size()), l);
        s.clear();
        for (auto& x : ls) s += x + "\n";
      }
    }
  }
  if (c.coin(0.03)) s = rand_word(c, 0, 127, 40);
  return tame(s);
}
static const vector<string> kTokens = {"~", "(", ")", "[", "]", ",", ";", "=", ".", "#", "\"", "'", " ", "\t", "\n", "\r\n", "\n\n", "\0x", "\xff", "class", "observe", "from", "as",
                                       "0", "1", "-1", "99", "-99", "99999999999", "1e400", "nan", "inf", "-inf", "0x10", "bernoulli", "bigram", "categorical", "normal", "skellam", "stringcat",
                                       "string_nat", "string_normal", "string_skellam", "gaussian", "simple_string", "sometimes_bitflip", "sometimes_categorical", "sometimes_gaussian",
                                       "\\", "\\\n", "\"\\", "\"\\\n", "\"a\n", "'a\n", "'\\\n", "k", "k=2", "[k=0]", "[k=1]", "[k=999]", "(k=0)", "maxlength", "[maxlength=0]", "[maxlength=1]", "strings", "[strings=\"\"]", "[strings=\" \"]", "[strings=a]",
                                       "delim", "delim=\"\"", "delim=\"ab\"", "irm=0", "irm=7", "irm=", "irm", "D", "Da", "R00", "real", "string", "typo_nat", "typo_real", "typo_int", "bool", "Ape", "Bee", "Cow", ",,", ","};

static void judge(Ctx& c, const Outcome& o, const string& what, const string& text, bool slow = false) {
  c.count(o.kind == 'O' ? "files_loaded" : o.kind == 'R' ? "files_refused" : "files_other");
  if (o.kind == 'C' && too_much_memory(o.text)) {
    c.count("too_large");
    return;
  }
  c.check(o.kind != 'C', what + ":" + reason(o.text), o.text.substr(0, 1200) + " | file: " + text);
  if (o.kind == 'H' && slow) c.count("cut_short");
  else c.check(o.kind != 'H', what + ":hang", "still running after 10 s of processor time | file: " + text);
  ++c.counts["oracle_checks"];
}
struct Files {
  World w;
  string schema, obs;
};
static Files gen_files(Ctx& c, bool spaces = false) {
  Opts o;
  o.theta = c.coin(0.3);
  o.base_first = c.coin();
  o.apportion = c.coin(0.3);
  o.max_rels = c.in(1, 5);
  o.max_ents = 4;
  Files f;
  f.w = make_world(c, o);
  Names n = gen_names(c, f.w, spaces);
  auto rows = gen_rows(c, f.w, n, c.in(1, 12));
  f.schema = world_schema(c, f.w);
  // also noise models the generator of worlds leaves out
  if (c.coin(0.3))
    for (size_t p; (p = f.schema.find("simple_string")) != string::npos;) f.schema.replace(p, 13, "bigram");
  f.obs = rows_text(rows);
  return f;
}
static void set_up(const string& dir, const string& schema, const string& obs, const string& saved = "") {
  write_text(dir + "/x.schema", schema);
  write_text(dir + "/x.obs", obs);
  write_text(dir + "/x.saved", saved);
}
// Numbers of very different sizes in one model are the finding of C11's
// "wide_values": no inference with them here.
static bool far_number(const string& s) {
  char* e;
  double v = strtod(s.c_str(), &e);
  return e != s.c_str() && !(std::fabs(v) <= 1e6);
}
// Loads the files and works with the model a little.
static string use_model(const string& dir, bool multi, bool saved, uint32_t seed, int iters) {
  std::mt19937 prng(seed);
  T_schema s = load_schema(dir + "/x.schema");
  T_observations obs = load_observations(dir + "/x.obs", s);
  T_encoding enc = calculate_encoding(s, obs);
  for (auto& l : split_on(read_text(dir + "/x.obs"), '\n'))
    if (far_number(split_on(l, ',')[0])) iters = 0;
  if (multi) {
    std::unique_ptr<HIRM> h;
    if (saved) {
      h = std::make_unique<HIRM>(T_schema{}, &prng);
      from_txt(&prng, h.get(), dir + "/x.schema", dir + "/x.obs", dir + "/x.saved");
    } else {
      h = std::make_unique<HIRM>(s, &prng);
      incorporate_observations(&prng, h.get(), enc, obs);
    }
    if (iters) inference_hirm(&prng, h.get(), iters, 2, false);
    std::ostringstream os;
    to_txt(os, *h, enc);
    h->logp_score();
  } else {
    std::unique_ptr<IRM> m;
    if (saved) {
      m = std::make_unique<IRM>(T_schema{});
      from_txt(&prng, m.get(), dir + "/x.schema", dir + "/x.obs", dir + "/x.saved");
    } else {
      m = std::make_unique<IRM>(s);
      incorporate_observations(&prng, m.get(), enc, obs);
    }
    if (iters) inference_irm(&prng, m.get(), iters, 2, false);
    std::ostringstream os;
    to_txt(os, *m, enc);
    m->logp_score();
  }
  return "used";
}
static string saved_text(const string& dir, bool multi, uint32_t seed) {
  std::mt19937 prng(seed);
  T_schema s = load_schema(dir + "/x.schema");
  T_observations obs = load_observations(dir + "/x.obs", s);
  T_encoding enc = calculate_encoding(s, obs);
  std::ostringstream os;
  if (multi) {
    HIRM h(s, &prng);
    incorporate_observations(&prng, &h, enc, obs);
    for (auto& [n, r] : s) h.set_cluster_assignment_gibbs(&prng, n, prng() % 3);
    to_txt(os, h, enc);
  } else {
    IRM m(s);
    incorporate_observations(&prng, &m, enc, obs);
    to_txt(os, m, enc);
  }
  return os.str();
}
static void file_case(Ctx& c, int which) {
  Files f = gen_files(c, c.coin(0.3)), g = gen_files(c);
  uint32_t seed = c.u();
  bool multi = c.coin();
  string saved, text;
  const char* names[] = {"schema", "observations", "clusters"};
  if (which == 2) {
    set_up(c.tmp, f.schema, f.obs);
    Outcome o = in_child(c, [&] { return saved_text(c.tmp, multi, seed); });
    if (o.ok()) saved = o.text;
    text = saved = mutate_bytes(c, saved, kTokens, f.obs);
  } else if (which == 1) {
    text = f.obs = mutate_bytes(c, f.obs, kTokens, g.obs);
  } else {
    text = f.schema = mutate_bytes(c, f.schema, kTokens, g.schema);
  }
  set_up(c.tmp, f.schema, f.obs, saved);
  c.say(text);
  c.sig(text);
  int iters = c.coin(0.3);
  Outcome o = in_child(c, [&] { return use_model(c.tmp, multi, which == 2, seed, iters); });
  judge(c, o, names[which], f.schema + "||" + f.obs + "||" + saved);
}
FAMILY("C19", "schema_bytes", 2500, 60000, [](Ctx& c) { file_case(c, 0); });
FAMILY("C19", "observation_bytes", 2500, 60000, [](Ctx& c) { file_case(c, 1); });
FAMILY("C19", "cluster_bytes", 2500, 60000, [](Ctx& c) { file_case(c, 2); });

struct PFiles {
  GWorld w;
  string schema, csv;
  vector<string> cols;
};
static string class_schema_text(Ctx& c, const GWorld& w, bool shuffle) {
  string t;
  auto names = w.order;
  if (shuffle) std::shuffle(names.begin(), names.end(), c.rng);
  for (auto& n : names) {
    t += "class " + n + "\n";
    for (auto& [f, v] : w.cls(n).vars) {
      t += "  " + f + " ~ ";
      if (auto* cv = std::get_if<ClassVar>(&v.spec)) t += cv->class_name;
      else {
        auto& sv = std::get<ScalarVar>(v.spec);
        t += sv.joint_name;
        for (auto i = sv.params.begin(); i != sv.params.end(); ++i) t += (i == sv.params.begin() ? "(" : ", ") + i->first + "=\"" + i->second + "\"";
        if (!sv.params.empty()) t += ")";
      }
      t += "\n";
    }
    t += "\n";
  }
  t += "observe\n";
  for (auto& [n, f] : w.s.query.fields) {
    t += "  ";
    for (auto& p : f.class_path) t += p + ".";
    t.back() = ' ';
    t += "as " + n + "\n";
  }
  return t + "  from " + w.s.query.record_class + "\n";
}
static string gen_csv(Ctx& c, const GWorld& w, int n, double miss, bool extra, map<string, vector<string>>& pool) {
  vector<string> h;
  for (auto& [f, q] : w.s.query.fields) h.push_back(f);
  if (extra) h.push_back("unused");
  std::shuffle(h.begin(), h.end(), c.rng);
  Table t{h};
  for (int i = 0; i < n; ++i) {
    t.emplace_back();
    for (auto& col : h) {
      if (col == "unused") t.back().push_back(cell(c, false));
      else t.back().push_back(c.coin(miss) ? "" : gen_cell_text(c, w, w.s.query.fields.at(col), pool));
    }
  }
  return csv_text(c, t, true);
}
static PFiles gen_pfiles(Ctx& c) {
  GOpts o;
  o.numeric_strings = o.categorical = true;
  o.max_classes = 3;
  o.max_fields = 4;
  o.p_strings = 0.4;
  PFiles f;
  f.w = make_gworld(c, o);
  f.schema = class_schema_text(c, f.w, c.coin());
  map<string, vector<string>> pool;
  f.csv = gen_csv(c, f.w, c.in(1, 5), 0.2, c.coin(), pool);
  return f;
}
static string use_database(const string& dir, bool of, bool rc, uint32_t seed, int what) {
  std::mt19937 prng(seed);
  PCleanSchema s;
  if (!read_schema_file(dir + "/p.schema", &s)) throw std::runtime_error("refused");
  GenDB g(&prng, s, of, rc);
  DataFrame df = DataFrame::from_csv(dir + "/p.csv");
  incorporate_observations(&prng, &g, df);
  for (auto& [col, cells] : df.data)
    for (auto& x : cells)
      if (far_number(x)) what = 0;
  if (what == 1) inference_hirm(&prng, g.hirm, 1, 2, false);
  if (what == 2) inference_gendb(&prng, &g, 1, 1, 2, false);
  std::ostringstream os;
  to_txt(os, *g.hirm, make_dummy_encoding_from_gendb(g));
  g.logp_score();
  if (what == 3) {
    DataFrame d = make_pclean_samples(2, df.num_rows(), &g, &prng);
    d.to_csv(os);
  }
  return "used";
}
static void pfile_case(Ctx& c, bool table) {
  PFiles f = gen_pfiles(c), g = gen_pfiles(c);
  vector<string> dict = kTokens;
  for (auto& [n, q] : f.w.s.query.fields) dict.push_back(n);
  for (auto& n : f.w.order) dict.push_back(n);
  string& text = table ? f.csv : f.schema;
  text = mutate_bytes(c, text, dict, table ? g.csv : g.schema);
  write_text(c.tmp + "/p.schema", f.schema);
  write_text(c.tmp + "/p.csv", f.csv);
  c.say(text);
  c.sig(text);
  uint32_t seed = c.u();
  int what = c.in(0, 3);
  Outcome o = in_child(c, [&] { return use_database(c.tmp, f.w.only_final, f.w.clean, seed, what); });
  // The noise model of strings enumerates alignments, which takes long for long strings.
  bool slow = f.schema.find("string") != string::npos || f.schema.find("typo") != string::npos;
  judge(c, o, table ? "table" : "class_schema", f.schema + "||" + f.csv, slow);
}
FAMILY("C19", "class_schema_bytes", 2000, 50000, [](Ctx& c) { pfile_case(c, false); });
FAMILY("C19", "table_bytes", 2000, 50000, [](Ctx& c) { pfile_case(c, true); });

// The real programs on broken files.
static void judge_run(Ctx& c, const Run& r, const vector<string>& argv, const string& text, bool slow) {
  if (too_much_memory(r.err)) {
    c.count("too_large");
    return;
  }
  c.count(r.code == 0 ? "files_loaded" : "files_refused");
  string what = cmdline(argv) + " | " + r.err.substr(0, 1200) + " | files: " + text;
  if (r.sig == SIGXCPU || r.sig == SIGKILL) {
    c.check(slow, "program:hang", what);
    c.count("cut_short");
    return;
  }
  bool bounds = r.err.find("/c++/") != string::npos;
  bool orderly = r.sig == 0 ? (r.code >= 0 && r.code < 90) : (r.sig == SIGABRT && !bounds);
  c.check(orderly && r.err.find("AddressSanitizer") == string::npos && r.err.find("runtime error:") == string::npos, "program:" + reason(r.err),
          fmt("exit %d signal %d ", r.code, r.sig) + what);
}
FAMILY("C19", "program_hirm", 500, 10000, [](Ctx& c) {
  Files f = gen_files(c), g = gen_files(c);
  uint32_t seed = c.u() % 1000;
  string saved;
  set_up(c.tmp, f.schema, f.obs);
  bool multi = c.coin();
  vector<string> argv{prog("VF_HIRM"), fmt("--mode=%s", multi ? "hirm" : "irm"), fmt("--seed=%u", seed), fmt("--iters=%ld", c.in(0, 2))};
  string held;
  if (c.coin(0.3)) {
    Outcome o = in_child(c, [&] { return saved_text(c.tmp, multi, seed); });
    if (o.ok()) saved = o.text;
    argv.push_back("--load=x.saved");
  }
  if (c.coin(0.15)) {
    held = f.obs.substr(0, f.obs.find('\n') + 1);
    if (c.coin()) held = mutate_bytes(c, held, kTokens, g.obs);
    argv.push_back("--heldout=x.held");
    write_text(c.tmp + "/x.held", held);
  }
  if (c.coin(0.3)) argv.push_back("--samples=2");
  if (c.coin(0.2)) argv.push_back("--verbose");
  argv.push_back("x");
  switch (c.in(0, saved.empty() ? 1 : 2)) {
    case 0: f.schema = mutate_bytes(c, f.schema, kTokens, g.schema); break;
    case 1: f.obs = mutate_bytes(c, f.obs, kTokens, g.obs); break;
    default: saved = mutate_bytes(c, saved, kTokens, f.obs);
  }
  set_up(c.tmp, f.schema, f.obs, saved);
  string text = f.schema + "||" + f.obs + "||" + saved + "||" + held;
  c.say(text);
  c.sig(text);
  judge_run(c, run(argv, c.tmp, 20), argv, text, text.find("bigram") != string::npos);
}, 60);
FAMILY("C19", "program_pclean", 400, 8000, [](Ctx& c) {
  PFiles f = gen_pfiles(c), g = gen_pfiles(c);
  string& text = c.coin() ? f.csv : f.schema;
  text = mutate_bytes(c, text, kTokens, &text == &f.csv ? g.csv : g.schema);
  write_text(c.tmp + "/p.schema", f.schema);
  write_text(c.tmp + "/p.csv", f.csv);
  vector<string> argv{prog("VF_PCLEAN"), "--schema=p.schema", "--obs=p.csv", fmt("--seed=%ld", c.in(0, 99)), fmt("--iters=%ld", c.in(0, 1)), "--output=p.out",
                      fmt("--only_final_emissions=%s", f.w.only_final ? "true" : "false"), fmt("--record_class_is_clean=%s", f.w.clean ? "true" : "false")};
  if (c.coin(0.3)) argv.push_back("--samples=2");
  if (c.coin(0.3)) argv.push_back("--heldout=p.csv");
  c.say(text);
  c.sig(f.schema + f.csv);
  judge_run(c, run(argv, c.tmp, 20), argv, f.schema + "||" + f.csv, f.schema.find("string") != string::npos || f.schema.find("typo") != string::npos);
}, 60);

// ================================================== C20: whole valid runs
#ifdef NDEBUG
static const bool kChecksOn = false;
#else
static const bool kChecksOn = true;
#endif
static std::set<string> list_dir(const string& dir) {
  std::set<string> s;
  DIR* d = opendir(dir.c_str());
  while (auto* e = readdir(d))
    if (e->d_name[0] != '.' && e->d_name[0] != '_') s.insert(e->d_name);
  closedir(d);
  return s;
}
static double number_after(Ctx& c, const string& line, size_t at, const string& what) {
  char* end;
  double x = strtod(line.c_str() + at, &end);
  c.check(end != line.c_str() + at, "output_line", what + ": no number in " + line);
  return x;
}
// The report without the times in it; checks every score it holds.
static string report(Ctx& c, const string& out, const string& what, bool score_ok = true) {
  string t;
  for (auto& l : split_on(out, '\n')) {
    string x = l;
    for (const char* mark : {"model score = ", "Log likelihood of held out data is "}) {
      auto at = l.find(mark);
      if (at == string::npos) continue;
      double v = number_after(c, l, at + strlen(mark), what);
      c.check(std::isfinite(v), "score_not_finite", what + ": " + l);
      c.count("scores_read");
    }
    double a, b;
    int n = 0;
    if (sscanf(l.c_str(), "%lf %lf%n", &a, &b, &n) == 2 && n == (int)l.size()) {
      c.check(std::isfinite(b), "score_not_finite", what + ": " + l);
      x = l.substr(l.find(' '));
      c.count("scores_read");
    }
    if (l.starts_with("timeout after")) x = "timeout";
    t += x + "\n";
  }
  return t;
}
// Runs the program twice on copies of the files: it must finish in order, leave
// its inputs as they are, write the files it says and nothing else, and do the
// same both times.  Returns the output files and, under "", the report.
static map<string, string> run_valid(Ctx& c, const vector<string>& argv, const map<string, string>& in, const std::set<string>& outs, const string& text, int code = 0) {
  map<string, string> got[2];
  for (int k = 0; k < 2; ++k) {
    string d = c.tmp + (k ? "/run_b" : "/run_a");
    for (auto& n : list_dir(mkdir(d.c_str(), 0755) ? d : d)) unlink((d + "/" + n).c_str());
    for (auto& [n, t] : in) write_text(d + "/" + n, t);
    Run r = run(argv, d, 60, k);
    string what = cmdline(argv) + " | " + r.err.substr(0, 1200) + " | files: " + text;
    c.count("runs");
    c.check(r.sig != SIGXCPU && r.sig != SIGKILL, "run:hang", what);
    c.check(r.sig == 0 && r.code == code && r.err.find("AddressSanitizer") == string::npos && r.err.find("runtime error:") == string::npos,
            r.sig == 0 && reason(r.err) == "?" ? "run:status" : "run:" + reason(r.err), fmt("exit %d signal %d ", r.code, r.sig) + what + " | printed: " + r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0));
    for (auto& [n, t] : in) c.check(read_text(d + "/" + n) == t, "input_changed", n + " was changed by " + what);
    auto left = list_dir(d);
    for (auto& n : outs) c.check(left.contains(n), "output_missing", n + " was not written by " + what);
    for (auto& n : left) c.check(in.contains(n) || outs.contains(n), "output_unexpected", n + " was written by " + what);
    for (auto& n : outs) got[k][n] = read_text(d + "/" + n);
    got[k][""] = report(c, r.out, what);
  }
  for (auto& [n, t] : got[0]) {
    c.check(t == got[1][n], "not_reproducible", (n.empty() ? "the report" : n) + " differs between two runs of " + cmdline(argv) + ": " + t.substr(0, 400) + " <-> " + got[1][n].substr(0, 400) + " | files: " + text);
    c.count("outputs_compared");
  }
  return got[0];
}
static vector<Row> parse_rows(const string& text) {
  vector<Row> v;
  for (auto& l : split_on(text, '\n')) {
    if (l.empty()) continue;
    auto f = split_on(l, ',');
    Row r;
    r.value = f[0];
    r.rel = f.size() > 1 ? f[1] : "";
    if (f.size() > 2) r.items.assign(f.begin() + 2, f.end());
    v.push_back(r);
  }
  return v;
}
static bool blank(const string& s) {
  for (char ch : s)
    if (isspace((unsigned char)ch)) return true;
  return false;
}
struct HirmCase {
  World w;
  string schema;
  vector<Row> rows, held;
};
static HirmCase gen_hirm(Ctx& c, bool held, bool noisy = true) {
  Opts o;
  o.noisy = noisy;
  o.theta = c.coin(0.3);
  o.base_first = c.coin();
  o.apportion = !kChecksOn && c.coin(0.3);
  o.max_rels = c.in(1, 6);
  o.max_ents = 5;
  HirmCase h;
  h.w = make_world(c, o);
  Names n = gen_names(c, h.w, false);
  // entity names that look like sampled ones would be ambiguous
  for (auto& [d, v] : n)
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].starts_with("new_")) v[i] = fmt("was_new%zu", i);
  auto rows = gen_rows(c, h.w, n, c.in(2, 18));
  h.schema = world_schema(c, h.w);
  if (!kChecksOn && c.coin(0.2))
    for (size_t p; (p = h.schema.find("simple_string")) != string::npos;) h.schema.replace(p, 13, "bigram");
  map<string, int> left;
  for (auto& r : rows) ++left[r.rel];
  for (auto& r : rows) {
    const Rel& rel = h.w.rel(r.rel);
    if (held && h.held.size() < 2 && !rel.noisy && h.w.leaf(r.rel) && left[r.rel] > 1 && c.coin()) {
      --left[r.rel];
      h.held.push_back(r);
    } else {
      h.rows.push_back(r);
    }
  }
  return h;
}
// The entities each relation has data for, per domain.
static map<string, map<string, std::set<string>>> entities_of(const HirmCase& h) {
  map<string, map<string, std::set<string>>> m;
  for (auto& r : h.rows) {
    const Rel* rel = &h.w.rel(r.rel);
    while (true) {
      for (size_t i = 0; i < rel->doms.size(); ++i) m[rel->name][rel->doms[i]].insert(r.items[i]);
      if (!rel->noisy) break;
      rel = &h.w.rel(rel->base);
    }
  }
  return m;
}
static void exact_entities(Ctx& c, const HirmCase& h, const Parts& p, const std::set<string>& rels, const string& what) {
  auto ents = entities_of(h);
  map<string, std::set<string>> want;
  for (auto& r : rels)
    if (ents.contains(r))
      for (auto& [d, s] : ents.at(r)) want[d].insert(s.begin(), s.end());
  for (auto& [d, m] : p) {
    std::set<string> got;
    for (auto& [t, es] : m)
      for (auto& e : es) c.check(got.insert(e).second, "saved_entity_twice", e + " of " + d + " is in two clusters | " + what);
    c.check(got == want[d], "saved_entities", fmt("%zu entities of %s are listed, the data has %zu (or others) | ", got.size(), d.c_str(), want[d].size()) + what);
    c.count("entities_saved", got.size());
  }
  for (auto& [d, s] : want) c.check(s.empty() || p.contains(d), "saved_entities", "no clusters of " + d + " | " + what);
}
static void exact_saved(Ctx& c, const HirmCase& h, const string& saved, bool multi, const string& what) {
  std::set<string> all;
  for (auto& r : h.w.rels) all.insert(r.name);
  if (!multi) {
    exact_entities(c, h, parse_irm(c, saved), all, what);
    return;
  }
  Saved s = parse_hirm(c, saved);
  std::multiset<string> rels;
  for (auto& [t, v] : s.relations) rels.insert(v.begin(), v.end());
  for (auto& r : all) c.check(rels.count(r) == 1, "saved_relations", r + " is not listed once | " + what);
  c.check(rels.size() == all.size(), "saved_relations", "other relations are listed | " + what);
  for (auto& [t, v] : s.relations) {
    c.check(s.views.contains(t), "saved_view", fmt("view %d is missing | ", t) + what);
    exact_entities(c, h, s.views.at(t), v, what);
  }
  c.check(s.views.size() == s.relations.size(), "saved_view", "a view without relations | " + what);
}
static std::set<std::set<string>> groups(const map<int, std::set<string>>& m) {
  std::set<std::set<string>> s;
  for (auto& [t, v] : m) s.insert(v);
  return s;
}
static std::set<string> canon(Ctx& c, const string& saved, bool multi) {
  auto parts = [&](const Parts& p) {
    string t;
    for (auto& [d, m] : p) {
      t += d + "{";
      for (auto& g : groups(m)) {
        for (auto& e : g) t += e + " ";
        t += "/";
      }
      t += "}";
    }
    return t;
  };
  std::set<string> out;
  if (!multi) return {parts(parse_irm(c, saved))};
  Saved s = parse_hirm(c, saved);
  for (auto& [t, v] : s.relations) {
    string x;
    for (auto& r : v) x += r + " ";
    out.insert(x + parts(s.views[t]));
  }
  return out;
}
static void hirm_case(Ctx& c, bool resume) {
  bool multi = c.coin(0.7), held = c.coin(0.3);
  HirmCase h = gen_hirm(c, held);
  uint32_t seed = c.coin(0.2) ? 10 : c.in(0, 1000);
  map<string, string> in{{"x.schema", h.schema}, {"x.obs", rows_text(h.rows)}};
  vector<string> argv{prog("VF_HIRM")};
  if (!multi || c.coin()) argv.push_back(fmt("--mode=%s", multi ? "hirm" : "irm"));
  if (seed != 10 || c.coin()) argv.push_back(fmt("--seed=%u", seed));
  argv.push_back(fmt("--iters=%ld", c.in(0, 3)));
  if (c.coin(0.3)) argv.push_back("--verbose");
  if (c.coin(0.2)) argv.push_back("--timeout=50");
  int n = c.coin(0.4) ? c.in(1, 4) : 0;
  bool domains = true;  // sampling needs entities in every domain
  auto ents = entities_of(h);
  for (auto& r : h.w.rels)
    for (auto& d : r.doms) {
      bool any = false;
      for (auto& [q, m] : ents) any |= m.contains(d);
      domains &= any;
    }
  if (!domains) n = 0;
  if (n) argv.push_back(fmt("--samples=%d", n));
  if (!h.held.empty()) {
    in["x.held"] = rows_text(h.held);
    argv.push_back("--heldout=x.held");
  }
  if (c.coin()) argv.push_back("x");
  else argv.insert(argv.begin() + 1, "x");
  string text = h.schema + "||" + rows_text(h.rows) + "||" + rows_text(h.held);
  c.say(cmdline(argv) + text);
  c.sig(cmdline(argv) + text);
  string ext = multi ? "hirm" : "irm", file = fmt("x.%u.", seed) + ext;
  std::set<string> outs{file};
  if (n && multi) outs.insert(file + ".samples");
  auto got = run_valid(c, argv, in, outs, text);
  exact_saved(c, h, got[file], multi, cmdline(argv) + text + " | saved: " + got[file]);
  bool mention = got[""].find("Log likelihood of held out data is ") != string::npos;
  c.check(mention == !h.held.empty(), "heldout_report", cmdline(argv) + got[""]);
  if (n && multi) {
    std::set<Row> seen;
    std::set<std::pair<string, vector<string>>> held_at;
    for (auto& r : h.rows) held_at.insert({r.rel, r.items});
    map<string, int> count;
    bool special = false;
    for (auto& r : parse_rows(got[file + ".samples"])) {
      if (!std::count_if(h.w.rels.begin(), h.w.rels.end(), [&](auto& q) { return q.name == r.rel; }) || r.items.size() != h.w.rel(r.rel).doms.size()) {
        special = true;  // a sampled string with a comma
        continue;
      }
      ++count[r.rel];
      c.check(held_at.insert({r.rel, r.items}).second, "sample_repeats", "sample of " + r.rel + " at entities that have a value | " + cmdline(argv) + text);
      c.count("samples_read");
      if (h.w.rel(r.rel).kind == "normal" && !h.w.rel(r.rel).string_num()) {
        char* end;
        double v = strtod(r.value.c_str(), &end);
        c.check(!*end && !r.value.empty() && std::isfinite(v), "sample_value", "'" + r.value + "' sampled from " + r.rel);
      }
    }
    if (!special)
      for (auto& r : h.w.rels) {
        int want = h.w.leaf(r.name) ? n : 0;
        c.check(count[r.name] == want, "sample_count", fmt("%d samples of %s, %d expected | ", count[r.name], r.name.c_str(), want) + cmdline(argv) + text);
      }
  }
  if (!resume) return;
  // Loading what was saved, with no further inference, keeps the clusters.
  uint32_t seed2 = c.in(0, 1000);
  map<string, string> in2{{"x.schema", h.schema}, {"x.obs", in["x.obs"]}, {"start." + ext, got[file]}};
  vector<string> argv2{prog("VF_HIRM"), "--mode=" + ext, fmt("--seed=%u", seed2), "--iters=0", "--load=start." + ext, "x"};
  if (!h.held.empty() && c.coin()) {
    in2["x.held"] = rows_text(h.held);
    argv2.push_back("--heldout=x.held");
  }
  string file2 = fmt("x.%u.", seed2) + ext;
  auto got2 = run_valid(c, argv2, in2, {file2}, text + "||" + got[file]);
  c.check(canon(c, got2[file2], multi) == canon(c, got[file], multi), "resumed_differs", "loading " + got[file] + " and saving gives " + got2[file2] + " | " + text);
  exact_saved(c, h, got2[file2], multi, "resumed " + text);
  c.count("resumed");
  if (c.coin()) {
    argv2[3] = "--iters=2";
    auto got3 = run_valid(c, argv2, in2, {file2}, text + "||" + got[file]);
    exact_saved(c, h, got3[file2], multi, "continued " + text);
  }
}
FAMILY("C20", "hirm_run", 700, 4000, [](Ctx& c) { hirm_case(c, false); }, 200);
FAMILY("C20", "hirm_resume", 350, 2500, [](Ctx& c) { hirm_case(c, true); }, 300);

// The printed likelihood of held-out data, with the clusters given, is the
// model's: only clean relations, whose clusters fix the predictive.
FAMILY("C20", "hirm_heldout", 250, 2500, [](Ctx& c) {
  bool multi = c.coin(0.7);
  HirmCase h = gen_hirm(c, true, false);
  if (h.held.empty()) return;
  uint32_t seed = c.in(0, 1000);
  string text = h.schema + "||" + rows_text(h.rows) + "||" + rows_text(h.held);
  c.say(text);
  c.sig(text);
  set_up(c.tmp, h.schema, rows_text(h.rows));
  write_text(c.tmp + "/x.held", rows_text(h.held));
  double want;
  string saved;
  {
    // the clusters, saved and loaded without the program
    std::mt19937 prng(c.u());
    T_schema s = load_schema(c.tmp + "/x.schema"), s2 = s;
    T_observations obs = load_observations(c.tmp + "/x.obs", s), held = load_observations(c.tmp + "/x.held", s2);
    for (auto& r : h.w.rels)  // its latent parameters are drawn at random
      if (r.kind.find("skellam") != string::npos) return;
    T_observations both = obs;
    for (auto& [n, v] : held) both[n].insert(both[n].end(), v.begin(), v.end());
    T_encoding enc = calculate_encoding(s, both);
    auto& f = std::get<0>(enc);
    vector<std::tuple<string, T_items, ObservationVariant>> q;
    if (multi) {
      HIRM m(s, &prng);
      incorporate_observations(&prng, &m, enc, obs);
      for (auto& [n, r] : s) m.set_cluster_assignment_gibbs(&prng, n, prng() % 3);
      for (auto& [n, v] : held)
        for (auto& [items, val] : v) {
          T_items it;
          for (size_t i = 0; i < items.size(); ++i) it.push_back(f.at(h.w.rel(n).doms[i]).at(items[i]));
          std::visit([&](auto r) { q.push_back({n, it, r->from_string(val)}); }, m.get_relation(n));
        }
      std::ostringstream os;
      to_txt(os, m, enc);
      saved = os.str();
      HIRM l({}, &prng);
      write_text(c.tmp + "/x.saved", saved);
      from_txt(&prng, &l, c.tmp + "/x.schema", c.tmp + "/x.obs", c.tmp + "/x.saved", &enc);
      want = l.logp(q, &prng);
    } else {
      IRM m(s);
      incorporate_observations(&prng, &m, enc, obs);
      for (auto& [n, v] : held)
        for (auto& [items, val] : v) {
          T_items it;
          for (size_t i = 0; i < items.size(); ++i) it.push_back(f.at(h.w.rel(n).doms[i]).at(items[i]));
          std::visit([&](auto r) { q.push_back({n, it, r->from_string(val)}); }, m.relations.at(n));
        }
      std::ostringstream os;
      to_txt(os, m, enc);
      saved = os.str();
      IRM l({});
      write_text(c.tmp + "/x.saved", saved);
      from_txt(&prng, &l, c.tmp + "/x.schema", c.tmp + "/x.obs", c.tmp + "/x.saved", &enc);
      want = l.logp(q, &prng);
    }
  }
  string ext = multi ? "hirm" : "irm";
  vector<string> argv{prog("VF_HIRM"), "--mode=" + ext, fmt("--seed=%u", seed), "--iters=0", "--load=start." + ext, "--heldout=x.held", "x"};
  auto got = run_valid(c, argv, {{"x.schema", h.schema}, {"x.obs", rows_text(h.rows)}, {"x.held", rows_text(h.held)}, {"start." + ext, saved}}, {fmt("x.%u.", seed) + ext}, text);
  string mark = "Log likelihood of held out data is ";
  auto at = got[""].find(mark);
  c.check(at != string::npos, "heldout_report", got[""]);
  double v = strtod(got[""].c_str() + at + mark.size(), nullptr);
  c.check(std::abs(v - want) < 1e-4 * (1 + std::abs(want)), "heldout_value", fmt("prints %.6g, the model gives %.9g | ", v, want) + text + "||" + saved);
  c.count("heldout_compared");
}, 200);

// Wrong usage is told, and leaves nothing behind.
FAMILY("C20", "usage", 60, 400, [](Ctx& c) {
  HirmCase h = gen_hirm(c, false);
  map<string, string> in{{"x.schema", h.schema}, {"x.obs", rows_text(h.rows)}};
  bool pc = c.coin();
  vector<string> argv{prog(pc ? "VF_PCLEAN" : "VF_HIRM")};
  int code = 1, k = c.in(0, 2);
  if (pc) {
    write_text(c.tmp + "/e", "");
    in = {{"p.csv", "a\n1\n"}, {"p.schema", "class Ape\n  a ~ bool\n\nobserve\n  a as a\n  from Ape\n"}};
    if (k == 0) argv.push_back("--help"), code = 0;
    else if (k == 1) argv.insert(argv.end(), {"--schema=p.schema", "--obs=p.csv", "--samples=2"});
    else argv.insert(argv.end(), {"--schema=none", "--obs=p.csv", "--output=out"});
  } else {
    if (k == 0) argv.push_back("--help"), code = 0;
    else if (k == 1) argv.push_back("--seed=3");
    else argv.insert(argv.end(), {"--mode=crp", "x"});
  }
  c.say(cmdline(argv));
  c.sig(cmdline(argv) + h.schema);
  run_valid(c, argv, in, {}, h.schema, code);
}, 100);

// A time limit ends inference soon, however many iterations are asked for.
FAMILY("C20", "time_limit", 6, 40, [](Ctx& c) {
  bool multi = c.coin();
  HirmCase h = gen_hirm(c, false);
  map<string, string> in{{"x.schema", h.schema}, {"x.obs", rows_text(h.rows)}};
  vector<string> argv{prog("VF_HIRM"), fmt("--mode=%s", multi ? "hirm" : "irm"), "--iters=1000000000", "--timeout=1", "x"};
  c.say(cmdline(argv) + h.schema);
  c.sig(h.schema + rows_text(h.rows));
  string file = fmt("x.10.%s", multi ? "hirm" : "irm");
  string d = c.tmp + "/t";
  mkdir(d.c_str(), 0755);
  for (auto& [n, t] : in) write_text(d + "/" + n, t);
  Run r = run(argv, d, 40);
  c.check(r.code == 0, "time_limit", fmt("exit %d signal %d ", r.code, r.sig) + cmdline(argv) + r.err + h.schema);
  exact_saved(c, h, read_text(d + "/" + file), multi, cmdline(argv) + h.schema);
}, 100);

static void pclean_case(Ctx& c) {
  GOpts o;
  o.strings = !kChecksOn && c.coin(0.4);
  o.numeric_strings = o.categorical = !kChecksOn;
  o.p_strings = 0.3;
  o.max_classes = 4;
  GWorld w = make_gworld(c, o);
  if (w.chains(w.order.back()).size() > 10 || w.s.query.fields.empty()) return;
  string schema = class_schema_text(c, w, c.coin());
  map<string, vector<string>> pool;
  int rows = c.in(1, o.strings ? 4 : 7);
  string csv = gen_csv(c, w, rows, c.pick(vector<double>{0, 0.2, 0.6}), c.coin(0.3), pool);
  map<string, string> in{{"p.schema", schema}, {"p.csv", csv}};
  vector<string> argv{prog("VF_PCLEAN"), "--schema=p.schema", "--obs=p.csv", fmt("--iters=%ld", c.in(0, 2))};
  if (c.coin(0.8)) argv.push_back(fmt("--seed=%ld", c.in(0, 999)));
  if (c.coin(0.3)) argv.push_back(fmt("--inference_iters=%ld", c.in(0, 2)));
  if (c.coin(0.3)) argv.push_back(fmt("--transition_entities=%s", c.coin() ? "true" : "false"));
  if (w.only_final || c.coin(0.3)) argv.push_back(fmt("--only_final_emissions=%s", w.only_final ? "true" : "false"));
  if (!w.clean || c.coin(0.3)) argv.push_back(fmt("--record_class_is_clean=%s", w.clean ? "true" : "false"));
  if (c.coin(0.2)) argv.push_back("--verbose");
  if (c.coin(0.2)) argv.push_back("--timeout=50");
  bool save = c.coin(0.85);
  int n = save && c.coin() ? c.in(1, 4) : 0;
  if (save) argv.push_back("--output=p.out");
  if (n) argv.push_back(fmt("--samples=%d", n));
  bool held = c.coin(0.3);
  if (held) {
    in["p.held"] = gen_csv(c, w, c.in(1, 2), 0.2, false, pool);
    argv.push_back("--heldout=p.held");
  }
  string text = schema + "||" + csv + "||" + in["p.held"];
  if (!held) in.erase("p.held");
  c.say(cmdline(argv) + text);
  c.sig(cmdline(argv) + text);
  std::set<string> outs;
  if (save) outs.insert("p.out");
  if (n) outs.insert("p.out.samples");
  auto got = run_valid(c, argv, in, outs, text);
  bool mention = got[""].find("Log likelihood of held out data is ") != string::npos;
  c.check(mention == held, "heldout_report", cmdline(argv) + got[""]);
  if (save) {
    Saved s = parse_hirm(c, got["p.out"]);
    string what = cmdline(argv) + text + " | saved: " + got["p.out"];
    std::mt19937 prng(1);
    GenDB g(&prng, w.s, w.only_final, w.clean);
    std::multiset<string> rels;
    for (auto& [t, v] : s.relations) rels.insert(v.begin(), v.end());
    c.check(rels.size() == g.hirm->schema.size(), "saved_relations", fmt("%zu relations are listed, %zu exist | ", rels.size(), g.hirm->schema.size()) + what);
    for (auto& [r, x] : g.hirm->schema) c.check(rels.count(r) == 1, "saved_relations", r + " is not listed once | " + what);
    c.check(s.views.size() == s.relations.size(), "saved_view", "views and relations differ | " + what);
    auto cells = split_on(csv, '\n');
    // A row of one empty cell is an empty line, and those are skipped.
    cells.erase(std::remove(cells.begin(), cells.end(), ""), cells.end());
    int rows = cells.size() - 1;
    auto head = split_on(cells[0], ',');
    for (auto& [t, v] : s.relations) {
      c.check(s.views.contains(t), "saved_view", fmt("view %d is missing | ", t) + what);
      std::set<string> must;
      for (auto& r : v) {
        auto at = std::find(head.begin(), head.end(), r);
        if (at == head.end() || !w.s.query.fields.contains(r)) continue;
        for (int i = 0; i < rows; ++i)
          if (!split_on(cells[i + 1], ',')[at - head.begin()].empty()) must.insert(w.s.query.record_class + ":" + std::to_string(i));
      }
      for (auto& [d, m] : s.views.at(t)) {
        std::set<string> in_it;
        for (auto& [k, es] : m)
          for (auto& e : es) {
            c.check(in_it.insert(e).second, "saved_entity_twice", e + " is in two clusters | " + what);
            c.check(e.starts_with(d + ":"), "saved_entities", e + " is listed for " + d + " | " + what);
            if (d == w.s.query.record_class) c.check(atoi(e.c_str() + d.size() + 1) < rows, "saved_entities", e + " is no row | " + what);
          }
        if (d == w.s.query.record_class)
          for (auto& e : must) c.check(in_it.contains(e), "saved_entities", e + " is not listed though it has data | " + what);
        c.count("entities_saved", in_it.size());
      }
      c.check(must.empty() || s.views.at(t).contains(w.s.query.record_class), "saved_entities", "no clusters of rows | " + what);
    }
  }
  if (n) {
    auto ls = split_on(got["p.out.samples"], '\n');
    while (!ls.empty() && ls.back().empty() && (int)ls.size() > n + 1) ls.pop_back();
    string h;
    for (auto& [f, q] : w.s.query.fields) h += (h.empty() ? "" : ",") + f;
    c.check(!ls.empty() && ls[0] == h, "sample_header", "samples are headed '" + ls[0] + "' instead of '" + h + "' | " + cmdline(argv) + text);
    c.check((int)ls.size() == n + 1, "sample_count", fmt("%zu lines of samples instead of %d | ", ls.size(), n + 1) + cmdline(argv) + text + " | " + got["p.out.samples"]);
    c.count("samples_read", n);
    int k = 0;
    for (auto& [f, q] : w.s.query.fields) {
      const ScalarVar& sv = w.attr(w.at(w.s.query.record_class, Path(q.class_path.begin(), q.class_path.end() - 1)), q.class_path.back());
      for (int i = 1; i <= n && !o.strings && !o.numeric_strings; ++i) {
        auto row = split_on(ls[i], ',');
        c.check(row.size() == w.s.query.fields.size(), "sample_cells", ls[i] + " under " + h);
        if (sv.joint_name == "bool") c.check(row[k] == "0" || row[k] == "1", "sample_value", row[k] + " sampled for " + f);
        if (sv.joint_name == "real") {
          char* end;
          double v = strtod(row[k].c_str(), &end);
          c.check(!*end && !row[k].empty() && std::isfinite(v), "sample_value", row[k] + " sampled for " + f);
        }
      }
      ++k;
    }
  }
}
FAMILY("C20", "pclean_run", 700, 4000, [](Ctx& c) { pclean_case(c); }, 250);
