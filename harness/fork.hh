// Runs a loader in a child: it may print, exit, abort on a failed check or
// throw.  Anything else (a sanitizer report, a signal, a hang) is a failure.
#pragma once
#include "mon.hh"

struct Outcome {
  char kind;    // 'O' finished, 'R' stopped in an orderly way, 'C' crashed, 'H' hung
  string text;  // what it returned, or why it stopped
  bool ok() const { return kind == 'O'; }
};

inline int g_child_fd = -1;
inline void child_exit_marker() {
  if (g_child_fd >= 0 && write(g_child_fd, "Rexit", 5)) {}
}
inline string stderr_tail() {
  off_t n = lseek(2, 0, SEEK_END);
  off_t from = std::max<off_t>(0, n - 3000);
  string s(n - from, 0);
  ssize_t k = pread(2, s.data(), s.size(), from);
  s.resize(std::max<ssize_t>(0, k));
  return s;
}
inline Outcome in_child(Ctx& c, const std::function<string()>& fn, int cpu = 10) {
  int p[2];
  if (pipe(p)) throw std::runtime_error("pipe");
  fflush(stdout);
  if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    close(p[0]);
    g_child_fd = p[1];
    atexit(child_exit_marker);
    mon::set_cpu_alarm(cpu);
    string s;
    try {
      s = "O" + fn();
    } catch (const std::exception& e) {
      s = string("Rexception ") + e.what();
    }
    size_t o = 0;
    while (o < s.size()) {
      ssize_t k = write(p[1], s.data() + o, s.size() - o);
      if (k <= 0) break;
      o += k;
    }
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  string s;
  char buf[65536];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof buf)) > 0) s.append(buf, k);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  c.count("children");
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) return {'H', "did not stop"};
    string e = stderr_tail();
    // The library's own bounds checks stand for an access out of bounds.
    if (WTERMSIG(st) == SIGABRT && e.find("/c++/") == string::npos) return {'R', "failed check"};
    return {'C', fmt("signal %d ", WTERMSIG(st)) + stderr_tail()};
  }
  if (s.empty()) return {'C', fmt("exit status %d ", WEXITSTATUS(st)) + stderr_tail()};
  return {s[0], s.substr(1)};
}
inline void write_text(const string& path, const string& text) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) throw std::runtime_error("cannot write " + path);
  fclose(f);
}
inline string read_text(const string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) throw std::runtime_error("cannot read " + path);
  string s;
  char buf[65536];
  size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, k);
  fclose(f);
  return s;
}
inline vector<string> split_on(const string& s, char sep) {
  vector<string> v(1);
  for (char ch : s)
    if (ch == sep) v.emplace_back();
    else v.back() += ch;
  return v;
}
