// What every C++ property check shares: seeded rapidcheck runs, counters, one MISMATCH line per failure.
#pragma once
#include <rapidcheck.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
namespace pbt {
inline uint64_t evals = 0;
inline std::set<size_t> seen;
inline int samples = 0;
inline bool failed = false;
inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
inline bool thorough() { const char* s = getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }
// A non-trivial case, told apart from others by `key`.
inline void note(const std::string& key) {
  if (seen.size() < 2000000) seen.insert(std::hash<std::string>()(key));
  if (samples < 8 && seen.size() % 97 == 1) { ++samples; std::string k; for (char c : key.substr(0, 200)) k += c >= 32 && c < 127 ? c : '?'; printf("SAMPLE %s\n", k.c_str()); }
}
inline std::string line(std::string s) { for (char& c : s) if (c == '\n' || c == '\r' || c == 0) c = ' '; return s.substr(0, 2500); }
inline void fail(const std::string& s) { if (!failed) printf("MISMATCH %s\n", line(s).c_str()); failed = true; fflush(stdout); }
template <class F> void prop(const char* name, int quick, int deep, F f) {
  const char* only = getenv("PBT_ONLY");
  if (only && std::string(only) != name) return;
  fprintf(stderr, "in property: %s\n", name);
  rc::detail::TestMetadata m; m.id = name; m.description = name;
  rc::detail::TestParams p; p.seed = seed() * 1000003 + std::hash<std::string>()(name); p.maxSuccess = thorough() ? deep : quick; p.maxSize = 60; p.maxDiscardRatio = 20;
  rc::detail::TestResult r = rc::detail::checkTestable(f, m, p);
  rc::detail::SuccessResult ok;
  if (r.match(ok)) { evals += ok.numSuccess; return; }
  std::ostringstream os; rc::detail::printResultMessage(r, os);
  fail(std::string(name) + ": " + os.str());
}
// Whether `f` ends its process by a signal (nothing it prints is kept).
template <class F> bool dies(F f) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { (void)!freopen("/dev/null", "w", stderr); (void)!freopen("/dev/null", "w", stdout); signal(SIGABRT, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGTRAP, SIG_DFL); f(); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL;
}
[[gnu::noinline]] inline void bad(const char* what, int at) { RC_FAIL(std::string(what) + " (line " + std::to_string(at) + ")"); }
inline int finish() {
  printf("STAT %llu %zu\n", (unsigned long long)evals, seen.size());
  if (!failed) printf("DONE\n");
  return failed ? 1 : 0;
}
}  // namespace pbt
// Much cheaper to compile than rapidcheck's own.
#undef RC_ASSERT
#define RC_ASSERT(...) do { if (!(__VA_ARGS__)) pbt::bad(#__VA_ARGS__, __LINE__); } while (0)
