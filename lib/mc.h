// Bounded exhaustive exploration: bookkeeping shared by every C++ harness.
//
// A harness enumerates cases; for each it drives the real code and compares
// with a reference model.  Case ids are deterministic, so one case can be
// replayed alone with --only <id>.
#ifndef VERIF_LIB_MC_H_
#define VERIF_LIB_MC_H_

#include <setjmp.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string key, what, caseId;
};

struct State {
  std::string out, only;
  bool thorough = false, list = false;
  int shard = 0, shards = 1;
  uint64_t unit = 0;
  uint64_t states = 0, transitions = 0, traces = 0, evaluations = 0;
  std::unordered_set<uint64_t> outcomes;  // distinct observed outcomes
  std::unordered_set<uint64_t> stateSet;  // distinct canonical states
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> byKey;  // violations per key
  std::map<std::string, uint64_t> counters;
  std::map<std::string, std::string> notes;
  std::string cur = "<startup>";
  std::string doing = "";
  std::set<std::string> aborted;
};
inline State& S() {
  static State s;
  return s;
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hashStr(const std::string& s) { return fnv(s.data(), s.size()); }

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

inline void dump(bool crashed) {
  State& s = S();
  FILE* f = s.out.empty() ? stdout : fopen(s.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"complete\": %s,\n", crashed ? "false" : "true");
  fprintf(f, "\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"evaluations\": %llu,\n",
          (unsigned long long)(s.states + s.stateSet.size()), (unsigned long long)s.transitions,
          (unsigned long long)s.traces, (unsigned long long)s.evaluations);
  fprintf(f, "\"outcomes\": [");
  size_t k = 0;
  for (uint64_t o : s.outcomes) { if (k >= 20000) break; fprintf(f, "%s%llu", k++ ? "," : "", (unsigned long long)o); }
  fprintf(f, "],\n\"outcome_count\": %zu,\n\"samples\": [", s.outcomes.size());
  for (size_t i = 0; i < s.samples.size(); i++) fprintf(f, "%s%s", i ? ",\n" : "", jstr(s.samples[i]).c_str());
  fprintf(f, "],\n\"counters\": {");
  k = 0;
  for (auto& [a, b] : s.counters) fprintf(f, "%s%s: %llu", k++ ? ", " : "", jstr(a).c_str(), (unsigned long long)b);
  fprintf(f, "},\n\"notes\": {");
  k = 0;
  for (auto& [a, b] : s.notes) fprintf(f, "%s%s: %s", k++ ? ", " : "", jstr(a).c_str(), jstr(b).c_str());
  fprintf(f, "},\n\"violations\": [");
  for (size_t i = 0; i < s.violations.size(); i++) {
    auto& v = s.violations[i];
    fprintf(f, "%s{\"key\": %s, \"what\": %s, \"case\": %s, \"count\": %llu}", i ? ",\n" : "",
            jstr(v.key).c_str(), jstr(v.what).c_str(), jstr(v.caseId).c_str(),
            (unsigned long long)s.byKey[v.key]);
  }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f); else fflush(f);
}

inline void armWatchdog();

// Record a violation.  `key` identifies the failing input or call site, for
// the known-findings file.  Only the first few cases of a key are kept.
inline void violate(const std::string& key, const std::string& what) {
  State& s = S();
  if (s.byKey[key]++ < 1) {
    if (s.violations.size() < 200) s.violations.push_back({key, what, s.cur});
  }
}

inline sigjmp_buf*& jump() { static sigjmp_buf* j = nullptr; return j; }  // set by guarded()
inline void onSignal(int sig) {
  // The code under test crashed or hung on an in-domain input.
  static volatile int once = 0;
  if (!jump() && once++) _exit(99);
  State& s = S();
  const char* n = sig == SIGALRM ? "hang (no progress for the watchdog period)"
                  : sig == SIGABRT ? "abort (assertion or unreachable)"
                  : sig == SIGSEGV ? "segmentation fault"
                  : sig == SIGFPE  ? "arithmetic trap" : "fatal signal";
  violate("crash:" + s.doing, std::string(n) + " in case " + s.cur + (s.doing.empty() ? "" : " while " + s.doing));
  if (jump()) siglongjmp(*jump(), 1);
  dump(true);
  _exit(3);
}

inline unsigned& watchdogSeconds() {
  static unsigned w = getenv("VERIF_WATCHDOG") ? atoi(getenv("VERIF_WATCHDOG")) : 120;
  return w;
}
inline void armWatchdog() { alarm(watchdogSeconds()); }

inline void init(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); _exit(2); } return std::string(argv[++i]); };
    if (a == "--out") s.out = next();
    else if (a == "--only") s.only = next();
    else if (a == "--tier") s.thorough = next() == "thorough";
    else if (a == "--shard") { std::string v = next(); sscanf(v.c_str(), "%d/%d", &s.shard, &s.shards); }
    else if (a == "--list") s.list = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); _exit(2); }
  }
  stack_t ss{};
  ss.ss_size = 1 << 20;
  ss.ss_sp = malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int g : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(g, &sa, nullptr);
  armWatchdog();
}

inline bool thorough() { return S().thorough; }

// One unit of parallel work; true when this shard owns it.  Under --only all
// units run (cases then filter).
inline bool mine() {
  State& s = S();
  uint64_t u = s.unit++;
  if (!s.only.empty()) return true;
  return (int)(u % s.shards) == s.shard;
}

// Start a case.  False: skip (a replay asks for another case).
inline bool begin(const std::string& id) {
  State& s = S();
  if (!s.only.empty() && s.only != id) return false;
  s.cur = id;
  if (s.list) puts(id.c_str());
  armWatchdog();
  return true;
}
// For investigation only (VERIF_JUMP set): carry on with the next case after a crash.
template <class F> void guarded(F f) {
  static bool on = getenv("VERIF_JUMP") != nullptr;
  if (!on) return f();
  sigjmp_buf b;
  jump() = &b;
  if (!sigsetjmp(b, 1)) f();
  jump() = nullptr;
}
inline void doing(const std::string& d) { S().doing = d; }

inline void sample(const std::string& d, size_t cap = 8) {
  if (S().samples.size() < cap) S().samples.push_back(d);
}
inline void outcome(uint64_t h) { if (S().outcomes.size() < 2000000) S().outcomes.insert(h); }
inline void outcome(const std::string& h) { outcome(hashStr(h)); }
inline bool visit(const std::string& canon) { return S().stateSet.insert(hashStr(canon)).second; }
inline void state(uint64_t n = 1) { S().states += n; }
inline void step(uint64_t n = 1) { S().transitions += n; }
inline void trace(uint64_t n = 1) { S().traces += n; }
inline void eval(uint64_t n = 1) { S().evaluations += n; }
inline void count(const std::string& k, uint64_t n = 1) { S().counters[k] += n; }
inline void note(const std::string& k, const std::string& v) { S().notes[k] = v; }

inline int finish() {
  alarm(0);
  dump(false);
  return 0;
}

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  (void)std::initializer_list<int>{((o << a), 0)...};
  return o.str();
}
template <class V>
std::string join(const V& v, const char* sep = ",") {
  std::ostringstream o;
  bool first = true;
  for (const auto& x : v) { if (!first) o << sep; first = false; o << x; }
  return o.str();
}

// Enumerate every vector in [0,b_0) x ... x [0,b_k).
template <class F>
void product(const std::vector<int64_t>& bounds, F f) {
  for (int64_t b : bounds) if (b <= 0) return;
  std::vector<int64_t> v(bounds.size(), 0);
  while (true) {
    f(v);
    size_t i = v.size();
    while (i > 0) {
      if (++v[i - 1] < bounds[i - 1]) break;
      v[--i] = 0;
    }
    if (i == 0) return;
  }
}

}  // namespace mc
#endif
