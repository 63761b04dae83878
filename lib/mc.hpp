// Stateless/explicit-state explorer: a scenario is a function of a sequence of finite choices; every sequence is executed
// on the real code. Choices are enumerated depth-first, partitioned over worker processes, optionally pruned by state.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation { std::string key, msg; };
struct Skip {};

inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; h ^= h >> 31;
  return h;
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return Mix(h, n);
}
inline uint64_t Hash(const std::string& s) { return HashBytes(s.data(), s.size()); }
inline uint64_t Hash(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return Mix(7, u); }

struct Stats {
  uint64_t executions = 0, transitions = 0, prunes = 0, checks = 0;
  std::map<std::string, uint64_t> outcomes, known;
  std::vector<std::string> samples;
};

class Path {
 public:
  // environment / operation choice: 0..n-1
  int Choose(int n, const char* label = "");
  bool Flag(const char* label = "") { return Choose(2, label) == 1; }
  template <class T> T Pick(const std::vector<T>& v, const char* label = "") { return v[Choose((int)v.size(), label)]; }
  double Pick(std::initializer_list<double> v, const char* label = "") { return v.begin()[Choose((int)v.size(), label)]; }
  int PickI(std::initializer_list<int> v, const char* label = "") { return v.begin()[Choose((int)v.size(), label)]; }

  void Note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // one observed transition of the implementation leading to an observed state
  void Obs(std::initializer_list<double> v) { uint64_t h = scenario_id_ + 1; for (double d : v) h = Mix(h, Hash(d)); ObsHash(h); }
  void ObsHash(uint64_t h) { stats_->transitions++; if (states_) states_->insert(Mix(h, scenario_id_)); }
  void Outcome(const std::string& s) { stats_->outcomes[scenario_name_ + ":" + s]++; }
  // true when this canonical state was already explored with at least `remaining` steps to go: the caller must return
  bool Seen(uint64_t h, int remaining);

  [[noreturn]] void Fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  // like Check, but a failure listed in known_findings.txt is counted and the execution goes on
  void CheckKnown(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  void Check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
  void Near(double got, double want, double tol, const char* key, const char* what = "") {
    stats_->checks++;
    if (!(std::fabs(got - want) <= tol)) Fail(key, "%s: got %.17g want %.17g (tolerance %g)", what, got, want, tol);
  }
  void Eq(long long got, long long want, const char* key, const char* what = "") {
    stats_->checks++;
    if (got != want) Fail(key, "%s: got %lld want %lld", what, got, want);
  }
  template <class V, class W> void NearV(const V& got, const W& want, size_t n, double tol, const char* key, const char* what = "") {
    for (size_t i = 0; i < n; i++) {
      stats_->checks++;
      if (!(std::fabs(got[i] - want[i]) <= tol)) Fail(key, "%s: component %zu got %.17g want %.17g (tolerance %g)", what, i, (double)got[i], (double)want[i], tol);
    }
  }
  const std::string& trace() const { return trace_; }
  const std::vector<int>& choices() const { return choices_; }

  // internal
  std::vector<int> choices_, widths_;
  size_t pos_ = 0;
  int shard_depth_ = 2, workers_ = 1, worker_ = 0, sharded_ = 0;
  uint64_t* shard_counter_ = nullptr;
  bool replay_ = false, mine_ = true, is_new_prefix_ = false;
  uint64_t scenario_id_ = 0;
  std::string scenario_name_, trace_;
  Stats* stats_ = nullptr;
  std::unordered_set<uint64_t>* states_ = nullptr;
  std::unordered_map<uint64_t, int>* cache_ = nullptr;
  const std::map<std::string, std::string>* known_ = nullptr;
  void Publish();
};

using Body = std::function<void(Path&)>;
struct Opt { int shard_depth = 2; int hang_s = 90; };
// tier-dependent bound helper
bool Thorough();
inline int Q(int quick, int thorough) { return Thorough() ? thorough : quick; }

void Scenario(const std::string& name, const std::string& bounds, Body body, Opt opt = Opt());
// an outcome class that the exploration must reach (the property implies it); missing = violation
void RequireOutcome(const std::string& scenario, const std::string& outcome);
// scratch directory private to this process
const std::string& Scratch();
std::string WriteFile(const std::string& name, const std::string& content);  // in Scratch(), returns path
std::string ReadFile(const std::string& path);
}  // namespace mc

// implemented by each harness
extern const char* kProperty;
extern const char* kAssumptions;
void Register();
