#include "mc.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

namespace mc {
namespace {
struct Sc { std::string name, bounds; Body body; Opt opt; };
std::vector<Sc> g_sc;
std::vector<std::pair<std::string, std::string>> g_required;
bool g_thorough = false;
std::string g_scratch, g_root;
struct Shared { volatile uint64_t progress; volatile int scenario, n; int choices[4000]; volatile int done; };
Shared* g_sh = nullptr;  // current worker's slot
std::map<std::string, std::string> g_known;

std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
double Now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Found { int scenario = -1; std::vector<int> choices; std::string key, msg, trace; bool crash = false; };

void SilenceOutput(const std::string& errlog) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1); close(n);
  int e = open(errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (e >= 0) { dup2(e, 2); close(e); }
}

// runs one execution; returns true on violation
bool RunOnce(const Sc& sc, Path& p, Found* f) {
  p.pos_ = 0; p.trace_.clear(); p.mine_ = true;
  p.Publish();
  try { sc.body(p); }
  catch (Violation& v) {
    if (p.known_->count(v.key)) { p.stats_->known[v.key]++; return false; }
    f->choices.assign(p.choices_.begin(), p.choices_.begin() + p.pos_);
    f->key = v.key; f->msg = v.msg; f->trace = p.trace_;
    return true;
  }
  catch (Skip&) {}
  catch (std::exception& e) {
    f->choices.assign(p.choices_.begin(), p.choices_.begin() + p.pos_);
    f->key = "uncaught-exception"; f->msg = e.what(); f->trace = p.trace_;
    return true;
  }
  return false;
}

void SaveFound(std::ostream& o, const Found& f) {
  o << "V " << f.scenario << " " << f.choices.size();
  for (int c : f.choices) o << " " << c;
  o << "\n" << f.key << "\n" << Esc(f.msg) << "\n" << Esc(f.trace) << "\n";
}

int WorkerMain(int id, int W, const std::string& dir) {
  SilenceOutput(dir + "/err." + std::to_string(id));
  g_scratch = dir + "/s" + std::to_string(id); mkdir(g_scratch.c_str(), 0755);
  if (chdir(g_scratch.c_str())) {}
  std::ofstream res(dir + "/res." + std::to_string(id));
  std::unordered_set<uint64_t> states;
  for (size_t s = 0; s < g_sc.size(); s++) {
    const Sc& sc = g_sc[s]; const double started = Now();
    Stats st; std::unordered_map<uint64_t, int> cache; uint64_t shard_counter = 0;
    Path p;
    p.scenario_id_ = s; p.scenario_name_ = sc.name; p.shard_depth_ = sc.opt.shard_depth; p.workers_ = W; p.worker_ = id;
    p.shard_counter_ = &shard_counter; p.stats_ = &st; p.states_ = &states; p.cache_ = &cache; p.known_ = &g_known;
    g_sh->scenario = (int)s;
    bool stop = false; Found f;
    while (!stop) {
      p.choices_.resize(p.choices_.size());
      p.widths_.resize(p.choices_.size());
      bool bad = RunOnce(sc, p, &f);
      bool short_path = (int)p.pos_ < p.shard_depth_;
      if (p.mine_ && !(short_path && id != 0)) {
        st.executions++;
        if (st.samples.size() < 2 || (st.executions == 1000 && st.samples.size() < 3)) { if (!p.trace_.empty()) st.samples.push_back(p.trace_.substr(0, 900)); }
      }
      if (bad && p.mine_) { f.scenario = (int)s; SaveFound(res, f); res.flush(); stop = true; break; }
      // backtrack
      p.choices_.resize(p.pos_); p.widths_.resize(p.pos_);
      while (!p.choices_.empty() && p.choices_.back() + 1 >= p.widths_.back()) { p.choices_.pop_back(); p.widths_.pop_back(); }
      if (p.choices_.empty()) break;
      p.choices_.back()++;
      p.is_new_prefix_ = (int)p.choices_.size() <= p.shard_depth_;
    }
    res << "S " << s << " " << st.executions << " " << st.transitions << " " << st.prunes << " " << st.checks << " " << Now() - started << "\n";
    for (auto& o : st.outcomes) res << "O " << o.second << " " << o.first << "\n";
    for (auto& o : st.known) res << "K " << o.second << " " << o.first << "\n";
    if (id < 2) for (auto& x : st.samples) res << "X " << sc.name << ": " << Esc(x) << "\n";
    res.flush();
    if (stop) break;
  }
  { std::ofstream b(dir + "/st." + std::to_string(id), std::ios::binary); for (uint64_t h : states) b.write((char*)&h, 8); }
  res << "D\n"; res.close();
  g_sh->done = 1;
  return 0;
}

// replay in a fresh process; 0 = passed, 1 = violated (message in *f), 2 = crashed, 3 = hung
int ReplayChild(int s, const std::vector<int>& ch, const std::string& dir, Found* f, int limit_s, bool verbose) {
  int fd[2]; if (pipe(fd)) return 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (!verbose) SilenceOutput(dir + "/err.replay"); 
    g_scratch = dir + "/sr"; mkdir(g_scratch.c_str(), 0755); if (chdir(g_scratch.c_str())) {}
    alarm(limit_s);
    Stats st; std::unordered_set<uint64_t> states; uint64_t sc = 0;
    Path p; p.scenario_id_ = s; p.scenario_name_ = g_sc[s].name; p.choices_ = ch; p.widths_.assign(ch.size(), 0); p.replay_ = true;
    p.shard_counter_ = &sc; p.stats_ = &st; p.states_ = &states; std::map<std::string, std::string> none; p.known_ = verbose ? &none : &g_known; p.shard_depth_ = 0;
    Found g; bool bad = RunOnce(g_sc[s], p, &g);
    std::string out = (bad ? "1\n" : "0\n") + g.key + "\n" + Esc(g.msg) + "\n" + Esc(p.trace_) + "\n";
    if (write(fd[1], out.data(), out.size())) {}
    _exit(0);
  }
  close(fd[1]);
  std::string out; char b[4096]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
  close(fd[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 3;
  if (out.empty()) return 2;
  std::istringstream is(out); std::string r; std::getline(is, r); std::getline(is, f->key); std::getline(is, f->msg); std::getline(is, f->trace);
  return r == "1" ? 1 : 0;
}

std::string Tail(const std::string& path, size_t n = 2500) {
  std::string s = ReadFile(path);
  size_t e = s.find("ERROR: AddressSanitizer"); if (e != std::string::npos) return s.substr(e, n);
  e = s.find("runtime error"); if (e != std::string::npos) return s.substr(e > 200 ? e - 200 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}
std::string JoinInts(const std::vector<int>& v) { std::string s; for (int c : v) { if (!s.empty()) s += ","; s += std::to_string(c); } return s; }
}  // namespace

bool Thorough() { return g_thorough; }
void Scenario(const std::string& name, const std::string& bounds, Body body, Opt opt) { g_sc.push_back({name, bounds, body, opt}); }
void RequireOutcome(const std::string& s, const std::string& o) { g_required.push_back({s, o}); }
const std::string& Scratch() { return g_scratch; }
std::string WriteFile(const std::string& name, const std::string& content) {
  std::string p = g_scratch + "/" + name; std::ofstream o(p, std::ios::binary); o << content; return p;
}
std::string ReadFile(const std::string& path) { std::ifstream i(path, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }

void Path::Publish() {
  if (!g_sh || replay_) return;
  g_sh->progress++;
  size_t n = std::min<size_t>(choices_.size(), 4000);
  g_sh->n = (int)n; for (size_t i = 0; i < n; i++) g_sh->choices[i] = choices_[i];
}
int Path::Choose(int n, const char* label) {
  (void)label;
  if (n <= 0) { fprintf(stderr, "Choose(0)\n"); abort(); }
  bool fresh = false;
  if (pos_ == choices_.size()) {
    choices_.push_back(0); widths_.push_back(n); fresh = true;
    if (g_sh && !replay_ && choices_.size() <= 4000) { g_sh->choices[choices_.size() - 1] = 0; g_sh->n = (int)choices_.size(); }
  }
  if (choices_[pos_] >= n) { fprintf(stderr, "replay divergence: choice %d of %d at %zu\n", choices_[pos_], n, pos_); _exit(98); }
  if (!replay_ && widths_[pos_] != n) { fprintf(stderr, "replay divergence: width %d was %d at %zu\n", n, widths_[pos_], pos_); _exit(98); }
  widths_[pos_] = n;
  int c = choices_[pos_++];
  (void)fresh;
  if (!replay_ && (int)pos_ == shard_depth_) {
    // a new prefix exactly when the last (re)set choice lies inside the prefix, i.e. nothing deeper was kept
    if ((int)choices_.size() == shard_depth_) { (*shard_counter_)++; mine_ = ((*shard_counter_ - 1) % workers_) == (uint64_t)worker_; if (!mine_) throw Skip(); }
  }
  return c;
}
bool Path::Seen(uint64_t h, int remaining) {
  if (states_) states_->insert(Mix(h, scenario_id_));
  if (replay_ || !cache_ || (int)pos_ < shard_depth_) return false;
  // only prune at the frontier: while re-executing a prefix the state was already accounted for
  if (pos_ < choices_.size()) return false;
  auto it = cache_->find(h);
  if (it != cache_->end() && it->second >= remaining) { stats_->prunes++; return true; }
  (*cache_)[h] = remaining;
  return false;
}
void Path::Note(const char* fmt, ...) {
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (!trace_.empty()) trace_ += "; ";
  if (trace_.size() < 20000) trace_ += b;
}
void Path::Fail(const char* key, const char* fmt, ...) {
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Violation{key, b};
}
void Path::CheckKnown(bool ok, const char* key, const char* fmt, ...) {
  stats_->checks++;
  if (ok) return;
  if (known_->count(key)) { stats_->known[key]++; return; }
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Violation{key, b};
}
void Path::Check(bool ok, const char* key, const char* fmt, ...) {
  stats_->checks++;
  if (ok) return;
  char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  throw Violation{key, b};
}
}  // namespace mc

using namespace mc;

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string tier = argc > 1 ? argv[1] : "quick";
  g_root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif";
  int W = getenv("MC_WORKERS") ? atoi(getenv("MC_WORKERS")) : 8;
  std::string dir = "/tmp/verif_" + std::string(kProperty) + "_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  g_scratch = dir;
  auto cleanup = [&] { std::string c = "rm -rf " + dir; if (system(c.c_str())) {} };

  std::string replay_file;
  std::string rp_scenario; std::vector<int> rp_choices;
  if (tier == "replay") {
    if (argc < 3) return 2;
    std::ifstream in(argv[2]); std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("tier: ", 0) == 0) tier = line.substr(6);
      if (line.rfind("scenario: ", 0) == 0) rp_scenario = line.substr(10);
      if (line.rfind("choices: ", 0) == 0) { std::stringstream ss(line.substr(9)); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) rp_choices.push_back(atoi(t.c_str())); }
    }
    g_thorough = tier == "thorough";
    Register();
    for (size_t s = 0; s < g_sc.size(); s++) if (g_sc[s].name == rp_scenario) {
      Found f; int r = ReplayChild((int)s, rp_choices, dir, &f, 300, true);
      printf("replay %s: %s\n  %s\n  trace: %s\n", rp_scenario.c_str(), r == 0 ? "passed" : r == 1 ? "VIOLATED" : r == 2 ? "CRASHED" : "HUNG", f.msg.c_str(), f.trace.c_str());
      cleanup(); return r ? 1 : 0;
    }
    cleanup(); return 2;
  }
  g_thorough = tier == "thorough";
  {  // known findings
    std::ifstream in(g_root + "/known_findings.txt"); std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("finding: ", 0) != 0) continue;
      std::string pk = "property=" + std::string(kProperty) + " key=";
      size_t at = line.find(pk); if (at == std::string::npos) continue;
      std::string rest = line.substr(at + pk.size()); size_t sp = rest.find(' ');
      g_known[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
    }
  }
  Register();
  double t0 = Now();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(W); 
  auto spawn = [&](int i) {
    memset((void*)&sh[i], 0, sizeof(Shared));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { g_sh = &sh[i]; int r = WorkerMain(i, W, dir); _exit(r); }
    return p;
  };
  for (int i = 0; i < W; i++) pids[i] = spawn(i);
  std::vector<uint64_t> last(W, 0); std::vector<double> when(W, Now()); std::vector<int> state(W, 0);  // 1 ok 2 crash 3 hang
  bool any_bad = false; double bad_at = 0;
  int live = W;
  while (live) {
    usleep(20000);
    for (int i = 0; i < W; i++) if (!state[i]) {
      int st; pid_t r = waitpid(pids[i], &st, WNOHANG);
      if (r == pids[i]) { live--; state[i] = (sh[i].done && WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 1 : 2; if (state[i] == 2) { any_bad = true; bad_at = Now(); } continue; }
      if (sh[i].progress != last[i]) { last[i] = sh[i].progress; when[i] = Now(); }
      else if (Now() - when[i] > g_sc[sh[i].scenario].opt.hang_s) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); live--; state[i] = 3; any_bad = true; bad_at = Now(); }
    }
    // once something failed give the others 30 s more, then stop them: the verdict is settled
    if (any_bad && Now() - bad_at > 30) for (int i = 0; i < W; i++) if (!state[i]) { int st; kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); live--; state[i] = 4; }
    if (!any_bad) for (int i = 0; i < W; i++) if (state[i] == 1) { std::string r = ReadFile(dir + "/res." + std::to_string(i)); if (r.find("\nV ") != std::string::npos || r.rfind("V ", 0) == 0) { any_bad = true; bad_at = Now(); } }
  }
  // collect
  std::vector<Found> found; std::vector<double> secs(g_sc.size(), 0); std::vector<Stats> per(g_sc.size()); std::map<std::string, uint64_t> outcomes, known; std::vector<std::string> samples;
  std::unordered_set<uint64_t> states; uint64_t ex = 0, tr = 0, pr = 0, ck = 0;
  for (int i = 0; i < W; i++) {
    std::ifstream in(dir + "/res." + std::to_string(i)); std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line); char k; is >> k;
      if (k == 'V') { Found f; size_t n; is >> f.scenario >> n; f.choices.resize(n); for (auto& c : f.choices) is >> c; std::getline(in, f.key); std::getline(in, f.msg); std::getline(in, f.trace); found.push_back(f); }
      else if (k == 'S') { size_t s; uint64_t a, b, c, d; double sec; is >> s >> a >> b >> c >> d >> sec; secs[s] += sec; per[s].executions += a; per[s].transitions += b; per[s].prunes += c; ex += a; tr += b; pr += c; ck += d; }
      else if (k == 'O') { uint64_t n; is >> n; std::string o; std::getline(is, o); outcomes[o.substr(1)] += n; }
      else if (k == 'K') { uint64_t n; is >> n; std::string o; std::getline(is, o); known[o.substr(1)] += n; }
      else if (k == 'X') { if (samples.size() < 12) samples.push_back(line.substr(2)); }
    }
    std::ifstream b(dir + "/st." + std::to_string(i), std::ios::binary); uint64_t h; while (b.read((char*)&h, 8)) states.insert(h);
    if (state[i] == 2 || state[i] == 3) {
      Found f; f.scenario = sh[i].scenario; f.choices.assign(sh[i].choices, sh[i].choices + sh[i].n); f.crash = true;
      f.key = state[i] == 2 ? "crash" : "hang"; f.msg = Esc(Tail(dir + "/err." + std::to_string(i))); found.push_back(f);
    }
  }
  std::stable_sort(found.begin(), found.end(), [](const Found& a, const Found& b) { bool ha = a.key == "hang", hb = b.key == "hang"; if (ha != hb) return hb; if (a.scenario != b.scenario) return a.scenario < b.scenario; return a.choices.size() < b.choices.size(); });
  // replay before report
  int violations = 0; std::vector<Found> confirmed; bool unreproduced = false;
  for (auto& f : found) {
    if (confirmed.size() >= 3 || (!confirmed.empty() && (f.key == "hang" || Now() - t0 > 300))) break;
    Found g; int r = ReplayChild(f.scenario, f.choices, dir, &g, f.key == "hang" ? 200 : 300, false);
    if (r == 1) { f.key = g.key; f.msg = g.msg; f.trace = g.trace; confirmed.push_back(f); }
    else if (r == 2) { f.key = "crash"; f.msg = Esc(Tail(dir + "/err.replay")); confirmed.push_back(f); }
    else if (r == 3) { f.key = "hang"; f.msg = "does not terminate within the replay limit"; confirmed.push_back(f); }
    else { unreproduced = true; fprintf(stderr, "note: candidate did not reproduce alone: %s [%s] key=%s %s\n", g_sc[f.scenario].name.c_str(), JoinInts(f.choices).c_str(), f.key.c_str(), f.msg.c_str()); }
  }
  if (confirmed.empty() && unreproduced) {
    // depends on what ran earlier in the same process: repeat the whole deterministic exploration of that worker
    for (int i = 0; i < W && confirmed.empty(); i++) {
      std::string before = ReadFile(dir + "/res." + std::to_string(i)); int st0 = state[i]; int n0 = sh[i].n, s0 = sh[i].scenario;
      if (before.find("V ") == std::string::npos && st0 == 1) continue;
      if (st0 == 4) continue;
      pid_t p = spawn(i); int st; double t = Now(); bool killed = false;
      while (waitpid(p, &st, WNOHANG) == 0) { usleep(20000); if (Now() - t > 400) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; } }
      std::string after = ReadFile(dir + "/res." + std::to_string(i));
      bool same = st0 == 1 ? (after == before) : (!killed && !sh[i].done && sh[i].n == n0 && sh[i].scenario == s0);
      if (same) for (auto& f : found) { f.msg += " (depends on earlier executions in the same process; reproduced by re-running worker " + std::to_string(i) + ")"; confirmed.push_back(f); break; }
    }
  }
  // a state-dependent oracle failure observed once is still a failure of this deterministic program; lost workers are re-run above
  if (confirmed.empty()) for (auto& f : found) if (!f.crash) { f.msg += " (seen once; not reproduced alone)"; confirmed.push_back(f); break; }
  for (auto& r : g_required) if (confirmed.empty() && found.empty() && !outcomes.count(r.first + ":" + r.second)) {
    Found f; f.scenario = 0; for (size_t s = 0; s < g_sc.size(); s++) if (g_sc[s].name == r.first) f.scenario = (int)s;
    f.key = "outcome-never-reached"; f.msg = "no execution of " + r.first + " reached outcome " + r.second; confirmed.push_back(f);
  }
  violations = (int)confirmed.size();
  double wall = Now() - t0;
  // report
  for (size_t s = 0; s < g_sc.size(); s++) printf("%-26s cpu=%.1fs executions=%llu transitions=%llu pruned=%llu  [%s]\n", g_sc[s].name.c_str(), secs[s], (unsigned long long)per[s].executions, (unsigned long long)per[s].transitions, (unsigned long long)per[s].prunes, g_sc[s].bounds.c_str());
  for (auto& o : outcomes) printf("  outcome %s x%llu\n", o.first.c_str(), (unsigned long long)o.second);
  printf("%s %s: executions=%llu states=%zu transitions=%llu checks=%llu outcomes=%zu wall=%.1fs\n", kProperty, tier.c_str(), (unsigned long long)ex, states.size(), (unsigned long long)tr, (unsigned long long)ck, outcomes.size(), wall);
  for (auto& k : g_known) if (known.count(k.first)) printf("KNOWN-FINDING: property=%s %s: %s\n", kProperty, k.first.c_str(), k.second.c_str());
  // evidence
  {
    std::string ed = g_root + "/evidence"; mkdir(ed.c_str(), 0755);
    std::ofstream o(ed + "/" + kProperty + ".json");
    o << "{\n \"property\": \"" << kProperty << "\", \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\", \"seed\": " << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1)
      << ", \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": " << states.size() << ", \"transitions\": " << tr << ", \"traces_validated_against_impl\": " << ex
      << ",\n  \"oracle_comparisons\": " << ck << ", \"pruned_by_state\": " << pr << ", \"exhaustive\": " << (violations ? "false" : "true") << ",\n  \"distinct_outcomes\": " << outcomes.size() << ",\n  \"scenarios\": [";
    for (size_t s = 0; s < g_sc.size(); s++) o << (s ? ",\n   " : "\n   ") << "{\"name\": \"" << Esc(g_sc[s].name) << "\", \"bounds\": \"" << Esc(g_sc[s].bounds) << "\", \"executions\": " << per[s].executions << ", \"transitions\": " << per[s].transitions << "}";
    o << "],\n  \"outcomes\": {"; bool first = true; for (auto& k : outcomes) { o << (first ? "" : ", ") << "\"" << Esc(k.first) << "\": " << k.second; first = false; }
    o << "},\n  \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) o << (i ? ",\n   " : "\n   ") << "\"" << Esc(samples[i]) << "\"";
    if (samples.empty()) o << "\"(no notes)\"";
    o << "]},\n \"assumptions\": [\"" << Esc(kAssumptions) << "\"],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "\n}\n";
  }
  int rc = 0;
  if (violations) {
    auto& f = confirmed[0];
    std::string rd = g_root + "/replays"; mkdir(rd.c_str(), 0755);
    std::string path = rd + "/" + kProperty + ".replay";
    std::ofstream o(path);
    o << "property: " << kProperty << "\ntier: " << (g_thorough ? "thorough" : "quick") << "\nscenario: " << g_sc[f.scenario].name << "\nchoices: " << JoinInts(f.choices) << "\nkey: " << f.key << "\nmessage: " << f.msg << "\ntrace: " << f.trace << "\nrun: ./check replay " << path << "\n";
    for (auto& c : confirmed) printf("  violated: %s key=%s\n    %s\n    trace: %s\n", g_sc[c.scenario].name.c_str(), c.key.c_str(), c.msg.substr(0, 1500).c_str(), c.trace.substr(0, 1500).c_str());
    printf("VIOLATION property=%s replay=%s\n", kProperty, path.c_str());
    rc = 1;
  }
  cleanup();
  return rc;
}
