// Runs the repository's sample simulation (example/src) on a patched copy of its settings and returns the log it writes.
#pragma once
#include <tuple>
#include <map>
#include <string>
#include <vector>
namespace sample {
// one setting: file relative to the settings directory, section, key -> value (an empty value removes the key)
struct Edit { std::string file, section, key, value; bool operator<(const Edit& o) const { return std::tie(file, section, key) < std::tie(o.file, o.section, o.key); } };
using Config = std::vector<Edit>;  // later edits win
extern const char *kBase, *kSat, *kLocal, *kDist;
// a short run: 2 s of 0.1 s steps, everything that needs no external data enabled
Config Default();
Config Merge(Config a, const Config& b);
// in the calling process: settings written to dir, run, log text returned ("" on failure)
std::string Run(const std::string& dir, const Config& c);
// a Monte Carlo campaign over the sample targets in the calling process, settings from the base file: each case's log by run number, the parameter values seen after randomisation, the summary log
struct Campaign { std::map<std::string, std::string> files; std::vector<std::vector<double>> drawn; int cases = 0; };
Campaign RunCampaign(const std::string& dir, const Config& c, unsigned long seed);
// in a fresh process image (exec of this binary) with heap and stack filled with a byte: the configurations are run one after another in that
// process, the log of each is returned; a crash gives fewer logs than configurations, with the reason in *err
std::vector<std::string> RunFresh(const std::string& dir, const std::vector<Config>& cs, int fill, std::string* err);
bool ChildMain();  // call first in Register(): performs the child's work when this process is such a child (never returns then)
struct Log { std::vector<std::string> header; std::vector<std::vector<std::string>> rows; bool ends_with_newline = true; };
Log Parse(const std::string& text);
}  // namespace sample
namespace sample {
struct Switch { std::string name; Config edits; };
const std::vector<Switch>& Models();    // switches of what is computed; each leaves the run feasible
const std::vector<Switch>& Logging();   // switches of what is logged, nothing else
const std::vector<Switch>& Attitudes();
const std::vector<Switch>& Orbits();
}  // namespace sample
