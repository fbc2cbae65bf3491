// C38: experiment selection follows its configuration exactly.
#include <cstring>
#include <string>
#include <vector>

#include "lib/explore.h"
#include "tcmalloc/experiment.h"
#include "tcmalloc/experiment_config.h"
#include "tcmalloc/internal/environment.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vx::choose;

constexpr int K = int(Experiment::kMaxExperimentID);
static const std::vector<std::string>& tokens() {
  static const std::vector<std::string> t = [] {
    std::vector<std::string> v = {"", "all", "enable-all-known-experiments", "NO_SUCH_EXPERIMENT", "none"};
    const auto& first = experiments[0];
    const auto& last = experiments[K - 1];
    v.push_back(std::string(first.name));
    v.push_back(std::string(last.name));
    for (auto& e : experiments) if (e.brittle || e.force_disable || e.rollout_upper_bound > 0) v.push_back(std::string(e.name));
    v.push_back(std::string(first.name).substr(0, first.name.size() - 1));
    v.push_back(std::string(first.name) + "X");
    v.push_back(" " + std::string(first.name));
    v.push_back(std::string(first.name) + " ");
    std::string low(first.name);
    for (auto& c : low) c = tolower(c);
    v.push_back(low);
    v.push_back(std::string(last.name) + ";" + std::string(first.name));
    return v;
  }();
  return t;
}
static std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> r(1);
  for (char c : s) if (c == ',') r.emplace_back(); else r.back() += c;
  return r;
}
// The rules.
static void rules(const std::string& active, const std::string& disabled, bool* want) {
  auto act = split(active), dis = split(disabled);
  for (auto& e : experiments) {
    bool on = active == "enable-all-known-experiments";
    for (auto& t : act) on |= t == e.name;
    if (disabled == "all") on = false;
    for (auto& t : dis) if (t == e.name) on = false;
    if (e.force_disable) on = false;
    want[int(e.id)] = on;
  }
}
static std::string list(int max, bool quick_few) {
  auto& t = tokens();
  int n = choose(max + 1);
  std::string s;
  for (int i = 0; i < n; ++i) {
    if (i) s += ',';
    s += t[choose(quick_few ? 9 : int(t.size()))];
  }
  return s;
}

static void lists() {
  std::string active = list(3, false), disabled = list(2, !vx::thorough());
  vx::op("active \"%s\" disabled \"%s\"", active.c_str(), disabled.c_str());
  bool want[K];
  rules(active, disabled, want);
  for (int fill : {0, 1, 0xAA}) {
    // The buffer is exactly as long as it may be.
    struct { unsigned char before[16]; bool b[K]; unsigned char after[16]; } buf;
    memset(&buf, fill, sizeof buf);
    // neither the lists nor the names need be terminated
    std::string a = active + "X", d = disabled + "X";
    for (auto target : {"", "//some:test"})
      for (bool unset : {false, true}) {
        if (unset && (*target || !active.empty() || !disabled.empty())) continue;
        for (auto host : {"", "host1"}) {
          SelectExperiments(buf.b, target, absl::string_view(a.data(), active.size()), absl::string_view(d.data(), disabled.size()), unset, host);
          for (auto& e : experiments) VX_CHECK(buf.b[int(e.id)] == want[int(e.id)], "%s is %s", std::string(e.name).c_str(), want[int(e.id)] ? "off" : "on");
          for (int i = 0; i < 16; ++i) VX_CHECK(buf.before[i] == fill && buf.after[i] == fill, "written outside the buffer");
          vx::step(1);
        }
      }
  }
}

// Every single experiment and every pair, in both roles and both orders.
static void pairs() {
  int i = choose(K), j = choose(K);
  std::string x(experiments[i].name), y(experiments[j].name);
  for (auto& p : std::vector<std::pair<std::string, std::string>>{{x + "," + y, ""}, {y + "," + x, ""}, {x, y}, {x + "," + y, y}, {"enable-all-known-experiments", x + "," + y}, {x + "," + y, "all"}, {x + "," + y, "all," + x}, {"enable-all-known-experiments," + x, y}}) {
    bool want[K], got[K];
    memset(got, 1, sizeof got);
    rules(p.first, p.second, want);
    SelectExperiments(got, "", p.first, p.second, false, "");
    for (auto& e : experiments) VX_CHECK(got[int(e.id)] == want[int(e.id)], "active \"%s\" disabled \"%s\": %s is %s", p.first.c_str(), p.second.c_str(), std::string(e.name).c_str(), got[int(e.id)] ? "on" : "off");
    vx::step(1);
  }
  VX_CHECK(FindExperimentByName(x) == experiments[i].id, "%s is not found by its name", x.c_str());
  VX_CHECK(!FindExperimentByName(x + "x") && !FindExperimentByName(x.substr(1)) && !FindExperimentByName("") && !FindExperimentByName("all"), "an unknown name is found");
  VX_CHECK((experiments[i].id == experiments[j].id) == (i == j) && (x == y) == (i == j), "two experiments share a name or number");
}

// Tests that say nothing get a random choice, but never a brittle one.
static void untold() {
  int n = choose(64);
  std::string target = "//target:" + std::to_string(n);
  for (int r = 0; r < 50; ++r) {
    bool got[K];
    memset(got, r & 1, sizeof got);
    SelectExperiments(got, target, "", "", true, "");
    for (auto& e : experiments) {
      VX_CHECK(got[int(e.id)] == 0 || got[int(e.id)] == 1, "garbage");
      if (e.brittle || e.force_disable) VX_CHECK(!got[int(e.id)], "%s is chosen at random", std::string(e.name).c_str());
    }
    // only the default does so
    SelectExperiments(got, target, "", "", false, "");
    for (auto& e : experiments) VX_CHECK(!got[int(e.id)], "%s is on although the lists are empty", std::string(e.name).c_str());
    vx::step(2);
  }
}

// The process's own selection: from the environment, once.
static void environment() {
  auto& t = tokens();
  int a = choose(int(t.size()) + 1), d = choose(int(t.size()) + 1);
  bool target = choose(2);
  if (a < int(t.size())) setenv("BORG_EXPERIMENTS", t[a].c_str(), 1); else unsetenv("BORG_EXPERIMENTS");
  if (d < int(t.size())) setenv("BORG_DISABLE_EXPERIMENTS", t[d].c_str(), 1); else unsetenv("BORG_DISABLE_EXPERIMENTS");
  if (target) setenv("TEST_TARGET", "//some:test", 1); else unsetenv("TEST_TARGET");
  bool random = target && a == int(t.size()) && d == int(t.size());
  bool want[K];
  std::string sa = a < int(t.size()) ? t[a] : "", sd = d < int(t.size()) ? t[d] : "";
  vx::op("active \"%s\" disabled \"%s\"", sa.c_str(), sd.c_str());
  rules(sa, sd, want);
  for (int round = 0; round < 2; ++round) {
    int i = 0;
    bool seen[K] = {};
    for (auto& e : experiments) {
      seen[int(e.id)] = IsExperimentActive(e.id);
      if (!random) VX_CHECK(seen[int(e.id)] == want[int(e.id)], "%s is %s", std::string(e.name).c_str(), want[int(e.id)] ? "off" : "on");
      else if (e.brittle) VX_CHECK(!seen[int(e.id)], "%s is on", std::string(e.name).c_str());
    }
    WalkExperiments([&](absl::string_view name, bool active) {
      VX_CHECK(i < K && name == experiments[i].name && active == seen[int(experiments[i].id)], "experiment %d of the walk", i);
      ++i;
    });
    VX_CHECK(i == K, "%d experiments walked over", i);
    // later changes make no difference
    setenv("BORG_EXPERIMENTS", "enable-all-known-experiments", 1);
    setenv("BORG_DISABLE_EXPERIMENTS", round ? "all" : "", 1);
    if (random) for (auto& e : experiments) want[int(e.id)] = seen[int(e.id)];
    random = false;
    vx::step(1);
  }
}

int main(int argc, char** argv) {
  vx::Scenario sc[] = {{"lists", lists, 256}, {"pairs", pairs, 64}, {"untold", untold, 8}, {"environment", environment, 1}};
  return vx::explore_main(argc, argv, sc, 4);
}
