// Cases of a check, their counters, and how a case reports what it found.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>

namespace suite
{
  struct Ctx
  {
    std::string name;
    bool thorough = false;
    std::string only;             // replay: restrict the case to this item (its description)
    uint64_t states = 0, transitions = 0, traces = 0;
    std::map<std::string, uint64_t> extra;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> seen; // distinct states
    uint64_t nviol = 0;
    int max_viol = 3;
    // an item: a single explored execution; gives the watchdog its starting point and names it in case of a crash.
    // returns false if it is to be skipped (replay of another item)
    bool item(const std::string &what);
    void state(const void *p, size_t n);
    void state(const std::vector<double> &v) { state(v.data(), v.size() * sizeof(double)); }
    void step(uint64_t n = 1) { transitions += n; }
    void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }
    // report a violation; key identifies the failing input or call site for the list of known findings
    void viol(const std::string &key, const std::string &what);
    bool enough() const { return nviol >= (uint64_t)max_viol; }
    std::string cur;
    std::set<std::string> known_hit; // (listed findings do not count as violations)
  };
  typedef std::function<void(Ctx &)> Fn;
  struct Reg { Reg(const std::string &name, int cost, Fn f); }; // cost: larger runs first
  std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
  std::string show(const std::vector<double> &v, size_t max = 40);
}
#define SUITE_CAT2(a, b) a##b
#define SUITE_CAT(a, b) SUITE_CAT2(a, b)
#define CASE(name, cost, ...) static suite::Reg SUITE_CAT(reg_, __COUNTER__)(name, cost, __VA_ARGS__)
