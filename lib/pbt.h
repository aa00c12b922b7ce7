// A small property-based testing engine (choice-sequence based, in the style of
// Hypothesis).  A generator draws numbers from a Src; a failing case is the
// sequence of numbers it drew, which is shrunk by deleting / lowering entries
// and re-running.  Every case runs in a forked worker, so that aborts, failed
// assertions and sanitizer reports are ordinary (shrinkable) failures.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

class Src {
 public:
  // Random mode.
  explicit Src(uint64_t seed);
  // Replay mode.
  explicit Src(std::vector<uint64_t> choices);
  // Byte mode (coverage-guided fuzzing).
  Src(const uint8_t* data, size_t size);

  // Uniform in [0, n).  Shrinks towards 0.
  uint64_t draw(uint64_t n);
  int range(int lo, int hi) {  // inclusive; shrinks towards lo.
    return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // True with probability num/den; shrinks towards false.
  bool chance(int num, int den) {
    return draw(den) >= static_cast<uint64_t>(den - num);
  }
  template <typename C>
  const typename C::value_type& pick(const C& c) {
    return c[draw(c.size())];
  }
  // Index weighted by w; shrinks towards index 0.
  int weighted(const std::vector<int>& w);

  const std::vector<uint64_t>& log() const { return log_; }

 private:
  enum class Mode { Random, Replay, Bytes } mode_;
  uint64_t s_[2]{0, 0};
  std::vector<uint64_t> in_;
  size_t pos_{0};
  const uint8_t* data_{nullptr};
  size_t size_{0};
  std::vector<uint64_t> log_;
  uint64_t next();
};

// What a target may report about a case.
class Ctx {
 public:
  // Counts the case in a class of the input distribution.
  void label(const std::string& s) { labels_.insert(s); }
  // Declares the case non-trivial; `key` identifies it for the distinct count.
  void nontrivial(const std::string& key) { nontrivial_ = key; has_nt_ = true; }
  // Human readable form of the case (kept for samples and failure reports).
  void describe(const std::string& s) { desc_ = s; publish(); }
  void add(const std::string& s) {
    desc_ += s;
    publish();
  }
  // Number of elementary oracle comparisons.
  void count(uint64_t n = 1) { comparisons_ += n; }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  void check(bool ok, const std::string& m) {
    ++comparisons_;
    if (!ok) throw Failure{m};
  }
  [[noreturn]] void discard() { throw Discard{}; }

  std::set<std::string> labels_;
  std::string nontrivial_;
  bool has_nt_{false};
  std::string desc_;
  uint64_t comparisons_{0};
  void publish();
};

using TargetFn = std::function<void(Src&, Ctx&)>;
struct Target {
  std::string name;
  std::string property;
  std::string rule;      // How cases are made, and what is non-trivial.
  uint64_t quick_cases;  // Number of cases of the quick tier.
  TargetFn fn;
  bool sharded = true;  // false: run with one worker at a time
};
std::vector<Target>& registry();
struct Reg {
  Reg(Target t) { registry().push_back(std::move(t)); }
};

// A known finding: `still_fails` re-runs the specific recorded input.
struct Known {
  std::string id;
  std::string property;
  std::function<bool(std::string*)> still_fails;
};
std::vector<Known>& knowns();
struct RegKnown {
  RegKnown(Known k) { knowns().push_back(std::move(k)); }
};

// Runs `body` in a process of its own with a CPU limit, for code under test that
// may legitimately take very long.  What it does to the context is kept;
// failures, discards and crashes are passed on.  False: it ran out of time.
// `body` must not draw from the case's Src.
bool limited(Ctx& c, double cpu_seconds, const std::function<void(Ctx&)>& body);

int main_impl(int argc, char** argv);

template <typename... A>
std::string cat(const A&... a) {
  std::ostringstream os;
  os.precision(17);
  using expand = int[];
  (void)expand{0, ((void)(os << a), 0)...};
  return os.str();
}

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TARGET(prop, name, cases, rule)                             \
  static void PBT_CAT(pbt_fn_, name)(pbt::Src & s, pbt::Ctx & c);       \
  static pbt::Reg PBT_CAT(pbt_reg_, name){                              \
      pbt::Target{#name, prop, rule, cases, PBT_CAT(pbt_fn_, name)}};   \
  static void PBT_CAT(pbt_fn_, name)(pbt::Src & s, pbt::Ctx & c)
