// A small property-based testing engine.
//
// Every random decision of a generator is a draw from a recorded choice sequence. A case is a pure function of its
// choice sequence, so a failing case can be shrunk (by editing the sequence) and replayed (by feeding it back), and the
// generator is never an ad hoc RNG. Cases run in forked workers so that an assertion, a sanitizer report, a crash or a
// hang of the code under test is attributed to the case that caused it.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

class gen {
public:
  // Uniform draw in [0, n). n == 0 means the full 64-bit range. 0 is the "simplest" choice.
  uint64_t below(uint64_t n);
  // Uniform in [lo, hi], shrinks towards the value nearest 0 in the range (or lo if near_zero is false).
  int64_t range(int64_t lo, int64_t hi);
  // Like range, but half the time restricted to the `span` values closest to the shrink target.
  bool chance(int num, int den);  // true with probability num/den, shrinks to false
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return l.begin()[below(l.size())];
  }
  template <typename T>
  const T& pick(const std::vector<T>& l) {
    return l[below(l.size())];
  }
  // Index with the given relative weights, shrinks to 0.
  int weighted(std::initializer_list<int> w);
  // 64-bit integer biased to boundary values.
  int64_t interesting64();

  // Classification of the case.
  void classify(const char* label);
  void classify(bool c, const char* label) {
    if (c) classify(label);
  }
  // Marks this case as non-trivial by the target's rule.
  void nontrivial();
  // Work counter (e.g. how many comparisons the oracle made).
  void count(const char* label, int64_t n = 1);

  // Describe the case: only evaluated when the description is wanted.
  bool describing() const { return describing_; }
  std::ostringstream& note() { return note_; }

  // Report a failure of the property: does not return.
  [[noreturn]] void fail(const std::string& msg, const std::string& key = "");
  // This case turned out to be outside the property's domain: does not return to the caller meaningfully; the target
  // must return after calling this.
  void discard();

  // --- engine internals ---
  bool describing_ = false;
  std::ostringstream note_;
};

struct target {
  const char* name;
  void (*fn)(gen&);
  // Number of cases in each tier.
  int64_t quick;
  int64_t thorough;
};

// A switch (a hook in the code under test) that turns one known defect off. A failing case that passes with it on fails
// because of that defect, and gets `key`.
struct attribution {
  const char* key;
  void (*enable)();
};

struct config {
  const char* property;
  const char* level = "exploration";
  const char* rule;
  std::vector<const char*> assumptions;
  std::vector<target> targets;
  // A case that runs longer than this is re-run three times before being called a hang.
  int hang_seconds = 60;
  int jobs = 8;
  // Safety cap on generation time. Hitting it is recorded in the evidence as "inconclusive beyond N cases".
  int quick_cap_s = 240;
  int thorough_cap_s = 3600;
  std::vector<attribution> attributions;
};

int run(int argc, char** argv, const config& c);

}  // namespace pbt

#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
#define PBT_CHECK(g, cond, msg)                                                                                        \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::ostringstream pbt_ss_;                                                                                      \
      pbt_ss_ << msg;                                                                                                  \
      (g).fail(pbt_ss_.str());                                                                                         \
    }                                                                                                                  \
  } while (0)

#endif
