// Small property-based testing engine.
//
// A property "facet" is a function over a choice sequence (pbt::Gen).  Everything random in a case
// (inputs, operation histories, thread schedules, injected faults) is drawn from that sequence, so
// a case is a pure function of it: it can be replayed exactly and shrunk by editing the sequence.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
class Gen
{
public:
  explicit Gen(uint64_t seed, uint64_t size);
  Gen(std::vector<uint64_t> choices, uint64_t size);

  // Uniform in [0, n); n == 0 means the full 64 bit range.  0 is the simplest choice.
  uint64_t Draw(uint64_t n);
  // True with probability num/den; false is the simplest.
  bool Coin(uint64_t num = 1, uint64_t den = 2);
  // lo is the simplest.
  int64_t Range(int64_t lo, int64_t hi);
  template <typename T> const T& Pick(const std::vector<T>& v) { return v[Draw(v.size())]; }
  // Whether to go on with one more element (expected number of elements ~ mean).
  bool More(uint64_t mean) { return Coin(mean, mean + 1); }
  uint64_t Size() const { return m_size; }
  const std::vector<uint64_t>& Recorded() const { return m_rec; }
  bool Replaying() const { return m_replay; }

private:
  uint64_t Next();
  bool m_replay;
  std::vector<uint64_t> m_in;
  std::size_t m_pos = 0;
  uint64_t m_state[2];
  uint64_t m_size;
  std::vector<uint64_t> m_rec;
};

struct Failure : public std::runtime_error
{
  Failure(std::string k, const std::string& msg) : std::runtime_error(msg), key(std::move(k)) {}
  std::string key;
};

class Case
{
public:
  Case(Gen& gen, bool log) : g(gen), logging(log) {}
  Gen& g;
  const bool logging;
  std::ostringstream log;

  // Marks this case as non-trivial according to the facet's rule.
  void NonTrivial() { m_nontrivial = true; }
  void Label(const std::string& l) { m_labels.insert(l); }
  // What identifies the case for the distinct count (default: the choice sequence).
  void Identity(const std::string& id) { m_identity = id; }
  [[noreturn]] void Fail(const std::string& msg) { throw Failure("", msg); }
  [[noreturn]] void FailKey(const std::string& key, const std::string& msg)
  { throw Failure(key, msg); }
  void Check(bool cond, const std::string& msg)
  {
    if (!cond) Fail(msg);
  }

  bool m_nontrivial = false;
  std::set<std::string> m_labels;
  std::string m_identity;
};

// To be used when the process cannot go on (deadlocked threads, corrupted state).
[[noreturn]] void DieFail(const std::string& key, const std::string& msg);

using FacetFn = void (*)(Case&);

struct FacetOpts
{
  uint64_t quick = 1000;      // number of cases, quick tier
  uint64_t thorough = 20000;  // number of cases, thorough tier
  double hang_s = 30.0;       // a single case taking longer than this (wall) is a hang
  int workers = 8;
  double quick_cap_s = 60.0;  // stop generating after this many seconds
  double thorough_cap_s = 300.0;
  std::string rule;
  int confirm_needed = 3;  // out of confirm_runs re-executions of the recorded case
  int confirm_runs = 3;
  bool shrink = true;
};

struct Facet
{
  Facet(const char* prop, const char* name, FacetFn fn, FacetOpts opts);
  std::string prop;
  std::string name;
  FacetFn fn;
  FacetOpts opts;
};

// called once in each forked worker before the first case (e.g. warming up registries)
void SetWorkerInit(void (*fn)());

template <typename... Args> std::string Str(const Args&... args)
{
  std::ostringstream oss;
  (oss << ... << args);
  return oss.str();
}
}  // namespace pbt

#define PLOG(c)       \
  if (!(c).logging) { \
  } else              \
    (c).log

#define PCHECK(c, cond, ...)                                                       \
  do                                                                               \
  {                                                                                \
    if (!(cond)) (c).Fail(pbt::Str("line ", __LINE__, ": [" #cond "] ", __VA_ARGS__)); \
  } while (0)

#endif
