// What the scheduled and the ThreadSanitizer variants of a concurrent check share.
#ifndef VERIF_CONC_H_
#define VERIF_CONC_H_

#include "pbt.h"

#include <chrono>
#include <functional>
#include <limits>
#include <string>
#include <thread>

#ifdef VERIF_SCHED
#include "detsched.h"
#define CONC_FACET(prop, name, fn, opts) static pbt::Facet facet_##fn(prop, name "-sched", fn, conc::Sched(opts))
#else
#define CONC_FACET(prop, name, fn, opts) static pbt::Facet facet_##fn(prop, name "-stress", fn, conc::Stress(opts))
#endif

namespace conc
{
inline pbt::FacetOpts Opts(uint64_t quick, uint64_t thorough, const char* rule, double quick_cap = 15, double thorough_cap = 240)
{
  pbt::FacetOpts o;
  o.quick = quick;
  o.thorough = thorough;
  o.rule = rule;
  o.quick_cap_s = quick_cap;
  o.thorough_cap_s = thorough_cap;
  o.hang_s = 40;
  return o;
}
inline pbt::FacetOpts Sched(pbt::FacetOpts o) { return o; }
inline pbt::FacetOpts Stress(pbt::FacetOpts o)
{
  o.quick = o.quick / 20 + 1;
  o.thorough = o.thorough / 20 + 1;
  o.workers = 3;
  o.confirm_needed = 2;
  o.confirm_runs = 8;
  o.shrink = false;
  o.hang_s = 20;
  return o;
}

#ifdef VERIF_SCHED
inline void SleepMs(uint64_t ms) { ds::SleepNs(ms * 1000000ull); }
inline void Yield() { ds::Yield(); }
inline uint64_t NowMs() { return ds::NowNs() / 1000000ull; }
inline void Note(const std::string& s) { ds::Note(s); }
using Quiet = ds::Quiet;
inline pbt::Case*& Current();
inline void Run(pbt::Case& c, const std::function<void()>& body, bool time_jumps = false, uint64_t steps = 400000)
{
  Current() = &c;
  ds::Options o;
  o.time_jumps = time_jumps;
  o.max_steps = steps;
  ds::Run(c, o, body);
}
constexpr bool kSched = true;
#else
// Real time, scaled down.
inline void SleepMs(uint64_t ms) { std::this_thread::sleep_for(std::chrono::microseconds(ms * 20)); }
inline void Yield() { std::this_thread::yield(); }
inline uint64_t NowMs()
{
  return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() / 20;
}
inline void Note(const std::string&) {}
struct Quiet
{
  Quiet() {}
  ~Quiet() {}
};
inline pbt::Case*& Current();
inline void Run(pbt::Case& c, const std::function<void()>& body, bool = false, uint64_t = 0)
{
  Current() = &c;
  body();
}
constexpr bool kSched = false;
#endif

// Numbers of seconds for "as long as it takes": more than usual clocks can express.
constexpr double kHuge[] = {4e9, 9.2e9, 1e10, 1e13, 2e19, 1e300, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity()};
constexpr int kHuges = sizeof kHuge / sizeof *kHuge;

// A failure seen by any thread: ends the process, as the other threads cannot be stopped.
inline pbt::Case*& Current()
{
  static pbt::Case* c = nullptr;
  return c;
}
[[noreturn]] inline void Die(const std::string& msg)
{
  Quiet quiet;
  if (Current() && Current()->logging) std::fputs(Current()->log.str().c_str(), stdout);
  std::fflush(stdout);
  pbt::DieFail("", msg);
}
}  // namespace conc
#endif
