#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <unordered_set>

#include <execinfo.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

// Only with heapguard.cpp.
extern "C" void hg_case_begin() __attribute__((weak));
extern "C" void hg_case_end() __attribute__((weak));

namespace pbt
{
namespace
{
// Direct system call: std::chrono may be replaced by a virtual clock in this process.
double Now()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void RealSleepMs(long ms)
{
  struct timespec ts{ms / 1000, (ms % 1000) * 1000000L};
  syscall(SYS_nanosleep, &ts, nullptr);
}

uint64_t SplitMix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

uint64_t HashStr(const std::string& s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
  {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

uint64_t HashVec(const std::vector<uint64_t>& v)
{
  uint64_t h = 0x1234567;
  for (auto x : v)
  {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    uint64_t t = h;
    h = SplitMix(t);
  }
  return h;
}

std::string JsonStr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    switch (c)
    {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\r': r += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f)
      {
        char buf[8];
        snprintf(buf, sizeof(buf), "\\u%04x", c);
        r += buf;
      }
      else
        r += c;
    }
  }
  return r + "\"";
}

std::vector<Facet*>& Registry()
{
  static std::vector<Facet*> reg;
  return reg;
}

void (*g_worker_init)() = nullptr;

const int kFailExit = 99;
const std::size_t kMsgMax = 8000;

struct WorkerSlot
{
  std::atomic<uint64_t> index;
  std::atomic<uint64_t> evaluations;
  std::atomic<double> started;
  std::atomic<int> done;
  std::atomic<int> failed;  // 1: failure recorded in msg
  char key[256];
  char msg[kMsgMax];
};

WorkerSlot* g_slot = nullptr;  // of this process when it runs cases

std::set<std::string> g_known;

void RecordFailure(const std::string& key, const std::string& msg)
{
  if (!g_slot) return;
  strncpy(g_slot->key, key.c_str(), sizeof(g_slot->key) - 1);
  strncpy(g_slot->msg, msg.c_str(), kMsgMax - 1);
  g_slot->failed = 1;
}

// One case of a history: cases run one after the other in one process, where static or otherwise
// global state of the code under test could carry over from one to the next.
struct Step
{
  std::vector<uint64_t> choices;
  uint64_t size = 1;
  bool seeded = false;  // generated from the seed instead of the choices
  uint64_t seed = 0;
};

Gen MakeGen(const Step& s)
{
  return s.seeded ? Gen(s.seed, s.size) : Gen(s.choices, s.size);
}

std::vector<uint64_t> ReadChoices(const std::string& path, std::string& prop, std::string& facet,
                                  uint64_t& size, std::vector<Step>& before)
{
  // Replay files are line based: "property X", "facet X", any number of "before N a b c ..." or
  // "before_seed SEED N" (cases to run first), "size N", "choices a b c ...", then free text.
  std::ifstream in(path);
  std::string word;
  std::vector<uint64_t> choices;
  std::string line;
  while (std::getline(in, line))
  {
    std::istringstream is(line);
    is >> word;
    if (word == "property") is >> prop;
    else if (word == "facet") is >> facet;
    else if (word == "size") is >> size;
    else if (word == "before")
    {
      Step st;
      is >> st.size;
      uint64_t v;
      while (is >> v) st.choices.push_back(v);
      before.push_back(std::move(st));
    }
    else if (word == "before_seed")
    {
      Step st;
      st.seeded = true;
      is >> st.seed >> st.size;
      before.push_back(std::move(st));
    }
    else if (word == "choices")
    {
      uint64_t v;
      while (is >> v) choices.push_back(v);
      break;
    }
  }
  return choices;
}

struct Outcome
{
  bool failed = false;
  std::string key;
  std::string msg;
  std::string log;
};

// Runs in the current process.
Outcome RunInProcess(Facet& f, Gen& g, bool logging, bool print_log, std::string* log_out,
                     Case** case_out, std::unique_ptr<Case>& holder)
{
  Outcome out;
  if (hg_case_begin) hg_case_begin();
  holder.reset(new Case(g, logging));
  try
  {
    f.fn(*holder);
  }
  catch (const Failure& e)
  {
    out.failed = true;
    out.key = e.key;
    out.msg = e.what();
  }
  catch (const std::exception& e)
  {
    out.failed = true;
    out.msg = std::string("unexpected exception: ") + e.what();
  }
  if (hg_case_end) hg_case_end();
  if (logging) out.log = holder->log.str();
  if (log_out) *log_out = out.log;
  if (print_log) std::cout << out.log;
  if (case_out) *case_out = holder.get();
  return out;
}

void MuteStdout()
{
  int fd = open("/dev/null", O_WRONLY);
  if (fd < 0) return;
  dup2(fd, 1);
  close(fd);
}

// Runs the cases of a history in this process, up to the first failure.
Outcome RunHistory(Facet& f, const std::vector<Step>& before)
{
  for (auto& st : before)
  {
    Gen g = MakeGen(st);
    std::unique_ptr<Case> holder;
    auto o = RunInProcess(f, g, false, false, nullptr, nullptr, holder);
    if (o.failed && !(!o.key.empty() && g_known.count(o.key))) return o;
  }
  return {};
}

// Runs a case, after others, in a forked child; crash and hang are failures.
Outcome RunForked(Facet& f, const Step& last, double timeout, const std::vector<Step>& before = {})
{
  Outcome out;
  void* mem = mmap(nullptr, sizeof(WorkerSlot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                   -1, 0);
  auto* slot = new (mem) WorkerSlot();
  int pfd[2];
  if (pipe(pfd) != 0) abort();
  fflush(stdout);
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(pfd[1], 2);
    MuteStdout();
    close(pfd[0]);
    close(pfd[1]);
    g_slot = slot;
    if (g_worker_init) g_worker_init();
    auto o = RunHistory(f, before);
    if (!o.failed)
    {
      Gen g = MakeGen(last);
      std::unique_ptr<Case> holder;
      o = RunInProcess(f, g, true, false, nullptr, nullptr, holder);
    }
    if (o.failed)
    {
      RecordFailure(o.key, o.msg);
      _exit(kFailExit);
    }
    _exit(0);
  }
  close(pfd[1]);
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  std::string err;
  auto drain = [&]() {
    char buf[4096];
    ssize_t n;
    while ((n = read(pfd[0], buf, sizeof(buf))) > 0)
      if (err.size() < 20000) err.append(buf, n);
  };
  double t0 = Now();
  int status = 0;
  bool hang = false;
  while (true)
  {
    drain();
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (Now() - t0 > timeout)
    {
      hang = true;
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      break;
    }
    struct pollfd p{pfd[0], POLLIN, 0};
    struct timespec ts{0, 1000000};
    (void)p;
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  drain();
  close(pfd[0]);
  if (hang)
  {
    out.failed = true;
    out.msg = Str("hang: case did not terminate within ", timeout, " s (wall)");
  }
  else if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
  {
    out.failed = false;
  }
  else if (slot->failed)
  {
    out.failed = true;
    out.key = slot->key;
    out.msg = slot->msg;
  }
  else
  {
    out.failed = true;
    out.msg = WIFSIGNALED(status) ? Str("crash: signal ", WTERMSIG(status))
                                  : Str("crash: exit code ", WEXITSTATUS(status));
    out.msg += "\n" + err.substr(0, 6000);
  }
  munmap(mem, sizeof(WorkerSlot));
  return out;
}

Outcome RunForked(Facet& f, const std::vector<uint64_t>& choices, uint64_t size, double timeout,
                  const std::vector<Step>& before = {})
{
  Step last;
  last.choices = choices;
  last.size = size;
  return RunForked(f, last, timeout, before);
}

// The failure class: shrinking must not slip into another (known) one.
std::string FailClass(const Outcome& o)
{
  if (!o.key.empty()) return "key:" + o.key;
  if (o.msg.rfind("hang", 0) == 0) return "hang";
  if (o.msg.rfind("crash", 0) == 0) return "crash";
  return "fail";
}

std::vector<uint64_t> Shrink(Facet& f, std::vector<uint64_t> best, uint64_t size, Outcome& best_out,
                             double budget_s, const std::vector<Step>& before = {})
{
  const double t0 = Now();
  const std::string cls = FailClass(best_out);
  const double to = cls == "hang" ? std::min(f.opts.hang_s, 8.0) : f.opts.hang_s;
  int attempts = 0;
  auto expired = [&]() { return Now() - t0 > budget_s || attempts > 3000; };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (expired()) return false;
    ++attempts;
    auto o = RunForked(f, cand, size, to, before);
    if (o.failed && FailClass(o) == cls)
    {
      best = cand;
      best_out = o;
      return true;
    }
    return false;
  };
  // trailing zeros are implied
  auto trim = [&]() {
    while (!best.empty() && best.back() == 0) best.pop_back();
  };
  bool progress = true;
  while (progress && !expired())
  {
    progress = false;
    trim();
    // cut the tail
    for (std::size_t keep = 0; keep < best.size() && !expired();)
    {
      std::vector<uint64_t> cand(best.begin(), best.begin() + keep);
      if (attempt(cand))
      {
        progress = true;
        break;
      }
      keep = keep == 0 ? best.size() / 2 : keep + (best.size() - keep + 1) / 2;
      if (best.size() - keep < 2) break;
    }
    for (std::size_t chunk = std::max<std::size_t>(best.size() / 2, 1); chunk >= 1; chunk /= 2)
    {
      for (std::size_t i = 0; i + chunk <= best.size() && !expired();)
      {
        std::vector<uint64_t> cand(best);
        cand.erase(cand.begin() + i, cand.begin() + i + chunk);
        if (attempt(cand)) progress = true;
        else i += chunk;
      }
      for (std::size_t i = 0; i + chunk <= best.size() && !expired(); i += chunk)
      {
        if (std::all_of(best.begin() + i, best.begin() + i + chunk,
                        [](uint64_t v) { return v == 0; }))
          continue;
        std::vector<uint64_t> cand(best);
        std::fill(cand.begin() + i, cand.begin() + i + chunk, 0);
        if (attempt(cand)) progress = true;
      }
      if (chunk == 1) break;
    }
    for (std::size_t i = 0; i < best.size() && !expired(); ++i)
    {
      while (best[i] > 0 && !expired())
      {
        std::vector<uint64_t> cand(best);
        cand[i] /= 2;
        if (attempt(cand))
        {
          progress = true;
          continue;
        }
        cand = best;
        cand[i] -= 1;
        if (cand[i] < 64 && attempt(cand)) progress = true;
        else break;
      }
    }
  }
  trim();
  return best;
}

struct FacetResult
{
  uint64_t evaluations = 0;
  uint64_t nontrivial_distinct = 0;
  uint64_t flaky = 0;
  uint64_t known = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  double wall = 0;
  bool capped = false;
  std::string violation_replay;
  std::string violation_msg;
  uint64_t planned = 0;
};

struct Config
{
  std::string prop;
  uint64_t seed = 1;
  bool thorough = false;
  std::string out;
  std::string replay_dir = ".";
  std::string only_facet;
  double scale = 1.0;
  std::set<std::string> known;
};

uint64_t CaseSeed(const Config& cfg, const Facet& f, uint64_t idx)
{
  uint64_t s = cfg.seed * 0x9e3779b97f4a7c15ULL ^ HashStr(f.prop + "/" + f.name) ^
               (idx * 0xd1342543de82ef95ULL);
  return SplitMix(s);
}

uint64_t CaseSize(uint64_t idx)
{
  // sizes 1..32 cycling, small ones first
  return 1 + idx % 32;
}

#if !defined(VERIF_ASAN) && !defined(VERIF_TSAN)
extern "C" void OnCrash(int sig)
{
  signal(sig, SIG_DFL);
  void* frames[32];
  backtrace_symbols_fd(frames, backtrace(frames, 32), 2);
  raise(sig);
}
#endif

void ShowCrashes()
{
#if !defined(VERIF_ASAN) && !defined(VERIF_TSAN)
  void* f[2];
  backtrace(f, 2);  // loads what it needs
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, OnCrash);
#endif
}

void WorkerMain(const Config& cfg, Facet& f, WorkerSlot* slot, uint64_t first, uint64_t step,
                uint64_t count, double deadline, const std::string& result_file, bool samples)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_slot = slot;
  ShowCrashes();
  if (g_worker_init) g_worker_init();
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> sample_texts;
  uint64_t evals = 0;
  uint64_t known = 0;
  bool capped = false;
  auto flush = [&]() {
    std::ofstream os(result_file, std::ios::app | std::ios::binary);
    os << "E " << evals << "\nK " << known << "\n";
    if (capped) os << "C 1\n";
    for (auto& [l, n] : labels) os << "L " << n << " " << l << "\n";
    for (auto h : distinct) os << "H " << h << "\n";
    for (auto s : sample_texts)
    {
      std::replace(s.begin(), s.end(), '\n', '\x01');
      os << "S " << s << "\n";
    }
  };
  for (uint64_t idx = first; idx < count; idx += step)
  {
    if (Now() > deadline)
    {
      capped = true;
      break;
    }
    slot->index = idx;
    slot->started = Now();
    Gen g(CaseSeed(cfg, f, idx), CaseSize(idx));
    const bool logging = samples && sample_texts.size() < 2 && idx >= 16;
    std::unique_ptr<Case> holder;
    auto o = RunInProcess(f, g, logging, false, nullptr, nullptr, holder);
    ++evals;
    slot->evaluations = evals;
    if (o.failed)
    {
      if (!o.key.empty() && g_known.count(o.key))
      {
        ++known;
        ++labels["known finding " + o.key];
        continue;
      }
      flush();
      RecordFailure(o.key, o.msg);
      _exit(kFailExit);
    }
    for (auto& l : holder->m_labels) ++labels[l];
    if (holder->m_nontrivial)
      distinct.insert(holder->m_identity.empty() ? HashVec(g.Recorded())
                                                 : HashStr(holder->m_identity));
    if (logging && holder->m_nontrivial)
      sample_texts.push_back(Str("case ", idx, ": ", o.log.substr(0, 3000)));
  }
  slot->started = 0.0;
  slot->done = 1;
  flush();
  _exit(0);
}

void KillAll(std::vector<pid_t>& pids)
{
  for (auto p : pids)
    if (p > 0) kill(p, SIGKILL);
  for (auto p : pids)
    if (p > 0) waitpid(p, nullptr, 0);
  pids.clear();
}

std::vector<uint64_t> RegenerateChoices(const Config& cfg, Facet& f, uint64_t idx)
{
  // The choices are recorded while the case runs, so run it in a child which reports them through
  // shared memory as they are drawn.  Simpler: choices before the modulo are what the generator
  // produces, so produce a long stream of raw values and let the replay reduce them.
  Gen g(CaseSeed(cfg, f, idx), CaseSize(idx));
  std::vector<uint64_t> raw;
  raw.reserve(1 << 16);
  for (int i = 0; i < (1 << 16); ++i) raw.push_back(g.Draw(0));
  return raw;
}

// Reduce raw values to what was really drawn, by running in a forked child writing its record.
std::vector<uint64_t> NormaliseChoices(Facet& f, const std::vector<uint64_t>& raw, uint64_t size);

uint64_t* g_record_mem = nullptr;  // [0] = count, then values
const std::size_t kRecordMax = 1 << 20;

std::vector<uint64_t> NormaliseChoices(Facet& f, const std::vector<uint64_t>& raw, uint64_t size)
{
  const std::size_t bytes = (kRecordMax + 1) * sizeof(uint64_t);
  void* mem = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_record_mem = static_cast<uint64_t*>(mem);
  (void)RunForked(f, raw, size, f.opts.hang_s);
  std::vector<uint64_t> result(g_record_mem + 1, g_record_mem + 1 + g_record_mem[0]);
  g_record_mem = nullptr;
  munmap(mem, bytes);
  return result;
}

// A case failed in a worker but not by itself: it may need what earlier cases of that worker left
// behind in the process.  Finds a short history that makes it fail again, or none.
bool FindHistory(const Config& cfg, Facet& f, uint64_t first, uint64_t step, uint64_t idx,
                 std::vector<Step>& before, Step& last, Outcome& out)
{
  const double t0 = Now();
  const double budget = cfg.thorough ? 240.0 : 90.0;
  auto make = [&](uint64_t i) {
    Step s;
    s.seeded = true;
    s.seed = CaseSeed(cfg, f, i);
    s.size = CaseSize(i);
    return s;
  };
  std::vector<Step> all;
  for (uint64_t i = first; i < idx; i += step) all.push_back(make(i));
  last = make(idx);
  if (all.empty()) return false;
  auto fails = [&](const std::vector<Step>& h, double timeout) {
    auto o = RunForked(f, last, timeout, h);
    if (!o.failed || o.msg.rfind("hang", 0) == 0) return false;
    if (!o.key.empty() && g_known.count(o.key)) return false;
    out = o;
    return true;
  };
  bool found = false;
  for (std::size_t n = 1;; n *= 4)
  {
    n = std::min(n, all.size());
    std::vector<Step> h(all.end() - n, all.end());
    if (fails(h, budget) && fails(h, budget))
    {
      before = h;
      found = true;
      break;
    }
    if (n == all.size() || Now() - t0 > budget) break;
  }
  if (!found) return false;
  for (std::size_t chunk = std::max<std::size_t>(before.size() / 2, 1); chunk >= 1; chunk /= 2)
  {
    for (std::size_t i = 0; i + chunk <= before.size() && Now() - t0 < budget * 2;)
    {
      auto h = before;
      h.erase(h.begin() + i, h.begin() + i + chunk);
      if (fails(h, 30.0)) before = h;
      else i += chunk;
    }
    if (chunk == 1) break;
  }
  return fails(before, 30.0);
}

FacetResult RunFacet(const Config& cfg, Facet& f)
{
  FacetResult res;
  double t0 = Now();
  uint64_t count = cfg.thorough ? f.opts.thorough : f.opts.quick;
  count = std::max<uint64_t>(1, static_cast<uint64_t>(count * cfg.scale));
  res.planned = count;
  double cap = cfg.thorough ? f.opts.thorough_cap_s : f.opts.quick_cap_s;
  double deadline = t0 + cap;
  int nw = std::max<int>(1, std::min<uint64_t>(f.opts.workers, count));
  void* mem = mmap(nullptr, sizeof(WorkerSlot) * nw, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* slots = static_cast<WorkerSlot*>(mem);
  std::vector<std::string> files(nw);
  std::vector<pid_t> pids(nw, 0);
  std::vector<uint64_t> firsts(nw, 0);  // the first case of the process
  const std::string tmp = cfg.out + "." + f.name;
  auto spawn = [&](int w, uint64_t first) {
    new (&slots[w]) WorkerSlot();
    firsts[w] = first;
    files[w] = tmp + "." + std::to_string(w);
    fflush(stdout);
    std::cout.flush();
    pid_t pid = fork();
    if (pid == 0)
    {
      int fd = open((files[w] + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      close(fd);
      MuteStdout();
      WorkerMain(cfg, f, &slots[w], first, nw, count, deadline, files[w], w < 2);
    }
    pids[w] = pid;
  };
  for (int w = 0; w < nw; ++w)
  {
    unlink((tmp + "." + std::to_string(w)).c_str());
    spawn(w, w);
  }
  int alive = nw;
  uint64_t evals_lost = 0;
  while (alive > 0)
  {
    RealSleepMs(10);
    for (int w = 0; w < nw; ++w)
    {
      if (pids[w] == 0) continue;
      int status = 0;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool hang = false;
      if (r == 0)
      {
        double st = slots[w].started;
        if (st > 0 && Now() - st > f.opts.hang_s)
        {
          hang = true;
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
        }
        else
          continue;
      }
      pids[w] = 0;
      if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0)
      {
        --alive;
        continue;
      }
      // failure: confirm by replaying the case in fresh processes
      uint64_t idx = slots[w].index;
      if (slots[w].failed && slots[w].key[0] && g_known.count(slots[w].key))
      {
        ++res.known;
        ++evals_lost;
        spawn(w, idx + nw);
        continue;
      }
      std::string first_msg = slots[w].failed ? slots[w].msg : (hang ? "hang" : WIFSIGNALED(status) ? Str("crash: signal ", WTERMSIG(status)) : Str("crash: exit code ", WEXITSTATUS(status)));
      if (!slots[w].failed)
      {
        std::ifstream in(files[w] + ".err");
        std::stringstream ss;
        ss << in.rdbuf();
        auto err = ss.str();
        if (!err.empty()) first_msg += ": " + err.substr(err.size() > 2000 ? err.size() - 2000 : 0);
      }
      auto raw = RegenerateChoices(cfg, f, idx);
      int confirmed = 0;
      Outcome last;
      for (int k = 0; k < f.opts.confirm_runs && confirmed < f.opts.confirm_needed; ++k)
      {
        if (k > 0 && Now() - t0 > cap + 240) break;
        auto o = RunForked(f, raw, CaseSize(idx), f.opts.hang_s * 2);
        if (o.failed && !(!o.key.empty() && g_known.count(o.key)))
        {
          ++confirmed;
          last = o;
        }
      }
      std::vector<Step> before;
      Step last_step;
      bool history = false;
      if (confirmed == 0 && !hang && Now() - t0 < cap + 120)
        history = FindHistory(cfg, f, firsts[w], nw, idx, before, last_step, last);
      if (confirmed >= f.opts.confirm_needed || history)
      {
        KillAll(pids);
        auto choices = NormaliseChoices(f, raw, CaseSize(idx));
        for (auto& st : before)
        {
          // by its choices, if these do the same
          auto other = before;
          auto& ot = other[&st - before.data()];
          Gen gg = MakeGen(st);
          std::vector<uint64_t> long_raw;
          for (int i = 0; i < (1 << 16); ++i) long_raw.push_back(gg.Draw(0));
          ot.seeded = false;
          ot.choices = NormaliseChoices(f, long_raw, st.size);
          if (other.size() < 20 && RunForked(f, choices, CaseSize(idx), f.opts.hang_s, other).failed) st = ot;
        }
        Outcome out = RunForked(f, choices, CaseSize(idx), f.opts.hang_s, before);
        if (!out.failed)
        {
          choices = raw;
          out = last;
        }
        if (f.opts.shrink)
          choices = Shrink(f, choices, CaseSize(idx), out, cfg.thorough ? 120.0 : 45.0, before);
        if (f.opts.shrink && before.size() == 1 && !before[0].seeded)
        {
          // also the case before
          Step final_step;
          final_step.choices = choices;
          final_step.size = CaseSize(idx);
          const double s0 = Now();
          bool progress = true;
          while (progress && Now() - s0 < 20.0)
          {
            progress = false;
            auto& ch = before[0].choices;
            for (std::size_t chunk = std::max<std::size_t>(ch.size() / 2, 1); chunk >= 1; chunk /= 2)
            {
              for (std::size_t i = 0; i + chunk <= ch.size() && Now() - s0 < 20.0;)
              {
                auto cand = before;
                cand[0].choices.erase(cand[0].choices.begin() + i, cand[0].choices.begin() + i + chunk);
                auto o = RunForked(f, final_step, f.opts.hang_s, cand);
                if (o.failed && FailClass(o) == FailClass(out))
                {
                  ch = cand[0].choices;
                  progress = true;
                }
                else
                  i += chunk;
              }
              if (chunk == 1) break;
            }
          }
        }
        if (!before.empty()) out.msg = Str("after ", before.size(), " earlier case(s) in the same process: ", out.msg);
        std::string path = Str(cfg.replay_dir, "/", f.prop, "-", f.name, "-s", cfg.seed, "-c", idx,
                               ".replay");
        // the log of the minimal case
        std::string logtext;
        {
          const std::string lf = path + ".log";
          pid_t pid = fork();
          if (pid == 0)
          {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 1);
            dup2(fd, 2);
            alarm(static_cast<unsigned>(f.opts.hang_s) + 1);
            if (g_worker_init) g_worker_init();
            for (auto& st : before)
            {
              Gen gb = MakeGen(st);
              std::unique_ptr<Case> hb;
              std::cout << "--- an earlier case:\n";
              (void)RunInProcess(f, gb, true, true, nullptr, nullptr, hb);
            }
            if (!before.empty()) std::cout << "--- the case:\n";
            Gen g(choices, CaseSize(idx));
            std::unique_ptr<Case> holder;
            auto o = RunInProcess(f, g, true, true, nullptr, nullptr, holder);
            std::cout << (o.failed ? "FAILED: " : "ok ") << o.msg << std::endl;
            _exit(0);
          }
          int st;
          waitpid(pid, &st, 0);
          std::ifstream in(lf);
          std::stringstream ss;
          ss << in.rdbuf();
          logtext = ss.str().substr(0, 20000);
          unlink(lf.c_str());
        }
        std::ofstream os(path);
        os << "property " << f.prop << "\nfacet " << f.name;
        for (auto& st : before)
        {
          if (st.seeded)
          {
            os << "\nbefore_seed " << st.seed << " " << st.size;
            continue;
          }
          os << "\nbefore " << st.size;
          for (auto v : st.choices) os << " " << v;
        }
        os << "\nsize " << CaseSize(idx) << "\nchoices";
        for (auto v : choices) os << " " << v;
        os << "\n\nfound: seed " << cfg.seed << " case " << idx << "\nfirst message: " << first_msg
           << "\n\nmessage: " << out.msg << "\n\nlog of the minimal case:\n"
           << logtext << "\n";
        res.violation_replay = path;
        res.violation_msg = out.msg;
        alive = 0;
        break;
      }
      // not reproducible: note it and go on
      ++res.flaky;
      std::cerr << "note: facet " << f.name << " case " << idx << " failed once (" << first_msg
                << ") but only " << confirmed << "/" << f.opts.confirm_runs
                << " re-executions failed; not reported\n";
      if (res.flaky > 20 || Now() - t0 > cap + 240)
      {
        --alive;
        continue;
      }
      spawn(w, idx + nw);
    }
  }
  std::unordered_set<uint64_t> distinct;
  uint64_t evals = evals_lost;
  for (int w = 0; w < nw; ++w)
  {
    std::ifstream in(files[w]);
    std::string line;
    while (std::getline(in, line))
    {
      if (line.size() < 3) continue;
      const std::string rest = line.substr(2);
      switch (line[0])
      {
      case 'E': evals += strtoull(rest.c_str(), nullptr, 10); break;
      case 'K': res.known += strtoull(rest.c_str(), nullptr, 10); break;
      case 'C': res.capped = true; break;
      case 'L':
      {
        auto sp = rest.find(' ');
        res.labels[rest.substr(sp + 1)] += strtoull(rest.c_str(), nullptr, 10);
        break;
      }
      case 'H': distinct.insert(strtoull(rest.c_str(), nullptr, 10)); break;
      case 'S':
      {
        std::string s = rest;
        std::replace(s.begin(), s.end(), '\x01', '\n');
        if (res.samples.size() < 3) res.samples.push_back(s);
        break;
      }
      default: break;
      }
    }
    in.close();
    unlink(files[w].c_str());
    unlink((files[w] + ".err").c_str());
  }
  res.evaluations = evals;
  res.nontrivial_distinct = distinct.size();
  res.wall = Now() - t0;
  munmap(mem, sizeof(WorkerSlot) * nw);
  return res;
}
}  // namespace

void DieFail(const std::string& key, const std::string& msg)
{
  if (g_slot)
  {
    if (!key.empty() && g_known.count(key)) {}
    RecordFailure(key, msg);
  }
  else
  {
    std::cout << "FAILED: " << msg << std::endl;
  }
  _exit(kFailExit);
}

Gen::Gen(uint64_t seed, uint64_t size) : m_replay{false}, m_size{size}
{
  uint64_t s = seed;
  m_state[0] = SplitMix(s);
  m_state[1] = SplitMix(s) | 1;
}

Gen::Gen(std::vector<uint64_t> choices, uint64_t size)
  : m_replay{true}, m_in{std::move(choices)}, m_state{0, 0}, m_size{size}
{}

uint64_t Gen::Next()
{
  if (m_replay) return m_pos < m_in.size() ? m_in[m_pos++] : 0;
  // xoroshiro128+ like
  uint64_t s0 = m_state[0], s1 = m_state[1];
  uint64_t result = s0 + s1;
  s1 ^= s0;
  m_state[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  m_state[1] = (s1 << 37) | (s1 >> 27);
  uint64_t t = result;
  return SplitMix(t);
}

uint64_t Gen::Draw(uint64_t n)
{
  uint64_t v = Next();
  if (n) v %= n;
  m_rec.push_back(v);
  if (g_record_mem && g_record_mem[0] < kRecordMax) g_record_mem[++g_record_mem[0]] = v;
  return v;
}

bool Gen::Coin(uint64_t num, uint64_t den)
{
  return Draw(den) >= den - num;
}

int64_t Gen::Range(int64_t lo, int64_t hi)
{
  return lo + static_cast<int64_t>(Draw(static_cast<uint64_t>(hi - lo) + 1));
}

Facet::Facet(const char* p, const char* n, FacetFn fun, FacetOpts o)
  : prop{p}, name{n}, fn{fun}, opts{std::move(o)}
{
  Registry().push_back(this);
}

void SetWorkerInit(void (*fn)())
{
  g_worker_init = fn;
}
}  // namespace pbt

int main(int argc, char** argv)
{
  using namespace pbt;
  signal(SIGPIPE, SIG_IGN);
  Config cfg;
  std::string replay;
  bool list = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") cfg.prop = val();
    else if (a == "--seed") cfg.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") cfg.thorough = val() == "thorough";
    else if (a == "--out") cfg.out = val();
    else if (a == "--replaydir") cfg.replay_dir = val();
    else if (a == "--facet") cfg.only_facet = val();
    else if (a == "--scale") cfg.scale = atof(val().c_str());
    else if (a == "--known") cfg.known.insert(val());
    else if (a == "--replay") replay = val();
    else if (a == "--list") list = true;
    else
    {
      std::cerr << "unknown option " << a << "\n";
      return 2;
    }
  }
  if (list)
  {
    for (auto* f : Registry()) std::cout << f->prop << " " << f->name << "\n";
    return 0;
  }
  g_known = cfg.known;
  if (!replay.empty())
  {
    std::string prop, facet;
    uint64_t size = 1;
    std::vector<Step> before;
    auto choices = ReadChoices(replay, prop, facet, size, before);
    for (auto* f : Registry())
    {
      if (f->prop != prop || f->name != facet) continue;
      if (g_worker_init) g_worker_init();
      for (auto& st : before)
      {
        Gen gb = MakeGen(st);
        std::unique_ptr<Case> hb;
        std::cout << "--- an earlier case:\n";
        auto ob = RunInProcess(*f, gb, true, true, nullptr, nullptr, hb);
        std::cout << (ob.failed ? "FAILED: " : "ok ") << ob.msg << std::endl;
      }
      if (!before.empty()) std::cout << "--- the case:\n";
      Gen g(choices, size);
      std::unique_ptr<Case> holder;
      auto o = RunInProcess(*f, g, true, true, nullptr, nullptr, holder);
      std::cout << (o.failed ? "FAILED: " : "ok ") << o.msg << std::endl;
      _exit(o.failed ? 1 : 0);
    }
    return 3;  // this binary does not have the facet
  }
  if (cfg.out.empty()) cfg.out = "/tmp/pbt-out.json";
  bool violated = false;
  const double started = Now();
  std::ostringstream js;
  js << "{\"facets\":[";
  bool first = true;
  for (auto* f : Registry())
  {
    if (!cfg.prop.empty() && f->prop != cfg.prop) continue;
    if (!cfg.only_facet.empty() && f->name != cfg.only_facet) continue;
    if (violated && Now() - started > 120) continue;  // one violation decides; do not overrun
    auto r = RunFacet(cfg, *f);
    if (!first) js << ",";
    first = false;
    js << "{\"name\":" << JsonStr(f->name) << ",\"planned\":" << r.planned
       << ",\"evaluations\":" << r.evaluations
       << ",\"distinct_nontrivial\":" << r.nontrivial_distinct << ",\"known\":" << r.known
       << ",\"unreproduced\":" << r.flaky << ",\"capped\":" << (r.capped ? "true" : "false")
       << ",\"wall_s\":" << r.wall << ",\"rule\":" << JsonStr(f->opts.rule) << ",\"labels\":{";
    bool fl = true;
    for (auto& [l, n] : r.labels)
    {
      js << (fl ? "" : ",") << JsonStr(l) << ":" << n;
      fl = false;
    }
    js << "},\"samples\":[";
    for (std::size_t i = 0; i < r.samples.size(); ++i)
      js << (i ? "," : "") << JsonStr(r.samples[i]);
    js << "]";
    if (!r.violation_replay.empty())
    {
      violated = true;
      js << ",\"violation\":" << JsonStr(r.violation_replay)
         << ",\"message\":" << JsonStr(r.violation_msg);
    }
    js << "}";
    std::cerr << "  " << f->prop << "/" << f->name << ": " << r.evaluations << "/" << r.planned
              << " cases, " << r.nontrivial_distinct << " distinct non-trivial, " << r.wall << " s"
              << (r.flaky ? Str(", unreproduced ", r.flaky) : "")
              << (r.violation_replay.empty() ? "" : "  VIOLATED: " + r.violation_msg.substr(0, 600))
              << "\n";
    if (violated) break;
  }
  js << "]}\n";
  std::ofstream(cfg.out) << js.str();
  return violated ? 10 : 0;
}
