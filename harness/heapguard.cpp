#include "heapguard.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

#include <execinfo.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

// Ends the schedule with a failure, or returns when there is none.
extern "C" void ds_die(const char* what);

namespace hg
{
unsigned char* g_shadow = nullptr;

namespace
{
struct Header
{
  uint64_t size;  // as asked for
  uint64_t state;
};
static_assert(sizeof(Header) == 16, "the header fills one granule");
constexpr uint64_t kLive = 0x11fe11fe11fe11feULL, kFreed = 0xdeaddeaddeaddeadULL;
constexpr unsigned kClasses = 64 + 6;
constexpr std::size_t kLargest = 1024 << 6;

struct Free
{
  Free* next;
};

int g_lock = 0;
struct Lock
{
  Lock()
  {
    while (__atomic_exchange_n(&g_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
  }
  ~Lock() { __atomic_store_n(&g_lock, 0, __ATOMIC_RELEASE); }
};

bool g_off = false;

// One arena for what belongs to a case and one for everything else.  A case starts with a fresh
// arena, so that the order of the addresses, which containers of pointers depend on, is the same
// whenever the case runs.
constexpr std::uintptr_t kCaseBase = kBase + (1ULL << 32), kEnd = kBase + kSize;
constexpr unsigned kQuarantine = 1 << 15;
struct Arena
{
  std::uintptr_t begin, end, next;
  uint64_t live;
  Free* free[kClasses];
  void* quarantine[kQuarantine];
  unsigned pos;
};
Arena g_other{kBase, kCaseBase, kBase, 0, {}, {}, 0};
Arena g_case{kCaseBase, kEnd, kCaseBase, 0, {}, {}, 0};
bool g_in_case = false;

unsigned ClassOf(std::size_t n)
{
  if (n <= 1024) return static_cast<unsigned>((n + 15) / 16) - (n ? 1 : 0);
  unsigned c = 64;
  for (std::size_t s = 2048; s < n; s *= 2) ++c;
  return c;
}
std::size_t SizeOf(unsigned c)
{
  return c < 64 ? (c + 1) * 16 : std::size_t{2048} << (c - 64);
}

void Setup()
{
  void* m = mmap(reinterpret_cast<void*>(kBase), kSize, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap(nullptr, kSize / 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m != reinterpret_cast<void*>(kBase) || s == MAP_FAILED)
  {
    g_off = true;
    return;
  }
  g_shadow = static_cast<unsigned char*>(s);
}

void Mark(const void* p, std::size_t usable, std::size_t cap)
{
  auto* s = g_shadow + ((reinterpret_cast<std::uintptr_t>(p) - kBase) >> 4);
  const std::size_t full = usable / 16;
  memset(s, 16, full);
  if (full * 16 < cap) s[full] = static_cast<unsigned char>(usable % 16);
  if ((full + 1) * 16 < cap) memset(s + full + 1, 0, cap / 16 - full - 1);
}

[[noreturn]] void Report(const char* what, const void* p)
{
  char buf[4096];
  int n = snprintf(buf, sizeof buf, "%s", what);
  void* frames[24];
  const int k = backtrace(frames, 24);
  char** names = backtrace_symbols(frames, k);
  for (int i = 2; i < k && names && n < 3500; ++i)
  {
    const char* b = strrchr(names[i], '/');
    n += snprintf(buf + n, sizeof buf - n, " <- %s", b ? b + 1 : names[i]);
  }
  (void)p;
  ds_die(buf);
  fputs(buf, stderr);
  fputs("\n", stderr);
  abort();
}

void* Allocate(std::size_t n)
{
  if (n > kLargest || g_off) return malloc(n ? n : 1);
  Lock lock;
  if (!g_shadow)
  {
    Setup();
    if (g_off) return malloc(n ? n : 1);
  }
  const unsigned c = ClassOf(n);
  const std::size_t cap = SizeOf(c);
  auto& a = g_in_case ? g_case : g_other;
  Header* h;
  if (a.free[c])
  {
    h = reinterpret_cast<Header*>(a.free[c]) - 1;
    a.free[c] = a.free[c]->next;
  }
  else
  {
    if (a.next + cap + 16 > a.end) return malloc(n ? n : 1);
    h = reinterpret_cast<Header*>(a.next);
    a.next += cap + 16;
  }
  ++a.live;
  h->size = n;
  h->state = kLive;
  void* p = h + 1;
  memset(p, 0xbe, cap);
  Mark(p, n, cap);
  return p;
}

void Release(void* p)
{
  if (!p) return;
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if (a - kBase >= kSize || !g_shadow)
  {
    free(p);
    return;
  }
  const char* bad = nullptr;
  {
    Lock lock;
    auto* h = static_cast<Header*>(p) - 1;
    if ((a & 15) || h->state != kLive)
      bad = (a & 15) == 0 && h->state == kFreed ? "memory is freed twice" : "memory is freed that was not allocated";
    else
    {
      const std::size_t cap = SizeOf(ClassOf(h->size));
      h->state = kFreed;
      memset(p, 0xdd, cap);
      Mark(p, 0, cap);
      if (a >= kCaseBase && a < g_case.begin) return;  // of an earlier case
      auto& ar = a >= kCaseBase ? g_case : g_other;
      --ar.live;
      void* old = ar.quarantine[ar.pos];
      ar.quarantine[ar.pos] = p;
      ar.pos = (ar.pos + 1) % kQuarantine;
      if (old)
      {
        const unsigned c = ClassOf((static_cast<Header*>(old) - 1)->size);
        auto* f = static_cast<Free*>(old);
        f->next = ar.free[c];
        ar.free[c] = f;
      }
    }
  }
  if (bad) Report(bad, p);
}
}  // namespace

void Bad(const void* p, unsigned long, bool write)
{
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  bool freed = false;
  // the header of the block
  for (std::uintptr_t h = a & ~std::uintptr_t{15}; h >= kBase && a - h < kLargest; h -= 16)
  {
    const auto s = reinterpret_cast<Header*>(h)->state;
    if (s == kFreed || s == kLive)
    {
      freed = s == kFreed;
      break;
    }
  }
  Report(freed ? (write ? "freed memory is written" : "freed memory is read")
               : (write ? "memory outside of a block is written" : "memory outside of a block is read"),
         p);
}

void BadRange(const void* p, unsigned long n, bool write)
{
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  for (std::uintptr_t x = a; x < a + n && x - kBase < kSize; x = (x | 15) + 1)
  {
    const std::uintptr_t end = a + n < (x | 15) + 1 ? a + n : (x | 15) + 1;
    if ((x & 15) + (end - x) > g_shadow[(x - kBase) >> 4]) Bad(reinterpret_cast<void*>(x), n, write);
  }
}
}  // namespace hg

extern "C" void hg_case_begin()
{
  using namespace hg;
  if (!g_shadow) return;
  Lock lock;
  if (g_case.live == 0)
  {
    memset(g_shadow + ((g_case.begin - kBase) >> 4), 0, (g_case.next - g_case.begin) >> 4);
    g_case.next = g_case.begin;
  }
  else
    g_case.begin = g_case.next;  // something stays
  memset(g_case.free, 0, sizeof g_case.free);
  memset(g_case.quarantine, 0, sizeof g_case.quarantine);
  g_case.pos = 0;
  g_case.live = 0;
  g_in_case = true;
}
extern "C" void hg_case_end() { hg::g_in_case = false; }

void* operator new(std::size_t n)
{
  void* p = hg::Allocate(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return hg::Allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return hg::Allocate(n); }
void operator delete(void* p) noexcept { hg::Release(p); }
void operator delete[](void* p) noexcept { hg::Release(p); }
void operator delete(void* p, std::size_t) noexcept { hg::Release(p); }
void operator delete[](void* p, std::size_t) noexcept { hg::Release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { hg::Release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { hg::Release(p); }
