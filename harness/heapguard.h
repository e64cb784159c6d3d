// Heap checking for the scheduled builds: operator new and delete are replaced, freed blocks stay
// unused for a while, and every instrumented access is checked against the state of its block.
#ifndef VERIF_HEAPGUARD_H
#define VERIF_HEAPGUARD_H

#include <cstdint>

namespace hg
{
constexpr std::uintptr_t kBase = 0x100000000000ULL;
constexpr std::uintptr_t kSize = 1ULL << 35;
extern unsigned char* g_shadow;  // per 16 bytes: the number of usable bytes

void Bad(const void* addr, unsigned long n, bool write);
void BadRange(const void* addr, unsigned long n, bool write);

inline void Check(const void* p, unsigned n, bool write)
{
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if (a - kBase >= kSize || !g_shadow) return;
  if ((a & 15) + n <= g_shadow[(a - kBase) >> 4]) return;
  BadRange(p, n, write);
}

inline void CheckRange(const void* p, unsigned long n, bool write)
{
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if (n == 0 || a - kBase >= kSize || !g_shadow) return;
  BadRange(p, n, write);
}
}  // namespace hg
#endif
