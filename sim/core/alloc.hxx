// Allocation seam: replaces global operator new/delete. Inside an armed section the n-th allocation
// throws std::bad_alloc; live allocations are counted. Include in exactly one translation unit.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <new>

#include "core/simcore.hxx"

namespace allocsim
{
inline long fail_at = -1;     // < 0: off; 0: the next allocation of the armed section fails
inline long seen = 0;         // allocations in armed sections
inline long fired = 0;
inline long live = 0;         // allocations minus deallocations, everywhere
inline long live_armed = 0;   // the same, of blocks allocated inside armed sections
inline bool poison = false;   // fill fresh and freed memory with a pattern
inline unsigned char pattern = 0xA5;
inline long max_bytes = 1l << 30;
inline void* get(std::size_t n)
{
  if (armed)
  {
    ++seen;
    if (fail_at >= 0 && fail_at-- == 0)
    {
      ++fired;
      throw std::bad_alloc();
    }
  }
  if (n > (std::size_t)max_bytes)
    throw std::bad_alloc();
  char* p = (char*)std::malloc(n + 32);
  if (!p)
    throw std::bad_alloc();
  *(std::size_t*)p = n;
  __builtin_memset(p + 8, 0x5C, 8);
  p[8] = armed ? 0x5D : 0x5C;
  live_armed += armed;
  if (poison)
    __builtin_memset(p + 16, pattern, n);
  __builtin_memset(p + 16 + n, 0x5C, 16);
  ++live;
  return p + 16;
}
inline void die(const char* what)
{
  fprintf(stderr, "allocation seam: %s\n", what);
  abort();
}
inline void put(void* q)
{
  if (!q)
    return;
  char* p = (char*)q - 16;
  std::size_t n = *(std::size_t*)p;
  for (int i = 8; i < 16; ++i)
    if (p[i] != 0x5C && !(i == 8 && p[i] == 0x5D))
      die("block freed twice or damaged in front of it");
  for (int i = 0; i < 16; ++i)
    if (p[16 + n + i] != 0x5C)
      die("write past the end of a block");
  --live;
  live_armed -= p[8] == 0x5D;
  if (poison)
    __builtin_memset(q, 0xDD, n);
  __builtin_memset(p + 8, 0xDD, 8);
  std::free(p);
}
/// Arm for one library call; nth < 0 just counts.
struct Section
{
  explicit Section(long nth)
  {
    fail_at = nth;
    armed = true;
  }
  ~Section()
  {
    armed = false;
    fail_at = -1;
  }
};
}  // namespace allocsim
#ifndef ALLOC_NO_OPERATORS
void* operator new(std::size_t n) { return allocsim::get(n); }
void* operator new[](std::size_t n) { return allocsim::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
  try
  {
    return allocsim::get(n);
  }
  catch (...)
  {
    return nullptr;
  }
}
void operator delete(void* p) noexcept { allocsim::put(p); }
void operator delete[](void* p) noexcept { allocsim::put(p); }
void operator delete(void* p, std::size_t) noexcept { allocsim::put(p); }
void operator delete[](void* p, std::size_t) noexcept { allocsim::put(p); }
#endif
