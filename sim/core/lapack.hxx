// LAPACK seam: interposes the routines the library calls; the n-th call of an armed section reports failure
// and leaves garbage behind. Include in exactly one translation unit, link the real library dynamically.
#pragma once
#include <dlfcn.h>

#include "core/simcore.hxx"
namespace lap
{
static long fail_at = -1;  // library call (within the section) that reports failure
static int fail_info = 1;
static bool garbage = true;
static long calls = 0, failures = 0, injected = 0;
static int depth = 0;
template <typename F>
F real(const char* n)
{
  F f = (F)dlsym(RTLD_NEXT, n);
  if (!f)
    _exit(95);
  return f;
}
struct Enter
{
  bool outer = depth++ == 0;
  bool hit = false;
  Enter()
  {
    if (outer)
    {
      ++calls;
      if (fail_at >= 0 && fail_at-- == 0)
        hit = true;
    }
  }
  ~Enter() { --depth; }
  template <typename T>
  void done(int* info, T* out, long n)
  {
    if (!outer)
      return;
    if (hit)
    {
      ++injected;
      if (garbage)
        for (long i = 0; i < n; ++i)
          out[i] = (T)(1000 + 7 * i);
      *info = fail_info;
    }
    if (*info != 0)
      ++failures;
  }
};
}  // namespace lap
extern "C"
{
#define GESV(name, T)                                                                                    \
  void name(int* n, int* nrhs, T* a, int* lda, int* ipiv, T* b, int* ldb, int* info)                     \
  {                                                                                                      \
    static auto f = lap::real<void (*)(int*, int*, T*, int*, int*, T*, int*, int*)>(#name);              \
    allocsim::Pause pause;                                                                               \
    lap::Enter e;                                                                                        \
    f(n, nrhs, a, lda, ipiv, b, ldb, info);                                                              \
    e.done(info, b, (long)*n * *nrhs);                                                                   \
  }
#define GETRF(name, T)                                                                                   \
  void name(int* m, int* n, T* a, int* lda, int* ipiv, int* info)                                        \
  {                                                                                                      \
    static auto f = lap::real<void (*)(int*, int*, T*, int*, int*, int*)>(#name);                        \
    allocsim::Pause pause;                                                                               \
    lap::Enter e;                                                                                        \
    f(m, n, a, lda, ipiv, info);                                                                         \
    e.done(info, a, (long)*m * *n);                                                                      \
  }
#define GETRS(name, T)                                                                                   \
  void name(char* c, int* n, int* nrhs, T* a, int* lda, int* ipiv, T* b, int* ldb, int* info)            \
  {                                                                                                      \
    static auto f = lap::real<void (*)(char*, int*, int*, T*, int*, int*, T*, int*, int*)>(#name);       \
    allocsim::Pause pause;                                                                               \
    lap::Enter e;                                                                                        \
    f(c, n, nrhs, a, lda, ipiv, b, ldb, info);                                                           \
    e.done(info, b, (long)*n * *nrhs);                                                                   \
  }
#define GEQR2(name, T)                                                                                   \
  void name(int* m, int* n, T* a, int* lda, T* tau, T* work, int* info)                                  \
  {                                                                                                      \
    static auto f = lap::real<void (*)(int*, int*, T*, int*, T*, T*, int*)>(#name);                      \
    allocsim::Pause pause;                                                                               \
    lap::Enter e;                                                                                        \
    f(m, n, a, lda, tau, work, info);                                                                    \
    e.done(info, a, (long)*m * *n);                                                                      \
  }
#define GEQRF(name, T)                                                                                   \
  void name(int* m, int* n, T* a, int* lda, T* tau, T* work, int* lwork, int* info)                      \
  {                                                                                                      \
    static auto f = lap::real<void (*)(int*, int*, T*, int*, T*, T*, int*, int*)>(#name);                \
    allocsim::Pause pause;                                                                               \
    lap::Enter e;                                                                                        \
    f(m, n, a, lda, tau, work, lwork, info);                                                             \
    e.done(info, a, (long)*m * *n);                                                                      \
  }
GEQRF(dgeqrf_, double)
GEQRF(sgeqrf_, float)
}
namespace Wrapper
{
extern "C"
{
GESV(dgesv_, double)
GESV(sgesv_, float)
GETRF(dgetrf_, double)
GETRF(sgetrf_, float)
GETRS(dgetrs_, double)
GETRS(sgetrs_, float)
GEQR2(dgeqr2_, double)
GEQR2(sgeqr2_, float)
}
}  // namespace Wrapper

