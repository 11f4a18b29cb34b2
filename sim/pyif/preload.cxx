// Preloaded into the simulated Python processes: problem data, failing LAPACK calls and failing allocations as planned.
#include <cmath>
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <stdexcept>
#include <system_error>
static long n_data = 0, data_at = -1, n_lapack = 0, lapack_at = -1, n_alloc = 0, alloc_at = -1, alloc_later = -1, live = 0, fired = 0;
static int data_kind = 0;
static void (*callback)() = nullptr;
struct Odd {};
extern "C"
{
  void sim_callback(void (*f)()) { callback = f; }
  // kind 0-6: exceptions of the problem data, 7: call back, 8: LAPACK, 9: allocation, 11: allocation after the first
  // use of the problem data (conversions of arguments are Cython's own code and do not survive failing allocations)
  void sim_arm(int kind, long at)
  {
    n_data = n_lapack = n_alloc = fired = 0;
    data_at = lapack_at = alloc_at = alloc_later = -1;
    if (kind >= 0 && kind <= 7)
      data_kind = kind, data_at = at;
    else if (kind == 8)
      lapack_at = at;
    else if (kind == 9)
      alloc_at = at;
    else if (kind == 11)
      alloc_later = at;
  }
  long sim_fired() { return fired; }
  long sim_count() { return n_data; }
  long sim_live() { return live; }
  double sim_data(int tag, const double* x, int dim, double t)
  {
    if (alloc_later >= 0)
      alloc_at = n_alloc + alloc_later, alloc_later = -1;
    if (n_data++ == data_at)
    {
      data_at = -1;
      ++fired;
      switch (data_kind)
      {
        case 0: throw std::runtime_error("simulated failure of the problem data");
        case 1: throw std::bad_alloc();
        case 2: throw std::out_of_range("simulated index out of range");
        case 3: throw std::domain_error("simulated domain error");
        case 4: throw Odd();
        case 5: throw std::system_error(std::make_error_code(std::errc::io_error), "simulated input failure");
        case 6: throw 17;
        case 7: if (callback) callback();
      }
    }
    double s = .3 * tag + .7 * t;
    for (int d = 0; d < dim; ++d)
      s += (1. + .4 * d) * x[d];
    double r = .5 + .5 * sin(s);
    return tag < 2 ? r * r : r;
  }
  typedef void (*gesv_t)(int*, int*, double*, int*, int*, double*, int*, int*);
  void dgesv_(int* n, int* m, double* a, int* lda, int* p, double* b, int* ldb, int* info)
  {
    static gesv_t real = (gesv_t)dlsym(RTLD_NEXT, "dgesv_");
    if (n_lapack++ == lapack_at)
    {
      lapack_at = -1;
      ++fired;
      *info = 1;
      return;
    }
    if (!real)
      real = (gesv_t)dlsym(dlopen("liblapack.so.3", RTLD_NOW | RTLD_LOCAL), "dgesv_");
    real(n, m, a, lda, p, b, ldb, info);
  }
}
void* operator new(std::size_t n)
{
  if (n_alloc++ == alloc_at)
  {
    alloc_at = -1;
    ++fired;
    throw std::bad_alloc();
  }
  if (n > (1ul << 30))  // the simulated machine has no more memory
    throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  live += malloc_usable_size(p);
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
  if (p)
    live -= malloc_usable_size(p);
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
