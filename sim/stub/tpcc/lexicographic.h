// Stand-in for the submodule TPCC (tensor product chain complexes), which is not part of the checkout:
// k-dimensional faces of a lexicographically numbered n-dimensional grid.
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdlib>

namespace TPCC
{
enum class boundaries
{
  both,   // faces on the boundary of the grid belong to the complex
  none    // only faces in its interior do
};
template <typename T>
constexpr T binomial(T n, T k)
{
  T r = 1;
  for (T i = 0; i < k; ++i)
    r = r * (n - i) / (i + 1);
  return k > n ? 0 : r;
}
/// A k-dimensional face: the directions it extends along (bit mask) and its lowest corner.
template <unsigned n, unsigned k, typename Sint = unsigned, typename Tint = unsigned>
class Element
{
  template <unsigned, unsigned, typename, typename>
  friend class Element;
  unsigned mask_ = 0;
  std::array<Sint, n> at_{};

 public:
  static constexpr unsigned n_val = n, k_val = k;
  Element() = default;
  Element(unsigned mask, const std::array<Sint, n>& at) : mask_(mask), at_(at) {}
  static constexpr unsigned n_facets() { return 2 * k; }
  unsigned mask() const { return mask_; }
  const std::array<Sint, n>& at() const { return at_; }
  Tint along_direction(unsigned i) const { return nth(i, true); }
  Tint across_direction(unsigned i) const { return nth(i, false); }
  Sint along_coordinate(unsigned i) const { return at_[nth(i, true)]; }
  Sint across_coordinate(unsigned i) const { return at_[nth(i, false)]; }
  unsigned direction_index() const { return rank(mask_); }
  /// Facet 2 * i lies at the lower, facet 2 * i + 1 at the upper end of the i-th direction.
  auto facet(unsigned i) const
  {
    if constexpr (k == 0)
      return *this;
    else
    {
      unsigned d = nth(i / 2, true);
      auto at = at_;
      at[d] += i % 2;
      return Element<n, k - 1, Sint, Tint>(mask_ & ~(1u << d), at);
    }
  }
  /// Number of the direction set among all sets with as many directions.
  static unsigned rank(unsigned mask)
  {
    unsigned r = 0;
    for (unsigned m = 0; m < mask; ++m)
      r += __builtin_popcount(m) == __builtin_popcount(mask);
    return r;
  }

 private:
  unsigned nth(unsigned i, bool along) const
  {
    for (unsigned d = 0; d < n; ++d)
      if (((mask_ >> d) & 1u) == (along ? 1u : 0u) && i-- == 0)
        return d;
    abort();
  }
};
template <unsigned n, unsigned k, boundaries bnd, typename Bint = unsigned, typename Sint = unsigned, typename Tint = unsigned>
class Lexicographic
{
  std::array<Bint, n> cells_{};
  /// Number of positions of a face in one direction.
  Bint extent(unsigned mask, unsigned d) const
  {
    if ((mask >> d) & 1u)
      return cells_[d];
    return bnd == boundaries::both ? cells_[d] + 1 : cells_[d] == 0 ? 0 : cells_[d] - 1;
  }
  Bint block(unsigned mask) const
  {
    Bint r = 1;
    for (unsigned d = 0; d < n; ++d)
      r *= extent(mask, d);
    return r;
  }
  static Sint first(unsigned mask, unsigned d) { return ((mask >> d) & 1u) || bnd == boundaries::both ? 0 : 1; }

 public:
  Lexicographic() = default;
  template <typename array_t>
  explicit Lexicographic(const array_t& cells)
  {
    for (unsigned d = 0; d < n; ++d)
      cells_[d] = (Bint)cells[d];
  }
  template <boundaries b>
  auto boundary() const
  {
    return Lexicographic<n, k - 1, b, Bint, Sint, Tint>(cells_);
  }
  Bint size() const
  {
    Bint r = 0;
    for (unsigned m = 0; m < (1u << n); ++m)
      if (__builtin_popcount(m) == (int)k)
        r += block(m);
    return r;
  }
  Element<n, k, Sint, Tint> operator[](Bint i) const
  {
    for (unsigned m = 0; m < (1u << n); ++m)
      if (__builtin_popcount(m) == (int)k)
      {
        if (i < block(m))
        {
          std::array<Sint, n> at{};
          for (unsigned d = 0; d < n; ++d)
          {
            at[d] = (Sint)(i % extent(m, d)) + first(m, d);
            i /= extent(m, d);
          }
          return Element<n, k, Sint, Tint>(m, at);
        }
        i -= block(m);
      }
    abort();
  }
  Bint index(const Element<n, k, Sint, Tint>& e) const
  {
    Bint r = 0, f = 1;
    for (unsigned m = 0; m < e.mask(); ++m)
      if (__builtin_popcount(m) == (int)k)
        r += block(m);
    for (unsigned d = 0; d < n; ++d)
    {
      r += f * (e.at()[d] - first(e.mask(), d));
      f *= extent(e.mask(), d);
    }
    return r;
  }
  /// Number among the faces with the same position in the directions they do not extend along.
  Bint index_in_slice(const Element<n, k, Sint, Tint>& e) const
  {
    Bint r = 0, f = 1;
    for (unsigned d = 0; d < n; ++d)
      if ((e.mask() >> d) & 1u)
      {
        r += f * e.at()[d];
        f *= cells_[d];
      }
    return r;
  }
};
}  // namespace TPCC
