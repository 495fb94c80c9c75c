// Stand-in for the TPCC submodule (absent from this tree).  It implements the documented interface
// of the tensor product chain complex: the k-dimensional cells of a Cartesian grid with
// sizes[0] x ... x sizes[n-1] cells, enumerated orientation by orientation and lexicographically
// within one orientation.
#pragma once
#include <array>
#include <cstddef>
#include <cstdlib>
#include <vector>

namespace TPCC
{
template <typename T>
constexpr T binomial(T n, T k)
{
  if (k > n)
    return 0;
  T r = 1;
  for (T i = 0; i < k; ++i)
    r = r * (n - i) / (i + 1);
  return r;
}
enum class boundaries
{
  both,
  none
};
// pos[d]: cell number in direction d if the element extends in d, grid line number otherwise.
template <int n, int k, typename Sint, typename Tint>
class Element
{
 public:
  static constexpr int n_val = n, k_val = k;
  std::array<bool, n> ext{};
  std::array<Sint, n> pos{};
  static constexpr unsigned int n_facets() { return 2 * k; }
  unsigned int along_direction(unsigned int i) const
  {
    for (int d = 0; d < n; ++d)
      if (ext[d] && i-- == 0)
        return d;
    std::abort();
  }
  unsigned int across_direction(unsigned int i) const
  {
    for (int d = 0; d < n; ++d)
      if (!ext[d] && i-- == 0)
        return d;
    std::abort();
  }
  Sint along_coordinate(unsigned int i) const { return pos[along_direction(i)]; }
  Sint across_coordinate(unsigned int i) const { return pos[across_direction(i)]; }
  unsigned int direction_index() const
  {
    unsigned int idx = 0;
    for (const auto& o : orientations())
    {
      if (o == ext)
        return idx;
      ++idx;
    }
    std::abort();
  }
  Element<n, (k > 0 ? k - 1 : 0), Sint, Tint> facet(unsigned int i) const
  {
    Element<n, (k > 0 ? k - 1 : 0), Sint, Tint> f;
    unsigned int d = along_direction(i / 2);
    f.ext = ext;
    f.pos = pos;
    f.ext[d] = false;
    f.pos[d] += i % 2;
    return f;
  }
  // All ways of choosing k of n directions, in a fixed order.
  static std::vector<std::array<bool, n>> orientations()
  {
    std::vector<std::array<bool, n>> r;
    for (unsigned int m = 0; m < (1u << n); ++m)
      if (__builtin_popcount(m) == k)
      {
        std::array<bool, n> e{};
        for (int d = 0; d < n; ++d)
          e[d] = m >> d & 1;
        r.push_back(e);
      }
    return r;
  }
};
template <int n, int k, boundaries bnd, typename Bint, typename Sint, typename Tint>
class Lexicographic
{
  std::array<Bint, n> sizes{};
  Bint lines(int d, bool along) const
  {
    if (along)
      return sizes[d];
    return bnd == boundaries::both ? sizes[d] + 1 : (sizes[d] > 0 ? sizes[d] - 1 : 0);
  }
  static constexpr Bint shift() { return bnd == boundaries::both ? 0 : 1; }
  Bint block(const std::array<bool, n>& e) const
  {
    Bint r = 1;
    for (int d = 0; d < n; ++d)
      r *= lines(d, e[d]);
    return r;
  }

 public:
  typedef Element<n, k, Sint, Tint> value_type;
  Lexicographic() = default;
  explicit Lexicographic(const std::array<Bint, n>& s) : sizes(s) {}
  template <typename Other>
  explicit Lexicographic(const std::array<Other, n>& s)
  {
    for (int d = 0; d < n; ++d)
      sizes[d] = s[d];
  }
  Bint size() const
  {
    Bint r = 0;
    for (const auto& e : value_type::orientations())
      r += block(e);
    return r;
  }
  value_type operator[](Bint index) const
  {
    for (const auto& e : value_type::orientations())
    {
      Bint b = block(e);
      if (index >= b)
      {
        index -= b;
        continue;
      }
      value_type el;
      el.ext = e;
      for (int d = 0; d < n; ++d)
      {
        Bint m = lines(d, e[d]);
        el.pos[d] = index % m + (e[d] ? 0 : shift());
        index /= m;
      }
      return el;
    }
    std::abort();
  }
  Bint index(const value_type& el) const
  {
    Bint off = 0;
    for (const auto& e : value_type::orientations())
    {
      if (e == el.ext)
        break;
      off += block(e);
    }
    Bint r = 0, m = 1;
    for (int d = 0; d < n; ++d)
    {
      r += (el.pos[d] - (el.ext[d] ? 0 : shift())) * m;
      m *= lines(d, el.ext[d]);
    }
    return off + r;
  }
  Bint index_in_slice(const value_type& el) const
  {
    Bint r = 0, m = 1;
    for (int d = 0; d < n; ++d)
      if (el.ext[d])
      {
        r += el.pos[d] * m;
        m *= sizes[d];
      }
    return r;
  }
  template <boundaries b>
  Lexicographic<n, (k > 0 ? k - 1 : 0), b, Bint, Sint, Tint> boundary() const
  {
    return Lexicographic<n, (k > 0 ? k - 1 : 0), b, Bint, Sint, Tint>(sizes);
  }
};
}  // namespace TPCC
