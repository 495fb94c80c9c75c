// Stand-in for the submodule tensor_product_polynomials (absent from this tree): tensor products of
// Legendre polynomials which are orthonormal on [0,1].
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>

namespace TPP
{
namespace ShapeType
{
template <unsigned int poly_deg>
struct Legendre
{
  static constexpr unsigned int n_fun() { return poly_deg + 1; }
  static constexpr unsigned int dim() { return 1; }
  static constexpr unsigned int degree() { return poly_deg; }
  static double val(unsigned int k, double x)
  {
    double t = 2. * x - 1., p0 = 1., p1 = t;
    if (k == 0)
      return 1.;
    for (unsigned int n = 1; n < k; ++n)
    {
      double p2 = ((2. * n + 1.) * t * p1 - n * p0) / (n + 1.);
      p0 = p1;
      p1 = p2;
    }
    return std::sqrt(2. * k + 1.) * p1;
  }
  static double der(unsigned int k, double x)
  {
    // P_n' = (2n-1) P_{n-1} + P_{n-2}'
    double t = 2. * x - 1., s = 0.;
    for (int n = (int)k; n >= 1; n -= 2)
    {
      double p0 = 1., p1 = t, p = 1.;
      if (n - 1 == 1)
        p = t;
      for (int m = 1; m < n - 1; ++m)
      {
        p = ((2. * m + 1.) * t * p1 - m * p0) / (m + 1.);
        p0 = p1;
        p1 = p;
      }
      s += (2. * n - 1.) * p;
    }
    return 2. * std::sqrt(2. * k + 1.) * s;
  }
};
template <typename shape_t, unsigned int dimT>
struct Tensorial
{
  typedef shape_t shape_fun_1d;
  static constexpr unsigned int dim() { return dimT; }
  static constexpr unsigned int n_fun()
  {
    unsigned int n = 1;
    for (unsigned int i = 0; i < dimT; ++i)
      n *= shape_t::n_fun();
    return n;
  }
};
}  // namespace ShapeType

template <typename shape_t>
struct ShapeFunction
{
  typedef shape_t shape_fun_t;
  typedef typename shape_t::shape_fun_1d one;
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int n_fun() { return shape_t::n_fun(); }
  template <typename return_t, typename point_t>
  static return_t fct_val(unsigned int index, const point_t& pt)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      v *= one::val(index % one::n_fun(), pt[d]);
      index /= one::n_fun();
    }
    return (return_t)v;
  }
  template <typename return_t, typename point_t>
  static return_t der_val(unsigned int index, const point_t& pt, unsigned int der_dim)
  {
    double v = 1.;
    for (unsigned int d = 0; d < dim(); ++d)
    {
      v *= d == der_dim ? one::der(index % one::n_fun(), pt[d]) : one::val(index % one::n_fun(), pt[d]);
      index /= one::n_fun();
    }
    return (return_t)v;
  }
  template <typename return_t, typename array_t, typename point_t>
  static return_t lin_comb_fct_val(const array_t& coeffs, const point_t& pt)
  {
    double v = 0.;
    for (unsigned int i = 0; i < coeffs.size(); ++i)
      v += (double)coeffs[i] * fct_val<double>(i, pt);
    return (return_t)v;
  }
};
}  // namespace TPP
