// Stand-in for the submodule tensor_product_polynomials (absent from this tree): integrals of
// products of shape functions over the reference cube, over a hyperedge, and over its faces.
// phi: shape functions of the hyperedge, psi: shape functions of a face, nu: unit normal of a face;
// gradients and normals are given in the orthonormal frame of the hyperedge (first columns of Q).
#pragma once
#include <tpp/shape_function/shape_function.hxx>
#include <vector>

namespace TPP
{
namespace Quadrature
{
template <unsigned int max_degree>
struct GaussLegendre
{
  static constexpr unsigned int n_points() { return max_degree / 2 + 1; }
  static const std::array<std::array<double, n_points()>, 2>& rule()
  {
    static const std::array<std::array<double, n_points()>, 2> r = []() {
      std::array<std::array<double, n_points()>, 2> q;
      const unsigned int n = n_points();
      for (unsigned int i = 0; i < n; ++i)
      {
        double x = std::cos(3.14159265358979323846 * (i + 0.75) / (n + 0.5)), dp = 1.;
        for (unsigned int it = 0; it < 100; ++it)
        {
          double p0 = 1., p1 = x;
          for (unsigned int k = 1; k < n; ++k)
          {
            double p2 = ((2. * k + 1.) * x * p1 - k * p0) / (k + 1.);
            p0 = p1;
            p1 = p2;
          }
          dp = n * (x * p1 - p0) / (x * x - 1.);
          double dx = p1 / dp;
          x -= dx;
          if (std::abs(dx) < 1e-16)
            break;
        }
        q[0][i] = (1. - x) / 2.;
        q[1][i] = 1. / ((1. - x * x) * dp * dp);
      }
      return q;
    }();
    return r;
  }
};

template <typename quadrature_t, typename shape_t, typename return_t = double>
class Tensorial
{
 public:
  typedef shape_t shape_fun_t;
  static constexpr unsigned int dim() { return shape_t::dim(); }

 private:
  template <typename, typename, typename>
  friend class Tensorial;
  typedef std::array<double, (dim() > 1 ? dim() : 1)> ref_t;
  typedef typename shape_t::one one;
  template <unsigned int d, typename F>
  static void loop(F f)
  {
    const auto& q = quadrature_t::rule();
    const unsigned int n = quadrature_t::n_points();
    unsigned int total = 1;
    for (unsigned int k = 0; k < d; ++k)
      total *= n;
    for (unsigned int i = 0; i < total; ++i)
    {
      std::array<double, (d > 0 ? d : 1)> pt{};
      double w = 1.;
      unsigned int idx = i;
      for (unsigned int k = 0; k < d; ++k, idx /= n)
        pt[k] = q[0][idx % n], w *= q[1][idx % n];
      f(pt, w);
    }
  }
  // One-dimensional integrals and values in the quadrature points: everything is a tensor product.
  static constexpr unsigned int n1 = one::n_fun();
  static constexpr unsigned int nq = quadrature_t::n_points();
  struct Tables
  {
    double mass[n1][n1], der[n1][n1], end[n1][2], val[n1][nq], dval[n1][nq];
    Tables()
    {
      const auto& q = quadrature_t::rule();
      for (unsigned int a = 0; a < n1; ++a)
      {
        end[a][0] = one::val(a, 0.), end[a][1] = one::val(a, 1.);
        for (unsigned int k = 0; k < nq; ++k)
          val[a][k] = one::val(a, q[0][k]), dval[a][k] = one::der(a, q[0][k]);
      }
      for (unsigned int a = 0; a < n1; ++a)
        for (unsigned int b = 0; b < n1; ++b)
        {
          mass[a][b] = der[a][b] = 0.;
          for (unsigned int k = 0; k < nq; ++k)
            mass[a][b] += q[1][k] * val[a][k] * val[b][k], der[a][b] += q[1][k] * dval[a][k] * val[b][k];
        }
    }
  };
  static const Tables& tab()
  {
    static const Tables t;
    return t;
  }
  // int D_d phi_i phi_j over the reference cube; d = dim(): no derivative
  static double ref_vol(unsigned int i, unsigned int j, unsigned int d)
  {
    double v = 1.;
    for (unsigned int k = 0; k < dim(); ++k, i /= n1, j /= n1)
      v *= k == d ? tab().der[i % n1][j % n1] : tab().mass[i % n1][j % n1];
    return v;
  }
  static double ref_bdr(unsigned int i, unsigned int j, unsigned int bdr, bool face_fun)
  {
    double v = 1.;
    for (unsigned int k = 0; k < dim(); ++k, i /= n1)
      if (k == bdr / 2)
      {
        v *= tab().end[i % n1][bdr % 2];
        if (!face_fun)
          v *= tab().end[j % n1][bdr % 2], j /= n1;
      }
      else
        v *= tab().mass[i % n1][j % n1], j /= n1;
    return v;
  }
  // values and derivatives of all functions in all quadrature points of the cube
  struct Point_
  {
    ref_t pt;
    double w;
    std::array<double, shape_t::n_fun()> phi;
    std::array<std::array<double, dim()>, shape_t::n_fun()> d;
  };
  static Point_ at(const ref_t& pt, double w)
  {
    Point_ r;
    r.pt = pt, r.w = w;
    for (unsigned int i = 0; i < shape_t::n_fun(); ++i)
    {
      r.phi[i] = shape_t::template fct_val<double>(i, pt);
      for (unsigned int k = 0; k < dim(); ++k)
        r.d[i][k] = shape_t::template der_val<double>(i, pt, k);
    }
    return r;
  }
  static const std::vector<Point_>& cube()
  {
    static const std::vector<Point_> all = []() {
      std::vector<Point_> v;
      loop<dim()>([&](const auto& pt, double w) { v.push_back(at(pt, w)); });
      return v;
    }();
    return all;
  }
  // quadrature points of a face; the functions psi of the face
  struct FacePoint : Point_
  {
    std::array<double, shape_t::n_fun() / n1> psi;
  };
  static const std::vector<FacePoint>& side(unsigned int bdr)
  {
    static const std::vector<std::vector<FacePoint>> all = []() {
      std::vector<std::vector<FacePoint>> v(2 * dim());
      for (unsigned int b = 0; b < 2 * dim(); ++b)
        loop<dim() - 1>([&](const auto& fp, double w) {
          ref_t pt{};
          for (unsigned int d = 0, k = 0; d < dim(); ++d)
            pt[d] = d == b / 2 ? (double)(b % 2) : fp[k++];
          FacePoint f;
          static_cast<Point_&>(f) = at(pt, w);
          for (unsigned int j = 0; j < f.psi.size(); ++j)
            f.psi[j] = psi(j, fp);
          v[b].push_back(f);
        });
      return v;
    }();
    return all[bdr];
  }
  template <typename F>
  static double vol(F f)
  {
    double s = 0.;
    for (const Point_& p : cube())
      s += p.w * f(p);
    return s;
  }
  template <typename F>
  static double face(unsigned int bdr, F f)
  {
    double s = 0.;
    for (const FacePoint& p : side(bdr))
      s += p.w * f(p);
    return s;
  }
  template <typename fpt_t>
  static double psi(unsigned int j, const fpt_t& fp)
  {
    double v = 1.;
    for (unsigned int d = 0; d + 1 < dim(); ++d, j /= n1)
      v *= one::val(j % n1, fp[d]);
    return v;
  }
  template <typename geom_t>
  static auto phys(geom_t& geom, const Point_& q)
  {
    SmallVec<dim(), return_t> p;
    for (unsigned int d = 0; d < dim(); ++d)
      p[d] = std::min(std::max(q.pt[d], 0.), 1.);
    return geom.template map_ref_to_phys<1>((const SmallVec<dim(), return_t>&)p);
  }
  // derivatives in the orthonormal frame: R^{-T} times derivatives in the reference cube
  template <typename geom_t, typename array_t>
  static SmallVec<dim(), return_t> frame(const array_t& ref, geom_t& geom)
  {
    const auto& r = geom.mat_r();
    SmallVec<dim(), return_t> g;
    for (unsigned int k = 0; k < dim(); ++k)
    {  // R^T is lower triangular
      double v = ref[k];
      for (unsigned int m = 0; m < k; ++m)
        v -= r(m, k) * g[m];
      g[k] = v / r(k, k);
    }
    return g;
  }
  template <typename geom_t>
  static SmallVec<dim(), return_t> grad(unsigned int i, const Point_& p, geom_t& geom)
  {
    return frame(p.d[i], geom);
  }

 public:
  // ----------------------------------------------------------------- reference cube
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j)
  {
    return ref_vol(i, j, dim());
  }
  static return_t integrate_vol_Dphiphi(const unsigned int i, const unsigned int j, const unsigned int d)
  {
    return ref_vol(i, j, d);
  }
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int bdr)
  {
    return ref_bdr(i, j, bdr, false);
  }
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int bdr)
  {
    return ref_bdr(i, j, bdr, true);
  }
  // ----------------------------------------------------------------- hyperedges
  template <typename geom_t>
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    return integrate_vol_phiphi(i, j) * geom.area();
  }
  template <typename smallVec_t, typename geom_t>
  static smallVec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    std::array<double, dim()> ref;
    for (unsigned int d = 0; d < dim(); ++d)
      ref[d] = ref_vol(i, j, d) * geom.area();
    return frame(ref, geom);
  }
  // first function of degree deg_i, second one of degree deg_j
  template <typename smallVec_t, typename geom_t, unsigned int deg_i, unsigned int deg_j>
  static smallVec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, geom_t& geom)
  {
    typedef Tensorial<quadrature_t, ShapeFunction<ShapeType::Tensorial<ShapeType::Legendre<deg_i>, dim()> >, return_t> first;
    typedef Tensorial<quadrature_t, ShapeFunction<ShapeType::Tensorial<ShapeType::Legendre<deg_j>, dim()> >, return_t> second;
    std::array<double, dim()> ref{};
    for (unsigned int k = 0; k < first::cube().size(); ++k)
      for (unsigned int d = 0; d < dim(); ++d)
        ref[d] += geom.area() * first::cube()[k].w * first::cube()[k].d[i][d] * second::cube()[k].phi[j];
    return frame(ref, geom);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_nablaphinablaphifunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) {
             return scalar_product(grad(i, p, geom), grad(j, p, geom)) * fun(phys(geom, p), time);
           });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_derphifunc(const unsigned int i, const unsigned int d, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) { return grad(i, p, geom)[d] * fun(phys(geom, p), time); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phiphifunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() *
           vol([&](const Point_& p) { return p.phi[i] * p.phi[j] * fun(phys(geom, p), time); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phifunc(const unsigned int i, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) { return p.phi[i] * fun(phys(geom, p), time); });
  }
  // coefficient of the L2 projection: not weighted with the area
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_volUni_phifunc(const unsigned int i, geom_t& geom, const return_t time = 0.)
  {
    return vol([&](const Point_& p) { return p.phi[i] * fun(phys(geom, p), time); });
  }
  // vector valued functions, given in space; v . nabla phi_i phi_j
  template <typename point_t, typename geom_t, point_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_nablaphiphivecfunc(const unsigned int i, const unsigned int j, geom_t& geom, const return_t time = 0.)
  {
    const auto q = geom.mat_q();
    return geom.area() * vol([&](const Point_& p) {
             auto g = grad(i, p, geom);
             auto v = fun(phys(geom, p), time);
             double s = 0.;
             for (unsigned int d = 0; d < dim(); ++d)
               s += g[d] * scalar_product(q.get_column(d), v);
             return s * p.phi[j];
           });
  }
  // phi_i phi_j times the component of v in the local direction d
  template <typename point_t, typename geom_t, point_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phiphivecfunc(const unsigned int i, const unsigned int j, const unsigned int d, geom_t& geom, const return_t time = 0.)
  {
    const auto q = geom.mat_q();
    return geom.area() * vol([&](const Point_& p) {
             return p.phi[i] * p.phi[j] * scalar_product(q.get_column(d), fun(phys(geom, p), time));
           });
  }
  // fun(point, direction): component of a vector; directions 1, 2, ...: along the hyperedge, -1, -2, ...: across
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phivecfunccomp(const unsigned int i, const int comp, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) {
             return p.phi[i] * fun(phys(geom, p), direction(comp, geom), time);
           });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t, std::size_t n>
  static return_t integrate_vol_diffsquare_discana(const std::array<return_t, n>& coeffs, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) {
             double v = 0.;
             for (unsigned int i = 0; i < n; ++i)
               v += coeffs[i] * p.phi[i];
             v -= fun(phys(geom, p), time);
             return v * v;
           });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t, std::size_t n>
  static return_t integrate_vol_diffsquare_discanacomp(const std::array<return_t, n>& coeffs, const int comp, geom_t& geom, const return_t time = 0.)
  {
    return geom.area() * vol([&](const Point_& p) {
             double v = 0.;
             for (unsigned int i = 0; i < n; ++i)
               v += coeffs[i] * p.phi[i];
             v -= fun(phys(geom, p), direction(comp, geom), time);
             return v * v;
           });
  }
  // ----------------------------------------------------------------- faces
  template <typename geom_t>
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom)
  {
    return integrate_bdr_phiphi(i, j, bdr) * geom.face_area(bdr);
  }
  template <typename geom_t>
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom)
  {
    return integrate_bdr_phipsi(i, j, bdr) * geom.face_area(bdr);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_phifunc(const unsigned int i, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  {
    return geom.face_area(bdr) *
           face(bdr, [&](const FacePoint& p) { return p.phi[i] * fun(phys(geom, p), time); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_phivecfunccomp(const unsigned int i, const unsigned int bdr, const int comp, geom_t& geom, const return_t time = 0.)
  {
    return geom.face_area(bdr) * face(bdr, [&](const FacePoint& p) {
             return p.phi[i] * fun(phys(geom, p), direction(comp, geom), time);
           });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdrUni_psifunc(const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  {
    return face(bdr, [&](const FacePoint& p) { return p.psi[j] * fun(phys(geom, p), time); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_nablaphiphinufunc(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  {
    const auto nu = geom.local_normal(bdr);
    return geom.face_area(bdr) * face(bdr, [&](const FacePoint& p) {
             return scalar_product(grad(i, p, geom), nu) * p.phi[j] * fun(phys(geom, p), time);
           });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_nablaphipsinufunc(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  {
    const auto nu = geom.local_normal(bdr);
    return geom.face_area(bdr) * face(bdr, [&](const FacePoint& p) {
             return scalar_product(grad(i, p, geom), nu) * p.psi[j] * fun(phys(geom, p), time);
           });
  }
  // Advection with a velocity v given in space.  ..nuvecfunc_cutwind: the trial function is weighted with
  // the outflow max(v . nu, 0) if it belongs to the hyperedge, and with the inflow min(v . nu, 0) if it (or
  // the given function) belongs to the face; .._cutwind, .._cutdownwind without nu: only where v . nu > 0.
#define TPP_WIND template <typename point_t, typename geom_t, point_t vel(const point_t&, const return_t), typename smallVec_t = point_t>
#define TPP_BDR(name, a, b, weight)                                                                                         \
  TPP_WIND static return_t name(const unsigned int i, const unsigned int j, const unsigned int bdr, geom_t& geom,           \
                                const return_t time = 0.)                                                                   \
  {                                                                                                                         \
    return geom.face_area(bdr) * face(bdr, [&](const FacePoint& p) {                                                        \
             const double w = outward(vel(phys(geom, p), time), bdr, geom);                                                 \
             return p.a[i] * p.b[j] * (weight);                                                                             \
           });                                                                                                              \
  }
  TPP_BDR(integrate_bdr_phiphinuvecfunc_cutwind, phi, phi, std::max(w, 0.))
  TPP_BDR(integrate_bdr_psiphinuvecfunc_cutwind, psi, phi, std::max(w, 0.))
  TPP_BDR(integrate_bdr_phipsinuvecfunc_cutwind, phi, psi, std::min(w, 0.))
  TPP_BDR(integrate_bdr_psipsinuvecfunc_cutwind, psi, psi, std::min(w, 0.))
  TPP_BDR(integrate_bdr_phiphi_cutwind, phi, phi, w > 0.)
  TPP_BDR(integrate_bdr_psiphi_cutwind, psi, phi, w > 0.)
  TPP_BDR(integrate_bdr_phipsi_cutdownwind, phi, psi, w > 0.)
  TPP_BDR(integrate_bdr_psipsi_cutdownwind, psi, psi, w > 0.)
#undef TPP_BDR
#undef TPP_WIND
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), point_t vel(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_phifuncnuvecfunc_cutwind(const unsigned int i, const unsigned int bdr, geom_t& geom, const return_t time = 0.)
  {
    return geom.face_area(bdr) * face(bdr, [&](const FacePoint& p) {
             const point_t x = phys(geom, p);
             return p.phi[i] * fun(x, time) * std::min(outward(vel(x, time), bdr, geom), 0.);
           });
  }
  // for the harness: coefficient of the L2 projection onto a face, evaluation on a face
  template <typename F>
  static double project_psi(const unsigned int j, const unsigned int bdr, F f)
  {
    return face(bdr, [&](const FacePoint& p) { return p.psi[j] * f(p.pt); });
  }
  template <typename array_t>
  static double eval_psi(const array_t& coeffs, const std::array<double, (dim() > 1 ? dim() - 1 : 1)>& f)
  {
    double s = 0.;
    for (unsigned int j = 0; j < coeffs.size(); ++j)
      s += coeffs[j] * psi(j, f);
    return s;
  }

 private:
  // component of a vector in space along the outer normal of a face
  template <typename vec_t, typename geom_t>
  static double outward(const vec_t& v, const unsigned int bdr, geom_t& geom)
  {
    const auto q = geom.mat_q();
    const auto nu = geom.local_normal(bdr);
    double s = 0.;
    for (unsigned int d = 0; d < dim(); ++d)
      s += nu[d] * scalar_product(q.get_column(d), v);
    return s;
  }
  template <typename geom_t>
  static auto direction(const int comp, geom_t& geom)
  {
    if (comp > 0)
      return geom.inner_normal(comp - 1);
    return geom.outer_normal(-comp - 1);
  }
};
}  // namespace Quadrature
}  // namespace TPP
