// Local solvers of the bilaplacian family on single hyperedges.
// Variants: -DKIND=0 Bilaplacian | 1 BilaplacianUniform | 2 BilaplacianEigs | 3 BilaplacianParab, -DKD=<edge dim>
#include <HyperHDG/compile_time_tricks.hxx>
#if KIND == 0
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif KIND == 1
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
#elif KIND == 2
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#else
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#endif
#include "localworld.hpp"

// data.dif plays the role of w, the second unknown
template <unsigned int N, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 2U> dirichlet_laplacian_nodes{2, 4};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static constexpr std::array<unsigned int, 0U> neumann_laplacian_nodes{};
  static F inverse_bilaplacian_coefficient(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F right_hand_side(const Point<N, F>& x, const F t = 0.) { return data.f.at(x, t); }
  static F dirichlet_value(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F dirichlet_laplace_value(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t); }
  static F initial(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F initial_laplace(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t); }
  static F neumann_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F neumann_laplace_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(x, t); }
};
static constexpr bool uniform = KIND == 1;
template <unsigned p>
struct Type
{
#if KIND == 0
  typedef LocalSolver::Bilaplacian<K, p, 2 * p + 3, Par> type;
#elif KIND == 1
  typedef LocalSolver::BilaplacianUniform<K, p, 2 * p + 1> type;
#elif KIND == 2
  typedef LocalSolver::BilaplacianEigs<K, p, 2 * p + 3, Par> type;
#else
  typedef LocalSolver::BilaplacianParab<K, p, 2 * p + 3, Par> type;
#endif
};
template <class LS>
struct Stored
{
#if KIND == 3
  typedef typename LS::data_type type;
#else
  typedef NoData type;
#endif
};
struct Base
{
  virtual ~Base() {}
  virtual void run(const std::string& op, vh::Ev&, vh::Line&) = 0;
};
template <unsigned p, unsigned N>
struct World : Base, LocalWorld<typename Type<p>::type, p, N, typename Stored<typename Type<p>::type>::type, 2>
{
  using B = LocalWorld<typename Type<p>::type, p, N, typename Stored<typename Type<p>::type>::type, 2>;
  using Dofs = typename B::Dofs;
  using B::hg;
  using B::ls;
  template <class C>
  World(const C& c, const std::string& file) : B(c, file)
  {
  }
  // traces of u and w; each zero where its value is prescribed
  Dofs exact(double t, bool skip = true)
  {
    Dofs d = B::zero(), a = B::trace(false, t, data.u, 0), b = B::trace(false, t, data.dif, 1);
    for (unsigned f = 0; f < 2 * K; ++f)
      for (unsigned j = 0; j < B::nd; ++j)
      {
        long long y = data.types[f];
        if (!(skip && (y == 4 || y == (j < B::nb ? 1 : 2))))
          d[f][j] = j < B::nb ? a[f][j] : b[f][j];
      }
    return d;
  }
  Dofs call(bool res, const Dofs& in, double t)
  {
    Dofs out = B::zero();
    for (auto& f : out)
      f.fill(5.);
    auto h = hg[0];
#if KIND == 1
    return res ? ls.residual_flux(in, out, t) : ls.trace_to_flux(in, out, t);
#elif KIND == 2
    return ls.trace_to_flux(in, out, h, t);
#else
    return res ? ls.residual_flux(in, out, h, t) : ls.trace_to_flux(in, out, h, t);
#endif
  }
  template <std::size_t n>
  auto values(const std::array<double, n>& at, const Dofs& in, double t)
  {
    auto h = hg[0];
#if KIND == 1
    return ls.bulk_values(at, in, t);
#else
    return ls.bulk_values(at, in, h, t);
#endif
  }
  // mean over the hyperedge of the product of the first unknowns of two homogeneous problems
  double inner(const Dofs& a, double ea, const Dofs& b, double eb)
  {
    using G = TPP::Quadrature::GaussLegendre<2 * p + 2>;
    auto rule = G::rule();
    std::array<double, G::n_points()> at;
    for (unsigned i = 0; i < at.size(); ++i)
      at[i] = rule[0][i];
    auto u = values(at, a, ea)[K], v = values(at, b, eb)[K], u0 = values(at, B::zero(), ea)[K], v0 = values(at, B::zero(), eb)[K];
    double s = 0.;
    for (unsigned i = 0; i < u.size(); ++i)
    {
      double w = 1.;
      for (unsigned k = 0, ii = i; k < K; ++k, ii /= at.size())
        w *= rule[1][ii % at.size()];
      s += w * (u[i] - u0[i]) * (v[i] - v0[i]);
    }
    return s;
  }
  template <std::size_t n>
  void bulk(vh::Ev& e, double t, const std::vector<long long>& at, const Dofs& in)
  {
    std::array<double, n> a;
    for (unsigned i = 0; i < n; ++i)
      a[i] = at.at(i) / 2.;
    auto h = hg[0];
    auto v = values(a, in, t);
    e.seq("at", at).raw("u", B::list(v[K])).raw("q", B::along(v, 0, h, uniform));
  }
  void run(const std::string& op, vh::Ev& e, vh::Line& in) override
  {
    auto h = hg[0];
    long long when = in.i();
    e.num("t", when);
#if KIND == 2  // the time is the eigenvalue
    start = 0.;
#endif
    double t = (double)when + start;
    if (op == "flux")
    {
      Dofs d = call(true, exact(t, KIND != 2), t);
      e.raw("fst", B::at_faces(d, 0)).raw("snd", B::at_faces(d, 1));
    }
    else if (op == "bulk")
    {
      auto at = in.ints();
      if (at.size() == 1)
        bulk<1>(e, t, at, exact(t, KIND != 2));
      else if (at.size() == 2)
        bulk<2>(e, t, at, exact(t, KIND != 2));
      else
        bulk<3>(e, t, at, exact(t, KIND != 2));
    }
    else if (op == "any" || op == "rough")
    {
      Dofs lam = B::read(in.ints());
      e.num("nb", B::nb).raw("lam", B::dofs(lam, 1)).raw("hom", B::dofs(call(false, lam, t), 64)).raw("res", B::dofs(call(true, lam, t), 64));
      e.raw("inh", B::dofs(call(true, B::zero(), t), 64));
      e.raw("u", B::list(values(std::array<double, 3>{0., .5, 1.}, lam, t)[K]));
#if KIND == 3
      if (op == "rough")
        ls.set_data(lam, h, t);
#endif
    }
    else if (op == "matrix")
      e.num("nb", B::nb).raw("mat", B::matrix_of([&](const Dofs& d) { return call(false, d, t); }));
#if KIND == 0 || KIND == 2
    else if (op == "types")
      e.seq("res", ls.node_types(h));
#endif
#if KIND == 0 || KIND == 3
    else if (op == "err")
    {
      Dofs d = exact(t);
      auto r = ls.errors(d, h, t);
      e.num("res", vh::fix(r[0], 64)).num("n", r.size());
    }
#endif
#if KIND == 0
    else if (op == "mass")
    {
      Dofs lam = B::read(in.ints()), mu = B::read(in.ints()), out = B::zero(), tot = B::zero(), tot0 = B::zero();
      for (auto& f : out)
        f.fill(3.);
      ls.trace_to_mass_flux(lam, out, h, (double)t);
      ls.total_numerical_flux_mass(lam, tot, h, (double)t);
      ls.total_numerical_flux_mass(B::zero(), tot0, h, (double)t);
      e.raw("lam", B::dofs(lam, 1)).raw("mu", B::dofs(mu, 1)).raw("M", B::dofs(out, 64)).num("inner", vh::fix(inner(lam, t, mu, t), 64));
      e.raw("tot", B::dofs(tot, 64)).raw("tot0", B::dofs(tot0, 64));
    }
#endif
#if KIND == 2
    else if (op == "pair")
    {
      long long e1 = in.i(), e2 = in.i();
      Dofs lam = B::read(in.ints()), mu = B::read(in.ints());
      e.num("e1", e1).num("e2", e2).raw("lam", B::dofs(lam, 1)).raw("mu", B::dofs(mu, 1));
      e.raw("F1", B::dofs(call(false, lam, e1 / 8.), 64)).raw("F2", B::dofs(call(false, lam, e2 / 8.), 64));
      e.num("inner", vh::fix(inner(lam, e2 / 8., mu, e1 / 8.), 64));
    }
    else if (op == "jac")
    {
      long long ev = in.i(), de = in.i();
      Dofs lam = B::read(in.ints()), dl = B::read(in.ints()), mu = B::read(in.ints()), out = B::zero();
      for (auto& f : out)
        f.fill(3.);
      ls.jacobian_of_trace_to_flux(dl, out, de / 8., lam, ev / 8., h);
      e.num("e", ev).num("de", de).raw("dl", B::dofs(dl, 1)).raw("mu", B::dofs(mu, 1)).raw("J", B::dofs(out, 64));
      e.raw("F", B::dofs(call(false, dl, ev / 8.), 64)).num("inner", vh::fix(inner(lam, ev / 8., mu, ev / 8.), 64));
    }
#endif
#if KIND == 2 || KIND == 3
    else if (op == "init")
    {
      Dofs d = B::zero();
      for (auto& f : d)
        f.fill(7.);
      ls.make_initial(d, h, (double)t);
      e.raw("fst", B::at_faces(d, 0)).raw("snd", B::at_faces(d, 1));
    }
#endif
#if KIND == 3
    else if (op == "set")
      ls.set_data(exact(t), h, t);
#endif
    else
      std::exit(3);
  }
};

template <unsigned N, class C>
static Base* make(unsigned p, const C& c, const std::string& file)
{
  if constexpr (N < K)
    return nullptr;
  else
  {
    if (p == 0)
      return new World<0, N>(c, file);
    if (p == 1)
      return new World<1, N>(c, file);
#if KD < 3
    if (p == 2)
      return new World<2, N>(c, file);
    if (p == 3)
      return new World<3, N>(c, file);
#endif
#if KD == 1
    if (p == 4)
      return new World<4, N>(c, file);
#endif
    return nullptr;
  }
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i(), N = in.i();
      data.read(in, K, N);
      long long dt = in.i();
      std::string file = std::string(argv[2]) + ".geo";
      data.write(file, K, N);
#if KIND == 3
      std::vector<double> c{(double)data.tau, 1., (double)dt};
#else
      double c = data.tau;
#endif
      w.reset(N == 1 ? make<1>(p, c, file) : N == 2 ? make<2>(p, c, file) : make<3>(p, c, file));
      if (!w)
        return 3;
      data.show(e.num("p", p).num("K", K).num("N", N).num("theta", 4).num("dt", dt));
    }
    else
      w->run(op, e, in);
    out(e);
  }
}
