// Local solver of the nonlinear eigenvalue problem on single hyperedges.
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#include "localworld.hpp"

template <unsigned int N, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 1U> neumann_nodes{2};
  static F inverse_diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F initial(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(x, t); }
};

struct Base
{
  virtual ~Base() {}
  virtual void run(const std::string& op, vh::Ev&, vh::Line&) = 0;
};

template <unsigned p, unsigned N>
struct World : Base, LocalWorld<LocalSolver::DiffusionEigs<K, p, 2 * p + 3, Par>, p, N>
{
  using B = LocalWorld<LocalSolver::DiffusionEigs<K, p, 2 * p + 3, Par>, p, N>;
  using Dofs = typename B::Dofs;
  using B::hg;
  using B::ls;
  World(double tau, const std::string& file) : B(tau, file) {}
  Dofs flux(const Dofs& in, double e)
  {
    Dofs out = B::zero();
    auto h = hg[0];
    return ls.trace_to_flux(in, out, h, e);
  }
  // mean over the hyperedge of the product of two solutions
  double inner(const Dofs& a, double ea, const Dofs& b, double eb)
  {
    using G = TPP::Quadrature::GaussLegendre<2 * p + 2>;
    auto rule = G::rule();
    std::array<double, G::n_points()> at;
    for (unsigned i = 0; i < at.size(); ++i)
      at[i] = rule[0][i];
    auto h = hg[0];
    auto u = ls.bulk_values(at, a, h, ea)[K], v = ls.bulk_values(at, b, h, eb)[K];
    double s = 0.;
    for (unsigned i = 0; i < u.size(); ++i)
    {
      double w = 1.;
      for (unsigned k = 0, ii = i; k < K; ++k, ii /= at.size())
        w *= rule[1][ii % at.size()];
      s += w * u[i] * v[i];
    }
    return s;
  }
  void run(const std::string& op, vh::Ev& e, vh::Line& in) override
  {
    auto h = hg[0];
    if (op == "flux")
      e.raw("vals", B::at_faces(flux(B::trace(false, start), 0.)));
    else if (op == "bulk")
    {
      auto v = ls.bulk_values(std::array<double, 3>{0., .5, 1.}, B::trace(false, start), h, 0.);
      e.raw("u", B::list(v[K])).raw("q", B::along(v, 0, h));
    }
    else if (op == "types")
      e.seq("res", ls.node_types(h));
    else if (op == "init")
    {
      long long t = in.i();
      Dofs d = B::zero();
      for (auto& f : d)
        f.fill(7.);
      ls.make_initial(d, h, (double)t + start);
      e.num("t", t).raw("vals", B::at_faces(d));
    }
    else if (op == "pair")
    {
      long long e1 = in.i(), e2 = in.i();
      Dofs lam = B::read(in.ints()), mu = B::read(in.ints());
      e.num("e1", e1).num("e2", e2).raw("lam", B::dofs(lam, 1)).raw("mu", B::dofs(mu, 1));
      e.raw("F1", B::dofs(flux(lam, e1 / 8.), 64)).raw("F2", B::dofs(flux(lam, e2 / 8.), 64));
      e.num("inner", vh::fix(inner(lam, e2 / 8., mu, e1 / 8.), 64));
    }
    else if (op == "jac")
    {
      long long ev = in.i(), de = in.i();
      Dofs lam = B::read(in.ints()), dl = B::read(in.ints()), mu = B::read(in.ints()), out = B::zero();
      for (auto& f : out)
        f.fill(3.);
      ls.jacobian_of_trace_to_flux(dl, out, de / 8., lam, ev / 8., h);
      e.num("e", ev).num("de", de).raw("dl", B::dofs(dl, 1)).raw("mu", B::dofs(mu, 1)).raw("J", B::dofs(out, 64));
      e.raw("F", B::dofs(flux(dl, ev / 8.), 64)).num("inner", vh::fix(inner(lam, ev / 8., mu, ev / 8.), 64));
    }
    else
      std::exit(3);
  }
};

template <unsigned N>
static Base* make(unsigned p, double c, const std::string& file)
{
  if constexpr (N < K)
    return nullptr;
  else
  {
    if (p == 0)
      return new World<0, N>(c, file);
    if (p == 1)
      return new World<1, N>(c, file);
#if KD < 3
    if (p == 2)
      return new World<2, N>(c, file);
    if (p == 3)
      return new World<3, N>(c, file);
#endif
    return nullptr;
  }
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i(), N = in.i();
      data.read(in, K, N);
      std::string file = std::string(argv[2]) + ".geo";
      data.write(file, K, N);
      w.reset(N == 1 ? make<1>(p, data.tau, file) : N == 2 ? make<2>(p, data.tau, file) : make<3>(p, data.tau, file));
      if (!w)
        return 3;
      data.show(e.num("p", p).num("K", K).num("N", N));
    }
    else
      w->run(op, e, in);
    out(e);
  }
}
