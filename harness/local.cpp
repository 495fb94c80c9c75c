// Local solvers of the diffusion family on single hyperedges (any shape, coefficients, data).
// Variants: -DSOLVER=Diffusion|DiffusionPostprocess|DiffusionIP|DiffusionUniform -DKD=<edge dim> -DHEADER=<its header>
// -DFLOW: DiffusionAdvectionReaction (further data: velocity, reaction, flux); -DMASS: the solver has mass fluxes
#include <HyperHDG/compile_time_tricks.hxx>
#include HEADER
#include "localworld.hpp"
#include "localflow.hpp"


template <unsigned int N, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 1U> neumann_nodes{2};
  static F inverse_diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t) / data.kinv.at(x, t); }
  static F right_hand_side(const Point<N, F>& x, const F t = 0.) { return data.f.at(x, t); }
  static SmallVec<N, F> advective_velocity(const Point<N, F>& x, const F t = 0.)
  {
    SmallVec<N, F> v;
    for (unsigned int d = 0; d < N; ++d)
      v[d] = flow.b[d].at(x, t);
    return v;
  }
  static F reaction_rate(const Point<N, F>& x, const F t = 0.) { return flow.c.at(x, t); }
  static F dirichlet_value(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F neumann_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(x, t); }
};

static constexpr bool uniform = UNIFORM;
template <unsigned p, unsigned N>
struct Solver
{
#if UNIFORM
  typedef LocalSolver::DiffusionUniform<K, p, 2 * p + 1> type;
#else
  typedef LocalSolver::SOLVER<K, p, 2 * p + 3, Par> type;
#endif
};

template <unsigned p, unsigned N>
struct World : Any, LocalWorld<typename Solver<p, N>::type, p, N>
{
  using B = LocalWorld<typename Solver<p, N>::type, p, N>;
  using Dofs = typename B::Dofs;
  using B::hg;
  using B::ls;
  World(double tau, const std::string& file) : B(tau, file) {}
  Dofs exact() { return B::trace(true, data.now()); }
  Dofs call(bool res, const Dofs& in)
  {
    Dofs out = B::zero();
    auto e = hg[0];
    if constexpr (uniform)
      return res ? ls.residual_flux(in, out, data.now()) : ls.trace_to_flux(in, out, data.now());
    else
      return res ? ls.residual_flux(in, out, e, data.now()) : ls.trace_to_flux(in, out, e, data.now());
  }
  void flux(vh::Ev& e) override { e.raw("vals", B::at_faces(call(true, exact()))); }
  void types(vh::Ev& e) override
  {
    if constexpr (!uniform)
    {
      auto h = hg[0];
      e.seq("res", ls.node_types(h));
    }
  }
  void bulk(vh::Ev& e, const std::vector<long long>& at) override
  {
    if (at.size() == 1)
      values<1>(e, at);
    else if (at.size() == 2)
      values<2>(e, at);
    else
      values<3>(e, at);
  }
  template <unsigned n>
  void values(vh::Ev& e, const std::vector<long long>& at)
  {
    auto h = hg[0];
    std::array<double, n> absc;
    for (unsigned i = 0; i < n; ++i)
      absc[i] = at.at(i) / 2.;
    auto v = [&]() {
      if constexpr (uniform)
        return ls.bulk_values(absc, exact(), data.now());
      else
        return ls.bulk_values(absc, exact(), h, data.now());
    }();
    constexpr unsigned sys = B::LS::system_dimension();
    e.seq("at", at).raw("u", B::list(v[sys - 1]));
    if constexpr (sys == K + 1)
      e.raw("q", B::along(v, 0, h, uniform));
    else
      e.raw("q", "[]");
  }
  void err(vh::Ev& e) override
  {
    if constexpr (!uniform)
    {
      auto h = hg[0];
      auto r = ls.errors(exact(), h, data.now());
      e.num("res", vh::fix(r[0], 64)).num("n", r.size());
    }
  }
  void any(vh::Ev& e, const std::vector<long long>& l) override
  {
    Dofs in = B::read(l);
    e.raw("lam", B::dofs(in, 1)).raw("hom", B::dofs(call(false, in), 64)).raw("res", B::dofs(call(true, in), 64));
    e.raw("inh", B::dofs(call(true, B::zero()), 64));
#ifdef FLOW
    e.num("mean", vh::fix(inner(in, true), 64));
#endif
  }
#if defined(FLOW) || defined(MASS)
  // mean over the hyperedge of u(a) or of the product of the homogeneous solutions u(a) u(b)
  double inner(const Dofs& a, bool alone, const Dofs& b = Dofs())
  {
    using G = TPP::Quadrature::GaussLegendre<2 * p + 2>;
    auto rule = G::rule();
    std::array<double, G::n_points()> at;
    for (unsigned i = 0; i < at.size(); ++i)
      at[i] = rule[0][i];
    auto h = hg[0];
    auto u = ls.bulk_values(at, a, h, data.now())[K], v = ls.bulk_values(at, b, h, data.now())[K], z = ls.bulk_values(at, B::zero(), h, data.now())[K];
    double s = 0.;
    for (unsigned i = 0; i < u.size(); ++i)
    {
      double w = 1.;
      for (unsigned k = 0, ii = i; k < K; ++k, ii /= at.size())
        w *= rule[1][ii % at.size()];
      s += w * (alone ? u[i] : (u[i] - z[i]) * (v[i] - z[i]));
    }
    return s;
  }
  void mass(vh::Ev& e, const std::vector<long long>& l, const std::vector<long long>& m) override
  {
    auto h = hg[0];
    Dofs lam = B::read(l), mu = B::read(m), out = B::zero(), tot = B::zero(), tot0 = B::zero();
    for (auto& f : out)
      f.fill(3.);
    ls.trace_to_mass_flux(lam, out, h, data.now());
    ls.total_numerical_flux_mass(lam, tot, h, data.now());
    ls.total_numerical_flux_mass(B::zero(), tot0, h, data.now());
    e.raw("lam", B::dofs(lam, 1)).raw("mu", B::dofs(mu, 1)).raw("M", B::dofs(out, 64)).num("inner", vh::fix(inner(lam, false, mu), 64));
    e.raw("tot", B::dofs(tot, 64)).raw("tot0", B::dofs(tot0, 64));
  }
#endif
  void matrix(vh::Ev& e) override
  {
    e.num("nb", B::nb).raw("mat", B::matrix_of([&](const Dofs& in) { return call(false, in); }));
  }
};

template <unsigned N>
static Any* make(unsigned p, double tau, const std::string& file)
{
  if constexpr (N < K)
    return nullptr;
  else
  {
    if (p == 0)
      return new World<0, N>(tau, file);
    if (p == 1)
      return new World<1, N>(tau, file);
    if (p == 2)
      return new World<2, N>(tau, file);
#if KD < 3
    if (p == 3)
      return new World<3, N>(tau, file);
#endif
    return nullptr;
  }
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Any> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i(), N = in.i();
      data.read(in, K, N);
      std::string file = std::string(argv[2]) + ".geo";
      data.write(file, K, N);
#ifdef FLOW
      flow.read(in, N);
      flow.show(e);
#endif
      w.reset(N == 1 ? make<1>(p, data.tau, file) : N == 2 ? make<2>(p, data.tau, file) : make<3>(p, data.tau, file));
      if (!w)
        return 3;
      data.show(e.num("p", p).num("K", K).num("N", N));
    }
    else if (op == "flux")
      w->flux(e);
    else if (op == "types")
      w->types(e);
    else if (op == "bulk")
      w->bulk(e, in.ints());
    else if (op == "err")
      w->err(e);
    else if (op == "any")
      w->any(e, in.ints());
    else if (op == "matrix")
      w->matrix(e);
    else if (op == "mass")
    {
      auto l = in.ints();
      w->mass(e, l, in.ints());
    }
    else
      return 3;
    out(e);
  }
}
