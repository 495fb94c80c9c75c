// Time stepping local solver on single hyperedges: histories of make_initial, residual, set_data, errors.
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#include "localworld.hpp"

template <unsigned int N, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 1U> neumann_nodes{2};
  static F inverse_diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F right_hand_side(const Point<N, F>& x, const F t = 0.) { return data.f.at(x, t); }
  static F dirichlet_value(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F initial(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F neumann_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(x, t); }
};

struct Base
{
  virtual ~Base() {}
  virtual void init(vh::Ev&, double t) = 0;
  virtual void step(vh::Ev&, double t) = 0;
  virtual void bulk(vh::Ev&, double t) = 0;
  virtual void err(vh::Ev&, double t) = 0;
  virtual void set(vh::Ev&, double t) = 0;
  virtual void rough(vh::Ev&, double t, const std::vector<long long>&) = 0;
  virtual void matrix(vh::Ev&, double t) = 0;
};

template <unsigned p, unsigned N>
struct World : Base, LocalWorld<LocalSolver::DiffusionParab<K, p, 2 * p + 3, Par>, p, N,
                                typename LocalSolver::DiffusionParab<K, p, 2 * p + 3, Par>::data_type>
{
  using B = LocalWorld<LocalSolver::DiffusionParab<K, p, 2 * p + 3, Par>, p, N,
                       typename LocalSolver::DiffusionParab<K, p, 2 * p + 3, Par>::data_type>;
  using Dofs = typename B::Dofs;
  using B::hg;
  using B::ls;
  World(const std::vector<double>& c, const std::string& file) : B(c, file) {}
  Dofs call(bool res, const Dofs& in, double t)
  {
    Dofs out = B::zero();
    auto e = hg[0];
    return res ? ls.residual_flux(in, out, e, t) : ls.trace_to_flux(in, out, e, t);
  }
  auto values(const Dofs& in, double t)
  {
    auto e = hg[0];
    return ls.bulk_values(std::array<double, 3>{0., .5, 1.}, in, e, t);
  }
  void init(vh::Ev& e, double t) override
  {
    auto h = hg[0];
    Dofs d = B::zero();
    for (auto& f : d)
      f.fill(7.);
    ls.make_initial(d, h, t);
    e.raw("vals", B::at_faces(d));
  }
  void step(vh::Ev& e, double t) override { e.raw("vals", B::at_faces(call(true, B::trace(true, t), t))); }
  void bulk(vh::Ev& e, double t) override
  {
    auto v = values(B::trace(true, t), t);
    auto h = hg[0];
    e.raw("u", B::list(v[K])).raw("q", B::along(v, 0, h));
  }
  void err(vh::Ev& e, double t) override
  {
    auto h = hg[0];
    e.num("res", vh::fix(ls.errors(B::zero(), h, t)[0], 64));
  }
  void set(vh::Ev&, double t) override
  {
    auto h = hg[0];
    ls.set_data(B::trace(true, t), h, t);
  }
  void rough(vh::Ev& e, double t, const std::vector<long long>& l) override
  {
    Dofs in = B::read(l);
    e.raw("lam", B::dofs(in, 1)).raw("hom", B::dofs(call(false, in, t), 64)).raw("res", B::dofs(call(true, in, t), 64));
    e.raw("inh", B::dofs(call(true, B::zero(), t), 64)).raw("u", B::list(values(in, t)[K]));
    auto h = hg[0];
    ls.set_data(in, h, t);
  }
  void matrix(vh::Ev& e, double t) override
  {
    e.num("nb", B::nb).raw("mat", B::matrix_of([&](const Dofs& in) { return call(false, in, t); }));
  }
};

template <unsigned N>
static Base* make(unsigned p, const std::vector<double>& c, const std::string& file)
{
  if constexpr (N < K)
    return nullptr;
  else
  {
    if (p == 0)
      return new World<0, N>(c, file);
    if (p == 1)
      return new World<1, N>(c, file);
#if KD < 3
    if (p == 2)
      return new World<2, N>(c, file);
    if (p == 3)
      return new World<3, N>(c, file);
#endif
    return nullptr;
  }
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i(), N = in.i();
      data.read(in, K, N);
      long long theta = in.i(), dt = in.i();  // in quarters, in units
      std::string file = std::string(argv[2]) + ".geo";
      data.write(file, K, N);
      std::vector<double> c{(double)data.tau, theta / 4., (double)dt};
      w.reset(N == 1 ? make<1>(p, c, file) : N == 2 ? make<2>(p, c, file) : make<3>(p, c, file));
      if (!w)
        return 3;
      data.show(e.num("p", p).num("K", K).num("N", N).num("theta", theta).num("dt", dt));
      out(e);
      continue;
    }
    long long when = in.i();
    e.num("t", when);
    double t = (double)when + start;
    if (op == "init")
      w->init(e, t);
    else if (op == "step")
      w->step(e, t);
    else if (op == "bulk")
      w->bulk(e, t);
    else if (op == "err")
      w->err(e, t);
    else if (op == "set")
      w->set(e, t);
    else if (op == "rough")
      w->rough(e, t, in.ints());
    else if (op == "matrix")
      w->matrix(e, t);
    else
      return 3;
    out(e);
  }
}
