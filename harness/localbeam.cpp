// The Timoshenko beam on single curves in space.
#define KD 1
#include <HyperHDG/compile_time_tricks.hxx>
#include <algorithm>
#include <HyperHDG/local_solver/timoshenko_network.hxx>
#include "localworld.hpp"
static constexpr unsigned N = 3;
struct Beam
{
  std::array<Poly, 3> u, phi, fn, fm, v;
  void each(auto f)
  {
    for (auto* x : {&u, &phi, &fn, &fm, &v})
      for (auto& y : *x)
        f(y);
  }
  static std::string all(const std::array<Poly, 3>& x) { return "[" + js(x[0].m) + "," + js(x[1].m) + "," + js(x[2].m) + "]"; }
};
static Beam beam;
template <typename F, typename P>
static F dot(const std::array<Poly, 3>& w, const P& x, const P& dir)
{
  F s = 0.;
  for (unsigned d = 0; d < 3; ++d)
    s += w[d].at(x, 0.) * dir[d];
  return s;
}
template <unsigned int D, typename F>
struct Par
{
  using P = Point<D, F>;
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 1U> neumann_nodes{2};
  static F right_hand_side_n(const P& x, const P& d, const F = 0.) { return dot<F>(beam.fn, x, d); }
  static F right_hand_side_m(const P& x, const P& d, const F = 0.) { return dot<F>(beam.fm, x, d); }
  static F dirichlet_value_u(const P& x, const P& d, const F = 0.) { return dot<F>(beam.u, x, d); }
  static F dirichlet_value_phi(const P& x, const P& d, const F = 0.) { return dot<F>(beam.phi, x, d); }
  static F analytic_result_u(const P& x, const P& d, const F = 0.) { return dot<F>(beam.v, x, d); }
  static F analytic_result_phi(const P& x, const P& d, const F = 0.) { return dot<F>(beam.phi, x, d); }
};
struct Base
{
  virtual ~Base() {}
  virtual bool run(const std::string& op, vh::Ev& e, vh::Line& in) = 0;
};
template <unsigned p>
struct World : Base, LocalWorld<LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 3, Par>, p, 3, NoData, 6>
{
  using B = LocalWorld<LocalSolver::TimoshenkoBeam<1, 3, p, 2 * p + 3, Par>, p, 3, NoData, 6>;
  using Dofs = typename B::Dofs;
  using B::hg;
  using B::ls;
  World(double tau, const std::string& file) : B(tau, file) {}
  Dofs exact()
  {
    Dofs d = B::zero();
    for (unsigned f = 0; f < 2; ++f)
      if (!B::fixed(f))
        for (unsigned k = 0; k < 3; ++k)
        {
          auto x = data.map<3>(std::array<double, 1>{(double)f});
          d[f][k] = beam.u[k].at(x, 0.);
          d[f][3 + k] = beam.phi[k].at(x, 0.);
        }
    return d;
  }
  Dofs call(bool res, const Dofs& in)
  {
    Dofs out = B::zero();
    auto e = hg[0];
    return res ? ls.residual_flux(in, out, e, 0.) : ls.trace_to_flux(in, out, e, 0.);
  }
  bool run(const std::string& op, vh::Ev& e, vh::Line& in) override
  {
    auto h = hg[0];
    if (op == "flux")
      e.raw("vals", B::dofs(call(true, exact()), 64));
    else if (op == "bulk")
    {
      auto v = ls.bulk_values(std::array<double, 3>{0., .5, 1.}, exact(), h, 0.);
      Rows r;
      for (auto& x : v)
      {
        r.emplace_back();
        for (auto y : x)
          r.back().push_back(vh::fix(y, 64));
      }
      e.raw("u", js(r));
    }
    else if (op == "err")
    {
      auto r = ls.errors(exact(), h, 0.);
      e.num("res", vh::fix(r[0], 64)).num("n", r.size());
    }
    else if (op == "any")
    {
      Dofs lam = B::read(in.ints());
      e.raw("lam", B::dofs(lam, 1)).raw("hom", B::dofs(call(false, lam), 64)).raw("res", B::dofs(call(true, lam), 64));
      e.raw("inh", B::dofs(call(true, B::zero()), 64));
    }
    else if (op == "matrix")
      e.raw("mat", B::matrix_of([&](const Dofs& x) { return call(false, x); }));
    else
      return false;
    return true;
  }
};
int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i();
      data.org.clear(), data.types.clear(), data.span.assign(1, {});
      for (unsigned d = 0; d < 3; ++d)
        data.org.push_back(in.i());
      for (unsigned d = 0; d < 3; ++d)
        data.span[0].push_back(in.i());
      data.types = {in.i()};
      data.types.push_back(in.i());
      data.tau = in.i();
      std::vector<long long> props = in.ints();  // six structural constants and two normals
      beam.each([&](Poly& x) { x.read(in, 3); });
      std::string file = std::string(argv[2]) + ".geo";
      data.write(file, 1, 3);
      if (props.size())
      {
        std::ofstream o(file, std::ios::app);
        o.precision(17);
        o << "HYPEREDGE_PROPERTIES: " << props.size() << "\n";
        for (size_t k = 0; k < props.size(); ++k)
          o << (double)props[k] * (k < 3 ? 1e-4 : k < 6 ? 1e-12 : 1.) << " ";
        o << "\n";
      }
      w.reset(p == 0   ? (Base*)new World<0>(data.tau, file)
              : p == 1 ? (Base*)new World<1>(data.tau, file)
              : p == 2 ? (Base*)new World<2>(data.tau, file)
                       : (Base*)new World<3>(data.tau, file));
      e.num("p", p).seq("org", data.org).raw("span", js(data.span)).seq("types", data.types).num("tau", data.tau).seq("props", props);
      e.raw("u", Beam::all(beam.u)).raw("phi", Beam::all(beam.phi)).raw("fn", Beam::all(beam.fn)).raw("fm", Beam::all(beam.fm)).raw("v", Beam::all(beam.v));
    }
    else if (!w || !w->run(op, e, in))
      return 3;
    out(e);
  }
}
