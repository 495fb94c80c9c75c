// Networks of curves (junctions of any number of curves, loops of them, several between the same ends): diffusion on
// the whole network, its system, its solution and its error.  Variants: -DND=<space dim>
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <HyperHDG/topology/file.hxx>
#include <memory>
#include "localdata.hpp"
static constexpr unsigned N = ND;
struct Net
{
  Rows points, ends, types;  // of curves: first and second end (hypernode = point), types there
  long long tau, kinv, f;
  Poly g;
};
static Net net;
template <unsigned int n, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static F inverse_diffusion_coeff(const Point<n, F>&, const F = 0.) { return net.kinv; }
  static F right_hand_side(const Point<n, F>&, const F = 0.) { return net.f; }
  static F dirichlet_value(const Point<n, F>& x, const F t = 0.) { return net.g.at(x, t); }
  static F neumann_value(const Point<n, F>&, const F = 0.) { return 0.; }
  static F analytic_result(const Point<n, F>&, const F = 0.) { return 0.; }
};
using V = std::vector<double>;
struct Base
{
  virtual ~Base() {}
  virtual void refine(unsigned) = 0;
  virtual void shape(vh::Ev&) = 0;
  virtual V apply(const V&, bool res) = 0;
  virtual V zero() = 0;
  virtual V solve(const V& b) = 0;
  virtual double err(const V&) = 0;
};
template <unsigned p>
struct World : Base
{
  using LS = LocalSolver::Diffusion<1, p, 2 * p + 1, Par>;
  using T = Topology::File<1, N>;
  GlobalLoop::Elliptic<T, Geometry::File<1, N>, NodeDescriptor::File<1, N>, LS> loop;
  T topo;  // the same network, to be asked for its numbers
  World(const std::string& file) : loop(file, (double)net.tau), topo(file) {}
  void refine(unsigned r) override { loop.set_refinement(r), topo.set_refinement(r); }
  void shape(vh::Ev& e) override
  {
    Rows r;
    for (unsigned i = 0; i < topo.n_hyEdges(); ++i)
    {
      auto h = topo[i];
      r.push_back({(long long)h.get_hyNode_indices()[0], (long long)h.get_hyNode_indices()[1]});
    }
    e.raw("pieces", js(r)).num("size", loop.size_of_system()).num("r", loop.get_refinement());
  }
  V zero() override { return loop.zero_vector(); }
  V apply(const V& x, bool res) override { return res ? loop.residual_flux(x) : loop.trace_to_flux(x); }
  V solve(const V& b) override { return SparseLA::conjugate_gradient(b, loop, 6 * b.size() + 20, 1e-11); }
  double err(const V& x) override { return loop.errors(x)[0]; }
};
static void write(const std::string& name)
{
  std::ofstream o(name);
  o << "Space_Dim = " << N << ";\nHyperEdge_Dim = 1;\nN_Points = " << net.points.size() << ";\nN_HyperNodes = " << net.points.size()
    << ";\nN_HyperEdges = " << net.ends.size() << ";\n";
  auto part = [&](const char* title, const Rows& v) {
    o << title << ":\n";
    for (auto& row : v)
    {
      for (auto x : row)
        o << x << " ";
      o << "\n";
    }
  };
  part("POINTS", net.points), part("HYPERNODES_OF_HYPEREDGES", net.ends), part("TYPES_OF_HYPERFACES", net.types);
  part("POINTS_OF_HYPEREDGES", net.ends);
}
static std::string list(const V& x, double scale)
{
  Rows r(1);
  for (auto v : x)
    r[0].push_back(vh::fix(v, scale));
  std::string s = js(r);
  return s.substr(1, s.size() - 2);
}
int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "net")
    {
      unsigned p = in.i();
      net.tau = in.i(), net.kinv = in.i(), net.f = in.i();
      net.g.read(in, N);
      auto rows = [&](Rows& r, unsigned width) {
        r.clear();
        for (long long n = in.i(); n > 0; --n)
        {
          r.emplace_back();
          for (unsigned k = 0; k < width; ++k)
            r.back().push_back(in.i());
        }
      };
      rows(net.points, N), rows(net.ends, 2), rows(net.types, 2);
      std::string file = std::string(argv[2]) + ".geo";
      write(file);
      if (p == 0)
        w.reset(new World<0>(file));
      else if (p == 1)
        w.reset(new World<1>(file));
      else if (p == 2)
        w.reset(new World<2>(file));
      else
        w.reset(new World<3>(file));
      e.num("p", p).num("tau", net.tau).num("kinv", net.kinv).num("f", net.f).raw("g", js(net.g.m)).raw("points", js(net.points));
      e.raw("ends", js(net.ends)).raw("types", js(net.types));
      w->shape(e);
    }
    else if (op == "refine")
      w->refine(in.i()), w->shape(e);
    else if (op == "apply" || op == "res" || op == "err")
    {
      auto l = in.ints();
      V x = w->zero();
      std::vector<long long> used;
      for (unsigned i = 0; i < x.size(); ++i)
        used.push_back(l.at(i % l.size())), x[i] = used.back();
      e.seq("x", used);
      if (op == "err")
      {
        double r = w->err(x);
        e.num("out", vh::fix(r * r, 64));
      }
      else
        e.raw("out", list(w->apply(x, op == "res"), 256));
    }
    else if (op == "solve")
    {
      V b = w->apply(w->zero(), true);
      for (auto& v : b)
        v = -v;
      try
      {
        V x = w->solve(b), r = w->apply(x, true);
        e.raw("x", list(x, 64)).raw("rest", list(r, 1024)).num("ok", 1);
      }
      catch (SparseLA::SolveException&)
      {
        e.num("ok", 0);
      }
    }
    else
      return 3;
    out(e);
  }
}
