// Drives SparseLA (vector kernels, conjugate gradients), alone and on top of GlobalLoop::Elliptic.
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/sparse_la.hxx>
#include "vh.hpp"
#ifndef FLT
#define FLT double
#endif
using flt = FLT;
using vec = std::vector<flt>;

struct Matrix
{
  std::vector<std::vector<flt>> a;
  unsigned products = 0;
  vec trace_to_flux(const vec& x)
  {
    ++products;
    vec y(a.size(), 0.);
    for (size_t i = 0; i < a.size(); ++i)
      for (size_t j = 0; j < a.size(); ++j)
        y[i] += a[i][j] * x.at(j);
    return y;
  }
};

struct Edge
{
  unsigned i, j;
  flt w, si, sj;
};
struct Net
{
  unsigned n = 0;
  std::vector<Edge> e;
};
struct Topo
{
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 3; }
  using constructor_value_type = Net;
  struct value_type
  {
    unsigned index;
    SmallVec<2, unsigned> nodes;
    const SmallVec<2, unsigned>& get_hyNode_indices() const { return nodes; }
  };
  Net net;
  Topo(const Net& n) : net(n) {}
  unsigned n_hyEdges() const { return net.e.size(); }
  unsigned n_hyNodes() const { return net.n; }
  unsigned get_refinement() const { return 1; }
  void set_refinement(unsigned) {}
  value_type operator[](unsigned i) const
  {
    value_type v;
    v.index = i;
    v.nodes[0] = net.e.at(i).i;
    v.nodes[1] = net.e.at(i).j;
    return v;
  }
};
struct Geom
{
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 3; }
  using constructor_value_type = Topo;
  using value_type = Edge;
  Net net;
  Geom(const Topo& t) : net(t.net) {}
  void set_refinement(unsigned) {}
  unsigned get_refinement() const { return 1; }
  value_type operator[](unsigned i) const { return net.e.at(i); }
};
struct Node
{
  Node(const Topo&) {}
  struct value_type
  {
    unsigned operator[](unsigned) const { return 0; }
  };
  void set_refinement(unsigned) {}
  unsigned get_refinement() const { return 1; }
  value_type operator[](unsigned) const { return {}; }
};
using dofs = std::array<std::array<flt, 1>, 2>;
struct Conductor
{
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned n_glob_dofs_per_node() { return 1; }
  static constexpr unsigned system_dimension() { return 1; }
  static constexpr unsigned node_system_dimension() { return 1; }
  struct data_type
  {
  };
  struct constructor_value_type
  {
    int dummy;
  };
  Conductor() {}
  Conductor(const constructor_value_type&) {}
  struct error_def
  {
    typedef std::array<flt, 1> error_t;
    static error_t initial_error() { return {0}; }
    static error_t sum_error(const error_t& a, const error_t& b) { return {a[0] + b[0]}; }
    static error_t postprocess_error(const error_t& a) { return a; }
  };
  template <class E>
  dofs& trace_to_flux(dofs& in, dofs& out, E& e, flt = 0.) const
  {
    out[0][0] += e.geometry.w * (in[0][0] - in[1][0]);
    out[1][0] += e.geometry.w * (in[1][0] - in[0][0]);
    return out;
  }
  template <class E>
  dofs& residual_flux(dofs& in, dofs& out, E& e, flt = 0.) const
  {
    trace_to_flux(in, out, e);
    out[0][0] -= e.geometry.si;
    out[1][0] -= e.geometry.sj;
    return out;
  }
  template <class E>
  error_def::error_t errors(dofs&, E&, flt = 0.) const
  {
    return {0};
  }
};
using Loop = GlobalLoop::Elliptic<Topo, Geom, Node, Conductor, vec>;

static std::string arr(const vec& v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(vh::exact(v[i]));
  return s + "]";
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::vector<vec> r(4);
  std::unique_ptr<Loop> loop;
  unsigned n_net = 0;
  auto all = [&](vh::Ev& e) {
    std::string s = "[";
    for (auto& v : r)
      s += (s.size() > 1 ? "," : "") + arr(v);
    e.raw("all", s + "]");
    out(e);
  };
  auto parse = [](const std::string& t) {
    vec v;
    std::istringstream s(t);
    for (double d; s >> d;)
      v.push_back((flt)d);
    return v;
  };
  auto show = [](const vec& v) {
    std::ostringstream s;
    s.precision(17);
    for (auto x : v)
      s << x << " ";
    return s.str();
  };
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "set")
    {
      long d = in.i();
      r[d - 1] = in.vec<flt>();
      e.num("d", d).seq("v", r[d - 1]);
      all(e);
    }
    else if (op == "comb" || op == "into")
    {
      long d = in.i(), p = in.i(), a = in.i(), q = in.i(), b = in.i();
      e.num("d", d).num("p", p).num("a", a).num("q", q).num("b", b);
      // An assertion ends the child only; what the child computed is carried over.
      auto [st, res] = vh::isolated([&]() {
        if (op == "comb")
          return show(SparseLA::linear_combination((flt)p, r[a - 1], (flt)q, r[b - 1]));
        SparseLA::linear_combination((flt)p, r[a - 1], (flt)q, r[b - 1], r[d - 1]);
        return show(r[d - 1]);
      });
      if (st == "ok" && op == "into")
        SparseLA::linear_combination((flt)p, r[a - 1], (flt)q, r[b - 1], r[d - 1]);
      else if (st == "ok")
        r[d - 1] = parse(res);
      e.str("st", st);
      all(e);
    }
    else if (op == "dot")
    {
      long a = in.i(), b = in.i();
      auto [st, res] = vh::isolated([&]() { return show({SparseLA::inner_product(r[a - 1], r[b - 1])}); });
      e.num("a", a).num("b", b).str("st", st).num("res", st == "ok" ? vh::exact(parse(res).at(0)) : 0);
      all(e);
    }
    else if (op == "norm")
    {
      long a = in.i();
      e.num("a", a).num("res", vh::fix(SparseLA::norm_2(r[a - 1]), 1000));
      all(e);
    }
    else if (op == "cg")
    {  // cg ITS TOL UNIT n matrix rhs; TOL: 0 default, otherwise tenths; rhs is given in units of 1/UNIT
      long its = in.i(), tol = in.i(), u = in.i(), n = in.i();
      Matrix m;
      std::string rows = "[";
      for (long i = 0; i < n; ++i)
      {
        std::vector<flt> row;
        for (long j = 0; j < n; ++j)
          row.push_back(in.i());
        rows += (i ? "," : "") + arr(row);
        m.a.push_back(row);
      }
      vec given, b;
      for (long i = 0; i < n; ++i)
        given.push_back(in.i()), b.push_back(given.back() / (flt)u);
      vec x, keep = b;
      std::string st = "ok";
      try
      {
        if (tol)
          x = SparseLA::conjugate_gradient(b, m, its, (flt)tol / (flt)10.);
        else if (sizeof(flt) == 4)
          x = SparseLA::conjugate_gradient(b, m, its, (flt)2e-4);
        else if (its)
          x = SparseLA::conjugate_gradient(b, m, its);
        else
          x = SparseLA::conjugate_gradient(b, m);
      }
      catch (SparseLA::SolveException&)
      {
        st = "noconv";
      }
      e.num("its", its).num("tol", tol).raw("A", rows + "]").num("u", u).seq("b", given);
      e.boolean("same", b == keep).str("st", st);
      e.num("products", m.products).seqfix("x", x, 1e4 * u);
      out(e);
    }
    else if (op == "net")
    {
      Net net;
      net.n = n_net = in.i();
      long k = in.i();
      std::string es = "[";
      for (long i = 0; i < k; ++i)
      {
        Edge c;
        c.i = in.i(), c.j = in.i(), c.w = in.i(), c.si = in.i(), c.sj = in.i();
        net.e.push_back(c);
        es += (i ? "," : "") + arr({(flt)c.i, (flt)c.j, c.w, c.si, c.sj});
      }
      loop.reset(new Loop(net));
      out(e.num("n", n_net).raw("edges", es + "]"));
    }
    else if (op == "fix")
    {
      auto idx = in.vec<unsigned>();
      loop->read_dirichlet_indices(idx);
      out(e.seq("idx", idx));
    }
    else if (op == "netsolve")
    {
      std::string st = "ok";
      vec x;
      try
      {
        vec b = loop->residual_flux(loop->zero_vector());
        for (auto& v : b)
          v = -v;
        x = SparseLA::conjugate_gradient(b, *loop, 0, (flt)(sizeof(flt) == 4 ? 1e-3 : 1e-9));
      }
      catch (SparseLA::SolveException&)
      {
        st = "noconv";
      }
      out(e.str("st", st).seqfix("x", x, 1e4));
    }
    else
      return 3;
  }
}
