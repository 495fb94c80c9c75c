// Hypergraphs and local solvers of our own for the global loops (which are templates over them).
#pragma once
#include <HyperHDG/dense_la.hxx>
#include <array>
#include <cmath>
#include <cstdlib>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef DIM
#define DIM 1
#endif
#ifndef NDOF
#define NDOF 1
#endif
#ifndef EDGE
#define EDGE 1
#endif
#ifndef FLT
#define FLT double
#endif
constexpr unsigned F = 2 * DIM;
using flt = FLT;
// What the specification calls the value 1 is this number for the library (a power of two, so that nothing is rounded).
inline flt unit = std::getenv("VH_UNIT") ? (flt)std::ldexp(1., std::atoi(std::getenv("VH_UNIT"))) : (flt)1;
using vec = std::vector<flt>;

struct Graph
{
  unsigned nN;
  std::vector<std::array<unsigned, F>> inc, types;
};
struct Levels
{
  std::vector<Graph> g;
  bool cons = true;
  Levels() {}
  // NLEVELS, then per level nN nE then nE*(F nodes, F types), then whether initial values agree
  Levels(const std::vector<unsigned>& v)
  {
    size_t p = 0;
    auto next = [&]() -> unsigned
    {
      if (p >= v.size())
        throw std::runtime_error("numbers are missing");
      return v[p++];
    };
    g.resize(next());
    for (Graph& l : g)
    {
      l.nN = next();
      unsigned n = next();
      for (unsigned e = 0; e < n; ++e)
      {
        std::array<unsigned, F> a, b;
        for (auto& x : a)
          x = next();
        for (auto& x : b)
          x = next();
        l.inc.push_back(a);
        l.types.push_back(b);
      }
    }
    cons = next();
  }
  Levels(const std::string& s) : Levels(numbers(s)) {}
  static std::vector<unsigned> numbers(const std::string& s)
  {
    std::istringstream in(s);
    std::vector<unsigned> v;
    for (unsigned x; in >> x;)
      v.push_back(x);
    return v;
  }
};

template <class C>
struct TopoOf
{
  static constexpr unsigned hyEdge_dim() { return DIM; }
  static constexpr unsigned space_dim() { return 3; }
  using constructor_value_type = C;
  struct value_type
  {
    unsigned index;
    bool cons;
    SmallVec<F, unsigned> nodes;
    const SmallVec<F, unsigned>& get_hyNode_indices() const { return nodes; }
  };
  Levels lv;
  unsigned level = 1;
  TopoOf(const C& l) : lv(l) {}
  const Graph& cur() const { return lv.g[level - 1]; }
  unsigned n_hyEdges() const { return cur().inc.size(); }
  unsigned n_hyNodes() const { return cur().nN; }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
  value_type operator[](unsigned i) const
  {
    value_type v;
    v.index = i;
    v.cons = lv.cons;
    for (unsigned k = 0; k < F; ++k)
      v.nodes[k] = cur().inc.at(i)[k];
    return v;
  }
};
inline unsigned geo_offset(unsigned v)
{
  return v;
}
inline unsigned geo_offset(const std::string& s)
{
  return s.size();
}
template <class T, class C>
struct GeomOf
{
  static constexpr unsigned hyEdge_dim() { return DIM; }
  static constexpr unsigned space_dim() { return 3; }
  using constructor_value_type = C;
  struct value_type
  {
    unsigned index, level;
    // corners for plotting: (index + coordinate of the corner, 0, 0)
    template <unsigned n_sub, class P>
    SmallVec<3, double> lexicographic(unsigned c, const P& p) const
    {
      SmallVec<3, double> r(0.);
      r[0] = index + (double)p[c % 2];
      return r;
    }
    template <unsigned n_sub, class P>
    SmallVec<3, double> boundary_lexicographic(unsigned c, unsigned b, float, const P&) const
    {
      SmallVec<3, double> r(0.);
      r[0] = index + 0.25 * b;
      r[1] = c;
      return r;
    }
  };
  unsigned level, offset = 0;
  GeomOf(const T& t) : level(t.level) {}
  GeomOf(const C& c) : level(1), offset(geo_offset(c)) {}
  void set_refinement(unsigned l) { level = l; }
  unsigned get_refinement() const { return level; }
  value_type operator[](unsigned i) const { return {i, level + offset}; }
};
template <class T>
struct NodeOf
{
  Levels lv;
  unsigned level;
  NodeOf(const T& t) : lv(t.lv), level(t.level) {}
  struct value_type
  {
    std::array<unsigned, F> t;
    unsigned operator[](unsigned i) const { return t[i]; }
  };
  void set_refinement(unsigned l) { level = l; }
  unsigned get_refinement() const { return level; }
  value_type operator[](unsigned i) const { return {lv.g[level - 1].types.at(i)}; }
};

using dofs = std::array<std::array<flt, NDOF>, F>;

static long t4(flt t)
{
  return std::lround((double)t * 4);
}
static long mod(long a, long m)
{
  return ((a % m) + m) % m;
}
struct Solver
{
  static constexpr unsigned hyEdge_dim() { return DIM; }
  static constexpr unsigned n_glob_dofs_per_node() { return NDOF; }
  static constexpr unsigned system_dimension() { return 1; }
  static constexpr unsigned node_system_dimension() { return 1; }
  struct data_type
  {
    long v = 0;
  };
  using constructor_value_type = double;
  long extra = 0;
  Solver() {}
  Solver(const constructor_value_type& v) : extra(std::lround(v)) {}

  struct error_def
  {
    typedef std::array<flt, 2> error_t;
    static error_t initial_error() { return {5 * unit, -50 * unit}; }
    static error_t sum_error(const error_t& a, const error_t& b)
    {
      return {a[0] + b[0], std::max(a[1], b[1])};
    }
    static error_t postprocess_error(const error_t& a) { return {2 * a[0] + unit, a[1]}; }
  };

  template <class E>
  static long coef(unsigned n, unsigned i, unsigned m, unsigned j, E& e, long t)
  {
    return mod(7 * (long)e.topology.index + 16 * (long)e.geometry.index + 5 * n + 3 * i + 11 * m +
                 13 * j + 2 * e.geometry.level * (m + 1) + e.node_descriptor[n] * (n + 2) +
                 t * (i + j + 1),
               9) -
           4;
  }
  static long coef(unsigned n, unsigned i, unsigned m, unsigned j, long t)
  {
    return mod(5 * n + 3 * i + 11 * m + 13 * j + t * (i + j + 1), 9) - 4;
  }
  template <class... E>
  static void lin(const dofs& in, dofs& out, long t, long fac, E&... e)
  {
    for (unsigned m = 0; m < F; ++m)
      for (unsigned j = 0; j < NDOF; ++j)
        if (in[m][j] == 777 * unit)
          throw std::runtime_error("the local problem has no solution");
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        for (unsigned m = 0; m < F; ++m)
          for (unsigned j = 0; j < NDOF; ++j)
            out[n][i] += fac * coef(n, i, m, j, e..., t) * in[m][j];
  }
  template <class... E>
  void src(dofs& out, long t, E&... e) const
  {
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
      {
        long s = 2 * n + 5 * i + t, dat = 0;
        ((s += 3 * (long)e.topology.index, dat = e.data.v), ...);
        out[n][i] += unit * (mod(s, 7) - 3 + dat + extra);
      }
  }
  template <class... E>
  static error_def::error_t err(const dofs& in, long t, E&... e)
  {
    flt s = 0;
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        s += (n * NDOF + i + 1) * in[n][i];
    s += unit * t;
    ((s += unit * (e.data.v + (long)e.topology.index)), ...);
    return {s, in[0][0] + unit * t};
  }
  // values at the corners, for plotting
  using bulk = std::array<std::array<flt, 1 << DIM>, 1>;
  template <class... E>
  static bulk val(const dofs& in, long t, E&... e)
  {
    bulk r;
    flt s = err(in, t, e...)[0];
    for (unsigned c = 0; c < r[0].size(); ++c)
      r[0][c] = s + unit * c;
    return r;
  }
#if EDGE
#define EP , E &e
#define EA , e
  template <class E>
#else
#define EP
#define EA
#endif
  dofs& trace_to_flux(dofs& in, dofs& out EP, flt t = 0.) const
  {
    lin(in, out, t4(t), 1 EA);
    return out;
  }
#if EDGE
  template <class E>
#endif
  dofs& residual_flux(dofs& in, dofs& out EP, flt t = 0.) const
  {
    lin(in, out, t4(t), 1 EA);
    src(out, t4(t) EA);
    return out;
  }
#if EDGE
  template <class E>
#endif
  dofs& trace_to_mass_flux(dofs& in, dofs& out EP, flt t = 0.) const
  {
    lin(in, out, t4(t) + 100, 1 EA);
    return out;
  }
#if EDGE
  template <class E>
#endif
  dofs& jacobian_of_trace_to_flux(dofs& in, dofs& out, flt eig, dofs& val, flt eigval EP) const
  {
    lin(in, out, t4(eig), 1 EA);
    lin(val, out, t4(eigval) + 1, 2 EA);
    return out;
  }
#if EDGE
  template <class E>
  bulk bulk_values(const std::array<float, 2>&, const dofs& in, E& e, flt t = 0.) const
  {
    return val(in, t4(t), e);
  }
  template <class E>
  error_def::error_t errors(dofs& in, E& e, flt t = 0.) const
  {
    return err(in, t4(t), e);
  }
  template <class E>
  void set_data(dofs& in, E& e, flt t = 0.) const
  {
    long s = 3 * e.data.v + t4(t) + (long)e.topology.index;
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        s += (n * NDOF + i + 1) * std::lround(in[n][i] / unit);
    e.data.v = mod(s, 1009);
  }
#else
  bulk bulk_values(const std::array<float, 2>&, const dofs& in, flt t = 0.) const
  {
    return val(in, t4(t));
  }
  error_def::error_t errors(dofs& in, flt t = 0.) const { return err(in, t4(t)); }
  void set_data(dofs&, flt = 0.) const {}
#endif
  template <class E>
  std::array<unsigned, F> node_types(E& e) const
  {
    std::array<unsigned, F> r;
    for (unsigned n = 0; n < F; ++n)
      r[n] = e.node_descriptor[n];
    return r;
  }
};

struct ParSolver : Solver
{
  using Solver::Solver;
#if EDGE
  template <class E>
  dofs& make_initial(dofs& v, E& e, flt t = 0.) const
  {
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        v[n][i] += unit * (100 * (long)e.topology.nodes[n] + 10 * i + t4(t) +
                           (e.topology.cons ? 0 : 7 * (long)e.topology.index));
    e.data.v = 5 * (long)e.topology.index + t4(t) + 1;
    return v;
  }
#else
  dofs& make_initial(dofs& v, flt t = 0.) const
  {
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        v[n][i] += unit * (10 * n + i + t4(t));
    return v;
  }
#endif
};
struct NonSolver : Solver
{
  using Solver::Solver;
#if EDGE
  template <class E>
  dofs& make_initial(dofs& v, E& e, flt t = 0.) const
  {
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        v[n][i] = 2 * v[n][i] + unit * (i + t4(t) +
                  (e.topology.cons ? (long)e.topology.nodes[n] : 7 * (long)e.topology.index));
    return v;
  }
#else
  dofs& make_initial(dofs& v, flt t = 0.) const
  {
    for (unsigned n = 0; n < F; ++n)
      for (unsigned i = 0; i < NDOF; ++i)
        v[n][i] = 2 * v[n][i] + unit * (i + t4(t));
    return v;
  }
#endif
};

