// Whole problems: the real local solvers in the real global loops on meshes of a parallelepiped; the assembled
// system is solved and the solution is compared with a polynomial.
// Variants: -DKIND=0 Diffusion | 1 DiffusionPostprocess | 2 DiffusionIP | 3 DiffusionAdvectionReaction | 4 Bilaplacian
// | 5 DiffusionParab | 6 BilaplacianParab | 7 AdvectionParab, -DKD=<edge dim>
#include <HyperHDG/compile_time_tricks.hxx>
#if KIND == 0
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#elif KIND == 1
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#elif KIND == 2
#include <HyperHDG/local_solver/diffusion_ip.hxx>
#elif KIND == 3
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#elif KIND == 4
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif KIND == 5
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
#elif KIND == 6
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#else
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#endif
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/sparse_la.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <algorithm>
#include <memory>
#include <random>
#include "localdata.hpp"
#include "localflow.hpp"
static constexpr unsigned K = KD;
static constexpr bool stepping = KIND >= 5;

static std::array<unsigned int, 6U> fixed_u, fixed_w, outlets, turning;
// Files carry the types of the schedule; the types of a cubic mesh are 3^k at the first, 2 * 3^k at the second side.
static void fix_types(bool cubic)
{
  fixed_u.fill(1000), fixed_w.fill(1000), outlets.fill(1000), turning.fill(1000);
  if (!cubic)
    fixed_u[0] = 1, fixed_w[0] = 2, fixed_u[1] = fixed_w[1] = 4;
  else
    for (unsigned f = 0; f < data.types.size(); ++f)
    {
      unsigned type = 1 + f % 2;
      for (unsigned k = 0; k < f / 2; ++k)
        type *= 3;
      if (data.types[f] == 1 || data.types[f] == 4)
        fixed_u[f] = type;
      if (data.types[f] == 2 || data.types[f] == 4)
        fixed_w[f] = type;
      if (data.types[f] == 2)
        outlets[f] = type;
      if (data.types[f] == 3 || data.types[f] == 6)
        turning[f] = type;
    }
}
template <unsigned int N, typename F>
struct Par
{
  static inline std::array<unsigned int, 6U>& dirichlet_nodes = fixed_u;
  static inline std::array<unsigned int, 6U>& dirichlet_laplacian_nodes = fixed_w;
  static inline std::array<unsigned int, 6U>& outflow_nodes = outlets;
  static inline std::array<unsigned int, 6U>& boundary_nodes = turning;
  static Point<N, F> velocity(const Point<N, F>& x, const F t = 0.)
  {
    Point<N, F> v;
    for (unsigned d = 0; d < N; ++d)
      v[d] = flow.b[d].at(x, t);
    return v;
  }
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static constexpr std::array<unsigned int, 0U> neumann_laplacian_nodes{};
  static F inverse_diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F inverse_bilaplacian_coefficient(const Point<N, F>& x, const F t = 0.) { return data.kinv.at(x, t); }
  static F diffusion_coeff(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t) / data.kinv.at(x, t); }
  static SmallVec<N, F> advective_velocity(const Point<N, F>& x, const F t = 0.)
  {
    SmallVec<N, F> v;
    for (unsigned int d = 0; d < N; ++d)
      v[d] = flow.b[d].at(x, t);
    return v;
  }
  static F reaction_rate(const Point<N, F>& x, const F t = 0.) { return flow.c.at(x, t); }
  static F right_hand_side(const Point<N, F>& x, const F t = 0.) { return data.f.at(x, t); }
  static F dirichlet_value(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F dirichlet_laplace_value(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t); }
  static F initial(const Point<N, F>& x, const F t = 0.) { return data.u.at(x, t); }
  static F initial_laplace(const Point<N, F>& x, const F t = 0.) { return data.dif.at(x, t); }
  static F neumann_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F neumann_laplace_value(const Point<N, F>&, const F = 0.) { return 0.; }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(x, t); }
};
template <unsigned p>
struct Type
{
#if KIND == 0
  typedef LocalSolver::Diffusion<K, p, 2 * p + 3, Par> type;
#elif KIND == 1
  typedef LocalSolver::DiffusionPostprocess<K, p, 2 * p + 3, Par> type;
#elif KIND == 2
  typedef LocalSolver::DiffusionIP<K, p, 2 * p + 3, Par> type;
#elif KIND == 3
  typedef LocalSolver::DiffusionAdvectionReaction<K, p, 2 * p + 3, Par> type;
#elif KIND == 4
  typedef LocalSolver::Bilaplacian<K, p, 2 * p + 3, Par> type;
#elif KIND == 5
  typedef LocalSolver::DiffusionParab<K, p, 2 * p + 3, Par> type;
#elif KIND == 6
  typedef LocalSolver::BilaplacianParab<K, p, 2 * p + 3, Par> type;
#else
  typedef LocalSolver::AdvectionParab<K, p, 2 * p + 3, Par> type;
#endif
};
struct Mesh
{
  std::vector<long long> n;  // cells in each direction
  bool cubic;
  unsigned seed;
  unsigned total() const
  {
    unsigned t = 1;
    for (auto m : n)
      t *= m;
    return t;
  }
  // the mesh as a file: hyperedges, hypernodes and points are numbered at random
  void write(const std::string& name, unsigned N) const
  {
    std::mt19937 rng(seed);
    auto shuffled = [&](unsigned m) {
      std::vector<unsigned> v(m);
      for (unsigned i = 0; i < m; ++i)
        v[i] = i;
      for (unsigned i = m; i > 1; --i)
        std::swap(v[i - 1], v[rng() % i]);
      return v;
    };
    unsigned n_pt = 1, n_node = 0;
    std::vector<unsigned> first;
    for (unsigned k = 0; k < K; ++k)
    {
      n_pt *= n[k] + 1;
      first.push_back(n_node);
      n_node += total() / n[k] * (n[k] + 1);
    }
    auto pt_no = shuffled(n_pt), node_no = shuffled(n_node), edge_no = shuffled(total());
    auto index = [&](const std::vector<long long>& at, unsigned more) {  // more: direction with one more (K: all)
      unsigned r = 0;
      for (unsigned k = K; k-- > 0;)
        r = r * (n[k] + (k == more || more == K)) + at[k];
      return r;
    };
    std::vector<std::string> pts(n_pt), nodes(total()), types(total()), corners(total());
    std::vector<long long> at(K);
    for (unsigned i = 0; i < n_pt; ++i)
    {
      for (unsigned k = 0, ii = i; k < K; ++k)
        at[k] = ii % (n[k] + 1), ii /= n[k] + 1;
      std::ostringstream o;
      o.precision(17);
      for (unsigned d = 0; d < N; ++d)
      {
        double x = data.org[d];
        for (unsigned k = 0; k < K; ++k)
          x += (double)data.span[k][d] * at[k] / n[k];
        o << x << " ";
      }
      pts[pt_no[index(at, K)]] = o.str();
    }
    for (unsigned i = 0; i < total(); ++i)
    {
      for (unsigned k = 0, ii = i; k < K; ++k)
        at[k] = ii % n[k], ii /= n[k];
      bool turn = K == 1 && rng() % 2;  // curves may be run through in either direction
      std::ostringstream a, b, c;
      for (unsigned f = 0; f < 2 * K; ++f)
      {
        unsigned g = turn ? 1 - f : f, k = g / 2;
        bool bdr = at[k] == (g % 2 ? n[k] - 1 : 0);
        at[k] += g % 2;
        a << node_no[first[k] + index(at, k)] << " ";
        at[k] -= g % 2;
        b << (bdr ? data.types[g] : 0) << " ";
      }
      for (unsigned q = 0; q < 1U << K; ++q)
      {
        for (unsigned k = 0; k < K; ++k)
          at[k] += (q >> k & 1) != turn;
        c << pt_no[index(at, K)] << " ";
        for (unsigned k = 0; k < K; ++k)
          at[k] -= (q >> k & 1) != turn;
      }
      nodes[edge_no[i]] = a.str(), types[edge_no[i]] = b.str(), corners[edge_no[i]] = c.str();
    }
    std::ofstream o(name);
    o << "Space_Dim = " << N << ";\nHyperEdge_Dim = " << K << ";\nN_Points = " << n_pt << ";\nN_HyperNodes = " << n_node
      << ";\nN_HyperEdges = " << total() << ";\n";
    auto part = [&](const char* title, const std::vector<std::string>& v) {
      o << title << ":\n";
      for (auto& s : v)
        o << s << "\n";
    };
    part("POINTS", pts), part("HYPERNODES_OF_HYPEREDGES", nodes), part("TYPES_OF_HYPERFACES", types), part("POINTS_OF_HYPEREDGES", corners);
  }
};
struct Base
{
  virtual ~Base() {}
  virtual void refine(unsigned) = 0;
  virtual void shape(vh::Ev&) = 0;
  virtual void solve(vh::Ev&, double t) = 0;
  virtual void init(double t) = 0;
  virtual void set(double t) = 0;
  virtual void err(vh::Ev&, double t) = 0;
};
template <class Loop>
struct World : Base
{
  using V = std::vector<double>;
  Loop loop;
  V x;
  template <class C, class L>
  World(const C& c, const L& l) : loop(c, l)
  {
  }
  void refine(unsigned r) override { loop.set_refinement(r); }
  void shape(vh::Ev& e) override { e.num("size", loop.size_of_system()).num("r", loop.get_refinement()); }
  void solve(vh::Ev& e, double t) override
  {
    const unsigned n = loop.size_of_system();
    std::vector<V> col;
    std::vector<unsigned> rows;
    for (unsigned j = 0; j < n; ++j)
    {
      V u = loop.zero_vector();
      u[j] = 1.;
      col.push_back(loop.trace_to_flux(u, t));
    }
    for (unsigned i = 0; i < n; ++i)
    {
      double m = 0.;
      for (unsigned j = 0; j < n; ++j)
        m = std::max(m, std::abs(col[j][i]));
      if (m > 1e-12)
        rows.push_back(i);
    }
    V b = loop.residual_flux(loop.zero_vector(), t);
    for (auto& v : b)
      v = -v;
    const unsigned m = rows.size();
    std::vector<V> a(m, V(m + 1));
    for (unsigned i = 0; i < m; ++i)
    {
      for (unsigned j = 0; j < m; ++j)
        a[i][j] = col[rows[j]][rows[i]];
      a[i][m] = b[rows[i]];
    }
    for (unsigned k = 0; k < m; ++k)
    {
      unsigned piv = k;
      for (unsigned i = k; i < m; ++i)
        if (std::abs(a[i][k]) > std::abs(a[piv][k]))
          piv = i;
      std::swap(a[k], a[piv]);
      for (unsigned i = 0; i < m; ++i)
        if (i != k && a[i][k] != 0.)
        {
          double q = a[i][k] / a[k][k];
          for (unsigned j = k; j <= m; ++j)
            a[i][j] -= q * a[k][j];
        }
    }
    x = loop.zero_vector();
    for (unsigned i = 0; i < m; ++i)
      x[rows[i]] = a[i][m] / a[i][i];
    V r = loop.residual_flux(x, t);
    double rest = 0.;
    for (auto v : r)
      rest = v == v ? std::max(rest, std::abs(v)) : 1e9;
    e.num("free", m).num("rest", vh::fix(rest, 1024));
    double diff = 0.;
    if constexpr (KIND == 0 || KIND == 1)
    {
      try
      {
        struct Now
        {
          Loop& loop;
          double t;
          V trace_to_flux(const V& v) { return loop.trace_to_flux(v, t); }
        } now{loop, t};
        V y = SparseLA::conjugate_gradient(b, now, 6 * n + 20, 1e-11);
        for (unsigned i = 0; i < n; ++i)
          diff = std::max(diff, std::abs(x[i] - y[i]));
      }
      catch (SparseLA::SolveException&)
      {
        diff = 1e6;
      }
    }
    e.num("cg", vh::fix(diff, 1024));
  }
  void init(double t) override
  {
    if constexpr (stepping)
      x = loop.make_initial(loop.zero_vector(), t);
  }
  void set(double t) override
  {
    if constexpr (stepping)
      loop.set_data(x, t);
  }
  void err(vh::Ev& e, double t) override
  {
    auto r = loop.errors(x, t);
    e.num("n", r.size()).num("res", vh::fix(r[0] * r[0], 64));
  }
};
template <unsigned p, unsigned N>
static Base* build(const Mesh& mesh, long long theta, long long dt, const std::string& file)
{
  using LS = typename Type<p>::type;
  typename LS::constructor_value_type c;
  if constexpr (stepping)
    c = {(double)data.tau, theta / 4., (double)dt};
  else
    c = data.tau;
  using TF = Topology::File<K, N>;
  using GF = Geometry::File<K, N>;
  using NF = NodeDescriptor::File<K, N>;
  if (mesh.cubic)
  {
    if constexpr (N == K)
    {
      using TC = Topology::Cubic<K, N>;
      using GC = Geometry::UnitCube<K, N>;
      using NC = NodeDescriptor::Cubic<K, N>;
      std::vector<unsigned> n(mesh.n.begin(), mesh.n.end());
#if KIND >= 5
      return new World<GlobalLoop::Parabolic<TC, GC, NC, LS>>(n, c);
#else
      return new World<GlobalLoop::Elliptic<TC, GC, NC, LS>>(n, c);
#endif
    }
    return nullptr;
  }
  mesh.write(file, N);
#if KIND >= 5
  return new World<GlobalLoop::Parabolic<TF, GF, NF, LS>>(file, c);
#else
  return new World<GlobalLoop::Elliptic<TF, GF, NF, LS>>(file, c);
#endif
}
template <unsigned N>
static Base* make(unsigned p, const Mesh& mesh, long long theta, long long dt, const std::string& file)
{
  if constexpr (N >= K)
  {
#if KIND == 7
    if (p == 0)
      return build<0, N>(mesh, theta, dt, file);
#endif
    if (p == 1)
      return build<1, N>(mesh, theta, dt, file);
#if KD < 3
    if (p == 2)
      return build<2, N>(mesh, theta, dt, file);
#endif
#if KD < 2 || (KIND == 4 && KD == 2)
    if (p == 3)
      return build<3, N>(mesh, theta, dt, file);
#endif
  }
  return nullptr;
}
int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "problem")
    {
      Mesh mesh;
      for (unsigned k = 0; k < K; ++k)
        mesh.n.push_back(in.i());
      mesh.cubic = in.i(), mesh.seed = in.i();
      long long theta = in.i(), dt = in.i();  // in quarters, in units
      if (in.word() != "cell")
        return 3;
      unsigned p = in.i(), N = in.i();
      data.read(in, K, N);
#if KIND == 3 || KIND == 7
      flow.read(in, N);
      flow.show(e);
#endif
      fix_types(mesh.cubic);
      std::string file = std::string(argv[2]) + ".geo";
      w.reset(N == 1 ? make<1>(p, mesh, theta, dt, file) : N == 2 ? make<2>(p, mesh, theta, dt, file) : make<3>(p, mesh, theta, dt, file));
      if (!w)
        return 3;
      data.show(e.num("p", p).num("K", K).num("N", N).num("theta", theta).num("dt", dt)).seq("mesh", mesh.n);
      e.num("cubic", mesh.cubic);
      w->shape(e);
      out(e);
      continue;
    }
    long long a = in.i();
    e.num("t", a);
    if (op == "refine")
      w->refine(a), w->shape(e);
    else if (op == "init")
      w->init(a + start);
    else if (op == "solve")
      w->solve(e, a + start);
    else if (op == "set")
      w->set(a + start);
    else if (op == "err")
    {
      unsigned N = in.i();
      data.v.read(in, N);
      e.raw("v", js(data.v.m));
      w->err(e, a + start);
    }
    else
      return 3;
    out(e);
  }
}
