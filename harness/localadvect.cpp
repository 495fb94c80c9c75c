// Time stepping local solver for advection on one hyperedge of a cubic grid.  The grid is scaled to
// unit hyperedges: coordinates and velocities are multiplied by the number of intervals per direction,
// fluxes and integrals by the number of hyperedges per unit volume.
#include <HyperHDG/compile_time_tricks.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include "localdata.hpp"
static constexpr unsigned K = KD;
static std::vector<double> fine;  // intervals per direction
static std::vector<Poly> vel;     // velocity in the scaled coordinates
template <unsigned int N, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 4};
  static constexpr std::array<unsigned int, 1U> outflow_nodes{2};
  static constexpr std::array<unsigned int, 2U> boundary_nodes{3, 6};
  static Point<N, F> scaled(const Point<N, F>& x)
  {
    Point<N, F> y;
    for (unsigned d = 0; d < N; ++d)
      y[d] = x[d] * fine[d];
    return y;
  }
  static Point<N, F> velocity(const Point<N, F>& x, const F t = 0.)
  {
    Point<N, F> v;
    for (unsigned d = 0; d < N; ++d)
      v[d] = vel[d].at(scaled(x), t) / fine[d];
    return v;
  }
  static F right_hand_side(const Point<N, F>& x, const F t = 0.) { return data.f.at(scaled(x), t); }
  static F dirichlet_value(const Point<N, F>& x, const F t = 0.) { return data.u.at(scaled(x), t); }
  static F initial(const Point<N, F>& x, const F t = 0.) { return data.u.at(scaled(x), t); }
  static F analytic_result(const Point<N, F>& x, const F t = 0.) { return data.v.at(scaled(x), t); }
};
struct Base
{
  virtual ~Base() {}
  virtual void init(vh::Ev&, double) = 0;
  virtual void step(vh::Ev&, double) = 0;
  virtual void bulk(vh::Ev&, double) = 0;
  virtual void err(vh::Ev&, double) = 0;
  virtual void set(vh::Ev&, double) = 0;
  virtual void rough(vh::Ev&, double, const std::vector<long long>&) = 0;
};
template <unsigned p, unsigned N>
struct World : Base
{
  using LS = LocalSolver::AdvectionParab<K, p, 2 * p + 5, Par>;
  using Geo = Geometry::UnitCube<K, N>;
  static constexpr unsigned nb = LS::n_glob_dofs_per_node();
  using Dofs = std::array<std::array<double, nb>, 2 * K>;
  using Int = TPP::Quadrature::Tensorial<
    TPP::Quadrature::GaussLegendre<2 * p + 9>,
    TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, K>>, double>;
  struct Edge
  {
    decltype(std::declval<Geo>()[0]) geometry;
    std::vector<long long> node_descriptor;
    typename LS::data_type& data;
  };
  LS ls;
  Topology::Cubic<K, N> topo;
  Geo geo;
  typename LS::data_type stored;
  unsigned index;
  double vol = 1.;  // hyperedges per unit volume
  std::vector<unsigned> axis;
  static SmallVec<N, unsigned int> size(const std::vector<long long>& n)
  {
    SmallVec<N, unsigned int> s;
    for (unsigned d = 0; d < N; ++d)
      s[d] = (unsigned)n[d];
    return s;
  }
  static Topology::Cubic<K, N> grid(const std::vector<long long>& n, unsigned ref)
  {
    Topology::Cubic<K, N> t(size(n));
    t.set_refinement(ref);
    return t;
  }
  // the hyperedge with the lowest corner at, along the given coordinates
  World(const std::vector<double>& c, const std::vector<long long>& n, unsigned ref, const std::vector<long long>& at,
        const std::vector<long long>& along)
  : ls(c), topo(grid(n, ref)), geo(topo)
  {
    for (index = 0; index < topo.n_hyEdges(); ++index)
      if (place(), data.org == at)
      {
        auto a = axis;
        std::sort(a.begin(), a.end());
        if (std::equal(a.begin(), a.end(), along.begin(), along.end()))
          return;
      }
    std::cerr << "no such hyperedge\n";
    std::exit(1);
  }
  void place()
  {
    axis.clear(), vol = 1.;
    Edge e = edge();
    auto corner = [&](unsigned k) {
      SmallVec<K, double> x;
      if (k < K)
        x[k] = 1.;
      SmallMat<N, 1, double> y = e.geometry.template map_ref_to_phys<1>((const SmallVec<K, double>&)x);
      std::vector<long long> r;
      for (unsigned d = 0; d < N; ++d)
        r.push_back(std::llround(y[d] * fine[d]));
      return r;
    };
    data.org = corner(K), data.span.clear();
    for (unsigned k = 0; k < K; ++k)
    {
      auto q = corner(k);
      for (unsigned d = 0; d < N; ++d)
      {
        q[d] -= data.org[d];
        if (q[d])
          axis.push_back(d), vol *= fine[d];
      }
      data.span.push_back(q);
    }
  }
  Edge edge() { return Edge{geo[index], data.types, stored}; }
  static Dofs zero()
  {
    Dofs d;
    for (auto& f : d)
      f.fill(0.);
    return d;
  }
  // traces are zero where values are prescribed
  bool shut(unsigned f, double t)
  {
    if (data.types[f] == 1 || data.types[f] == 4)
      return true;
    if (data.types[f] != 3 && data.types[f] != 6)
      return false;
    std::array<double, K> mid;
    mid.fill(.5), mid[f / 2] = f % 2;
    return vel[axis[f / 2]].at(data.map<N>(mid), t) * (f % 2 ? 1 : -1) <= 0.;
  }
  Dofs trace(double t)
  {
    Dofs d = zero();
    for (unsigned f = 0; f < 2 * K; ++f)
      if (!shut(f, t))
        for (unsigned j = 0; j < nb; ++j)
          d[f][j] = Int::project_psi(j, f, [&](const auto& pt) { return data.u.at(data.map<N>(pt), t); });
    return d;
  }
  std::string at_faces(const Dofs& d, double scale)
  {
    Rows r;
    for (unsigned f = 0; f < 2 * K; ++f)
    {
      r.emplace_back();
      unsigned n = 1;
      for (unsigned k = 1; k < K; ++k)
        n *= 3;
      for (unsigned i = 0; i < n; ++i)
      {
        std::array<double, (K > 1 ? K - 1 : 1)> s{};
        for (unsigned k = 0, ii = i; k + 1 < K; ++k, ii /= 3)
          s[k] = (ii % 3) / 2.;
        r.back().push_back(vh::fix(Int::eval_psi(d[f], s), scale));
      }
    }
    return js(r);
  }
  std::string dofs(const Dofs& d, double scale)
  {
    Rows r;
    for (auto& f : d)
    {
      r.emplace_back();
      for (auto v : f)
        r.back().push_back(vh::fix(v, scale));
    }
    return js(r);
  }
  std::string values(const Dofs& in, double t)
  {
    auto e = edge();
    auto v = ls.bulk_values(std::array<double, 3>{0., .5, 1.}, in, e, t);
    Rows r(1);
    for (unsigned k = 1; k < v.size(); ++k)
      r[0].push_back(vh::BAD);
    for (auto x : v[0])
      r[0].push_back(vh::fix(x, 64));
    std::string s = js(r);
    return s.substr(1, s.size() - 2);
  }
  Dofs call(bool res, const Dofs& in, double t)
  {
    Dofs out = zero();
    auto e = edge();
    return res ? ls.residual_flux(in, out, e, t) : ls.trace_to_flux(in, out, e, t);
  }
  void init(vh::Ev& e, double t) override
  {
    auto h = edge();
    Dofs d;
    for (auto& f : d)
      f.fill(7.);
    ls.make_initial(d, h, t);
    e.raw("vals", at_faces(d, 64));
  }
  void step(vh::Ev& e, double t) override { e.raw("vals", at_faces(call(true, trace(t), t), 64 * vol)); }
  void bulk(vh::Ev& e, double t) override { e.raw("u", values(zero(), t)); }
  void err(vh::Ev& e, double t) override
  {
    auto h = edge();
    using D = typename LS::error_def;
    auto one = ls.errors(zero(), h, t), sum = D::initial_error();
    for (unsigned k = 0; k < 3; ++k)
      D::sum_error(sum, one);
    auto root = D::postprocess_error(sum);
    e.num("res", vh::fix(one[0], 64 * vol)).num("three", vh::fix(root[0] * root[0], 64 * vol)).num("same", sum == root);
  }
  void set(vh::Ev&, double t) override
  {
    auto h = edge();
    ls.set_data(trace(t), h, t);
  }
  void rough(vh::Ev& e, double t, const std::vector<long long>& l) override
  {
    Dofs in = zero();
    for (unsigned f = 0; f < 2 * K; ++f)
      for (unsigned j = 0; j < nb && !shut(f, t); ++j)
        in[f][j] = (double)l.at(f * nb + j);
    e.raw("lam", dofs(in, 1)).raw("hom", dofs(call(false, in, t), 64 * vol)).raw("res", dofs(call(true, in, t), 64 * vol));
    e.raw("inh", dofs(call(true, zero(), t), 64 * vol));
    auto h = edge();
    ls.set_data(in, h, t);
    e.raw("u", values(in, t));
  }
};
template <unsigned N>
static Base* make(unsigned p, const std::vector<double>& c, const std::vector<long long>& n, unsigned ref, const std::vector<long long>& at,
                  const std::vector<long long>& along)
{
  if constexpr (N < K)
    return nullptr;
  else
  {
    if (p == 0)
      return new World<0, N>(c, n, ref, at, along);
    if (p == 1)
      return new World<1, N>(c, n, ref, at, along);
#if KD < 3
    if (p == 2)
      return new World<2, N>(c, n, ref, at, along);
    if (p == 3)
      return new World<3, N>(c, n, ref, at, along);
#endif
    return nullptr;
  }
}
int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Base> w;
  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    vh::Ev e(op);
    if (op == "cell")
    {
      unsigned p = in.i(), N = in.i();
      std::vector<long long> n;
      fine.clear(), vel.clear(), data.types.clear();
      for (unsigned d = 0; d < N; ++d)
        n.push_back(in.i());
      unsigned ref = in.i();
      std::vector<long long> at, along;
      for (unsigned d = 0; d < N; ++d)
        at.push_back(in.i());
      for (unsigned k = 0; k < K; ++k)
        along.push_back(in.i());
      for (unsigned d = 0; d < N; ++d)
        fine.push_back((double)(n[d] * ref));
      for (unsigned k = 0; k < 2 * K; ++k)
        data.types.push_back(in.i());
      data.tau = in.i();
      long long theta = in.i(), dt = in.i(), from = in.i();
      start = from / 8.;
      data.u.read(in, N), data.f.read(in, N), data.v.read(in, N);
      vel.resize(N);
      std::string vs = "[";
      for (unsigned d = 0; d < N; ++d)
        vel[d].read(in, N), vs += (d ? "," : "") + js(vel[d].m);
      std::vector<double> c{(double)data.tau, theta / 4., (double)dt};
      w.reset(N == 1   ? make<1>(p, c, n, ref, at, along)
              : N == 2 ? make<2>(p, c, n, ref, at, along)
                       : make<3>(p, c, n, ref, at, along));
      if (!w)
        return 3;
      std::vector<long long> m;
      for (double x : fine)
        m.push_back((long long)x);
      e.num("p", p).num("K", K).num("N", N).seq("org", data.org).raw("span", js(data.span)).seq("types", data.types);
      e.num("tau", data.tau).num("theta", theta).num("dt", dt).seq("fine", m);
      e.raw("u", js(data.u.m)).raw("f", js(data.f.m)).raw("v", js(data.v.m)).raw("vel", vs + "]");
      out(e);
      continue;
    }
    long long when = in.i();
    e.num("t", when);
    double t = (double)when + start;
    if (op == "init")
      w->init(e, t);
    else if (op == "step")
      w->step(e, t);
    else if (op == "bulk")
      w->bulk(e, t);
    else if (op == "err")
      w->err(e, t);
    else if (op == "set")
      w->set(e, t);
    else if (op == "rough")
      w->rough(e, t, in.ints());
    else
      return 3;
    out(e);
  }
}
