// One hyperedge with polynomial data: read from the schedule, shown in the trace.
#pragma once
#include "vh.hpp"
using Rows = std::vector<std::vector<long long>>;
static std::string js(const Rows& r)
{
  std::string s = "[";
  for (size_t i = 0; i < r.size(); ++i)
  {
    s += i ? ",[" : "[";
    for (size_t j = 0; j < r[i].size(); ++j)
      s += (j ? "," : "") + std::to_string(r[i][j]);
    s += "]";
  }
  return s + "]";
}
// The clock of the problem: what the specification calls time t is time t + start for the library, so
// that times with fractions, and negative ones, occur as well.
static double start = 0.;
struct Poly  // monomials: coefficient, exponents of the coordinates, exponent of time
{
  Rows m;
  template <typename P>
  double at(const P& x, double t) const
  {
    double s = 0.;
    for (auto& r : m)
    {
      double v = (double)r[0];
      for (size_t d = 1; d + 1 < r.size(); ++d)
        for (long long k = 0; k < r[d]; ++k)
          v *= x[d - 1];
      for (long long k = 0; k < r.back(); ++k)
        v *= t - start;
      s += v;
    }
    return s;
  }
  void read(vh::Line& in, unsigned N)
  {
    m.clear();
    for (long long n = in.i(); n > 0; --n)
    {
      m.emplace_back();
      for (unsigned k = 0; k < N + 2; ++k)
        m.back().push_back(in.i());
    }
  }
};
struct Data
{
  std::vector<long long> org, types;
  Rows span;
  long long tau, t;
  Poly u, kinv, dif, f, v;
  void read(vh::Line& in, unsigned K, unsigned N)
  {
    org.clear(), types.clear(), span.clear();
    for (unsigned d = 0; d < N; ++d)
      org.push_back(in.i());
    for (unsigned k = 0; k < K; ++k)
    {
      span.emplace_back();
      for (unsigned d = 0; d < N; ++d)
        span.back().push_back(in.i());
    }
    for (unsigned k = 0; k < 2 * K; ++k)
      types.push_back(in.i());
    tau = in.i(), t = in.i();
    u.read(in, N), kinv.read(in, N), dif.read(in, N), f.read(in, N), v.read(in, N);
    long long k = tau + t;
    for (auto x : types)
      k += x;
    start = k % 4 == 0 ? 0. : k % 4 == 1 ? .5 : k % 4 == 2 ? -2.25 : 17.125;
  }
  double now() const { return (double)t + start; }
  vh::Ev& show(vh::Ev& e)
  {
    e.seq("org", org).raw("span", js(span)).seq("types", types).num("tau", tau).num("t", t);
    return e.raw("u", js(u.m)).raw("kinv", js(kinv.m)).raw("dif", js(dif.m)).raw("f", js(f.m)).raw("v", js(v.m));
  }
  template <unsigned N, typename P>
  std::array<double, N> map(const P& ref) const
  {
    std::array<double, N> x;
    for (unsigned d = 0; d < N; ++d)
    {
      x[d] = (double)org[d];
      for (size_t k = 0; k < span.size(); ++k)
        x[d] += (double)span[k][d] * ref[k];
    }
    return x;
  }
  void write(const std::string& name, unsigned K, unsigned N)
  {
    std::ofstream o(name);
    o << "Space_Dim = " << N << ";\nHyperEdge_Dim = " << K << ";\nN_Points = " << (1 << K) << ";\nN_HyperNodes = " << 2 * K
      << ";\nN_HyperEdges = 1;\nPOINTS:\n";
    for (unsigned i = 0; i < 1U << K; ++i)
    {
      for (unsigned d = 0; d < N; ++d)
      {
        long long c = org[d];
        for (unsigned k = 0; k < K; ++k)
          if (i >> k & 1)
            c += span[k][d];
        o << c << " ";
      }
      o << "\n";
    }
    o << "HYPERNODES_OF_HYPEREDGES:\n";
    for (unsigned k = 0; k < 2 * K; ++k)
      o << k << " ";
    o << "\nTYPES_OF_HYPERFACES:\n";
    for (auto k : types)
      o << k << " ";
    o << "\nPOINTS_OF_HYPEREDGES:\n";
    for (unsigned k = 0; k < 1U << K; ++k)
      o << k << " ";
    o << "\n";
  }
};
static Data data;
struct Any
{
  virtual ~Any() {}
  virtual void flux(vh::Ev&) = 0;
  virtual void types(vh::Ev&) = 0;
  virtual void bulk(vh::Ev&, const std::vector<long long>&) = 0;
  virtual void err(vh::Ev&) = 0;
  virtual void any(vh::Ev&, const std::vector<long long>&) = 0;
  virtual void matrix(vh::Ev&) = 0;
  virtual void mass(vh::Ev&, const std::vector<long long>&, const std::vector<long long>&) { std::exit(3); }
};
