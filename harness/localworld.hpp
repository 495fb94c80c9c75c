// What the harnesses of all local solvers share: one hyperedge, its skeletal unknowns, projections.
// Needs -DKD=<edge dim>; include after the header of the local solver.
#pragma once
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/file.hxx>
#include "localdata.hpp"
static constexpr unsigned K = KD;
struct NoData
{
};
template <class LS_, unsigned p, unsigned N, class Stored = NoData, unsigned fields = 1>
struct LocalWorld
{
  using LS = LS_;
  using TF = Topology::File<K, N>;
  using GF = Geometry::File<K, N>;
  using NF = NodeDescriptor::File<K, N>;
  static constexpr unsigned nd = LS::n_glob_dofs_per_node();
  static constexpr unsigned nb = nd / fields;  // unknowns of one field on one face
  using Dofs = std::array<std::array<double, nd>, 2 * K>;
  using Int = TPP::Quadrature::Tensorial<
    TPP::Quadrature::GaussLegendre<2 * p + 9>,
    TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, K>>, double>;
  LS ls;
  HDGHyperGraph<nd, TF, GF, NF, Stored> hg;
  template <class C>
  LocalWorld(const C& c, const std::string& file) : ls(c), hg(file)
  {
  }
  static bool fixed(unsigned f) { return data.types[f] == 1 || data.types[f] == 4; }
  Dofs zero()
  {
    Dofs d;
    for (auto& f : d)
      f.fill(0.);
    return d;
  }
  // projection of a polynomial to the faces, zero at Dirichlet faces if skip
  Dofs trace(bool skip, double t, const Poly& u = data.u, unsigned field = 0)
  {
    Dofs d = zero();
    for (unsigned f = 0; f < 2 * K; ++f)
      if (!(skip && fixed(f)))
        for (unsigned j = 0; j < nb; ++j)
          d[f][field * nb + j] = Int::project_psi(j, f, [&](const auto& pt) { return u.at(data.map<N>(pt), t); });
    return d;
  }
  // dofs of a face -> values in {0, 1/2, 1}^(K-1)
  std::string at_faces(const Dofs& d, unsigned field = 0, double scale = 64)
  {
    Rows r;
    for (unsigned f = 0; f < 2 * K; ++f)
    {
      r.emplace_back();
      unsigned n = 1;
      for (unsigned k = 1; k < K; ++k)
        n *= 3;
      std::array<double, nb> c;
      for (unsigned j = 0; j < nb; ++j)
        c[j] = d[f][field * nb + j];
      for (unsigned i = 0; i < n; ++i)
      {
        std::array<double, (K > 1 ? K - 1 : 1)> s{};
        for (unsigned k = 0, ii = i; k + 1 < K; ++k, ii /= 3)
          s[k] = (ii % 3) / 2.;
        r.back().push_back(vh::fix(Int::eval_psi(c, s), scale));
      }
    }
    return js(r);
  }
  std::string dofs(const Dofs& d, double scale)
  {
    Rows r;
    for (auto& f : d)
    {
      r.emplace_back();
      for (auto v : f)
        r.back().push_back(vh::fix(v, scale));
    }
    return js(r);
  }
  template <class A>
  static std::string list(const A& a, double scale = 64)
  {
    Rows r(1);
    for (auto x : a)
      r[0].push_back(vh::fix(x, scale));
    std::string s = js(r);
    return s.substr(1, s.size() - 2);
  }
  // components 0..K-1 of v (a vector at each point, in local coordinates) along the spanning vectors
  template <class V, class H>
  std::string along(const V& v, unsigned from, H& h, bool identity = false)
  {
    Rows q;
    for (unsigned i = 0; i < v[0].size(); ++i)
    {
      q.emplace_back();
      for (unsigned s = 0; s < K; ++s)
      {
        double z = 0.;
        for (unsigned d = 0; d < N; ++d)
          for (unsigned k = 0; k < K; ++k)
            z += data.span[s][d] * (identity ? (double)(d == k) : h.geometry.mat_q()(d, k)) * v[from + k][i];
        q.back().push_back(vh::fix(z, 64));
      }
    }
    return js(q);
  }
  Dofs read(const std::vector<long long>& l)
  {
    Dofs in = zero();
    for (unsigned f = 0; f < 2 * K; ++f)
      for (unsigned j = 0; j < nd; ++j)
        in[f][j] = (double)l.at(f * nd + j);
    return in;
  }
  template <class F>
  std::string matrix_of(F call, double scale = 1024)
  {
    Rows r;
    for (unsigned f = 0; f < 2 * K; ++f)
      for (unsigned j = 0; j < nd; ++j)
      {
        Dofs in = zero();
        in[f][j] = 1.;
        Dofs out = call(in);
        r.emplace_back();
        for (auto& g : out)
          for (auto v : g)
            r.back().push_back(vh::fix(v, scale));
      }
    return js(r);
  }
};
