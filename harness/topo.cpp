// Structured and file based hypergraphs: incidence, numbering, boundary types, geometry.
// Variants: -DKD=<edge dim> -DND=<space dim>
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/hdg_hypergraph.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include "vh.hpp"

static constexpr unsigned K = KD, N = ND;
using TC = Topology::Cubic<K, N>;
using GC = Geometry::UnitCube<K, N>;
using NC = NodeDescriptor::Cubic<K, N>;
using TF = Topology::File<K, N>;
using GF = Geometry::File<K, N>;
using NF = NodeDescriptor::File<K, N>;

static long long near(double v)
{
  if (!(v == v) || std::abs(v) > 1e9)
    return vh::BAD;
  double r = std::nearbyint(v);
  return std::abs(v - r) <= 1e-6 * std::max(1., std::abs(v)) ? (long long)r : vh::BAD;
}
template <typename V>
static std::string js(const V& v)
{
  std::ostringstream s;
  s << "[";
  bool f = true;
  for (auto x : v)
  {
    if (!f)
      s << ",";
    f = false;
    s << x;
  }
  s << "]";
  return s.str();
}
using L = std::vector<long long>;
static std::string js(const std::vector<L>& v)
{
  std::vector<std::string> r;
  for (auto& x : v)
    r.push_back(js(x));
  return js(r);
}

struct Scale
{
  std::array<double, N> s;  // doubled lattice units per unit length
  template <typename P>
  L pt(const P& p) const
  {
    L r;
    for (unsigned d = 0; d < N; ++d)
      r.push_back(near(p[d] * s[d]));
    return r;
  }
};

template <typename G, typename T, typename ND_>
struct World
{
  HDGHyperGraph<1, T, G, ND_>* hg = nullptr;
  std::shared_ptr<T> topo;
  std::shared_ptr<G> geom;
  std::shared_ptr<ND_> node;
  std::array<double, N> base;  // lattice cells per unit length on the coarse level
  bool cubic;

  Scale scale() const
  {
    Scale s;
    for (unsigned d = 0; d < N; ++d)
      s.s[d] = 2. * base[d] * topo->get_refinement();
    return s;
  }
  template <typename E>
  void edge_props(std::ostringstream& s, E& ge)
  {
    if constexpr (!std::is_same_v<G, GC>)
    {
      L p;
      if (ge.has_extra_data())
        for (auto x : ge.extra_data())
          p.push_back(near(x));
      s << ",\"p\":" << js(p);
    }
  }
  void query(vh::Out& out, const std::string& op)
  {
    unsigned nE = topo->n_hyEdges(), nN = topo->n_hyNodes();
    Scale sc = scale();
    std::ostringstream s;
    s << "[";
    for (unsigned e = 0; e < nE; ++e)
    {
      auto te = (*topo)[e];
      auto ge = (*geom)[e];
      auto ne = (*node)[e];
      L nodes, types;
      for (auto x : te.get_hyNode_indices())
        nodes.push_back((long long)x);
      std::vector<L> f;
      for (unsigned i = 0; i < 2 * K; ++i)
      {
        types.push_back((long long)ne[i]);
        f.push_back(sc.pt(ge.face_barycenter(i)));
      }
      Point<K> c(0.5);
      SmallMat<K, 1> cm;
      for (unsigned d = 0; d < K; ++d)
        cm[d] = 0.5;
      auto ph = ge.map_ref_to_phys((const SmallMat<K, 1>&)cm);
      L cc;
      for (unsigned d = 0; d < N; ++d)
        cc.push_back(near(ph[d] * sc.s[d]));
      s << (e ? "," : "") << "{\"c\":" << js(cc) << ",\"f\":" << js(f) << ",\"nodes\":" << js(nodes)
        << ",\"types\":" << js(types);
      edge_props(s, ge);
      s << "}";
    }
    s << "]";
    unsigned gN = nN, gE = nE;
    if (hg)
    {
      gN = hg->n_hyNodes();
      gE = hg->n_hyEdges();
    }
    out(vh::Ev(op).num("nE", nE).num("nN", nN).num("gE", gE).num("gN", gN).num(
      "r", topo->get_refinement()).num("rg", geom->get_refinement()).num(
      "rn", node->get_refinement()).raw("edges", s.str()));
  }
  void geo(vh::Out& out, unsigned e)
  {
    Scale sc = scale();
    auto ge = (*geom)[e];
    double r = topo->get_refinement();
    vh::Ev ev("geo");
    ev.num("e", e);
    // corners
    SmallMat<K, (1 << K)> corners;
    for (unsigned j = 0; j < (1u << K); ++j)
      for (unsigned d = 0; d < K; ++d)
        corners(d, j) = (j >> d) & 1;
    auto pc = ge.map_ref_to_phys((const SmallMat<K, (1 << K)>&)corners);
    std::vector<L> v;
    for (unsigned j = 0; j < (1u << K); ++j)
      v.push_back(sc.pt(pc.get_column(j)));
    ev.raw("corners", js(v));
    v.clear();
    SmallVec<3, float> p1;
    p1[0] = 0.f, p1[1] = 0.5f, p1[2] = 1.f;
    for (unsigned j = 0; j < Hypercube<K>::pow(3); ++j)
      v.push_back(sc.pt(ge.lexicographic(j, p1)));
    ev.raw("lex", js(v));
    v.clear();
    for (unsigned b = 0; b < 2 * K; ++b)
      for (unsigned j = 0; j < Hypercube<K - 1>::pow(3); ++j)
        v.push_back(sc.pt(ge.boundary_lexicographic(j + b * Hypercube<K - 1>::pow(3), b, 1.f, p1)));
    ev.raw("blex", js(v));
    v.clear();
    for (unsigned d = 0; d < K; ++d)
      v.push_back(sc.pt(ge.span_vec(d)));
    ev.raw("span", js(v));
    v.clear();
    for (unsigned i = 0; i < 2 * K; ++i)
      v.push_back(sc.pt(ge.face_barycenter(i)));
    ev.raw("bary", js(v));
    v.clear();
    double all = 1;
    for (unsigned d = 0; d < N; ++d)
      all *= base[d] * r;
    double a = ge.area();
    L fa;
    if (cubic)
    {
      ev.num("area", near(a * all));
      for (unsigned i = 0; i < 2 * K; ++i)
        fa.push_back(near(ge.face_area(i) * all));
    }
    else
    {
      ev.num("area", a < 0 ? vh::BAD : near(a * a * std::pow(r, 2. * K)));
      for (unsigned i = 0; i < 2 * K; ++i)
      {
        double f = ge.face_area(i);
        fa.push_back(f < 0 ? vh::BAD : near(f * f * std::pow(r, 2. * (K - 1))));
      }
    }
    ev.raw("farea", js(fa));
    // Q and R: Q orthogonal, Q R = transformation matrix
    auto q = ge.mat_q();
    auto rm = ge.mat_r();
    L qq, qr;
    for (unsigned i = 0; i < N; ++i)
      for (unsigned j = 0; j < N; ++j)
      {
        double s = 0;
        for (unsigned l = 0; l < N; ++l)
          s += q(l, i) * q(l, j);
        qq.push_back(vh::fix(s, 1e6));
      }
    for (unsigned j = 0; j < K; ++j)
    {
      L col;
      for (unsigned i = 0; i < N; ++i)
      {
        double s = 0;
        for (unsigned l = 0; l < K; ++l)
          s += q(i, l) * rm(l, j);
        col.push_back(near(s * sc.s[i]));
      }
      v.push_back(col);
    }
    ev.raw("qtq", js(qq)).raw("qr", js(v));
    v.clear();
    // local normals against the columns of R: sign, orthogonality, length
    auto sgn = [](double x) -> long long {
      if (!(x == x))
        return vh::BAD;
      return std::abs(x) < 1e-7 ? 0 : (x > 0 ? 1 : -1);
    };
    std::vector<L> in;
    L len;
    for (unsigned i = 0; i < 2 * K; ++i)
    {
      auto n = ge.local_normal(i);
      auto m = ge.inner_normal(i);
      L l, li;
      double s = 0, t = 0, within = 0;
      for (unsigned j = 0; j < K; ++j)
      {
        double a = 0, b = 0, c = 0;
        auto sp = ge.span_vec(j);
        for (unsigned d = 0; d < K; ++d)
          a += n[d] * rm(d, j);
        for (unsigned d = 0; d < N; ++d)
          b += m[d] * sp[d], c += m[d] * q(d, j);
        within += c * c;
        l.push_back(sgn(a));
        li.push_back(sgn(b));
        s += n[j] * n[j];
      }
      for (unsigned d = 0; d < N; ++d)
        t += m[d] * m[d];
      v.push_back(l);
      in.push_back(li);
      len.push_back(vh::fix(s, 1e6));
      len.push_back(vh::fix(t, 1e6));
      len.push_back(vh::fix(within, 1e6));
    }
    ev.raw("lnorm", js(v)).raw("inorm", js(in)).raw("nlen", js(len));
    L on;
    for (unsigned i = 0; i < N - K; ++i)
    {
      auto o = ge.outer_normal(i);
      for (unsigned j = 0; j < K; ++j)
      {
        auto sp = ge.span_vec(j);
        double s = 0;
        for (unsigned d = 0; d < N; ++d)
          s += o[d] * sp[d];
        on.push_back(sgn(s));
      }
      for (unsigned j = 0; j < N - K; ++j)
      {
        auto p = ge.outer_normal(j);
        double s = 0;
        for (unsigned d = 0; d < N; ++d)
          s += o[d] * p[d];
        on.push_back(i == j ? (std::abs(s - 1) < 1e-7 ? 0 : vh::BAD) : sgn(s));
      }
    }
    ev.raw("onorm", js(on));
    out(ev);
  }
  void own_from_graph(HDGHyperGraph<1, T, G, ND_>* g) { hg = g; }
};

template <typename W, typename F>
static void drive(W& w, vh::Line& in, const std::string& op, vh::Out& out, F rebuild)
{
  if (op == "ref")
  {
    unsigned l = in.i();
    if (w.hg)
      w.hg->set_refinement(l);
    else
    {
      w.topo->set_refinement(l);
      w.geom->set_refinement(l);
      w.node->set_refinement(l);
    }
    out(vh::Ev("ref").num("L", l));
  }
  else if (op == "query")
    w.query(out, "query");
  else if (op == "copy")
  {
    rebuild();
    w.query(out, "query");
  }
  else if (op == "geo")
  {
    unsigned e = in.i() % w.topo->n_hyEdges();
    w.geo(out, e);
  }
  else if (op == "refuse")
  {
    long long e = in.i();
    unsigned nE = w.topo->n_hyEdges();
    unsigned idx = e ? nE + (unsigned)e - 1 : nE - 1;
    std::string a = vh::isolated([&]() -> std::string { (*w.topo)[idx]; return ""; }).first;
    std::string b = vh::isolated([&]() -> std::string { (*w.node)[idx]; return ""; }).first;
    out(vh::Ev("refuse").num("idx", idx).num("nE", nE).str("topo", a).str("node", b));
  }
  else
    std::exit(3);
}

int main(int, char** argv)
{
  auto lines = vh::schedule(argv[1]);
  vh::Out out(argv[2]);
  World<GC, TC, NC> wc;
  World<GF, TF, NF> wf;
  int kind = 0;
  for (auto& l : lines)
  {
    vh::Line in(l);
    std::string op = in.word();
    if (op == "newcubic")
    {
      std::string how = in.word();
      auto v = in.ints();
      SmallVec<N, unsigned int> n;
      for (unsigned d = 0; d < N; ++d)
      {
        n[d] = v[d];
        wc.base[d] = v[d];
      }
      wc.cubic = true;
      wc.hg = nullptr;
      if (how == "parts")
      {
        wc.topo = std::make_shared<TC>(n);
        wc.geom = std::make_shared<GC>(n);
        wc.node = std::make_shared<NC>(n);
      }
      else
      {
        wc.topo = std::make_shared<TC>(n);
        wc.geom = std::make_shared<GC>(*wc.topo);
        wc.node = std::make_shared<NC>(*wc.topo);
        wc.hg = new HDGHyperGraph<1, TC, GC, NC>(wc.topo, wc.geom, wc.node);
      }
      kind = 1;
      out(vh::Ev("newcubic").num("k", K).seq("n", v));
    }
    else if (op == "newfile")
    {
      std::string path = in.word();
      std::string how = in.word();
      std::string js = in.rest();
      wf.cubic = false;
      wf.hg = nullptr;
      for (unsigned d = 0; d < N; ++d)
        wf.base[d] = 1;
      wf.topo = std::make_shared<TF>(path);
      wf.geom = std::make_shared<GF>(*wf.topo);
      wf.node = std::make_shared<NF>(*wf.topo);
      if (how != "parts")
        wf.hg = new HDGHyperGraph<1, TF, GF, NF>(wf.topo, wf.geom, wf.node);
      kind = 2;
      out(vh::Ev("newfile").num("k", K).num("nd", N).raw("file", js));
    }
    else if (kind == 1)
      drive(wc, in, op, out, [&] {
        wc.topo = std::make_shared<TC>(*wc.topo);
        wc.geom = std::make_shared<GC>(*wc.topo);
        wc.node = std::make_shared<NC>(*wc.topo);
        wc.hg = nullptr;
      });
    else
      drive(wf, in, op, out, [&] {
        static std::vector<std::shared_ptr<TF>> keep;
        keep.push_back(wf.topo);
        wf.topo = std::make_shared<TF>(*wf.topo);
        wf.geom = std::make_shared<GF>(*wf.topo);
        wf.node = std::make_shared<NF>(*wf.topo);
        wf.hg = nullptr;
      });
  }
  return 0;
}
