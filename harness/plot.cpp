// Plotting: options, file names and numbers, contents of the written files.
// Variants: -DKD -DND, -DLOOP (1..5), -DSD -DNSD (number of components), -DNDOF, -DEDGE (signature)
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/cubic.hxx>
#include <HyperHDG/topology/file.hxx>
#include <filesystem>
#include "vh.hpp"
namespace fs = std::filesystem;
static constexpr unsigned K = KD, N = ND;
using TC = Topology::Cubic<K, N>;
using GC = Geometry::UnitCube<K, N>;
using NC = NodeDescriptor::Cubic<K, N>;
using TF = Topology::File<K, N>;
using GF = Geometry::File<K, N>;
using NF = NodeDescriptor::File<K, N>;
using vec = std::vector<double>;

// The unit (a power of ten) of all values that the local solver reports.
static int unit = 0;
static long long inunits(double x)
{
  if (unit == 0)
    return vh::exact(x);
  double y = x * std::pow(10., -unit), r = std::nearbyint(y);
  return std::abs(y - r) < 0.01 ? vh::exact(r) : vh::BAD;
}
struct Solver
{
  using constructor_value_type = int;
  struct data_type
  {
  };
  struct error_def
  {
    using error_t = std::array<double, 1>;
  };
  struct node_element
  {
    typedef std::tuple<int> functions;
  };
  static constexpr unsigned hyEdge_dim() { return K; }
  static constexpr unsigned n_glob_dofs_per_node() { return NDOF; }
  static constexpr unsigned node_system_dimension() { return NSD; }
  static constexpr unsigned system_dimension() { return SD; }
  Solver(const constructor_value_type& = 0) {}
  template <typename A, std::size_t S, class L>
  std::array<std::array<double, Hypercube<K>::pow(S)>, SD> values(const std::array<A, S>& a,
                                                                 const L& lambda,
                                                                 double time) const
  {
    std::array<std::array<double, Hypercube<K>::pow(S)>, SD> r;
    double base = 16. * time;
    for (unsigned f = 0; f < 2 * K; ++f)
      for (unsigned i = 0; i < NDOF; ++i)
        base += (f + 1.) * (i + 1.) * lambda[f][i];
    for (unsigned d = 0; d < SD; ++d)
      for (unsigned c = 0; c < r[d].size(); ++c)
        r[d][c] = (base + 7. * d + c + 8. * a[c % S]) * std::pow(10., unit);
    return r;
  }
#if EDGE
  template <typename A, std::size_t S, class L, class E>
  std::array<std::array<double, Hypercube<K>::pow(S)>, SD> bulk_values(const std::array<A, S>& a,
                                                                      const L& lambda,
                                                                      E&,
                                                                      const double time = 0.) const
  {
    return values(a, lambda, time);
  }
#else
  template <typename A, std::size_t S, class L>
  std::array<std::array<double, Hypercube<K>::pow(S)>, SD> bulk_values(const std::array<A, S>& a,
                                                                      const L& lambda,
                                                                      const double time = 0.) const
  {
    return values(a, lambda, time);
  }
#endif
};
template <class T, class G, class ND_>
#if LOOP == 1
using Loop = GlobalLoop::Elliptic<T, G, ND_, Solver, vec>;
#elif LOOP == 2
using Loop = GlobalLoop::Parabolic<T, G, ND_, Solver, vec>;
#elif LOOP == 3
using Loop = GlobalLoop::MassApproxEigenvalue<T, G, ND_, Solver, vec>;
#elif LOOP == 4
using Loop = GlobalLoop::ShiftedInverseEigenvalue<T, G, ND_, Solver, vec>;
#else
using Loop = GlobalLoop::NonlinearEigenvalue<T, G, ND_, Solver, vec>;
#endif

static std::string js(const std::vector<long long>& v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string slurp(const fs::path& p)
{
  std::ifstream in(p, std::ios::binary);
  std::ostringstream s;
  s << in.rdbuf();
  return s.str();
}
static long long digest(const std::string& s)
{
  unsigned long long h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return (long long)(h % 1000000007ull);
}
static std::string attr(const std::string& tag, const std::string& name)
{
  size_t p = tag.find(" " + name + "=");
  if (p == std::string::npos)
    return "";
  p = tag.find('"', p);
  size_t q = tag.find('"', p + 1);
  return tag.substr(p + 1, q - p - 1);
}
// The structure of a VTU file: element nesting, piece sizes and data arrays.
static std::string parse(const std::string& text)
{
  std::vector<std::string> stack;
  bool wf = true;
  std::string arrays = "[";
  long long np = -1, nc = -1, pieces = 0;
  size_t pos = 0;
  while ((pos = text.find('<', pos)) != std::string::npos)
  {
    size_t end = text.find('>', pos);
    if (end == std::string::npos)
    {
      wf = false;
      break;
    }
    std::string tag = text.substr(pos + 1, end - pos - 1);
    pos = end + 1;
    if (tag[0] == '?')
      continue;
    if (tag[0] == '/')
    {
      if (stack.empty() || stack.back() != tag.substr(1))
        wf = false;
      else
        stack.pop_back();
      continue;
    }
    std::string nm = tag.substr(0, tag.find_first_of(" \t\n"));
    std::string parent = stack.empty() ? "" : stack.back();
    stack.push_back(nm);
    if (nm == "Piece")
    {
      ++pieces;
      np = std::atoll(attr(tag, "NumberOfPoints").c_str());
      nc = std::atoll(attr(tag, "NumberOfCells").c_str());
    }
    if (nm == "DataArray")
    {
      size_t q = text.find('<', pos);
      std::istringstream body(text.substr(pos, q - pos));
      std::vector<long long> v;
      std::string w;
      bool pts = parent == "Points";
      while (body >> w)
      {
        char* e = nullptr;
        double x = std::strtod(w.c_str(), &e);
        if (*e)
          v.push_back(vh::BAD);
        else
          v.push_back(pts ? vh::fix(x, 10000.) : parent == "PointData" ? inunits(x) : vh::exact(x));
      }
      std::string c = attr(tag, "NumberOfComponents");
      arrays += (arrays.size() > 1 ? "," : "") + std::string("{\"sect\":") + vh::Ev::quote(parent) +
                ",\"name\":" + vh::Ev::quote(attr(tag, "Name")) +
                ",\"comps\":" + (c.empty() ? "1" : std::to_string(std::atoll(c.c_str()))) +
                ",\"v\":" + js(v) + "}";
    }
  }
  wf = wf && stack.empty() && pieces == 1;
  return "{\"wf\":" + std::string(wf ? "true" : "false") + ",\"np\":" + std::to_string(np) +
         ",\"nc\":" + std::to_string(nc) + ",\"arrays\":" + arrays + "]}";
}
// every file below the scratch directory, with a digest of its contents
static void age()
{
  for (const auto& e : fs::recursive_directory_iterator("."))
    if (e.is_regular_file())
      fs::last_write_time(e.path(), fs::file_time_type::clock::now() - std::chrono::hours(24 * 365 * 2));
}
static std::vector<fs::path> written(fs::file_time_type since)
{
  std::vector<fs::path> r;
  for (const auto& e : fs::recursive_directory_iterator("."))
    if (e.is_regular_file() && e.last_write_time() > since)
      r.push_back(e.path().lexically_normal());
  return r;
}
static std::string listing()
{
  std::vector<std::string> r;
  for (const auto& e : fs::recursive_directory_iterator("."))
    if (e.is_regular_file())
      r.push_back("{\"f\":" + vh::Ev::quote(e.path().lexically_normal().string()) +
                  ",\"h\":" + std::to_string(digest(slurp(e.path()))) + "}");
  std::sort(r.begin(), r.end());
  std::string s = "[";
  for (size_t i = 0; i < r.size(); ++i)
    s += (i ? "," : "") + r[i];
  return s + "]";
}

template <class T, class G, class ND_>
struct World
{
  std::unique_ptr<Loop<T, G, ND_>> loop;
  std::shared_ptr<T> topo;
  std::shared_ptr<G> geom;
  std::unique_ptr<HDGHyperGraph<NDOF, T, G, ND_>> hg;
  PlotOptions po;

  void mesh(vh::Out& out, bool fresh)
  {
    std::string s = "[";
    for (unsigned e = 0; e < topo->n_hyEdges(); ++e)
    {
      std::vector<long long> nodes, lo;
      auto te = (*topo)[e];
      auto ge = (*geom)[e];
      for (auto x : te.get_hyNode_indices())
        nodes.push_back(x);
      auto at = [&](int dir) {
        SmallMat<K, 1> c;
        if (dir >= 0)
          c[dir] = 1.;
        return ge.map_ref_to_phys((const SmallMat<K, 1>&)c);
      };
      auto o = at(-1);
      for (unsigned d = 0; d < N; ++d)
        lo.push_back(vh::fix(o[d], 10000.));
      std::string sp = "[";
      for (unsigned j = 0; j < K; ++j)
      {
        auto p = at(j);
        std::vector<long long> v;
        for (unsigned d = 0; d < N; ++d)
          v.push_back(vh::fix(p[d] - o[d], 10000.));
        sp += (j ? "," : "") + js(v);
      }
      s += (e ? "," : "") + std::string("{\"nodes\":") + js(nodes) + ",\"lo\":" + js(lo) +
           ",\"sp\":" + sp + "]}";
    }
    out(vh::Ev("mesh").boolean("fresh", fresh).num("k", K).num("nd", N).num("ndof", NDOF).num("sd", SD)
          .num("nsd", NSD).num("size", loop->size_of_system()).raw("cells", s + "]"));
  }
  void op(vh::Line& in, const std::string& o, vh::Out& out)
  {
    if (o == "ref")
    {
      unsigned r = in.i();
      loop->set_refinement(r);
      hg->set_refinement(r);
      topo->set_refinement(r);
      geom->set_refinement(r);
      mesh(out, false);
    }
    else if (o == "opt" || o == "dopt")
    {
      std::string name = in.word(), value = in.word();
      if (value == "-")
        value = "";
      std::string res, st = "ok";
      // whatever ends the process is tried in another one first
      auto r = vh::isolated([&] { return o == "opt" ? loop->plot_option(name, value) : set_plot_option(po, name, value); });
      st = r.first;
      if (st == "ok")
        res = o == "opt" ? loop->plot_option(name, value) : set_plot_option(po, name, value);
      else if (st == "throw")
        try
        {
          o == "opt" ? loop->plot_option(name, value) : set_plot_option(po, name, value);
        }
        catch (std::exception&)
        {
        }
      out(vh::Ev(o).str("name", name).str("value", value).str("st", st).str("res", res));
    }
    else if (o == "numbers")
    {
      po.numbers = in.i();
      out(vh::Ev(o).boolean("v", po.numbers));
    }
    else if (o == "plot" || o == "dplot")
    {
      double time = in.i();
      auto lam = in.vec<double>();
      lam.resize(loop->size_of_system(), 1.);
      std::string st = "ok";
      auto keep = lam;
      age();
      auto since = fs::file_time_type::clock::now() - std::chrono::hours(24 * 365);
      try
      {
        if (o == "plot" && time == 0.)
          loop->plot_solution(lam);
        else if (o == "plot")
          loop->plot_solution(lam, time);
        else
        {
          Solver s;
          plot(*hg, s, lam, po, time);
        }
      }
      catch (std::exception&)
      {
        st = "throw";
      }
      std::string w = "[";
      for (const auto& p : written(since))
        w += (w.size() > 1 ? "," : "") + std::string("{\"f\":") + vh::Ev::quote(p.string()) +
             ",\"body\":" + parse(slurp(p)) + "}";
      out(vh::Ev(o).num("time", (long long)time).seq("lam", lam).str("st", st).boolean("kept", keep == lam)
            .raw("wrote", w + "]").raw("dir", listing()));
    }
    else
      std::exit(3);
  }
};

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  World<TC, GC, NC> c;
  World<TF, GF, NF> f;
  bool cubic = true;
  // everything is written below a scratch directory of its own
  std::string dir = std::string(argv[2]) + ".dir";
  fs::remove_all(dir);
  fs::create_directory(dir);
  auto lines = vh::schedule(argv[1]);
  fs::current_path(dir);
  for (const auto& line : lines)
  {
    vh::Line in(line);
    std::string o = in.word();
    if (o == "cubic")
    {
      cubic = true;
      SmallVec<N, unsigned> n;
      for (unsigned d = 0; d < N; ++d)
        n[d] = in.i();
      c.loop.reset(new Loop<TC, GC, NC>(n));
      c.topo.reset(new TC(n));
      c.geom.reset(new GC(n));
      c.hg.reset(new HDGHyperGraph<NDOF, TC, GC, NC>(n));
      c.po = PlotOptions();
      c.mesh(out, true);
    }
    else if (o == "file")
    {
      cubic = false;
      std::string path = in.word();
      f.loop.reset(new Loop<TF, GF, NF>(path));
      f.topo.reset(new TF(path));
      f.geom.reset(new GF(*f.topo));
      f.hg.reset(new HDGHyperGraph<NDOF, TF, GF, NF>(path));
      f.po = PlotOptions();
      f.mesh(out, true);
    }
    else if (o == "unit")
      unit = (int)in.i();
    else if (o == "mkdir")
    {
      std::string d = in.word();
      fs::create_directories(d);
      out(vh::Ev(o).str("d", d));
    }
    else if (o == "wipe")
    {
      for (const auto& e : fs::directory_iterator("."))
        fs::remove_all(e.path());
      out(vh::Ev(o));
    }
    else if (cubic)
      c.op(in, o, out);
    else
      f.op(in, o, out);
  }
  fs::current_path("/");
  fs::remove_all(dir);
  return 0;
}
