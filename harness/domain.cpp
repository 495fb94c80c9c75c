// Reading of domain files (.geo) and of point sets (.pts).  Variants: -DKD -DND
#include <HyperHDG/hypercube.hxx>
#include <HyperHDG/read_domain.hxx>
#include "vh.hpp"
static constexpr unsigned K = KD, N = ND;

template <typename C, typename F>
static std::string arr(const C& c, F f)
{
  std::ostringstream s;
  s << "[";
  bool first = true;
  for (const auto& x : c)
  {
    if (!first)
      s << ",";
    first = false;
    s << f(x);
  }
  s << "]";
  return s.str();
}
static std::string show(const std::string& path, int unit)
{
  auto d = read_domain<K, N>(path);
  auto i = [](auto v) { return (long long)v; };
  auto q = [unit](auto v) { return vh::exact(std::ldexp((double)v, unit)); };
  auto row = [&](const auto& r) { return arr(r, i); };
  std::vector<std::vector<double>> pts;
  for (auto& p : d.points)
  {
    std::vector<double> v;
    for (unsigned k = 0; k < N; ++k)
      v.push_back(p[k]);
    pts.push_back(v);
  }
  std::ostringstream s;
  s << "{\"nE\":" << d.n_hyEdges << ",\"nN\":" << d.n_hyNodes << ",\"nP\":" << d.n_points
    << ",\"points\":" << arr(pts, [&](const auto& r) { return arr(r, q); })
    << ",\"nodes\":" << arr(d.hyNodes_hyEdge, row) << ",\"types\":" << arr(d.hyFaces_hyEdge, row)
    << ",\"corners\":" << arr(d.points_hyEdge, row)
    << ",\"props\":" << arr(d.hyEdge_properties, [&](const auto& r) { return arr(r, q); }) << "}";
  return s.str();
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  for (auto& l : vh::schedule(argv[1]))
  {
    vh::Line in(l);
    std::string op = in.word(), path = in.word();
    int unit = (int)in.i();  // coordinates are multiples of 2^-unit
    std::string js = in.rest();
    if (op != "read" && op != "pts")
      return 3;
    auto [st, res] = vh::isolated([&] { return show(path, unit); });
    out(vh::Ev(op).num("k", K).num("nd", N).raw("in", js).str("st", st).raw(
      "dom", st == "ok" ? res : "{\"none\":1}"));
  }
  return 0;
}
