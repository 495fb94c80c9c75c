// HyperNodeFactory: numbering and exchange of degrees of freedom.
#include <HyperHDG/hypernodefactory.hxx>
#include "vh.hpp"

// all values are given and shown in quarters
static std::vector<double> quarters(std::vector<double> v)
{
  for (auto& x : v)
    x /= 4.;
  return v;
}
template <class C>
static std::vector<double> shown(const C& v)
{
  std::vector<double> r(v.begin(), v.end());
  for (auto& x : r)
    x *= 4.;
  return r;
}
template <unsigned D>
void run(const std::vector<std::string>& lines, size_t& pos, vh::Out& out)
{
  std::unique_ptr<HyperNodeFactory<D>> f;
  std::vector<double> vec;
  for (; pos < lines.size(); ++pos)
  {
    vh::Line in(lines[pos]);
    std::string op = in.word();
    if (op == "new")
    {
      long d = in.i();
      if (d != D)
        return;
      long n = in.i();
      f.reset(new HyperNodeFactory<D>((unsigned)n));
      vec = quarters(in.vec<double>());
      out(vh::Ev(op).num("n", n).num("d", D).seq("vec", shown(vec)).num("nn", f->n_hyNodes()).num(
        "ng", f->n_global_dofs()));
    }
    else if (op == "get")
    {
      unsigned node = in.i();
      std::array<double, D> loc;
      loc.fill(77);
      f->get_dof_values(node, vec, loc);
      out(vh::Ev(op).num("node", node).seq("res", shown(loc)).seq("vec", shown(vec)));
    }
    else if (op == "getsv")
    {
      unsigned node = in.i();
      SmallVec<D> loc(77.);
      f->get_dof_values(node, vec, loc);
      out(vh::Ev("get").num("node", node).seq("res", shown(loc.data())).seq("vec", shown(vec)));
    }
    else if (op == "add" || op == "set")
    {
      unsigned node = in.i();
      auto v = quarters(in.vec<double>());
      std::array<double, D> loc;
      std::copy(v.begin(), v.end(), loc.begin());
      if (op == "add")
        f->add_to_dof_values(node, vec, loc);
      else
        f->set_dof_values(node, vec, loc);
      out(vh::Ev(op).num("node", node).seq("loc", shown(loc)).seq("vec", shown(vec)));
    }
    else if (op == "const")
    {
      unsigned node = in.i();
      double c = in.i() / 4.;
      f->template set_dof_values<unsigned, std::vector<double>>(node, vec, c);
      out(vh::Ev(op).num("node", node).num("c", (long long)(4 * c)).seq("vec", shown(vec)));
    }
    else if (op == "idx")
    {
      unsigned node = in.i();
      std::array<unsigned, D> r;
      r.fill(99);
      f->get_dof_indices(node, r);
      out(vh::Ev(op).num("node", node).seq("res", r));
    }
    else if (op == "nodeof")
    {
      unsigned k = in.i();
      out(vh::Ev(op).num("dof", k).num("res", f->get_hyNode_from_dof_index(k)));
    }
    else if (op == "copy")
    {
      HyperNodeFactory<D> a(*f), b(1u);
      b = a;
      HyperNodeFactory<D> c(3u);
      c = HyperNodeFactory<D>(b);
      out(vh::Ev(op).num("nn", c.n_hyNodes()));
    }
    else if (op == "refuse")
    {
      unsigned node = in.i();
      std::string how = in.word();
      auto r = vh::isolated(
        [&]
        {
          std::array<double, D> loc;
          loc.fill(1.);
          if (how == "get")
            f->get_dof_values(node, vec, loc);
          else if (how == "add")
            f->add_to_dof_values(node, vec, loc);
          else if (how == "set")
            f->set_dof_values(node, vec, loc);
          else
            f->template set_dof_values<unsigned, std::vector<double>>(node, vec, 1.);
          return std::string("x");
        });
      out(vh::Ev(op).num("node", node).str("how", how).str("st", r.first));
    }
    else if (op == "refusedof")
    {
      unsigned k = in.i();
      auto r = vh::isolated([&] { return std::to_string(f->get_hyNode_from_dof_index(k)); });
      out(vh::Ev(op).num("dof", k).str("st", r.first));
    }
    else if (op == "refusesize")
    {
      long k = in.i();
      std::string how = in.word();
      auto r = vh::isolated(
        [&]
        {
          std::vector<double> loc(k, 1.);
          std::vector<unsigned> idx(k, 1);
          if (how == "get")
            f->get_dof_values(0, vec, loc);
          else if (how == "add")
            f->add_to_dof_values(0, vec, loc);
          else if (how == "set")
            f->set_dof_values(0, vec, loc);
          else
            f->get_dof_indices(0, idx);
          return std::string("x");
        });
      out(vh::Ev(op).num("k", k).str("how", how).str("st", r.first));
    }
    else
      std::exit(3);
  }
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  auto lines = vh::schedule(argv[1]);
  size_t pos = 0;
  while (pos < lines.size())
  {
    vh::Line in(lines[pos]);
    if (in.word() != "new")
      return 3;
    switch (in.i())
    {
      case 1: run<1>(lines, pos, out); break;
      case 2: run<2>(lines, pos, out); break;
      case 3: run<3>(lines, pos, out); break;
      case 4: run<4>(lines, pos, out); break;
      case 6: run<6>(lines, pos, out); break;
      case 9: run<9>(lines, pos, out); break;
      default: return 3;
    }
  }
  return 0;
}
