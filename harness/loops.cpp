// Drives GlobalLoop::{Elliptic,Parabolic,MassApproxEigenvalue,ShiftedInverseEigenvalue,
// NonlinearEigenvalue} and HDGHyperGraph over schedules, with a topology, geometry, node descriptor
// and local solver of our own (the classes are templates over all four).
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include "vh.hpp"

#include "loopmock.hpp"
struct GeomArg
{
  unsigned v;
  operator unsigned() const { return v; }
};
using Topo = TopoOf<Levels>;
using Geom = GeomOf<Topo, GeomArg>;
using Node = NodeOf<Topo>;
using Ell = GlobalLoop::Elliptic<Topo, Geom, Node, Solver, vec>;
using Par = GlobalLoop::Parabolic<Topo, Geom, Node, ParSolver, vec>;
using Mas = GlobalLoop::MassApproxEigenvalue<Topo, Geom, Node, Solver, vec>;
using Shi = GlobalLoop::ShiftedInverseEigenvalue<Topo, Geom, Node, Solver, vec>;
using Non = GlobalLoop::NonlinearEigenvalue<Topo, Geom, Node, NonSolver, vec>;
using HG = HDGHyperGraph<NDOF, Topo, Geom, Node, Solver::data_type>;

template <class C>
std::string arr(const C& c)
{
  std::string s = "[";
  for (size_t i = 0; i < c.size(); ++i)
    s += (i ? "," : "") + std::to_string((long long)c[i]);
  return s + "]";
}

static vec values(vh::Line& in)
{
  vec v = in.vec<flt>();
  for (auto& x : v)
    x *= unit;
  return v;
}
static vec shown(vec v)
{
  for (auto& x : v)
    x /= unit;
  return v;
}
int main(int, char** argv)
{
  vh::Out out(argv[2]);
  std::unique_ptr<Ell> ell;
  std::unique_ptr<Par> par;
  std::unique_ptr<Mas> mas;
  std::unique_ptr<Shi> shi;
  std::unique_ptr<Non> non;
  std::unique_ptr<HG> hg;
  Levels lv;

  for (const std::string& text : vh::schedule(argv[1]))
  {
    vh::Line in(text);
    std::string op = in.word();
    if (op == "unit")
      unit = std::ldexp((flt)1, (int)in.i());
    else if (op == "graph")
    {
      lv = Levels(text.substr(5));
    }
    else if (op == "new")
    {
      std::string k = in.word();
      long how = in.i();
      unsigned extra = how ? in.i() : 0, off = how == 2 ? in.i() : 0;
      ell.reset(), par.reset(), mas.reset(), shi.reset(), non.reset(), hg.reset();
      Topo topo(lv);
      Solver::constructor_value_type ls = extra;
      GeomArg ga{off};
#define MAKE(P, T)                                \
  (how == 0   ? P.reset(new T(lv))                \
   : how == 1 ? P.reset(new T(lv, ls))            \
              : P.reset(new T(lv, ga, ls)))
      if (k == "elliptic")
        MAKE(ell, Ell);
      else if (k == "parabolic")
        MAKE(par, Par);
      else if (k == "mass")
        MAKE(mas, Mas);
      else if (k == "shifted")
        MAKE(shi, Shi);
      else if (k == "nonlinear")
        MAKE(non, Non);
      else if (k == "graph")
        how == 0 ? hg.reset(new HG(lv))
                 : (how == 1 ? hg.reset(new HG(lv, GeomArg{extra}))
                             : hg.reset(new HG(std::make_shared<Topo>(topo), std::make_shared<Geom>(topo),
                                               std::make_shared<Node>(topo))));
      else
        return 3;
      std::string ls_json = "[";
      for (size_t q = 0; q < lv.g.size(); ++q)
      {
        ls_json += (q ? "," : "") + std::string("{\"nN\":") + std::to_string(lv.g[q].nN) + ",\"inc\":[";
        for (size_t e = 0; e < lv.g[q].inc.size(); ++e)
          ls_json += (e ? "," : "") + arr(lv.g[q].inc[e]);
        ls_json += "],\"types\":[";
        for (size_t e = 0; e < lv.g[q].inc.size(); ++e)
          ls_json += (e ? "," : "") + arr(lv.g[q].types[e]);
        ls_json += "]}";
      }
      ls_json += "]";
      out(vh::Ev("new")
            .str("loop", k)
            .num("f", F)
            .num("d", NDOF)
            .boolean("edge", EDGE)
            .boolean("cons", lv.cons)
            .num("src", k == "graph" ? 0 : extra)
            .num("geo", k == "graph" ? (how == 1 ? extra : 0) : off)
            .raw("levels", ls_json));
    }
    else if (op == "flux" || op == "resid" || op == "mass" || op == "err")
    {
      vec x = values(in);
      long t = in.i();
      flt time = t / 4.;
      bool dflt = (t == 0 && in.i() == 1);
      vec before = x, r;
#define CALL(P, FUN) (dflt ? P->FUN(x) : P->FUN(x, time))
      if (op == "flux")
      {
        if (ell)
          r = CALL(ell, trace_to_flux);
        else if (par)
          r = CALL(par, trace_to_flux);
        else if (mas)
          r = CALL(mas, trace_to_flux);
        else if (shi)
          r = CALL(shi, trace_to_flux);
        else if (non)
          r = CALL(non, trace_to_flux);
        else
          return 3;
      }
      else if (op == "resid")
      {
        if (ell)
          r = CALL(ell, residual_flux);
        else if (par)
          r = CALL(par, residual_flux);
        else
          return 3;
      }
      else if (op == "mass")
        r = CALL(mas, trace_to_mass_flux);
      else if (ell)
        r = CALL(ell, errors);
      else if (par)
        r = CALL(par, errors);
      else
        return 3;
      out(vh::Ev(before == x ? op : "INPUTCHANGED").seq("x", shown(x)).num("t", t).seq("res", shown(r)));
    }
    else if (op == "jac")
    {
      vec x = values(in), y = values(in);
      long t = in.i(), s = in.i();
      vec r = non->jacobian_of_trace_to_flux(x, (flt)(t / 4.), y, (flt)(s / 4.));
      out(vh::Ev(op).seq("x", shown(x)).seq("y", shown(y)).num("t", t).num("s", s).seq("res", shown(r)));
    }
    else if (op == "mat")
    {
      long t = in.i();
      auto m = t == 0 ? ell->trace_to_flux_mat() : ell->trace_to_flux_mat((flt)(t / 4.));
      out(vh::Ev(op)
            .num("t", t)
            .seq("rows", m.get_rows())
            .seq("cols", m.get_cols())
            .seq("vals", m.get_values()));
    }
    else if (op == "init")
    {
      vec x = values(in);
      long t = in.i();
      vec r;
      if (par)
        r = t == 0 ? par->make_initial(x) : par->make_initial(x, t / 4.);
      else
        r = t == 0 ? non->make_initial(x) : non->make_initial(x, (flt)(t / 4.));
      out(vh::Ev(op).seq("x", shown(x)).num("t", t).seq("res", shown(r)));
    }
    else if (op == "setdata")
    {
      vec x = values(in);
      long t = in.i();
      if (t == 0)
        par->set_data(x);
      else
        par->set_data(x, (flt)(t / 4.));
      out(vh::Ev(op).seq("x", shown(x)).num("t", t));
    }
    else if (op == "dirread")
    {
      auto v = in.vec<unsigned>();
      ell->read_dirichlet_indices(v);
      out(vh::Ev(op).seq("idx", v));
    }
#if EDGE
    else if (op == "dirget")
    {
      std::vector<unsigned> r;
      if (mas)
        r = mas->dirichlet_indices();
      else
        r = shi->dirichlet_indices();
      out(vh::Ev(op).seq("res", r));
    }
#endif
    else if (op == "setref")
    {
      long L = in.i();
      if (ell)
        ell->set_refinement(L);
      else if (par)
        par->set_refinement(L);
      else if (mas)
        mas->set_refinement(L);
      else if (shi)
        shi->set_refinement(L);
      else if (non)
        non->set_refinement(L);
      else
        hg->set_refinement(L);
      out(vh::Ev(op).num("L", L));
    }
    else if (op == "getref")
    {
      long r = ell ? ell->get_refinement() : par ? par->get_refinement() : mas ? mas->get_refinement()
             : shi ? shi->get_refinement() : non ? non->get_refinement() : hg->get_refinement();
      out(vh::Ev(op).num("res", r));
    }
    else if (op == "size")
    {
      long r = ell ? ell->size_of_system() : par ? par->size_of_system() : mas ? mas->size_of_system()
             : shi ? shi->size_of_system() : non ? non->size_of_system() : hg->n_global_dofs();
      out(vh::Ev(op).num("res", r));
    }
    else if (op == "zero")
    {
      vec r = ell ? ell->zero_vector() : par->zero_vector();
      out(vh::Ev(op).seq("res", r));
    }
    else if (op == "iter")
    {
      std::string idx = "[", geo = "[", nod = "[", typ = "[";
      bool first = true;
      std::for_each(hg->begin(), hg->end(),
                    [&](auto e)
                    {
                      std::string c = first ? "" : ",";
                      first = false;
                      idx += c + std::to_string(e.topology.index);
                      geo += c + "[" + std::to_string(e.geometry.index) + "," +
                             std::to_string(e.geometry.level) + "]";
                      nod += c + arr(e.topology.nodes.data());
                      typ += c + arr(e.node_descriptor.t);
                    });
      // the other ways to walk: postfix increment from the beginning, prefix and postfix decrement from the end
      std::vector<long> post, pre_back, post_back;
      for (auto it = hg->begin(); !(it == hg->end()) && post.size() <= hg->n_hyEdges();)
      {
        auto old = it++;
        post.push_back((*old).topology.index);
      }
      auto it = hg->end(), jt = hg->end();
      for (unsigned n = hg->n_hyEdges(); n > 0; --n)
      {
        pre_back.push_back((*(--it)).topology.index);
        auto old = jt--;
        if (!(jt == it) || old == jt || !(old == (n == hg->n_hyEdges() ? hg->end() : old)))
          pre_back.push_back(-1);
        post_back.push_back((*jt).topology.index);
      }
      if (!(it == hg->begin()))
        pre_back.push_back(-2);
      out(vh::Ev(op).seq("post", post).seq("back", pre_back).seq("pback", post_back).raw("idx", idx + "]").raw("geo", geo + "]").raw("nodes", nod + "]").raw(
        "types", typ + "]").num("nE", hg->n_hyEdges()).num("nN", hg->n_hyNodes()));
    }
    else
      return 3;
  }
  return 0;
}
