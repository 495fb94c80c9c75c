// Velocity, reaction and flux, read after the other data of a hyperedge.
#pragma once
#include "localdata.hpp"
struct Flow
{
  std::vector<Poly> b, q;
  Poly c;
  void read(vh::Line& in, unsigned N)
  {
    b.assign(N, {}), q.assign(N, {});
    for (auto& x : b)
      x.read(in, N);
    c.read(in, N);
    for (auto& x : q)
      x.read(in, N);
  }
  static std::string all(const std::vector<Poly>& v)
  {
    std::string s;
    for (auto& x : v)
      s += (s.empty() ? "" : ",") + js(x.m);
    return "[" + s + "]";
  }
  void show(vh::Ev& e) { e.raw("b", all(b)).raw("c", js(c.m)).raw("flow", all(q)); }
};
static Flow flow;
