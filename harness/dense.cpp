// SmallMat as a register machine, and the LAPACK based functions of dense_la.hxx.
#include <HyperHDG/dense_la.hxx>
#include "vh.hpp"
#ifndef TY
#define TY double
#endif
typedef TY T;
#ifndef DIMS
#define DIMS 1, 2, 3
#endif
constexpr unsigned SLOTS = 3;
constexpr unsigned sizes[] = {DIMS};
template <unsigned R, unsigned C>
SmallMat<R, C, T>& reg(long s)
{
  static std::array<SmallMat<R, C, T>, SLOTS> r;
  return r.at(s);
}
template <typename F>
void dim(long d, F f)
{
  if (d == sizes[0])
    f(std::integral_constant<unsigned, sizes[0]>());
  else if (d == sizes[1])
    f(std::integral_constant<unsigned, sizes[1]>());
  else if (d == sizes[2])
    f(std::integral_constant<unsigned, sizes[2]>());
  else
    std::exit(3);
}
template <typename F>
void shape(long r, long c, F f)
{
  dim(r, [&](auto R) { dim(c, [&](auto C) { f(R, C); }); });
}
struct Reg
{
  long r, c, s;
};
Reg readreg(vh::Line& in)
{
  Reg x;
  x.r = in.i();
  x.c = in.i();
  x.s = in.i();
  return x;
}
std::vector<long long> val(const Reg& x)
{
  std::vector<long long> v;
  shape(x.r, x.c, [&](auto R, auto C) {
    const auto& m = reg<R, C>(x.s);
    for (unsigned i = 0; i < R * C; ++i)
      v.push_back(vh::exact(m.data()[i]));
  });
  return v;
}
std::string json(const std::vector<long long>& v)
{
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
std::string name(const Reg& x) { return json({x.r, x.c, x.s}); }
// round(v^p) if v^p is (nearly) a whole number
long long whole(double v)
{
  double w = std::nearbyint(v);
  return std::abs(v - w) <= 1e-4 * std::max(1., std::abs(w)) ? vh::exact(w) : vh::BAD;
}

template <typename M>
std::string fixmat(const M& m, double scale)
{
  std::vector<long long> v;
  for (unsigned i = 0; i < m.size(); ++i)
    v.push_back(vh::fix(m.data()[i], scale));
  return json(v);
}
template <unsigned R, unsigned C>
SmallMat<R, C, T> readmat(vh::Line& in)
{
  SmallMat<R, C, T> m;
  for (unsigned i = 0; i < R * C; ++i)
    m.data()[i] = (T)in.i();
  return m;
}
template <typename M>
std::string ex(const M& m)
{
  std::vector<long long> v;
  for (unsigned i = 0; i < m.size(); ++i)
    v.push_back(vh::exact(m.data()[i]));
  return json(v);
}
// the same matrix in another unit (a power of two), and with a common offset
template <typename M>
M scaled(const M& a, T u, T off = T(0))
{
  M m;
  for (unsigned i = 0; i < m.size(); ++i)
    m.data()[i] = off + a.data()[i] * u;
  return m;
}
T readunit(vh::Line& in)
{
  return (T)std::ldexp(1., (int)in.i());
}
// dimensions of linear systems
template <typename F>
void dimn(long d, F f)
{
  if (d == 4)
    f(std::integral_constant<unsigned, 4>());
  else if (d == 6)
    f(std::integral_constant<unsigned, 6>());
  else if (d == 9)
    f(std::integral_constant<unsigned, 9>());
  else if (d == 14)
    f(std::integral_constant<unsigned, 14>());
  else
    dim(d, f);
}
// dimensions 1 to 4 (solve, QR)
template <typename F>
void dim4(long d, F f)
{
  if (d == 4)
    f(std::integral_constant<unsigned, 4>());
  else
    dim(d, f);
}

int main(int, char** argv)
{
  vh::Out out(argv[2]);
  for (const auto& line : vh::schedule(argv[1]))
  {
    vh::Line in(line);
    std::string op = in.word();
    vh::Ev ev(op);
    auto result = [&](const Reg& d) { ev.raw("d", name(d)).raw("res", json(val(d))); };
    if (op == "set")
    {
      Reg d = readreg(in);
      std::string how = in.word();
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        auto& m = reg<r, c>(d.s);
        std::array<T, r * c> a;
        std::vector<long long> given;
        for (auto& x : a)
        {
          given.push_back(in.i());
          x = (T)given.back();
        }
        if (how == "array")
          m = SmallMat<r, c, T>(a);
        else if (how == "move")
          m = SmallMat<r, c, T>(std::move(a));
        else if (how == "vector")
          m = SmallMat<r, c, T>(std::vector<T>(a.begin(), a.end()));
        else if (how == "data")
          m.data() = a;
        else if (how == "index")
          for (unsigned i = 0; i < r * c; ++i)
            m[i] = a[i];
        else if (how == "rowcol")
          for (unsigned i = 0; i < r; ++i)
            for (unsigned j = 0; j < c; ++j)
              m(i, j) = a[j * r + i];
        else if (how == "column")
          for (unsigned j = 0; j < c; ++j)
          {
            SmallMat<r, 1, T> v;
            for (unsigned i = 0; i < r; ++i)
              v[i] = a[j * r + i];
            m.set_column(j, v);
          }
        else
          std::exit(3);
        ev.raw("v", json(given));
      });
      result(d);
    }
    else if (op == "fill")
    {
      Reg d = readreg(in);
      long v = in.i();
      shape(d.r, d.c, [&](auto R, auto C) { reg<R, C>(d.s) = SmallMat<R, C, T>((T)v); });
      ev.num("v", v);
      result(d);
    }
    else if (op == "zero")
    {
      Reg d = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) { reg<R, C>(d.s) = SmallMat<R, C, T>(); });
      result(d);
    }
    else if (op == "copy")
    {
      Reg d = readreg(in), a = readreg(in);
      std::string how = in.word();
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        auto& m = reg<r, c>(d.s);
        auto& s = reg<r, c>(a.s);
        if (how == "assign")
          m = s;
        else if (how == "ctor")
        {
          SmallMat<r, c, T> x(s);
          m = std::move(x);
        }
        else if (how == "mctor")
        {
          SmallMat<r, c, T> x(s), y(std::move(x));
          m = y;
        }
        else if (how == "conv")
        {
          SmallMat<r, c, float> x(s);
          m = SmallMat<r, c, T>(x);
        }
        else if (how == "iter")
        {
          unsigned k = 0;
          SmallMat<r, c, T> x(s);
          for (const auto& e : x)
            m.data().at(k++) = e;
        }
        else
          std::exit(3);
      });
      ev.raw("a", name(a));
      result(d);
    }
    else if (op == "mul" || op == "unfit" || op == "tmm" || op == "mmt")
    {
      Reg d = readreg(in), a = readreg(in), b = readreg(in);
      shape(a.r, a.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        const auto& A = reg<r, c>(a.s);
        if (op == "mul")
          dim(b.c, [&](auto K) { reg<r, K>(d.s) = A * reg<c, K>(b.s); });
        else if (op == "unfit")
          shape(b.r, b.c, [&](auto R2, auto K) {
            reg<r, K>(d.s) = mat_times_mat_unfit(A, reg<R2, K>(b.s));
          });
        else if (op == "tmm")
          dim(b.c, [&](auto K) { reg<c, K>(d.s) = transposed_mat_times_mat(A, reg<r, K>(b.s)); });
        else
          dim(b.r, [&](auto K) { reg<r, K>(d.s) = mat_times_transposed_mat(A, reg<K, c>(b.s)); });
      });
      ev.raw("a", name(a)).raw("b", name(b));
      result(d);
    }
    else if (op == "add" || op == "sub")
    {
      Reg d = readreg(in), a = readreg(in), b = readreg(in);
      shape(a.r, a.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        auto go = [&](auto K) {
          constexpr unsigned k = K;
          constexpr unsigned mx = k > c ? k : c;
          if constexpr (k == c || k == 1 || c == 1)
          {
            if (op == "add")
              reg<r, mx>(d.s) = reg<r, c>(a.s) + reg<r, k>(b.s);
            else
              reg<r, mx>(d.s) = reg<r, c>(a.s) - reg<r, k>(b.s);
          }
        };
        dim(b.c, go);
      });
      ev.raw("a", name(a)).raw("b", name(b));
      result(d);
    }
    else if (op == "iadd" || op == "isub")
    {
      Reg d = readreg(in), b = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        auto& m = reg<r, c>(d.s);
        if (b.c == d.c)
          op == "iadd" ? (m += reg<r, c>(b.s)) : (m -= reg<r, c>(b.s));
        else
          op == "iadd" ? (m += reg<r, 1>(b.s)) : (m -= reg<r, 1>(b.s));
      });
      ev.raw("b", name(b));
      result(d);
    }
    else if (op == "had" || op == "ihad")
    {
      Reg d = readreg(in), a = op == "had" ? readreg(in) : d, b = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        if (op == "had")
          reg<r, c>(d.s) = hada_prod(reg<r, c>(a.s), reg<r, c>(b.s));
        else
          reg<r, c>(d.s) *= reg<r, c>(b.s);
      });
      ev.raw("a", name(a)).raw("b", name(b));
      result(d);
    }
    else if (op == "hdiv" || op == "ihdiv")
    {
      Reg d = readreg(in), a = op == "hdiv" ? readreg(in) : d, b = readreg(in);
      std::string st = "ok";
      const T u = readunit(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        try
        {
          if (op == "hdiv")
            reg<r, c>(d.s) = hada_divi(scaled(reg<r, c>(a.s), u), scaled(reg<r, c>(b.s), u));
          else if (u == T(1))
            reg<r, c>(d.s) /= reg<r, c>(b.s);
          else
          {
            auto m = scaled(reg<r, c>(d.s), u);
            m /= scaled(reg<r, c>(b.s), u);
            reg<r, c>(d.s) = m;
          }
        }
        catch (SmallMatDivByZeroException&)
        {
          st = "divzero";
          reg<r, c>(d.s) = SmallMat<r, c, T>((T)0);
        }
      });
      ev.raw("a", name(a)).raw("b", name(b)).str("st", st);
      result(d);
    }
    else if (op == "scal")
    {
      Reg d = readreg(in), a = readreg(in);
      T s = (T)in.i();
      std::string how = in.word(), st = "ok";
      const T u = readunit(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        auto& m = reg<r, c>(d.s);
        if (u != T(1))
        {
          m = scaled(m, u);
          if (d.s != a.s)
            reg<r, c>(a.s) = scaled(reg<r, c>(a.s), u);
          s *= u;
        }
        const auto& A = reg<r, c>(a.s);
        try
        {
          if (how.substr(0, 4) == "self")
          {
            // the scalar is an entry of the very matrix
            const T& e = m.data().at((unsigned long)(s / u));
            how = how.substr(4);
            s = e;
            if (how == "+=")
              m += e;
            else if (how == "-=")
              m -= e;
            else if (how == "*=")
              m *= e;
            else
              m /= e;
          }
          else if (how == "s+m")
            m = s + A;
          else if (how == "m+s")
            m = A + s;
          else if (how == "s-m")
            m = s - A;
          else if (how == "m-s")
            m = A - s;
          else if (how == "s*m")
            m = s * A;
          else if (how == "m*s")
            m = A * s;
          else if (how == "s/m")
            m = s / A;
          else if (how == "m/s")
            m = A / s;
          else if (how == "+=")
            m += s;
          else if (how == "-=")
            m -= s;
          else if (how == "*=")
            m *= s;
          else if (how == "/=")
            m /= s;
          else
            std::exit(3);
        }
        catch (SmallMatDivByZeroException&)
        {
          st = "divzero";
          m = SmallMat<r, c, T>((T)0);
        }
        if (u != T(1))
        {
          const bool product = how.find('*') != std::string::npos, ratio = how.find('/') != std::string::npos;
          m = scaled(m, ratio ? T(1) : product ? T(1) / u / u : T(1) / u);
          if (d.s != a.s)
            reg<r, c>(a.s) = scaled(reg<r, c>(a.s), T(1) / u);
          s /= u;
        }
      });
      ev.raw("a", name(a)).num("s", (long long)s).str("how", how).str("st", st);
      result(d);
    }
    else if (op == "transp")
    {
      Reg d = readreg(in), a = readreg(in);
      shape(a.r, a.c, [&](auto R, auto C) { reg<C, R>(d.s) = transposed(reg<R, C>(a.s)); });
      ev.raw("a", name(a));
      result(d);
    }
    else if (op == "dyad")
    {
      Reg d = readreg(in), a = readreg(in), b = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        reg<R, C>(d.s) = dyadic_product(reg<R, 1>(a.s), reg<C, 1>(b.s));
      });
      ev.raw("a", name(a)).raw("b", name(b));
      result(d);
    }
    else if (op == "cross")
    {
      Reg d = readreg(in), a = readreg(in), b = readreg(in);
      reg<3, 1>(d.s) = cross_product(reg<3, 1>(a.s), reg<3, 1>(b.s));
      ev.raw("a", name(a)).raw("b", name(b));
      result(d);
    }
    else if (op == "diag")
    {
      Reg d = readreg(in);
      long v = in.i();
      shape(d.r, d.c, [&](auto R, auto C) { reg<R, C>(d.s) = diagonal<R, C, T>((T)v); });
      ev.num("v", v);
      result(d);
    }
    else if (op == "diagv")
    {
      Reg d = readreg(in), a = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) {
        dim(a.r, [&](auto K) {
          if constexpr (K <= R && K <= C)
            reg<R, C>(d.s) = diagonal<R, C, T>(reg<K, 1>(a.s));
        });
      });
      ev.raw("a", name(a));
      result(d);
    }
    else if (op == "rep")
    {
      Reg d = readreg(in), a = readreg(in);
      shape(d.r, d.c, [&](auto R, auto C) { reg<R, C>(d.s) = rep_mat<R, C, T>(reg<R, 1>(a.s)); });
      ev.raw("a", name(a));
      result(d);
    }
    else if (op == "getcol")
    {
      Reg d = readreg(in), a = readreg(in);
      long j = in.i();
      shape(a.r, a.c, [&](auto R, auto C) { reg<R, 1>(d.s) = reg<R, C>(a.s).get_column(j); });
      ev.raw("a", name(a)).num("j", j);
      result(d);
    }
    else if (op == "setcol")
    {
      Reg d = readreg(in), a = readreg(in);
      long j = in.i();
      shape(d.r, d.c, [&](auto R, auto C) { reg<R, C>(d.s).set_column(j, reg<R, 1>(a.s)); });
      ev.raw("a", name(a)).num("j", j);
      result(d);
    }
    else if (op == "cmp")
    {
      Reg a = readreg(in), b = readreg(in);
      const T u = readunit(in), off = (T)in.i();
      shape(a.r, a.c, [&](auto R, auto C) {
        const auto A = scaled(reg<R, C>(a.s), u, off), B = scaled(reg<R, C>(b.s), u, off);
        ev.boolean("eq", A == B).boolean("ne", A != B).boolean("lt", A < B).boolean("gt", B < A);
        ev.num("sp", vh::exact(scalar_product(reg<R, C>(a.s), reg<R, C>(b.s))));
      });
      ev.raw("a", name(a)).raw("b", name(b));
    }
    else if (op == "query")
    {
      Reg a = readreg(in);
      shape(a.r, a.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        const auto& A = reg<r, c>(a.s);
        std::ostringstream os;
        os << A;
        std::vector<long long> shown, rc, ix;
        std::istringstream is(os.str());
        std::string w;
        while (is >> w)
          shown.push_back(vh::exact(std::strtod(w.c_str(), nullptr)));
        for (unsigned j = 0; j < c; ++j)
          for (unsigned i = 0; i < r; ++i)
            rc.push_back(vh::exact(A(i, j)));
        for (unsigned i = 0; i < r * c; ++i)
          ix.push_back(vh::exact(A[i]));
        ev.num("n1", vh::exact(norm_1(A))).num("ni", vh::exact(norm_infty(A)));
        ev.num("prod", vh::exact(entries_product(A)));
        long long q2 = -1, q3 = -1;
        if constexpr (c == 1 && std::is_floating_point<T>::value)
        {
          double v = norm_2(A);
          q2 = whole(v * v);
          v = norm_p(A, (T)3.);
          q3 = whole(v * v * v);
        }
        ev.num("q2", q2).num("q3", q3);
        ev.raw("shown", json(shown)).raw("rc", json(rc)).raw("ix", json(ix));
        ev.raw("dims", json({A.n_rows(), A.n_cols(), A.size(), A.dimensions()[0], A.dimensions()[1]}));
      });
      ev.raw("a", name(a));
    }
    else if (op == "dump")
    {
      std::string s = "[";
      for (long r : sizes)
        for (long c : sizes)
          for (long k = 0; k < SLOTS; ++k)
            s += (s.size() > 1 ? "," : "") + std::string("{\"x\":") + name({r, c, k}) +
                 ",\"v\":" + json(val({r, c, k})) + "}";
      ev.raw("all", s + "]");
    }
    else if (op == "refuse")
    {
      Reg a = readreg(in);
      std::string how = in.word();
      long i = in.i(), j = in.i();
      std::string st;
      shape(a.r, a.c, [&](auto R, auto C) {
        constexpr unsigned r = R, c = C;
        st = vh::isolated([&] {
               auto m = reg<r, c>(a.s);
               const auto& k = m;
               T v = 0;
               if (how == "index")
                 v = m[i];
               else if (how == "cindex")
                 v = k[i];
               else if (how == "rowcol")
                 v = m(i, j);
               else if (how == "crowcol")
                 v = k(i, j);
               else if (how == "getcol")
                 v = k.get_column(j)[0];
               else if (how == "setcol")
                 m.set_column(j, SmallMat<r, 1, T>());
               else if (how == "vector")
                 v = SmallMat<r, c, T>(std::vector<T>(i))[0];
               else
                 std::_Exit(7);
               return std::to_string((double)v);
             }).first;
      });
      ev.raw("a", name(a)).str("how", how).num("i", i).num("j", j).str("st", st);
    }
#ifndef NOLAPACK
    else if (op == "solve")  // n m how A b
    {
      long n = in.i(), m = in.i();
      std::string how = in.word(), st = "ok";
      const T uA = readunit(in), ub = readunit(in);
      dimn(n, [&](auto Nn) {
        dim4(m, [&](auto Mm) {
          constexpr unsigned n = Nn, m = Mm;
          auto A = readmat<n, n>(in);
          auto b = readmat<n, m>(in);
          ev.num("n", n).num("m", m).str("how", how).raw("A", ex(A)).raw("b", ex(b));
          A = scaled(A, uA);
          b = scaled(b, ub);
          SmallMat<n, m, T> x;
          try
          {
            if (how == "const")
            {
              const auto &cA = A, &cA2 = A;
              const auto& cb = b;
              x = cb / cA;
            }
            else if (how == "inplace")
              x = b / A;
            else
            {
              Wrapper::lapack_solve<n, m, T>(A.data(), b.data());
              x = b;
            }
          }
          catch (Wrapper::LAPACKexception&)
          {
            st = "singular";
          }
          ev.str("st", st).raw("x", fixmat(scaled(scaled(x, uA), T(1) / ub), 10000.));
          if (how == "const")
            ev.raw("A2", ex(scaled(A, T(1) / uA))).raw("b2", ex(scaled(b, T(1) / ub)));
          else
            ev.raw("A2", "[]").raw("b2", "[]");
        });
      });
    }
    else if (op == "det")
    {
      long n = in.i(), m = in.i();
      const T u = readunit(in);
      dim4(n, [&](auto Nn) {
        dim4(m, [&](auto Mm) {
          constexpr unsigned n = Nn, m = Mm;
          const auto A0 = readmat<n, m>(in);
          const auto A = scaled(A0, u);
          auto B = A;
          const double back = std::pow((double)u, -(double)(n < m ? n : m));
          ev.num("n", n).num("m", m).raw("A", ex(A0)).num("det", vh::fix(determinant(A) * back, 100.));
          ev.num("det2", vh::fix(determinant(B) * back, 100.));
        });
      });
    }
    else if (op == "qr")
    {
      long n = in.i(), m = in.i();
      std::string how = in.word();
      const T u = readunit(in);
      dim4(n, [&](auto Nn) {
        dim4(m, [&](auto Mm) {
          constexpr unsigned n = Nn, m = Mm;
          if constexpr (m <= n)
          {
            const auto A0 = readmat<n, m>(in);
            const auto A = scaled(A0, u);
            auto B = A;
            SmallMat<n, n, T> q((T)5);
            SmallMat<m, m, T> r((T)6);
            if (how == "const")
              qr_decomp(A, q, r);
            else
              qr_decomp(B, q, r);
            ev.num("n", n).num("m", m).str("how", how).raw("A", ex(A0)).raw("Q", fixmat(q, 10000.));
            ev.raw("R", fixmat(scaled(r, T(1) / u), 10000.));
            ev.raw("full", how == "const" ? "[]" : fixmat(scaled(B, T(1) / u), 10000.));
          }
        });
      });
    }
    else if (op == "rawqr")
    {
      long n = in.i(), m = in.i();
      const T u = readunit(in);
      dim4(n, [&](auto Nn) {
        dim4(m, [&](auto Mm) {
          constexpr unsigned n = Nn, m = Mm;
          const auto A0 = readmat<n, m>(in);
          const auto A = scaled(A0, u);
          auto B = A, D = A;
          SmallMat<n, n, T> q = qr_decomp_q(A), q2 = qr_decomp_q(B), q3((T)4);
          B = A;
          SmallMat<n, m, T> r = Wrapper::lapack_qr_decomp_r<n, m, T>(B.data());
          Wrapper::lapack_qr_decomp<n, m, T>(D.data(), q3.data());
          ev.num("n", n).num("m", m).raw("A", ex(A0)).raw("Q", fixmat(q, 10000.));
          ev.raw("Q2", fixmat(q2, 10000.)).raw("Q3", fixmat(q3, 10000.));
          ev.raw("R", fixmat(scaled(r, T(1) / u), 10000.)).raw("R3", fixmat(scaled(D, T(1) / u), 10000.));
        });
      });
    }
#endif
    else
      std::exit(3);
    out(ev);
  }
  return 0;
}
