// An interval evaluator of the model language, independent of dReal and IBEX:
// natural extensions in long double, rounded outwards generously.
#pragma once
#include <cmath>
#include <limits>

#include "ast.h"

namespace enclose {
using namespace ast;
using ast::Op;

struct Iv {
  long double l{0}, u{0};
  bool ok{true};  // false: possibly undefined, or too wild
};
inline Iv bad() { return Iv{0, 0, false}; }
inline Iv out(long double l, long double u) {
  if (!std::isfinite(l) || !std::isfinite(u) || std::fabs(l) > 1e12L ||
      std::fabs(u) > 1e12L)
    return bad();
  const long double e =
      1e-15L * std::max(std::fabs(l), std::fabs(u)) + 1e-300L;
  return Iv{l - e, u + e, true};
}
inline Iv mul(const Iv& a, const Iv& b) {
  const long double p[4] = {a.l * b.l, a.l * b.u, a.u * b.l, a.u * b.u};
  long double l = p[0], u = p[0];
  for (long double x : p) l = std::min(l, x), u = std::max(u, x);
  return out(l, u);
}
inline Iv square(const Iv& a) {
  const long double x = a.l * a.l, y = a.u * a.u;
  return out(a.l <= 0 && a.u >= 0 ? 0 : std::min(x, y), std::max(x, y));
}
// sin on [l, u]
inline Iv sine(long double l, long double u) {
  const long double pi = 3.14159265358979323846264338327950288L;
  if (std::fabs(l) > 1e4L || std::fabs(u) > 1e4L) return out(-1, 1);
  auto hits = [&](long double at) {  // some at + 2k*pi in [l, u]
    const long double k = std::ceil((l - at) / (2 * pi) - 1e-12L);
    return at + 2 * pi * k <= u + 1e-12L;
  };
  const long double a = std::sin(l), b = std::sin(u);
  return out(hits(-pi / 2) ? -1 : std::min(a, b),
             hits(pi / 2) ? 1 : std::max(a, b));
}
inline Iv enclose(const N& n, const std::vector<Iv>& x);
// -1: unknown, otherwise the truth value (relations only)
inline int truth(const F& f, const std::vector<Iv>& x) {
  if (!is_rel(f->op)) return -1;
  const Iv a = enclose(f->e[0], x), b = enclose(f->e[1], x);
  if (!a.ok || !b.ok) return -1;
  const bool lt = a.u < b.l, gt = a.l > b.u;
  if (!lt && !gt) return -1;
  switch (f->op) {
    case FOp::Lt:
    case FOp::Le: return lt;
    case FOp::Gt:
    case FOp::Ge: return gt;
    case FOp::Eq: return 0;
    default: return 1;
  }
}
inline Iv enclose(const N& n, const std::vector<Iv>& x) {
  if (n->op == Op::Const) {
    if (n->style != 0) return bad();
    return std::isfinite(n->c) ? Iv{n->c, n->c, true} : bad();
  }
  if (n->op == Op::Var) return x[n->v];
  if (n->op == Op::Ite) {
    const int c = truth(n->cond, x);
    if (c >= 0) return enclose(n->a[c ? 0 : 1], x);
    const Iv a = enclose(n->a[0], x), b = enclose(n->a[1], x);
    if (!a.ok || !b.ok) return bad();
    return Iv{std::min(a.l, b.l), std::max(a.u, b.u), true};
  }
  const Iv a = enclose(n->a[0], x);
  if (!a.ok) return bad();
  Iv b;
  if (n->a.size() > 1) {
    b = enclose(n->a[1], x);
    if (!b.ok) return bad();
  }
  switch (n->op) {
    case Op::Add: return out(a.l + b.l, a.u + b.u);
    case Op::Sub: return out(a.l - b.u, a.u - b.l);
    case Op::Neg: return Iv{-a.u, -a.l, true};
    case Op::Mul: return n->a[0] == n->a[1] ? square(a) : mul(a, b);
    case Op::Div:
      if (b.l <= 1e-3L && b.u >= -1e-3L) return bad();
      return mul(a, out(1 / b.u, 1 / b.l));
    case Op::Log: return a.l < 1e-3L ? bad() : out(std::log(a.l), std::log(a.u));
    case Op::Abs:
      return out(a.l <= 0 && a.u >= 0 ? 0 : std::min(std::fabs(a.l), std::fabs(a.u)),
                 std::max(std::fabs(a.l), std::fabs(a.u)));
    case Op::Exp: return out(std::exp(a.l), std::exp(a.u));
    case Op::Sqrt: return a.l < 1e-3L ? bad() : out(std::sqrt(a.l), std::sqrt(a.u));
    case Op::Pow: {
      const N& e = n->a[1];
      if (e->op != Op::Const || e->style != 0 || e->c != std::floor(e->c) ||
          e->c < 1 || e->c > 8)
        return bad();
      const int k = static_cast<int>(e->c);
      Iv r = a;
      if (k % 2 == 0) {
        r = square(a);
        Iv q = r;
        for (int i = 2; i < k && r.ok; i += 2) r = mul(r, q);
        return r;
      }
      return out(std::pow(a.l, static_cast<long double>(k)),
                 std::pow(a.u, static_cast<long double>(k)));
    }
    case Op::Sin: return sine(a.l, a.u);
    case Op::Cos: {
      const long double h = 1.57079632679489661923132169163975144L;
      return sine(a.l + h, a.u + h);
    }
    case Op::Atan: return out(std::atan(a.l), std::atan(a.u));
    case Op::Sinh: return out(std::sinh(a.l), std::sinh(a.u));
    case Op::Tanh: return out(std::tanh(a.l), std::tanh(a.u));
    case Op::Cosh: {
      const long double c = std::cosh(a.l), d = std::cosh(a.u);
      return out(a.l <= 0 && a.u >= 0 ? 1 : std::min(c, d), std::max(c, d));
    }
    case Op::Min: return out(std::min(a.l, b.l), std::min(a.u, b.u));
    case Op::Max: return out(std::max(a.l, b.l), std::max(a.u, b.u));
    default: return bad();
  }
}
}  // namespace enclose
