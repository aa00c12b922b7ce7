// Boxes around planted points and constraints with a known truth value there;
// shared by the solver targets.
#pragma once
#include <cmath>
#include <limits>
#include <stdexcept>

#include "ast.h"
#include "dreal/util/box.h"

namespace scene {
using namespace dreal;
using namespace ast;
using ast::Op;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

const double kInf = std::numeric_limits<double>::infinity();

// Variables, a box around a planted point, and the point.
struct Scene {
  Vars vs;
  std::vector<Variable::Type> type;
  std::vector<double> p;
  std::vector<double> lb, ub;
  Box box;
};

inline double margin(Src& s) {
  static const std::vector<double> m = {1, 0, 0.5, 0.125, 3, 1e-3, 40, 1e6};
  return s.pick(m);
}

inline Scene gen_scene(Src& s, bool ints, bool unbounded) {
  Scene sc;
  const int n = s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    const int k = ints ? s.weighted({5, 2, 1}) : 0;
    const Variable::Type t = k == 0 ? Variable::Type::CONTINUOUS
                             : k == 1 ? Variable::Type::INTEGER
                                      : Variable::Type::BINARY;
    sc.type.push_back(t);
    sc.vs.v.emplace_back(cat("x", i), t);
    double p, l, u;
    if (t == Variable::Type::BINARY) {
      p = static_cast<double>(s.draw(2));
      l = 0;
      u = 1;
    } else if (t == Variable::Type::INTEGER) {
      p = s.range(-5, 5);
      l = p - s.range(0, 5);
      u = p + s.range(0, 5);
      if (s.chance(1, 3)) l -= 0.5;
      if (s.chance(1, 3)) u += 0.25;
    } else {
      p = gen_value(s);
      l = p - margin(s);
      u = p + margin(s);
      if (unbounded && s.chance(1, 10)) l = -kInf;
      if (unbounded && s.chance(1, 10)) u = kInf;
    }
    sc.p.push_back(p);
    sc.lb.push_back(l);
    sc.ub.push_back(u);
    sc.box.Add(sc.vs.v[i]);
    sc.box[i] = Box::Interval{l, u};
  }
  return sc;
}

inline bool integral(Variable::Type t) { return t != Variable::Type::CONTINUOUS; }

// Another point of the box.
inline std::vector<double> sample(Src& s, const Scene& sc) {
  std::vector<double> q;
  for (size_t i = 0; i < sc.p.size(); ++i) {
    const double l = std::max(sc.lb[i], sc.p[i] - 64);
    const double u = std::min(sc.ub[i], sc.p[i] + 64);
    double x = sc.p[i];
    switch (s.draw(4)) {
      case 1: x = l; break;
      case 2: x = u; break;
      case 3: x = l + (u - l) * static_cast<double>(s.draw(17)) / 16; break;
    }
    if (integral(sc.type[i])) {
      x = std::floor(x);
      if (x < l) x = std::ceil(l);
    }
    if (!(x >= l && x <= u)) x = sc.p[i];
    q.push_back(x);
  }
  return q;
}

// Building a constant term outside its domain throws; inf / inf gives a term with
// a NaN in it, which throws when it is used.
template <typename T>
auto try_build(const T& t, const Vars& vs, bool* ok)
    -> decltype(ast::build(t, vs)) {
  *ok = true;
  try {
    const decltype(ast::build(t, vs)) r = ast::build(t, vs);
    if (r.to_string().find("NaN") == std::string::npos) return r;
  } catch (const std::domain_error&) {
  } catch (const std::runtime_error&) {
  }
  *ok = false;
  return decltype(ast::build(t, vs)){};
}
inline GenOpt options(int n, Src& s) {
  GenOpt o;
  o.nvars = n;
  o.max_terms = 7;
  o.max_size = 24;
  o.ite = false;
  o.real_consts = true;
  if (s.chance(1, 4)) o.trans = false;
  return o;
}

inline std::string show_box(const Scene& sc) {
  std::string r;
  for (size_t i = 0; i < sc.p.size(); ++i)
    r += cat(integral(sc.type[i]) ? "int " : "", "x", i, " in [", sc.lb[i], ",",
             sc.ub[i], "] ");
  return r;
}
inline std::string show_iv(const Box::Interval& i) {
  if (i.is_empty()) return "[]";
  return cat("[", i.lb(), ",", i.ub(), "]");
}

// A constraint that the point satisfies (want) or violates, with a margin or
// exactly; nullptr: no luck.
inline F constraint_at(Src& s, const N& e, const std::vector<double>& p, bool want) {
  const Result r = evaluate(e, p);
  if (!r.defined || !r.reliable) return nullptr;
  EvalState st;
  std::vector<Val> vals(p.size());
  for (size_t i = 0; i < p.size(); ++i) vals[i].v = p[i];
  st.vals = &vals;
  const Val v = eval(e, &st);
  const bool exact = v.exact && !st.inexact;
  double m = 0;
  if (!exact || s.chance(2, 3)) {
    static const std::vector<double> ms = {1, 0.25, 1e-2, 8, 1e-3};
    m = s.pick(ms);
    if (m < 4 * r.tol) m = 1 + 4 * r.tol;
  }
  const double c = exact ? static_cast<double>(v.v) : r.value;
  const bool swap = s.chance(1, 3), neg = s.chance(1, 4);
  FOp op;
  double k = c;
  if (m == 0) {
    static const std::vector<FOp> t = {FOp::Eq, FOp::Le, FOp::Ge};
    static const std::vector<FOp> f = {FOp::Ne, FOp::Lt, FOp::Gt};
    op = want ? s.pick(t) : s.pick(f);
  } else {
    const bool up = s.chance(1, 2);  // the constant lies above the value
    k = up ? c + m : c - m;
    if (s.chance(1, 6))
      op = want ? FOp::Ne : FOp::Eq;
    else if (up == want)
      op = s.chance(1, 2) ? FOp::Le : FOp::Lt;
    else
      op = s.chance(1, 2) ? FOp::Ge : FOp::Gt;
  }
  auto mirror = [](FOp o) {
    switch (o) {
      case FOp::Lt: return FOp::Gt;
      case FOp::Gt: return FOp::Lt;
      case FOp::Le: return FOp::Ge;
      case FOp::Ge: return FOp::Le;
      default: return o;
    }
  };
  auto negate = [](FOp o) {
    switch (o) {
      case FOp::Lt: return FOp::Ge;
      case FOp::Gt: return FOp::Le;
      case FOp::Le: return FOp::Gt;
      case FOp::Ge: return FOp::Lt;
      case FOp::Eq: return FOp::Ne;
      default: return FOp::Eq;
    }
  };
  if (neg) op = negate(op);
  F f;
  // move a part to the other side now and then
  if (s.chance(1, 4)) {
    const N x = var(static_cast<int>(s.draw(p.size())));
    const N a = mk(Op::Add, {e, x}), b = mk(Op::Add, {cst(k), x});
    f = swap ? rel(mirror(op), b, a) : rel(op, a, b);
    // the sum must not round the margin away
    const BResult chk = evaluate(f, p);
    if (!chk.defined || !chk.reliable || chk.value != (want != neg))
      return nullptr;
  } else {
    f = swap ? rel(mirror(op), cst(k), e) : rel(op, e, cst(k));
  }
  if (neg) f = conn(FOp::Not, {f});
  return f;
}

}  // namespace scene

namespace scene {
// x^y with a variable exponent (or an interval constant) is defined for
// positive x only in IBEX.
inline bool var_pow(const N& e) {
  return has_op(e, [](const Node& n) {
    return n.op == Op::Pow && (n.a[1]->op != Op::Const || n.a[1]->style != 0);
  });
}
// The delta-weakened formula (or its negation) at a point.  Atoms whose value
// is undefined or not known well enough count as satisfied.
inline bool weak_atom(const F& f, bool pos, const std::vector<double>& q,
                      double delta) {
  if (var_pow(f->e[0]) || var_pow(f->e[1])) return true;
  const Result v = evaluate(mk(Op::Sub, {f->e[0], f->e[1]}), q);
  if (!v.defined || !v.reliable) return true;
  const double w = delta * (1 + 1e-6) + v.tol;
  switch (f->op) {
    case FOp::Eq: return !pos || std::fabs(v.value) <= w;
    case FOp::Ne: return pos || std::fabs(v.value) <= w;
    case FOp::Lt:
    case FOp::Le: return pos ? v.value <= w : v.value >= -w;
    default: return pos ? v.value >= -w : v.value <= w;
  }
}
inline bool weak(const F& f, bool pos, const std::vector<double>& q,
                 double delta) {
  switch (f->op) {
    case FOp::True: return pos;
    case FOp::False: return !pos;
    case FOp::BVar: return (q[f->v] != 0) == pos;
    case FOp::And:
    case FOp::Or: {
      const bool conj = (f->op == FOp::And) == pos;
      for (const F& g : f->f)
        if (weak(g, pos, q, delta) != conj) return !conj;
      return conj;
    }
    case FOp::Not: return weak(f->f[0], !pos, q, delta);
    case FOp::Imply:
      return pos ? weak(f->f[0], false, q, delta) || weak(f->f[1], true, q, delta)
                 : weak(f->f[0], true, q, delta) && weak(f->f[1], false, q, delta);
    case FOp::Iff:
      return (weak(f->f[0], true, q, delta) && weak(f->f[1], pos, q, delta)) ||
             (weak(f->f[0], false, q, delta) && weak(f->f[1], !pos, q, delta));
    case FOp::Forall: abort();
    default: return weak_atom(f, pos, q, delta);
  }
}
inline bool has_ite(const F& f) {
  for (const N& e : f->e)
    if (has_op(e, [](const Node& n) { return n.op == Op::Ite; })) return true;
  for (const F& g : f->f)
    if (has_ite(g)) return true;
  return false;
}

// Adds BOOLEAN variables to a scene.
inline void add_bools(Src& s, Scene* sc, int n) {
  for (int i = 0; i < n; ++i) {
    sc->type.push_back(Variable::Type::BOOLEAN);
    sc->vs.v.emplace_back(cat("b", i), Variable::Type::BOOLEAN);
    sc->p.push_back(static_cast<double>(s.draw(2)));
    sc->lb.push_back(0);
    sc->ub.push_back(1);
    sc->box.Add(sc->vs.v.back());
  }
}

// Formulas with a known truth value at the planted point.
struct FormulaGen {
  Src& s;
  const Scene& sc;
  int nreal;  // the variables below are numeric, the rest Boolean
  bool ite = false;
  int max_size = 16;
  int atoms = 0;

  F leaf(bool want) {
    ++atoms;
    const int nb = static_cast<int>(sc.p.size()) - nreal;
    if (nb > 0 && s.chance(1, 4)) {
      const int v = nreal + static_cast<int>(s.draw(nb));
      const F b = bvar(v);
      return (sc.p[v] != 0) == want ? b : conn(FOp::Not, {b});
    }
    if (s.chance(1, 4)) {
      // Only branching can tell: a^2 + b^2 - 2ab
      auto part = [&]() -> N {
        const N x = var(static_cast<int>(s.draw(nreal)));
        switch (s.draw(5)) {
          case 0: return x;
          case 1: return mk(Op::Sin, {x});
          case 2: return mk(Op::Mul, {cst(gen_const(s, false)), x});
          case 3: return mk(Op::Add, {x, cst(gen_const(s, false))});
          default: return mk(Op::Mul, {x, var(static_cast<int>(s.draw(nreal)))});
        }
      };
      const N a = part(), b = part();
      const N e = mk(Op::Sub, {mk(Op::Add, {mk(Op::Mul, {a, a}), mk(Op::Mul, {b, b})}),
                               mk(Op::Mul, {cst(2), mk(Op::Mul, {a, b})})});
      static const std::vector<double> gap = {0.5, 0.125, 2, 1e-2};
      const double d = s.pick(gap);
      F f;
      if (s.chance(1, 2)) {
        f = rel(s.chance(1, 2) ? FOp::Lt : FOp::Le, e, cst(-d));
        if (want) f = conn(FOp::Not, {f});
      } else {
        f = constraint_at(s, e, sc.p, want);
      }
      if (f) {
        bool built;
        try_build(f, sc.vs, &built);
        const BResult r = evaluate(f, sc.p);
        if (built && r.defined && r.reliable && r.value == want) return f;
      }
    }
    for (int k = 0; k < 4; ++k) {
      GenOpt o = options(nreal, s);
      o.max_size = max_size;
      o.ite = ite && s.chance(1, 2);
      if (o.ite) {
        o.bool_atoms = nb > 0;
        for (int i = 0; i < nb; ++i) o.bool_vars.push_back(nreal + i);
      }
      const N e = gen_expr(s, o);
      const F f = constraint_at(s, e, sc.p, want);
      if (!f) continue;
      bool built;
      try_build(f, sc.vs, &built);
      if (!built) continue;
      const BResult r = evaluate(f, sc.p);
      if (!r.defined || !r.reliable || r.value != want) continue;
      return f;
    }
    const int v = static_cast<int>(s.draw(nreal));
    return want ? rel(FOp::Ge, var(v), cst(sc.p[v] - 1))
                : rel(FOp::Lt, var(v), cst(sc.p[v] - 1));
  }
  F gen(int depth, bool want) {
    if (depth == 0 || s.chance(1, 4)) return leaf(want);
    switch (s.draw(5)) {
      case 0: return nary(FOp::And, depth, want);
      case 1: return nary(FOp::Or, depth, want);
      case 2: return conn(FOp::Not, {gen(depth - 1, !want)});
      case 3: {
        if (!want) {
          const F a = gen(depth - 1, true);
          return conn(FOp::Imply, {a, gen(depth - 1, false)});
        }
        const bool a = s.chance(1, 2);
        const F fa = gen(depth - 1, a);
        return conn(FOp::Imply, {fa, gen(depth - 1, a || s.chance(1, 2))});
      }
      default: {
        const bool a = s.chance(1, 2);
        const F fa = gen(depth - 1, a);
        return conn(FOp::Iff, {fa, gen(depth - 1, a == want)});
      }
    }
  }
  F nary(FOp op, int depth, bool want) {
    const int n = s.range(2, 3);
    const bool all = (op == FOp::And) == want;  // every operand must be `want`
    const int must = static_cast<int>(s.draw(n));
    std::vector<F> fs;
    for (int i = 0; i < n; ++i)
      fs.push_back(gen(depth - 1, all || i == must ? want : s.chance(1, 2)));
    return conn(op, fs);
  }
};
// Some points of a model: its middle and corners.
inline std::vector<std::vector<double>> points_of(const Box& m, int n) {
  std::vector<std::vector<double>> r;
  for (int t = 0; t < n; ++t) {
    std::vector<double> q;
    for (int i = 0; i < m.size(); ++i)
      q.push_back(t == 0   ? m[i].mid()
                  : t == 1 ? m[i].lb()
                  : t == 2 ? m[i].ub()
                           : ((t * 7 + i * 5) >> (i % 3)) % 2 ? m[i].lb()
                                                              : m[i].ub());
    r.push_back(q);
  }
  return r;
}
// A chain of constraints over all the variables of a scene that is infeasible,
// but feasible as soon as any one of them is left out:
//   v0 >= u0, v1 >= g1(v0), ..., vn <= gn(...g1(u0)) - gap
// with increasing functions g (or everything the other way round).
struct Chain {
  Scene sc;
  std::vector<ast::F> fs;                   // in no particular order
  std::vector<std::vector<double>> points;  // points[i] satisfies all but fs[i]
};
inline Chain gen_chain(Src& s, int n) {
  using namespace ast;
  Chain ch;
  Scene& sc = ch.sc;
  std::vector<int> order;
  for (int i = 0; i < n; ++i) {
    order.insert(order.begin() + s.draw(order.size() + 1), i);
    sc.vs.v.emplace_back(cat("x", i), Variable::Type::CONTINUOUS);
    sc.type.push_back(Variable::Type::CONTINUOUS);
  }
  const bool up = s.chance(1, 2);
  const double sign = up ? 1 : -1;
  const double gap = s.chance(1, 3) ? 4 : s.chance(1, 2) ? 1 : 0.25;
  std::vector<double> u(1, s.range(-8, 8)), a, b;
  for (int i = 1; i < n; ++i) {
    a.push_back(s.chance(1, 2) ? 1 : s.chance(1, 2) ? 2 : 0.5);
    b.push_back(s.range(-6, 6) / 2.0);
    u.push_back(a.back() * u.back() + b.back());
  }
  std::vector<double> w(n);
  w[n - 1] = u[n - 1] - sign * gap;
  for (int i = n - 1; i > 0; --i) w[i - 1] = (w[i] - b[i - 1]) / a[i - 1];
  struct Item {
    F f;
    std::vector<double> point;
  };
  std::vector<Item> items;
  auto point = [&](int from) {  // forward values before, backward ones after
    std::vector<double> q(n);
    for (int i = 0; i < n; ++i) q[order[i]] = i < from ? u[i] : w[i];
    return q;
  };
  auto ge = [&](const N& x, const N& y) {  // x >= y (or <= if not up)
    switch (s.draw(6)) {
      case 0: return rel(FOp::Eq, x, y);
      case 1: return rel(up ? FOp::Le : FOp::Ge, y, x);
      case 2: return conn(FOp::Not, {rel(up ? FOp::Lt : FOp::Gt, x, y)});
      case 3:
        return rel(up ? FOp::Ge : FOp::Le, mk(Op::Sub, {x, y}), cst(0));
      default: return rel(up ? FOp::Ge : FOp::Le, x, y);
    }
  };
  items.push_back({ge(var(order[0]), cst(u[0])), point(0)});
  for (int i = 1; i < n; ++i) {
    const N x = var(order[i - 1]), y = var(order[i]);
    N e = x;
    if (a[i - 1] != 1) e = mk(Op::Mul, {cst(a[i - 1]), e});
    if (b[i - 1] != 0) e = mk(Op::Add, {e, cst(b[i - 1])});
    items.push_back({ge(y, e), point(i)});
  }
  const N last = var(order[n - 1]), end = cst(w[n - 1]);
  items.push_back({s.chance(1, 4) ? rel(FOp::Eq, last, end)
                   : up           ? rel(FOp::Le, last, end)
                                  : rel(FOp::Ge, last, end),
                   point(n)});
  while (!items.empty()) {
    const size_t at = s.draw(items.size());
    ch.fs.push_back(items[at].f);
    ch.points.push_back(items[at].point);
    items.erase(items.begin() + at);
  }
  for (int i = 0; i < n; ++i) {
    double l = kInf, h = -kInf;
    for (const auto& q : ch.points) {
      l = std::min(l, q[i]);
      h = std::max(h, q[i]);
    }
    sc.p.push_back(ch.points[0][i]);
    sc.lb.push_back(l - margin(s));
    sc.ub.push_back(h + margin(s));
    sc.box.Add(sc.vs.v[i]);
    sc.box[i] = Box::Interval{sc.lb.back(), sc.ub.back()};
  }
  return ch;
}

}  // namespace scene
