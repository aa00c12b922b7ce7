// Expansion and differentiation.
#include <map>

#include "ast.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
// ---- exact polynomials ----------------------------------------------------
using Mono = std::vector<int>;
using Poly = std::map<Mono, long double>;
struct TooBig {};

void add_to(Poly* p, const Mono& m, long double k) {
  long double& x = (*p)[m];
  x += k;
  if (x == 0) p->erase(m);
}
Poly mul(const Poly& a, const Poly& b) {
  Poly r;
  for (const auto& x : a)
    for (const auto& y : b) {
      Mono m = x.first;
      for (size_t i = 0; i < m.size(); ++i) m[i] += y.first[i];
      add_to(&r, m, x.second * y.second);
      const long double k = std::fabs(x.second * y.second);
      if (r.size() > 150 || k > 1e9L || k < 1e-4L) throw TooBig{};
    }
  return r;
}
Poly poly(const N& n, int nv) {
  const Mono one(nv, 0);
  switch (n->op) {
    case Op::Const: {
      Poly r;
      if (n->c != 0) r[one] = n->c;
      return r;
    }
    case Op::Var: {
      Mono m = one;
      m[n->v] = 1;
      return Poly{{m, 1.0L}};
    }
    case Op::Add:
    case Op::Sub: {
      Poly r = poly(n->a[0], nv);
      for (const auto& p : poly(n->a[1], nv))
        add_to(&r, p.first, n->op == Op::Add ? p.second : -p.second);
      return r;
    }
    case Op::Neg: {
      Poly r;
      for (const auto& p : poly(n->a[0], nv)) r[p.first] = -p.second;
      return r;
    }
    case Op::Mul: return mul(poly(n->a[0], nv), poly(n->a[1], nv));
    case Op::Pow: {
      const Poly b = poly(n->a[0], nv);
      Poly r{{one, 1.0L}};
      if (n->a[1]->op != Op::Const || n->a[1]->c < 0 || n->a[1]->c > 12 ||
          n->a[1]->c != std::floor(n->a[1]->c))
        throw TooBig{};
      for (int i = 0; i < static_cast<int>(n->a[1]->c); ++i) r = mul(r, b);
      return r;
    }
    case Op::Div: {
      if (n->a[1]->op != Op::Const) throw TooBig{};
      Poly r;
      for (const auto& p : poly(n->a[0], nv)) r[p.first] = p.second / n->a[1]->c;
      return r;
    }
    default: throw TooBig{};
  }
}
bool degree_ok(const Poly& p) {
  for (const auto& x : p) {
    int d = 0;
    for (int i : x.first) d += i;
    if (d > 14 || std::fabs(x.second) > 1e9L) return false;
  }
  return true;
}
std::string show_poly(const Poly& p) {
  std::string r;
  for (const auto& x : p) {
    r += cat(" ", static_cast<double>(x.second), "*[");
    for (int i : x.first) r += cat(i, ",");
    r += "]";
  }
  return r;
}
// Reads a sum of monomials through the public accessors.
bool read_mono(const Expression& e, const Vars& vs, Mono* m, long double* k) {
  if (is_constant(e)) {
    *k *= get_constant_value(e);
    return true;
  }
  if (is_variable(e)) {
    (*m)[vs.index(get_variable(e))] += 1;
    return true;
  }
  auto power = [&](const Expression& b, const Expression& x) {
    if (!is_constant(x)) return false;
    const double d = get_constant_value(x);
    if (d < 0 || d > 10000 || d != std::floor(d)) return false;
    Mono sub(m->size(), 0);
    long double f = 1;
    if (!read_mono(b, vs, &sub, &f)) return false;
    for (size_t i = 0; i < sub.size(); ++i)
      (*m)[i] += sub[i] * static_cast<int>(d);
    *k *= std::pow(f, static_cast<long double>(d));
    return true;
  };
  if (is_pow(e)) return power(get_first_argument(e), get_second_argument(e));
  if (is_division(e)) {
    // A monomial divided by a constant.
    const Expression& d = get_second_argument(e);
    if (!is_constant(d)) return false;
    *k /= get_constant_value(d);
    return read_mono(get_first_argument(e), vs, m, k);
  }
  if (is_multiplication(e)) {
    *k *= get_constant_in_multiplication(e);
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      if (!power(p.first, p.second)) return false;
    return true;
  }
  return false;
}
bool read_sum(const Expression& e, const Vars& vs, int nv, Poly* out,
              bool* repeated) {
  auto put = [&](const Expression& t, double coeff) {
    Mono m(nv, 0);
    long double k = coeff;
    if (!read_mono(t, vs, &m, &k)) return false;
    if (out->count(m)) *repeated = true;
    add_to(out, m, k);
    return true;
  };
  if (is_addition(e)) {
    const double c0 = get_constant_in_addition(e);
    if (c0 != 0) (*out)[Mono(nv, 0)] = c0;
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      if (!put(p.first, p.second)) return false;
    return true;
  }
  return put(e, 1.0);
}

// Syntactic degree: bounds the number of terms of the expansion.
double deg(const N& t) {
  double d = t->op == Op::Var ? 1 : 0, sum = 0;
  for (const N& a : t->a) {
    d = std::max(d, deg(a));
    sum += deg(a);
  }
  if (t->op == Op::Mul || t->op == Op::Div) return sum;
  if (t->op == Op::Pow) {
    if (t->a[1]->op == Op::Const)
      return deg(t->a[0]) * std::max(1.0, std::fabs(t->a[1]->c));
    std::set<int> vars;
    vars_of(t->a[1], &vars);
    if (vars.empty()) return 1000;
    return 10 * deg(t->a[0]);
  }
  return d;
}

// The same tree without cancellation.
N absolute(const N& n) {
  if (n->op == Op::Const) return cst(std::fabs(n->c));
  if (n->op == Op::Neg) return absolute(n->a[0]);
  if (n->op == Op::Pow) return mk(Op::Pow, {absolute(n->a[0]), n->a[1]});
  std::vector<N> a;
  for (const N& x : n->a) a.push_back(absolute(x));
  return a.empty() ? n : mk(n->op == Op::Sub ? Op::Add : n->op, a);
}

N gen_poly(Src& s, int nv, int depth) {
  const int k = depth <= 0 ? 0 : s.weighted({1, 4, 2, 4, 4, 1, 1});
  const int style = static_cast<int>(s.draw(6));
  static const std::vector<double> consts = {1, 2, -1, 3, 0.5, -2, 4, 0, 0.25,
                                             -3, 5};
  switch (k) {
    case 0:
      if (s.chance(1, 4)) return cst(s.pick(consts));
      return var(static_cast<int>(s.draw(nv)));
    case 1: case 2: case 3: {
      const N a = gen_poly(s, nv, depth - 1);
      const N b = gen_poly(s, nv, depth - 1);
      return mk(k == 1 ? Op::Add : k == 2 ? Op::Sub : Op::Mul, {a, b}, nullptr,
                style);
    }
    case 4: {
      const N a = gen_poly(s, nv, depth - 1);
      return mk(Op::Pow, {a, cst(static_cast<double>(2 + s.draw(4)))});
    }
    case 5: {
      static const std::vector<double> ds = {2, 4, -2, 0.5, -0.25, 8};
      const N a = gen_poly(s, nv, depth - 1);
      return mk(Op::Div, {a, cst(s.pick(ds))}, nullptr, style);
    }
    default:
      return mk(Op::Neg, {gen_poly(s, nv, depth - 1)}, nullptr, style);
  }
}
}  // namespace

PBT_TARGET("C04", expand_polynomial, 150000,
           "random nested sums, products, integer powers and quotients by "
           "constants with exactly representable coefficients; the expansion "
           "must be literally the canonical sum of monomials computed by an "
           "independent polynomial arithmetic, and be stable under expansion; "
           "non-trivial: at least 3 monomials and the input was not expanded") {
  const int nv = s.range(1, 4);
  const N n = gen_poly(s, nv, 2 + static_cast<int>(s.draw(4)));
  c.describe(show(n));
  Poly want, sum;
  try {
    want = poly(n, nv);
    sum = poly(absolute(n), nv);
  } catch (const TooBig&) {
    c.discard();
  }
  if (n->size > 60 || deg(n) > 20 || !degree_ok(want)) c.discard();
  // The coefficients add up exactly unless they are large or have many digits.
  long double largest = 1;
  for (const auto& p : sum) largest = std::max(largest, p.second);
  const long double noise = 1e-14L * largest;
  const Vars vs = make_vars(nv);
  const Expression e = build(n, vs);
  const Expression x = e.Expand();
  c.add(cat("  ~>  ", e, "  ~>  ", x));
  Poly got;
  bool repeated = false;
  c.check(e.is_polynomial(), cat(e, " is not classified as a polynomial"));
  c.check(x.is_polynomial(), cat(x, " is not classified as a polynomial"));
  c.check(read_sum(x, vs, nv, &got, &repeated),
          cat("the expansion ", x, " is not a sum of monomials"));
  // Division by a constant is only pushed into sums and products.
  const bool has_div =
      has_op(n, [](const Node& t) { return t.op == Op::Div; });
  c.check(has_div || !repeated, cat("a monomial occurs twice in ", x));
  for (auto it = got.begin(); it != got.end();)
    it = std::fabs(it->second) < std::max(noise, has_div ? 1e-12L : 0.0L) &&
                 !want.count(it->first)
             ? got.erase(it)
             : std::next(it);
  if (want.empty()) {
    c.check(has_div || largest > 1e9L ? got.empty() : is_zero(x), cat("expected 0, got ", x));
    return;
  }
  bool same = got.size() == want.size();
  if (same)
    for (const auto& p : want) {
      const auto it = got.find(p.first);
      same = same && it != got.end() &&
             std::fabs(it->second - p.second) <=
                 noise + 1e-9L * (1 + std::fabs(p.second));
    }
  c.check(same, cat("the expansion ", x, " has monomials", show_poly(got),
                    " expected", show_poly(want)));
  c.check(has_div || x.Expand().EqualTo(x), cat("expanding ", x, " again gives ", x.Expand()));
  if (want.size() >= 3 && !x.EqualTo(e)) c.nontrivial(show(n));
}

PBT_TARGET("C04", expand_general, 200000,
           "random general expressions (quotients, real and negative powers, "
           "functions, ite); the expansion is evaluated at 4 points against "
           "the written tree, and expanding never fails on a defined term; "
           "non-trivial: expansion changed the term and a point was compared") {
  GenOpt o;
  o.nvars = 3;
  o.max_terms = 12;
  o.trans = s.chance(1, 2);
  o.inexact_consts = s.chance(1, 3);
  o.real_consts = s.chance(1, 5);
  o.max_size = 30;
  o.ite = s.chance(1, 10);
  N n = gen_expr(s, o);
  if (s.chance(1, 2)) {
    // Something to distribute.
    o.max_terms = 4;
    const N a = gen_expr(s, o), b = gen_expr(s, o);
    switch (s.draw(4)) {
      case 0: n = mk(Op::Mul, {mk(Op::Add, {n, a}), b}); break;
      case 1: n = mk(Op::Mul, {mk(Op::Add, {n, a}), mk(Op::Sub, {b, a})}); break;
      case 2: n = mk(Op::Pow, {mk(Op::Add, {n, a}),
                               cst(static_cast<double>(2 + s.draw(3)))}); break;
      default: n = mk(Op::Div, {mk(Op::Add, {n, a}), cst(1 + s.draw(7))}); break;
    }
  }
  // Expansion of (a + b)^n has many terms; bound n.
  if (has_op(n, [](const Node& x) {
        return x.op == Op::Const && std::fabs(x.c) > 20;
      }))
    c.discard();
  if (deg(n) > 14) c.discard();
  c.describe(show(n));
  const Vars vs = make_vars(o.nvars);
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 4; ++i) pts.push_back(gen_point(s, o.nvars));
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  Expression x;
  try {
    x = e.Expand();
  } catch (const std::exception& ex) {
    if (e.include_ite()) {
      c.label("expansion of if-then-else is not supported");
      return;
    }
    for (const auto& p : pts)
      if (evaluate(n, p).reliable)
        c.fail(cat("Expand of ", e, " threw ", ex.what(),
                   " but the term is defined at ", show(p)));
    return;
  }
  c.add(cat("  ~>  ", e, "  ~>  ", x));
  bool compared = false;
  for (const auto& p : pts) {
    const Result w = evaluate(n, p);
    if (!w.reliable) {
      c.label(w.defined ? "point:ill-conditioned" : "point:undefined");
      continue;
    }
    // The expanded polynomial may be worse conditioned than the written one.
    const Result wx = evaluate(reflect(x, vs), p);
    if (!wx.defined) {
      // Rounding may push a boundary point outside the domain; a neighbourhood
      // outside the domain is an error.
      bool bad = true;
      for (const double h : {0.013, -0.017, 0.0071}) {
        std::vector<double> q = p;
        for (double& t : q) t += h;
        const Result wq = evaluate(n, q), xq = evaluate(reflect(x, vs), q);
        bad = bad && wq.reliable && !xq.defined;
      }
      c.check(!bad, cat("the expansion ", x, " is undefined around ", show(p),
                        " where the term is defined"));
      c.label("expansion undefined at a boundary point");
      continue;
    }
    if (wx.defined && !wx.reliable) {
      c.label("expansion ill-conditioned");
      continue;
    }
    double val = 0;
    try {
      val = x.Evaluate(vs.env(p));
    } catch (const std::exception& ex) {
      c.fail(cat("evaluating the expansion ", x, " at ", show(p), " threw ",
                 ex.what(), ", expected ", w.value));
    }
    compared = true;
    c.label("point:compared");
    c.check(std::isfinite(val) && std::fabs(val - w.value) <= w.tol + wx.tol,
            cat("expansion ", x, " evaluates to ", val, " at ", show(p),
                ", expected ", w.value));
  }
  for (const Variable& v : x.GetVariables())
    c.check(e.GetVariables().include(v), cat("variable ", v, " from nowhere"));
  if (compared && !x.EqualTo(e)) c.nontrivial(show(n));
}

// ---- differentiation ------------------------------------------------------
namespace {
struct NotSmooth {};

bool depends(const N& n, int v) {
  std::set<int> vars;
  vars_of(n, &vars);
  return vars.count(v) > 0;
}
// Independent symbolic derivative on our own trees.
N D(const N& n, int v) {
  if (!depends(n, v)) return cst(0);
  auto add = [](const N& a, const N& b) { return mk(Op::Add, {a, b}); };
  auto sub = [](const N& a, const N& b) { return mk(Op::Sub, {a, b}); };
  auto mul = [](const N& a, const N& b) { return mk(Op::Mul, {a, b}); };
  auto div = [](const N& a, const N& b) { return mk(Op::Div, {a, b}); };
  auto pw = [](const N& a, const N& b) { return mk(Op::Pow, {a, b}); };
  auto fn = [](Op op, const N& a) { return mk(op, {a}); };
  const N one = cst(1), two = cst(2);
  const N& a = n->a.empty() ? n : n->a[0];
  switch (n->op) {
    case Op::Var: return one;
    case Op::Add: return add(D(a, v), D(n->a[1], v));
    case Op::Sub: return sub(D(a, v), D(n->a[1], v));
    case Op::Neg: return fn(Op::Neg, D(a, v));
    case Op::Mul: {
      const N& b = n->a[1];
      return add(mul(D(a, v), b), mul(a, D(b, v)));
    }
    case Op::Div: {
      const N& b = n->a[1];
      return sub(div(D(a, v), b), mul(div(a, pw(b, two)), D(b, v)));
    }
    case Op::Log: return div(D(a, v), a);
    case Op::Exp: return mul(n, D(a, v));
    case Op::Sqrt: return div(D(a, v), mul(two, n));
    case Op::Pow: {
      const N& b = n->a[1];
      if (!depends(b, v))
        return mul(mul(b, pw(a, sub(b, one))), D(a, v));
      const N lead = mul(mul(n, fn(Op::Log, a)), D(b, v));
      if (!depends(a, v)) return lead;
      return add(lead, mul(mul(b, pw(a, sub(b, one))), D(a, v)));
    }
    case Op::Sin: return mul(fn(Op::Cos, a), D(a, v));
    case Op::Cos: return fn(Op::Neg, mul(fn(Op::Sin, a), D(a, v)));
    case Op::Tan: return div(D(a, v), pw(fn(Op::Cos, a), two));
    case Op::Asin:
      return div(D(a, v), fn(Op::Sqrt, sub(one, pw(a, two))));
    case Op::Acos:
      return fn(Op::Neg, div(D(a, v), fn(Op::Sqrt, sub(one, pw(a, two)))));
    case Op::Atan: return div(D(a, v), add(one, pw(a, two)));
    case Op::Atan2: {
      // atan2(y, x)
      const N& x = n->a[1];
      return div(sub(mul(x, D(a, v)), mul(a, D(x, v))),
                 add(pw(a, two), pw(x, two)));
    }
    case Op::Sinh: return mul(fn(Op::Cosh, a), D(a, v));
    case Op::Cosh: return mul(fn(Op::Sinh, a), D(a, v));
    case Op::Tanh: return div(D(a, v), pw(fn(Op::Cosh, a), two));
    default: throw NotSmooth{};
  }
}
// A point is smooth if every power in the term has a base for which the power
// is differentiable there; D being defined at the point implies that.
}  // namespace

PBT_TARGET("C05", differentiate, 250000,
           "random differentiable expression (products, quotients, powers "
           "with constant and variable exponents, all functions), a variable "
           "and 5 points: the derivative must evaluate to the value of an "
           "independently derived derivative of the written tree, wherever that "
           "is defined and well conditioned; non-trivial: the term depends on "
           "the variable, has at least 2 operators, and a point was compared") {
  GenOpt o;
  o.nvars = 3;
  o.max_terms = 9;
  o.max_size = 26;
  o.ite = false;
  o.minmax = s.chance(1, 20);
  o.trans = s.chance(3, 4);
  o.inexact_consts = s.chance(1, 3);
  o.real_consts = s.chance(1, 5);
  const N n = gen_expr(s, o);
  const int v = static_cast<int>(s.draw(o.nvars));
  c.describe(cat("d/dx", v, " ", show(n)));
  const Vars vs = make_vars(o.nvars);
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 5; ++i) pts.push_back(gen_point(s, o.nvars));
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const N back = reflect(e, vs);
  bool nonsmooth = false;
  std::function<void(const N&)> scan = [&](const N& t) {
    if ((t->op == Op::Abs || t->op == Op::Min || t->op == Op::Max ||
         t->op == Op::Ite) &&
        depends(t, v))
      nonsmooth = true;
    for (const N& a : t->a) scan(a);
  };
  scan(back);
  N d;
  try {
    d = D(n, v);
  } catch (const NotSmooth&) {
    // The written tree may have a kink that simplification removed.
    d = nullptr;
  }
  if (d && d->size > 3000) c.discard();
  Expression x;
  try {
    x = e.Differentiate(vs.v[v]);
  } catch (const std::exception& ex) {
    c.label("refused");
    if (nonsmooth) return;
    if (!d) return;
    for (const auto& p : pts)
      if (evaluate(d, p).reliable && evaluate(n, p).reliable)
        c.fail(cat("Differentiate of ", e, " threw ", ex.what(),
                   " but it has no non-differentiable node depending on x", v));
    return;
  }
  c.add(cat("  ~>  ", x));
  c.check(!nonsmooth, cat(e, " was differentiated to ", x,
                          " although it has a kink depending on x", v));
  for (const Variable& w : x.GetVariables())
    c.check(e.GetVariables().include(w), cat("variable ", w, " from nowhere"));
  if (!d) return;
  bool compared = false;
  const N xref = reflect(x, vs);
  for (const auto& p : pts) {
    const Result w = evaluate(d, p);
    const Result base = evaluate(n, p);
    if (!w.reliable || !base.reliable) {
      c.label(w.defined ? "point:ill-conditioned" : "point:undefined");
      continue;
    }
    // The form of the derivative dReal produces may itself be undefined or ill
    // conditioned at the point (e.g. pow(f, -1) for f = 0 in the product rule).
    const Result wx = evaluate(xref, p);
    if (!wx.reliable) {
      c.label(wx.defined ? "result ill-conditioned" : "result undefined");
      continue;
    }
    compared = true;
    c.label("point:compared");
    double val = 0;
    try {
      val = x.Evaluate(vs.env(p));
    } catch (const std::exception& ex) {
      c.fail(cat("evaluating ", x, " at ", show(p), " threw ", ex.what()));
    }
    c.check(std::fabs(val - w.value) <= w.tol + wx.tol,
            cat("derivative ", x, " evaluates to ", val, " at ", show(p),
                ", expected ", w.value));
  }
  if (compared && depends(n, v) && n->size >= 4) c.nontrivial(show(n) + cat(v));
}

PBT_TARGET("C05", differentiate_nonsmooth, 60000,
           "expressions with abs, min, max and if-then-else in random places: "
           "refused exactly when such a node depends on the variable, right "
           "derivative otherwise; non-trivial: such a node is present") {
  const Vars vs = make_vars(3);
  const int v = static_cast<int>(s.draw(3));
  const int other = (v + 1) % 3;
  GenOpt o;
  o.nvars = 1;  // renamed below
  o.max_terms = 4;
  o.ite = o.minmax = true;
  const N kinky = gen_expr(s, o);
  GenOpt so = o;
  so.nvars = 3;
  so.ite = so.minmax = false;
  const N smooth = gen_expr(s, so);
  const int target = s.chance(2, 3) ? other : v;
  std::function<N(const N&)> ren;
  std::function<F(const F&)> renf = [&](const F& f) -> F {
    if (is_rel(f->op)) return rel(f->op, ren(f->e[0]), ren(f->e[1]), f->style);
    std::vector<F> a;
    for (const F& g : f->f) a.push_back(renf(g));
    return conn(f->op, a, f->style);
  };
  ren = [&](const N& n) -> N {
    if (n->op == Op::Var) return var(target);
    if (n->op == Op::Const) return n;
    std::vector<N> a;
    for (const N& t : n->a) a.push_back(ren(t));
    return mk(n->op, a, n->cond ? renf(n->cond) : nullptr, n->style);
  };
  const N k = ren(kinky);
  N n;
  switch (s.draw(4)) {
    case 0: n = mk(Op::Add, {k, smooth}); break;
    case 1: n = mk(Op::Mul, {smooth, k}); break;
    case 2: n = mk(Op::Mul, {cst(2), mk(Op::Sin, {mk(Op::Mul, {k, smooth})})}); break;
    default: n = mk(Op::Pow, {k, cst(2)}); break;
  }
  c.describe(cat("d/dx", v, " ", show(n)));
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const N back = reflect(e, vs);
  bool nonsmooth = false, present = false;
  std::function<void(const N&)> scan = [&](const N& t) {
    if (t->op == Op::Abs || t->op == Op::Min || t->op == Op::Max ||
        t->op == Op::Ite) {
      present = true;
      if (depends(t, v)) nonsmooth = true;
    }
    for (const N& a : t->a) scan(a);
  };
  scan(back);
  bool threw = false;
  Expression x;
  std::string what;
  try {
    x = e.Differentiate(vs.v[v]);
  } catch (const std::exception& ex) {
    threw = true;
    what = ex.what();
  }
  if (nonsmooth) {
    c.check(threw, cat(e, " was differentiated to ", x));
    c.label("refused");
  } else if (threw) {
    N d;
    try {
      d = D(n, v);
    } catch (const NotSmooth&) {
      return;
    }
    const auto p = gen_point(s, 3);
    c.check(!(evaluate(d, p).reliable && evaluate(n, p).reliable),
            cat("Differentiate of ", e, " threw ", what));
    return;
  } else {
    N d;
    try {
      d = D(n, v);
    } catch (const NotSmooth&) {
      return;
    }
    for (int i = 0; i < 4; ++i) {
      const auto p = gen_point(s, 3);
      const Result w = evaluate(d, p), base = evaluate(n, p);
      const Result wx = evaluate(reflect(x, vs), p);
      if (!w.reliable || !base.reliable || !wx.reliable) continue;
      double val = 0;
      try {
        val = x.Evaluate(vs.env(p));
      } catch (const std::exception& ex) {
        c.fail(cat("evaluating ", x, " at ", show(p), " threw ", ex.what()));
      }
      c.check(std::fabs(val - w.value) <= w.tol + wx.tol,
              cat("derivative ", x, " evaluates to ", val, " at ", show(p),
                  ", expected ", w.value));
    }
  }
  if (present) c.nontrivial(show(n) + cat(v));
}
