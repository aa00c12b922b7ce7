// C21 boxes, C25 bound filtering, C33 decimal literals.
#include <gmpxx.h>

#include <cfenv>
#include <cmath>
#include <limits>
#include <sstream>

#include "ast.h"
#include "dreal/solver/filter_assertion.h"
#include "dreal/util/box.h"
#include "dreal/util/string_to_interval.h"

using dreal::Box;
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kIntMax = std::numeric_limits<int>::max();

struct Iv {
  double lb, ub;  // lb > ub: empty
  bool empty() const { return !(lb <= ub); }
  bool operator==(const Iv& o) const {
    return empty() ? o.empty() : lb == o.lb && ub == o.ub;
  }
};
struct Model {
  std::vector<int> vars;
  std::vector<Iv> iv;
  bool empty() const {
    for (const Iv& i : iv)
      if (i.empty()) return true;
    return false;
  }
  int find(int v) const {
    for (size_t i = 0; i < vars.size(); ++i)
      if (vars[i] == v) return static_cast<int>(i);
    return -1;
  }
};
Iv get(const Box::Interval& i) {
  return i.is_empty() ? Iv{1, 0} : Iv{i.lb(), i.ub()};
}
std::string show(const Iv& i) {
  return i.empty() ? "[]" : cat("[", i.lb, ",", i.ub, "]");
}
std::string show(const Model& m) {
  std::string r;
  for (size_t i = 0; i < m.vars.size(); ++i)
    r += cat("v", m.vars[i], ":", show(m.iv[i]), " ");
  return r;
}

Variable::Type type_of(int v) {
  switch (v % 4) {
    case 1: return Variable::Type::INTEGER;
    case 2: return Variable::Type::BINARY;
    case 3: return Variable::Type::BOOLEAN;
    default: return Variable::Type::CONTINUOUS;
  }
}
Iv initial(int v) {
  switch (v % 4) {
    case 1: return {-kIntMax, kIntMax};
    case 2:
    case 3: return {0, 1};
    default: return {-kInf, kInf};
  }
}
double bound(Src& s) {
  switch (s.weighted({6, 3, 1})) {
    case 1: return static_cast<double>(s.range(-20, 20)) / 8;
    case 2: return s.chance(1, 2) ? 1e300 : -1e300;
    default: return s.range(-4, 4);
  }
}
Iv interval(Src& s, int v) {
  if (v % 4 == 2 || v % 4 == 3) {
    const double a = static_cast<double>(s.draw(2));
    return {a, a + (a == 0 ? static_cast<double>(s.draw(2)) : 0)};
  }
  if (v % 4 == 1) {
    const double a = s.range(-9, 9);
    return {a, a + s.range(0, 6)};
  }
  double a = bound(s), b = bound(s);
  if (a > b) std::swap(a, b);
  if (s.chance(1, 10)) a = -kInf;
  if (s.chance(1, 10)) b = kInf;
  return {a, b};
}

void check(const Box& b, const Model& m, const std::vector<Variable>& pool,
           const std::string& what, Ctx& c) {
  c.check(b.size() == static_cast<int>(m.vars.size()), what + ": size");
  c.check(b.empty() == m.empty(), what + ": emptiness");
  c.check(b.variables().size() == m.vars.size(), what + ": variables");
  if (!m.vars.empty())
    c.check(b.interval_vector().size() == static_cast<int>(m.vars.size()),
            what + ": interval vector");
  double best = 0;
  for (size_t i = 0; i < m.vars.size(); ++i) {
    const Variable& v = pool[m.vars[i]];
    const int idx = static_cast<int>(i);
    c.check(b.variables()[i].equal_to(v), what + ": order of the variables");
    c.check(b.variable(idx).equal_to(v), what + ": variable of an index");
    c.check(b.index(v) == idx, what + ": index of a variable");
    if (m.empty()) continue;
    c.check(get(b[v]) == m.iv[i],
            cat(what, ": v", m.vars[i], " is ", show(get(b[v])), ", expected ",
                show(m.iv[i])));
    c.check(get(b[idx]) == m.iv[i], what + ": access by index");
    c.check(get(b.interval_vector()[idx]) == m.iv[i],
            what + ": interval vector");
    const double w = m.iv[i].ub - m.iv[i].lb;
    const double lo = std::max(m.iv[i].lb, -std::numeric_limits<double>::max());
    const double hi = std::min(m.iv[i].ub, std::numeric_limits<double>::max());
    const bool splits = std::nextafter(lo, kInf) < hi;
    if (splits && w > best) best = w;
  }
  for (size_t v = 0; v < pool.size(); ++v)
    c.check(b.has_variable(pool[v]) == (m.find(static_cast<int>(v)) >= 0),
            what + ": has_variable");
  if (!m.empty()) {
    const std::pair<double, int> md = b.MaxDiam();
    if (md.second >= 0) {
      c.check(md.second < b.size(), what + ": MaxDiam index");
      const Iv& i = m.iv[md.second];
      c.check(std::fabs(md.first - (i.ub - i.lb)) <=
                      1e-12 * std::fabs(md.first) ||
                  md.first == i.ub - i.lb,
              what + ": MaxDiam gives another dimension's width");
    }
    if (best == 0) {
      c.check(md.second == -1, what + ": MaxDiam of a box of points");
    } else {
      c.check(md.second >= 0 && md.first >= best * (1 - 1e-12),
              cat(what, ": MaxDiam is ", md.first, " but a dimension has width ",
                  best));
    }
  }
  std::ostringstream os;
  os << b;
  if (!m.vars.empty()) c.check(!os.str().empty(), what + ": display");
}
}  // namespace

PBT_TARGET("C21", box_model, 20000,
           "random history of up to 25 operations on 3 boxes over 8 variables "
           "of all types (adding, assigning, copying, moving, bisecting, "
           "joining, emptying) against a list of named intervals, compared "
           "through every accessor after each operation; non-trivial: at least "
           "8 operations with a bisection or a join, over a box copied before") {
  std::vector<Variable> pool;
  for (int i = 0; i < 8; ++i)
    pool.emplace_back(s.chance(1, 4) ? std::string("x") : cat("x", i), type_of(i));
  std::vector<Box> b(3);
  std::vector<Model> m(3);
  const int steps = s.range(1, 25);
  bool copied = false, split = false;
  for (int step = 0; step < steps; ++step) {
    const size_t x = s.draw(3), y = s.draw(3);
    switch (s.weighted({5, 4, 3, 3, 3, 2, 2, 1, 2, 1})) {
      case 0: {  // add with the default domain
        const int v = static_cast<int>(s.draw(8));
        if (m[x].find(v) >= 0 || m[x].empty()) break;
        c.add(cat("b", x, ".Add(v", v, "); "));
        b[x].Add(pool[v]);
        m[x].vars.push_back(v);
        m[x].iv.push_back(initial(v));
        break;
      }
      case 1: {  // add with bounds
        const int v = static_cast<int>(s.draw(8));
        if (m[x].find(v) >= 0 || m[x].empty()) break;
        const Iv i = interval(s, v);
        c.add(cat("b", x, ".Add(v", v, ", ", i.lb, ", ", i.ub, "); "));
        b[x].Add(pool[v], i.lb, i.ub);
        m[x].vars.push_back(v);
        m[x].iv.push_back(i);
        break;
      }
      case 2: {  // assign
        if (m[x].vars.empty() || m[x].empty()) break;
        const size_t i = s.draw(m[x].vars.size());
        const Iv iv = interval(s, m[x].vars[i]);
        c.add(cat("b", x, "[v", m[x].vars[i], "] = ", show(iv), "; "));
        const Box::Interval n(iv.lb, iv.ub);
        switch (s.draw(3)) {
          case 0: b[x][pool[m[x].vars[i]]] = n; break;
          case 1: b[x][static_cast<int>(i)] = n; break;
          default: b[x].mutable_interval_vector()[static_cast<int>(i)] = n;
        }
        m[x].iv[i] = iv;
        break;
      }
      case 3: {  // copy
        c.add(cat("b", x, " = b", y, "; "));
        if (s.chance(1, 2)) {
          b[x] = b[y];
        } else {
          Box t{b[y]};
          b[x] = t;
        }
        m[x] = m[y];
        copied = copied || m[y].vars.size() > 1;
        break;
      }
      case 4: {  // bisect
        if (m[x].vars.empty() || m[x].empty()) break;
        const size_t i = s.draw(m[x].vars.size());
        const Iv iv = m[x].iv[i];
        const int v = m[x].vars[i];
        if (v % 4 == 3) break;
        if (v % 4 != 0 && iv.ub - iv.lb < 1) break;
        if (!b[x][static_cast<int>(i)].is_bisectable()) {
          bool threw = false;
          try {
            b[x].bisect(pool[v]);
          } catch (const std::runtime_error&) {
            threw = true;
          }
          c.check(threw, "bisecting a point does not fail");
          break;
        }
        c.add(cat("b", x, "/b", y, " = b", x, ".bisect(v", v, "); "));
        const std::pair<Box, Box> p = s.chance(1, 2)
                                          ? b[x].bisect(pool[v])
                                          : b[x].bisect(static_cast<int>(i));
        const Iv l = get(p.first[static_cast<int>(i)]);
        const Iv r = get(p.second[static_cast<int>(i)]);
        c.check(!l.empty() && !r.empty() && l.lb == iv.lb && r.ub == iv.ub,
                cat("halves ", show(l), " and ", show(r), " of ", show(iv)));
        if (v % 4 == 0) {
          c.check(l.ub == r.lb, cat("halves ", show(l), " and ", show(r)));
        } else {
          c.check(r.lb == l.ub + 1 && std::floor(l.ub) == l.ub,
                  cat("halves ", show(l), " and ", show(r), " of the integers in ",
                      show(iv)));
        }
        c.check(!(l == iv) && !(r == iv), "a half is the whole");
        Model ml = m[x], mr = m[x];
        ml.iv[i] = l;
        mr.iv[i] = r;
        check(p.first, ml, pool, "left half", c);
        check(p.second, mr, pool, "right half", c);
        check(b[x], m[x], pool, "bisected box", c);
        m[x] = ml;
        b[x] = p.first;
        if (x != y) {
          b[y] = p.second;
          m[y] = mr;
        }
        split = true;
        break;
      }
      case 5: {  // union
        if (m[x].vars != m[y].vars || m[x].vars.empty()) break;
        c.add(cat("b", x, ".InplaceUnion(b", y, "); "));
        Box& r = b[x].InplaceUnion(b[y]);
        c.check(&r == &b[x], "InplaceUnion returns another box");
        if (m[x].empty()) {
          m[x] = m[y];
        } else if (!m[y].empty()) {
          for (size_t i = 0; i < m[x].iv.size(); ++i)
            m[x].iv[i] = {std::min(m[x].iv[i].lb, m[y].iv[i].lb),
                          std::max(m[x].iv[i].ub, m[y].iv[i].ub)};
        }
        split = true;
        break;
      }
      case 6: {  // move
        c.add(cat("b", x, " = move(b", y, "); "));
        if (x == y) break;
        b[x] = std::move(b[y]);
        m[x] = m[y];
        b[y] = Box{};
        m[y] = Model{};
        break;
      }
      case 7: {
        if (m[x].vars.empty()) break;
        c.add(cat("b", x, ".set_empty(); "));
        b[x].set_empty();
        for (Iv& i : m[x].iv) i = {1, 0};
        break;
      }
      case 8: {  // from a list of variables
        std::vector<Variable> vs;
        Model n;
        for (int v = 0; v < 8; ++v)
          if (s.chance(1, 3)) {
            vs.push_back(pool[v]);
            n.vars.push_back(v);
            n.iv.push_back(initial(v));
          }
        if (vs.empty()) break;
        c.add(cat("b", x, " = Box{", show(n), "}; "));
        b[x] = Box{vs};
        m[x] = n;
        break;
      }
      default: {  // a constant view
        const Box& k = b[x];
        for (size_t i = 0; i < m[x].vars.size() && !m[x].empty(); ++i)
          c.check(get(k[pool[m[x].vars[i]]]) == m[x].iv[i], "constant access");
      }
    }
    for (size_t i = 0; i < 3; ++i) check(b[i], m[i], pool, cat("b", i), c);
    for (size_t i = 0; i < 3; ++i)
      for (size_t j = 0; j < 3; ++j) {
        const bool eq = m[i].vars == m[j].vars &&
                        ((m[i].empty() && m[j].empty()) ||
                         (!m[i].empty() && !m[j].empty() && m[i].iv == m[j].iv));
        if (m[i].vars.empty() && m[j].vars.empty()) continue;
        c.check((b[i] == b[j]) == eq, "operator==");
        c.check((b[i] != b[j]) == !eq, "operator!=");
      }
  }
  if (steps >= 8 && copied && split) c.nontrivial(c.desc_);
}

// ---- bound filtering
namespace {
// The points of interest around a bound.
void around(double v, std::vector<double>* out) {
  if (!std::isfinite(v)) return;
  for (double d : {v, std::nextafter(v, kInf), std::nextafter(v, -kInf), v + 0.5,
                   v - 0.5, v + 1, v - 1, std::floor(v), std::ceil(v), v * 2,
                   v / 2, -v})
    out->push_back(d);
}
bool holds(ast::FOp op, double x, double lo, double hi) {
  // A constant given as an interval stands for some number in it.
  switch (op) {
    case ast::FOp::Eq: return lo <= x && x <= hi;
    case ast::FOp::Ne: return !(lo == hi && x == lo);
    case ast::FOp::Gt: return x > lo;
    case ast::FOp::Ge: return x >= lo;
    case ast::FOp::Lt: return x < hi;
    case ast::FOp::Le: return x <= hi;
    default: return false;
  }
}
ast::FOp negate(ast::FOp op) {
  using ast::FOp;
  switch (op) {
    case FOp::Eq: return FOp::Ne;
    case FOp::Ne: return FOp::Eq;
    case FOp::Gt: return FOp::Le;
    case FOp::Ge: return FOp::Lt;
    case FOp::Lt: return FOp::Ge;
    default: return FOp::Gt;
  }
}
ast::FOp mirror(ast::FOp op) {
  using ast::FOp;
  switch (op) {
    case FOp::Gt: return FOp::Lt;
    case FOp::Ge: return FOp::Le;
    case FOp::Lt: return FOp::Gt;
    case FOp::Le: return FOp::Ge;
    default: return op;
  }
}
Formula relation(ast::FOp op, const Expression& a, const Expression& b) {
  using ast::FOp;
  switch (op) {
    case FOp::Eq: return a == b;
    case FOp::Ne: return a != b;
    case FOp::Gt: return a > b;
    case FOp::Ge: return a >= b;
    case FOp::Lt: return a < b;
    default: return a <= b;
  }
}
}  // namespace

PBT_TARGET("C25", filter_bounds, 40000,
           "sequence of 1 to 4 bound assertions (all relations, both operand "
           "orders, negated or not, constants and interval constants) applied "
           "to a box of real, integer and binary variables; candidate points "
           "around all bounds decide which points of the box satisfy the "
           "assertion; non-trivial: the box changed and is not empty") {
  using dreal::FilterAssertionResult;
  const Variable vars[3] = {Variable{"x", Variable::Type::CONTINUOUS},
                            Variable{"i", Variable::Type::INTEGER},
                            Variable{"b", Variable::Type::BINARY}};
  Box box;
  for (int k = 0; k < 3; ++k) {
    const Iv i = interval(s, k);
    if (k == 0 && s.chance(1, 4)) {
      box.Add(vars[k]);
    } else {
      box.Add(vars[k], i.lb, i.ub);
    }
  }
  std::vector<double> cand[3];
  const int steps = s.range(1, 4);
  bool nt = false;
  std::vector<double> all = {-2147483647.0, 2147483647.0, 0, 1, -1, 1e9, -1e9, 1e301};
  for (int step = 0; step < steps && !box.empty(); ++step) {
    const int k = static_cast<int>(s.draw(3));
    const ast::FOp ops[] = {ast::FOp::Le, ast::FOp::Ge, ast::FOp::Lt,
                            ast::FOp::Gt, ast::FOp::Eq, ast::FOp::Ne};
    const ast::FOp op = ops[s.draw(6)];
    double lo = s.chance(1, 8) ? 0 : bound(s);
    if (s.chance(1, 8)) lo = std::ldexp(s.chance(1, 2) ? 1.0 : -1.0, -s.range(1000, 1070));
    double hi = lo;
    Expression e{lo};
    if (s.chance(1, 4)) {
      hi = std::nextafter(lo, kInf);
      e = dreal::real_constant(lo, hi, s.chance(1, 2));
    }
    const Expression x{vars[k]};
    const bool swap = s.chance(1, 2), neg = s.chance(1, 3);
    Formula f = swap ? relation(mirror(op), e, x) : relation(op, x, e);
    const ast::FOp sem = neg ? negate(op) : op;
    if (neg) f = !f;
    const Box before{box};
    c.add(cat(f, " on ", vars[k], " in ", show(get(box[vars[k]])), "; "));
    const FilterAssertionResult r = FilterAssertion(f, &box);
    // Other dimensions are untouched.
    for (int j = 0; j < 3; ++j)
      if (j != k && !box.empty())
        c.check(box[vars[j]] == before[vars[j]], "another variable changed");
    c.check(box.size() == before.size(), "the box lost a variable");
    const Iv a = get(before[vars[k]]);
    const Iv b = box.empty() ? Iv{1, 0} : get(box[vars[k]]);
    if (!b.empty())
      c.check(a.lb <= b.lb && b.ub <= a.ub,
              cat("the bounds grow from ", show(a), " to ", show(b)));
    if (r == FilterAssertionResult::FilteredWithoutChange)
      c.check(b == a, "the box changed");
    std::vector<double> pts = all;
    around(lo, &pts);
    around(hi, &pts);
    around(a.lb, &pts);
    around(a.ub, &pts);
    around(b.lb, &pts);
    around(b.ub, &pts);
    for (double p : pts) {
      if (!(a.lb <= p && p <= a.ub)) continue;
      if (k > 0 && std::floor(p) != p) continue;
      const bool in = !b.empty() && b.lb <= p && p <= b.ub;
      if (!in)
        c.check(!holds(sem, p, lo, hi),
                cat("the filtered bounds ", show(b), " lose ", p));
      if (in && r != FilterAssertionResult::NotFiltered)
        c.check(holds(sem, p, lo, hi),
                cat("absorbed, but ", p, " in ", show(b), " violates it"));
    }
    if (k > 0 && !b.empty() && r != FilterAssertionResult::NotFiltered)
      c.check(std::floor(b.ub) >= std::ceil(b.lb),
              cat("absorbed, but ", show(b), " contains no integer"));
    if (!(a == b) && !b.empty()) nt = true;
  }
  if (nt) c.nontrivial(c.desc_);
}

// ---- literals
PBT_TARGET("C33", literals, 100000,
           "random decimal literal (sign, leading zeros, fraction, exponent, "
           "digits that put it on, next to or between doubles, or in the "
           "subnormal and overflow ranges) converted to an interval, compared "
           "with its exact rational value; non-trivial: not representable or "
           "more than 17 digits") {
  std::string t;
  if (s.chance(1, 3)) t += '-';
  const int style = s.weighted({6, 3, 3, 2});
  std::string digits;
  int exp10 = 0;
  bool has_exp = false;
  if (style == 2) {
    // the exact decimal expansion of a double (or of a midpoint), cut
    const double d = std::ldexp(1.0 + static_cast<double>(s.draw(1u << 26)) / (1u << 26),
                                s.range(-40, 60));
    mpf_class f(d, 400);
    if (s.chance(1, 2)) f += mpf_class(std::nextafter(d, kInf) - d, 400) / 2;
    mp_exp_t e;
    digits = f.get_str(e, 10, 0);
    if (static_cast<int>(e) <= 0) digits = std::string(1 - e, '0') + digits, e = 1;
    while (static_cast<int>(digits.size()) < e) digits += '0';
    t += digits.substr(0, e);
    if (static_cast<int>(digits.size()) > e) {
      t += '.';
      t += digits.substr(e);
      if (s.chance(1, 4)) t += static_cast<char>('0' + s.draw(10));
    }
  } else {
    const int n = style == 1 ? s.range(18, 40) : s.range(1, 17);
    if (s.chance(1, 5)) t += std::string(s.range(1, 3), '0');
    for (int i = 0; i < n; ++i) t += static_cast<char>('0' + s.draw(10));
    if (s.chance(2, 3)) {
      t += '.';
      const int m = s.range(1, style == 1 ? 40 : 17);
      for (int i = 0; i < m; ++i) t += static_cast<char>('0' + s.draw(10));
    }
    if (s.chance(1, 3)) {
      has_exp = true;
      exp10 = style == 3 ? s.range(-330, 300) : s.range(-30, 30);
      t += s.chance(1, 2) ? 'e' : 'E';
      if (exp10 >= 0 && s.chance(1, 2)) t += '+';
      t += std::to_string(exp10);
    }
  }
  c.describe(t);
  // exact value
  std::string mant = t.substr(0, t.find_first_of("eE"));
  const bool neg = mant[0] == '-';
  if (neg) mant = mant.substr(1);
  const size_t dot = mant.find('.');
  int scale = has_exp ? exp10 : 0;
  std::string all = mant;
  if (dot != std::string::npos) {
    scale -= static_cast<int>(mant.size() - dot - 1);
    all = mant.substr(0, dot) + mant.substr(dot + 1);
  }
  mpz_class num(all, 10), den = 1, ten;
  mpz_ui_pow_ui(ten.get_mpz_t(), 10, std::abs(scale));
  if (scale >= 0) {
    num *= ten;
  } else {
    den = ten;
  }
  if (neg) num = -num;
  mpq_class q(num, den);
  q.canonicalize();
  if (abs(q) > mpq_class(1e308)) c.discard();
  if (q != 0 && abs(q) < mpq_class(1e-300)) {
    // stod reports underflow; the caller sees an exception, not a wrong number
    c.label("tiny");
    try {
      const Box::Interval i = dreal::StringToInterval(t);
      c.check(!i.is_empty() && mpq_class(i.lb()) <= q && q <= mpq_class(i.ub()),
              cat("[", i.lb(), ", ", i.ub(), "] does not contain ", t));
    } catch (const std::out_of_range&) {
    }
    return;
  }
  const int mode = std::fegetround();
  const Box::Interval i = dreal::StringToInterval(t);
  c.check(std::fegetround() == mode, "the rounding mode changed");
  c.check(!i.is_empty() && mpq_class(i.lb()) <= q && q <= mpq_class(i.ub()),
          cat("[", i.lb(), ", ", i.ub(), "] does not contain ", t));
  c.check(i.ub() <= std::nextafter(i.lb(), kInf),
          cat("[", i.lb(), ", ", i.ub(), "] is wider than one double"));
  if (i.lb() != i.ub() || t.size() > 18) c.nontrivial(t);
}

