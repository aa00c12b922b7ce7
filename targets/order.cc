// Coherence of EqualTo, Less and hash.
#include <algorithm>
#include "ast.h"

using namespace dreal;  // NOLINT
using namespace ast;  // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
template <typename T>
bool lt(const T& a, const T& b) {
  return std::less<T>{}(a, b);
}
bool eq(const Expression& a, const Expression& b) { return a.EqualTo(b); }
bool eq(const Formula& a, const Formula& b) { return a.EqualTo(b); }
bool less_of(const Expression& a, const Expression& b) { return a.Less(b); }
bool less_of(const Formula& a, const Formula& b) { return a.Less(b); }
size_t hash_of(const Expression& a) { return a.get_hash(); }
size_t hash_of(const Formula& a) { return a.get_hash(); }

template <typename T>
void laws(const std::vector<T>& xs, Ctx& c) {
  const size_t n = xs.size();
  std::vector<std::vector<bool>> E(n, std::vector<bool>(n)), L = E;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      E[i][j] = eq(xs[i], xs[j]);
      L[i][j] = less_of(xs[i], xs[j]);
      c.check(L[i][j] == lt(xs[i], xs[j]),
              cat("std::less disagrees with Less on ", xs[i], " , ", xs[j]));
      c.check(E[i][j] == std::equal_to<T>{}(xs[i], xs[j]),
              cat("std::equal_to disagrees with EqualTo on ", xs[i], " , ", xs[j]));
    }
  for (size_t i = 0; i < n; ++i) {
    c.check(E[i][i], cat("not equal to itself: ", xs[i]));
    c.check(!L[i][i], cat("less than itself: ", xs[i]));
    for (size_t j = 0; j < n; ++j) {
      c.check(E[i][j] == E[j][i],
              cat("EqualTo is not symmetric: ", xs[i], " , ", xs[j]));
      c.check(!(L[i][j] && L[j][i]),
              cat("Less is not antisymmetric: ", xs[i], " , ", xs[j]));
      c.check(E[i][j] == (!L[i][j] && !L[j][i]),
              cat("ties of Less are not the equal objects: ", xs[i], " , ",
                  xs[j], " EqualTo=", E[i][j], " Less=", L[i][j], "/", L[j][i]));
      if (E[i][j])
        c.check(hash_of(xs[i]) == hash_of(xs[j]),
                cat("equal objects with different hashes: ", xs[i], " , ",
                    xs[j]));
      for (size_t k = 0; k < n; ++k) {
        c.check(!(L[i][j] && L[j][k] && !L[i][k]),
                cat("Less is not transitive: ", xs[i], " , ", xs[j], " , ",
                    xs[k]));
        c.check(!(E[i][j] && E[j][k] && !E[i][k]),
                cat("EqualTo is not transitive: ", xs[i], " , ", xs[j], " , ",
                    xs[k]));
      }
    }
  }
}

// A small change of a term.
N mutate(Src& s, const N& n, const GenOpt& o) {
  if (n->a.empty() || s.chance(1, 3)) {
    switch (s.draw(5)) {
      case 0: return n;
      case 1: return mk(Op::Add, {n, cst(gen_const(s))});
      case 2: return mk(Op::Mul, {n, cst(gen_const(s))});
      case 3: return var(static_cast<int>(s.draw(o.nvars)));
      default: return mk(Op::Pow, {n, cst(2 + static_cast<int>(s.draw(2)))});
    }
  }
  std::vector<N> a = n->a;
  const size_t i = s.draw(a.size());
  a[i] = mutate(s, a[i], o);
  return mk(n->op, a, n->cond, n->style);
}
F mutate_f(Src& s, const F& f, const GenOpt& o) {
  if (is_rel(f->op)) {
    if (s.chance(1, 2)) {
      static const std::vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                            FOp::Ne, FOp::Ge, FOp::Lt};
      return rel(s.pick(rels), f->e[0], f->e[1]);
    }
    return rel(f->op, f->e[0], mutate(s, f->e[1], o));
  }
  if (f->f.empty() || s.chance(1, 3)) return conn(FOp::Not, {f});
  std::vector<F> a = f->f;
  const size_t i = s.draw(a.size());
  a[i] = mutate_f(s, a[i], o);
  if (f->op == FOp::Forall) return forall_(f->qv, a[0]);
  return conn(f->op, a, f->style);
}
}  // namespace

PBT_TARGET("C02", expr_order, 150000,
           "pool of 3-7 related expressions (random terms, mutations of each "
           "other, real constants, uninterpreted functions, NaN, rebuilt "
           "copies); all pairs and triples are checked for the laws of "
           "equality, order and hash; non-trivial: at least one pair of the "
           "same kind that is not equal and one pair of distinct cells") {
  GenOpt o;
  o.nvars = 3;
  o.max_terms = 4;
  const Vars vs = s.chance(1, 8) ? make_twins(o.nvars, 0) : make_vars(o.nvars);
  std::vector<N> ns;
  std::vector<Expression> xs;
  const int n = s.range(3, 7);
  std::string log;
  for (int i = 0; i < n; ++i) {
    const int k = s.weighted({4, 8, 2, 1, 1});
    try {
      if (k == 2) {
        static const std::vector<double> b = {0, 1, 1.5, 2, -1, 0.5};
        const double inf = std::numeric_limits<double>::infinity();
        double lb = s.pick(b);
        if (s.chance(1, 2)) lb = std::nextafter(lb, -inf);
        // A real constant stands for a number between neighbouring doubles.
        const double ub = std::nextafter(lb, inf);
        xs.push_back(real_constant(lb, ub, s.chance(1, 2)));
        log += cat("real_constant(", lb, ",", ub, "); ");
        continue;
      }
      if (k == 3) {
        static const std::vector<std::string> names = {"f", "g", "fg"};
        Variables vars;
        const int m = static_cast<int>(s.draw(3));
        for (int q = 0; q < m; ++q) vars.insert(vs.v[s.draw(o.nvars)]);
        const std::string name = s.pick(names);
        xs.push_back(uninterpreted_function(name, vars));
        log += cat("uf ", name, "; ");
        continue;
      }
      if (k == 4) {
        xs.push_back(Expression::NaN());
        log += "NaN; ";
        continue;
      }
      N t = (k == 0 || ns.empty()) ? gen_expr(s, o)
                                   : mutate(s, ns[s.draw(ns.size())], o);
      xs.push_back(build(t, vs));
      ns.push_back(t);
      log += cat(show(t), "; ");
    } catch (const std::exception&) {
      // rejected constant
    }
  }
  c.describe(log);
  if (xs.size() < 2) c.discard();
  laws(xs, c);
  // Order-dependent containers built from permutations agree.
  std::set<Expression> s1(xs.begin(), xs.end());
  std::vector<Expression> rev(xs.rbegin(), xs.rend());
  std::set<Expression> s2(rev.begin(), rev.end());
  c.check(s1.size() == s2.size(), "std::set depends on insertion order");
  bool same_kind = false;
  for (size_t i = 0; i < xs.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      if (eq(xs[i], xs[j])) {
        c.label("equal pair");
      } else if (xs[i].get_kind() == xs[j].get_kind()) {
        same_kind = true;
        c.label("unequal pair of the same kind");
      }
    }
  if (same_kind) c.nontrivial(log);
}

PBT_TARGET("C02", formula_order, 120000,
           "pool of 3-6 related formulas including quantified ones; laws as "
           "for expressions; non-trivial: an unequal pair of the same kind") {
  GenOpt o;
  o.nvars = 2;
  o.max_terms = 2;
  o.bool_vars = {2, 3};
  const Vars vs = s.chance(1, 8) ? make_twins(2, 2) : make_vars2(2, 2);
  std::vector<F> fs;
  std::vector<Formula> xs;
  const int n = s.range(3, 6);
  std::string log;
  for (int i = 0; i < n; ++i) {
    F f = (fs.empty() || s.chance(1, 3)) ? gen_formula(s, o, 2)
                                         : mutate_f(s, fs[s.draw(fs.size())], o);
    if (s.chance(1, 5)) {
      std::vector<int> q = {static_cast<int>(s.draw(2))};
      if (s.chance(1, 2)) q = {0, 1};
      f = forall_(q, f);
    }
    if (f->size > 80) continue;
    try {
      xs.push_back(build(f, vs));
      fs.push_back(f);
      log += cat(show(f), "; ");
    } catch (const std::exception&) {
    }
  }
  c.describe(log);
  if (xs.size() < 2) c.discard();
  laws(xs, c);
  bool nt = false;
  for (size_t i = 0; i < xs.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (!eq(xs[i], xs[j]) && xs[i].get_kind() == xs[j].get_kind()) nt = true;
  if (nt) c.nontrivial(log);
}

PBT_TARGET("C02", permuted, 120000,
           "2-6 parts combined by +, *, && or || in two different orders and "
           "association must be structurally equal with equal hash and string; "
           "also min/max ITE cells with equal parts; non-trivial: the order "
           "differs and there are at least 3 parts") {
  const int kind = static_cast<int>(s.draw(4));
  const Vars vs = s.chance(1, 8) ? make_twins(4, 3) : make_vars2(4, 3);
  const int n = s.range(2, 6);
  GenOpt o;
  o.nvars = 4;
  o.max_terms = 2;
  o.bool_vars = {4, 5, 6};
  o.inexact_consts = false;
  o.real_consts = s.chance(1, 3);
  o.division = false;
  std::string log = cat("kind ", kind, ": ");
  std::vector<size_t> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[s.draw(i + 1)]);
  const bool differs = !std::is_sorted(perm.begin(), perm.end());
  if (kind < 2) {
    // Terms k * x^p, sin(x) ...: exact small coefficients.
    std::vector<Expression> parts;
    std::vector<int> used;
    for (int i = 0; i < n; ++i) {
      const Expression x{vs.v[s.draw(4)]};
      Expression t;
      switch (s.draw(5)) {
        case 0: t = x; break;
        case 1: t = sin(x); break;
        case 2: t = pow(x, 2 + static_cast<double>(s.draw(3))); break;
        case 3: t = Expression{static_cast<double>(1 + s.draw(4))}; break;
        default: t = kind == 0 ? x * Expression{vs.v[s.draw(4)]}
                               : x + Expression{vs.v[s.draw(4)]}; break;
      }
      if (kind == 0) t = t * static_cast<double>(1 + s.draw(3));
      parts.push_back(t);
      log += cat(t, "; ");
    }
    Expression a = parts[0], b = parts[perm[0]];
    for (int i = 1; i < n; ++i) {
      a = kind == 0 ? a + parts[i] : a * parts[i];
      b = kind == 0 ? b + parts[perm[i]] : b * parts[perm[i]];
    }
    // Balanced association.
    std::function<Expression(int, int)> bal = [&](int lo, int hi) -> Expression {
      if (hi - lo == 1) return parts[perm[lo]];
      const int mid = (lo + hi) / 2;
      const Expression l = bal(lo, mid);
      const Expression r = bal(mid, hi);
      return kind == 0 ? l + r : l * r;
    };
    const Expression d = bal(0, n);
    c.describe(log);
    c.check(a.EqualTo(b), cat(a, " differs from ", b));
    c.check(a.get_hash() == b.get_hash(), "hash");
    c.check(a.EqualTo(d), cat(a, " differs from ", d, " (association)"));
    c.check(a.to_string() == b.to_string(), "string");
  } else {
    std::vector<Formula> parts;
    for (int i = 0; i < n; ++i) {
      const F f = gen_formula(s, o, 1);
      try {
        parts.push_back(build(f, vs));
      } catch (const std::exception&) {
        parts.push_back(Formula{vs.v[4]});
      }
      log += cat(parts.back(), "; ");
    }
    Formula a = parts[0], b = parts[perm[0]];
    for (int i = 1; i < n; ++i) {
      a = kind == 2 ? a && parts[i] : a || parts[i];
      b = kind == 2 ? b && parts[perm[i]] : b || parts[perm[i]];
    }
    const std::set<Formula> st(parts.begin(), parts.end());
    const Formula d = kind == 2 ? make_conjunction(st) : make_disjunction(st);
    c.describe(log);
    c.check(a.EqualTo(b), cat(a, " differs from ", b));
    c.check(a.get_hash() == b.get_hash(), "hash");
    c.check(a.EqualTo(d), cat(a, " differs from ", d, " (set)"));
  }
  if (differs && n >= 3) c.nontrivial(log + cat(perm[0], perm[1], perm[2]));
}

PBT_TARGET("C02", variables_order, 60000,
           "pool of variables and of sets of variables: identity, order, hash "
           "and lexicographic order of sets; non-trivial: at least 2 distinct "
           "sets of the same size") {
  const int n = s.range(2, 6);
  std::vector<Variable> vs;
  for (int i = 0; i < n; ++i) {
    if (i > 0 && s.chance(1, 4)) {
      vs.push_back(vs[s.draw(vs.size())]);  // a copy
    } else {
      vs.push_back(Variable{s.chance(1, 2) ? "a" : "b"});
    }
  }
  std::string log;
  for (const auto& a : vs) log += cat(a, "#", a.get_id(), " ");
  for (const auto& a : vs)
    for (const auto& b : vs) {
      const bool same = a.get_id() == b.get_id();
      c.check(a.equal_to(b) == same, "equal_to is not identity");
      c.check(a.less(b) == std::less<Variable>{}(a, b), "std::less");
      c.check(std::equal_to<Variable>{}(a, b) == same, "std::equal_to");
      c.check(same == (!a.less(b) && !b.less(a)), "ties of less");
      if (same) c.check(a.get_hash() == b.get_hash(), "hash of copies");
      for (const auto& d : vs)
        c.check(!(a.less(b) && b.less(d) && !a.less(d)), "transitivity");
    }
  std::vector<Variables> sets;
  const int m = s.range(2, 5);
  for (int i = 0; i < m; ++i) {
    Variables q;
    const int k = static_cast<int>(s.draw(4));
    for (int j = 0; j < k; ++j) q.insert(vs[s.draw(vs.size())]);
    sets.push_back(q);
    log += cat(q, " ");
  }
  c.describe(log);
  bool nt = false;
  auto same = [](const Variables& a, const Variables& b) {
    std::set<size_t> x, y;
    for (const auto& v : a) x.insert(v.get_id());
    for (const auto& v : b) y.insert(v.get_id());
    return x == y;
  };
  for (const auto& a : sets)
    for (const auto& b : sets) {
      c.check((a == b) == same(a, b), cat("== of sets ", a, b));
      c.check(same(a, b) == (!(a < b) && !(b < a)), cat("ties of < ", a, b));
      if (same(a, b)) c.check(a.get_hash() == b.get_hash(), "hash of sets");
      if (!same(a, b) && a.size() == b.size()) nt = true;
      for (const auto& d : sets)
        c.check(!((a < b) && (b < d) && !(a < d)), "transitivity of <");
    }
  if (nt) c.nontrivial(log);
}
