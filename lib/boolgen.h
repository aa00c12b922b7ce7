// Generator of formulas over exact arithmetic atoms, Boolean variables and
// quantifiers, for the checks of the Boolean transformations.
#pragma once
#include "ast.h"

namespace boolgen {
using ast::F;
using ast::FOp;
using ast::N;
using ast::Op;

// ids 0..1 free reals, 2..3 reals that may also be quantified, 4..7 Boolean,
// 8 a Boolean that may also be quantified.
constexpr int kReal = 4, kBool = 5, kVars = kReal + kBool;

inline const std::vector<double>& domain() {
  static const std::vector<double> d = {-1, 0, 0.5, 2};
  return d;
}
inline std::vector<double> point(pbt::Src& s) {
  std::vector<double> p;
  for (int i = 0; i < kReal; ++i)
    p.push_back(s.chance(1, 5) ? ast::gen_value(s) : s.pick(domain()));
  for (int i = 0; i < kBool; ++i) p.push_back(static_cast<double>(s.draw(2)));
  return p;
}

struct Gen {
  pbt::Src& s;
  bool prop = false;      // only Boolean variables as atoms
  bool foralls = true;
  bool ite = false;
  int max_forall = 2;
  std::vector<F> atoms;
  int foralls_used = 0;
  int size = 0;

  explicit Gen(pbt::Src& src) : s(src) {}

  N term(int depth) {
    static const std::vector<double> cs = {0, 1, -1, 2, 0.5, -2, 3};
    const int k = depth <= 0 ? s.weighted({5, 2})
                             : s.weighted({5, 2, 3, 2, 2, 1, 1, ite ? 16 : 0});
    const int style = static_cast<int>(s.draw(6));
    switch (k) {
      case 0: return ast::var(static_cast<int>(s.draw(kReal)));
      case 1: {
        const double d = s.pick(cs);
        return ast::cst(d, s.chance(1, 12) ? s.range(1, 2) : 0);
      }
      case 7: {
        const F c = ite_cond(depth - 1);
        const N a = term(depth - 1);
        const N b = term(depth - 1);
        return ast::mk(Op::Ite, {a, b}, c);
      }
      default: break;
    }
    const N a = term(depth - 1);
    if (k == 5) return ast::mk(Op::Abs, {a});
    if (k == 6) return ast::mk(Op::Pow, {a, ast::cst(2)});
    const N b = term(depth - 1);
    return ast::mk(k == 2 ? Op::Add : k == 3 ? Op::Sub : Op::Mul, {a, b},
                   nullptr, style);
  }
  F ite_cond(int depth) {
    switch (s.weighted({5, 3, 1, 1, 1})) {
      case 1: return ast::bvar(kReal + static_cast<int>(s.draw(kBool)));
      case 2: {
        const F a = relation(depth);
        return ast::conn(FOp::And, {a, ast::bvar(kReal)});
      }
      case 3: {
        const F a = relation(depth);
        return ast::conn(FOp::Or, {a, ast::conn(FOp::Not, {ast::bvar(kReal)})});
      }
      case 4: return ast::conn(FOp::Not, {relation(depth)});
      default: return relation(depth);
    }
  }
  F relation(int depth) {
    static const std::vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                          FOp::Ne, FOp::Ge, FOp::Lt};
    const FOp op = s.pick(rels);
    const N a = term(depth);
    const N b = s.chance(2, 3) ? term(0) : term(depth);
    return ast::rel(op, a, b);
  }
  F atom() {
    if (!atoms.empty() && s.chance(2, 5)) {
      const F a = atoms[s.draw(atoms.size())];
      if (ast::is_rel(a->op) && s.chance(1, 3)) {
        // The same sides under another relation.
        static const std::vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                              FOp::Ne, FOp::Ge, FOp::Lt};
        return ast::rel(s.pick(rels), a->e[0], a->e[1]);
      }
      return a;
    }
    F r;
    const int k = s.weighted({prop ? 0 : (ite ? 12 : 5), 4, 1});
    if (k == 2)
      return s.chance(1, 2) ? ast::ftrue() : ast::ffalse();
    if (k == 1)
      r = ast::bvar(kReal + static_cast<int>(s.draw(kBool)));
    else
      r = relation(ite ? 2 : 1);
    atoms.push_back(r);
    return r;
  }
  F formula(int depth) {
    const int k =
        depth <= 0 ? 0
                   : s.weighted({2, 5, 5, 3, 1, 1,
                                 foralls && foralls_used < max_forall ? 3 : 0});
    const int style = static_cast<int>(s.draw(6));
    switch (k) {
      case 0: return atom();
      case 1:
      case 2: {
        std::vector<F> fs;
        const int n = s.range(2, 4);
        for (int i = 0; i < n; ++i) {
          if (i > 0 && s.chance(1, 8)) {
            F prev = fs[s.draw(fs.size())];
            if (s.chance(1, 2)) prev = ast::conn(FOp::Not, {prev});
            fs.push_back(prev);
          } else {
            fs.push_back(formula(depth - 1));
          }
        }
        return ast::conn(k == 1 ? FOp::And : FOp::Or, fs, style);
      }
      case 3: return ast::conn(FOp::Not, {formula(depth - 1)}, style);
      case 4:
      case 5: {
        const F a = formula(depth - 1);
        const F b = formula(depth - 1);
        return ast::conn(k == 4 ? FOp::Imply : FOp::Iff, {a, b}, style);
      }
      default: {
        ++foralls_used;
        std::vector<int> q;
        for (int v : {2, 3, 8})
          if (s.chance(1, 2)) q.push_back(v);
        if (q.empty()) q.push_back(2);
        return ast::forall_(q, formula(depth - 1));
      }
    }
  }
};

inline int count_conn(const F& f) {
  int n = f->op >= FOp::And ? 1 : 0;
  for (const F& g : f->f) n += count_conn(g);
  return n;
}
inline int count_forall(const F& f) {
  int n = f->op == FOp::Forall ? 1 : 0;
  for (const F& g : f->f) n += count_forall(g);
  return n;
}
// Upper bound on the number of clauses after distribution (also inside
// quantifiers).
inline double clauses(const F& f, bool pol) {
  switch (f->op) {
    case FOp::Eq: return pol ? 2 : 1;
    case FOp::Ne: return pol ? 1 : 2;
    case FOp::Not: return clauses(f->f[0], !pol);
    case FOp::And:
    case FOp::Or: {
      const bool sum = (f->op == FOp::And) == pol;
      double r = sum ? 0 : 1;
      for (const F& g : f->f) {
        const double k = clauses(g, pol);
        r = sum ? r + k : r * k;
      }
      return r;
    }
    case FOp::Imply: {
      const double a = clauses(f->f[0], !pol), b = clauses(f->f[1], pol);
      return pol ? a * b : a + b;
    }
    case FOp::Iff: {
      const double a = clauses(f->f[0], true), na = clauses(f->f[0], false);
      const double b = clauses(f->f[1], true), nb = clauses(f->f[1], false);
      // (!a|b)&(!b|a), or its negation (a&!b)|(b&!a).
      return pol ? na * b + nb * a : (a + nb) * (b + na);
    }
    case FOp::Forall: return std::max(clauses(f->f[0], true), 1.0);
    default: return 1;
  }
}
inline double worst_clauses(const F& f) {
  double r = std::max(clauses(f, true), clauses(f, false));
  for (const F& g : f->f) r = std::max(r, worst_clauses(g));
  return r;
}
}  // namespace boolgen
