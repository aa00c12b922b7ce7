// Negation normal form, CNF conversions, predicate abstraction and the
// structural classification of formulas and expressions.
#include <map>

#include "boolgen.h"
#include "dreal/util/naive_cnfizer.h"
#include "dreal/util/nnfizer.h"
#include "dreal/util/predicate_abstractor.h"
#include "dreal/util/tseitin_cnfizer.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using boolgen::Gen;
using boolgen::kBool;
using boolgen::kReal;
using boolgen::kVars;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
struct Case {
  F f;
  bool prop{false};
  Formula g{Formula::True()};
  std::vector<std::vector<double>> pts;
};

std::vector<std::vector<double>> points(Src& s, bool prop, int n) {
  std::vector<std::vector<double>> pts;
  if (prop) {
    for (int m = 0; m < (1 << kBool); ++m) {
      std::vector<double> p(kVars, 0);
      for (int i = 0; i < kBool; ++i) p[kReal + i] = (m >> i) & 1;
      pts.push_back(p);
    }
  } else {
    for (int i = 0; i < n; ++i) pts.push_back(boolgen::point(s));
  }
  return pts;
}

// Different variables may have the same name.
const Vars& pick_vars(Src& s) {
  static const Vars named = make_vars2(kReal, kBool);
  static const Vars twins = make_twins(kReal, kBool);
  return s.chance(1, 6) ? twins : named;
}

Case gen_case(Src& s, Ctx& c, const Vars& vs, int max_depth) {
  Case r;
  Gen g{s};
  r.prop = s.chance(1, 4);
  g.prop = r.prop;
  g.foralls = s.chance(1, 2);
  r.f = g.formula(s.range(1, max_depth));
  r.pts = points(s, r.prop, 5);
  c.describe(show(r.f));
  try {
    r.g = build(r.f, vs);
  } catch (const std::exception&) {
    c.discard();  // a constant outside of a domain; covered by C01
  }
  c.add(cat("  ~>  ", r.g));
  return r;
}

const std::set<int>& real_ids() {
  static const std::set<int> r = {0, 1, 2, 3};
  return r;
}
BResult truth(const F& f, const std::vector<double>& p) {
  return evaluate(f, p, boolgen::domain(), real_ids());
}

void equivalent(const F& f, const Formula& out, const Vars& vs,
                const std::vector<std::vector<double>>& pts, Ctx& c,
                bool* t, bool* fl) {
  const F back = reflect(out, vs);
  for (const auto& p : pts) {
    const BResult r = truth(f, p);
    if (!r.reliable) continue;
    (r.value ? *t : *fl) = true;
    const BResult q = truth(back, p);
    if (!q.defined || !q.reliable) continue;
    c.check(q.value == r.value, cat("the formula is ", r.value, " at ", show(p),
                                    " but its conversion ", out, " is ", q.value));
  }
}

bool nnf_shape(const Formula& f, bool pushed, std::string* why) {
  if (is_conjunction(f) || is_disjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!nnf_shape(g, pushed, why)) return false;
    return true;
  }
  if (is_negation(f)) {
    const Formula& g = get_operand(f);
    if (is_variable(g) || is_forall(g)) return true;
    if (is_relational(g) && !pushed) return true;
    *why = cat("negation applied to ", g);
    return false;
  }
  return true;
}
bool my_atom(const Formula& f) {
  return is_true(f) || is_false(f) || is_variable(f) || is_relational(f) ||
         is_forall(f);
}
bool my_literal(const Formula& f) {
  return my_atom(f) || (is_negation(f) && my_atom(get_operand(f)));
}
bool my_clause(const Formula& f) {
  if (is_disjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!my_literal(g)) return false;
    return true;
  }
  return my_literal(f);
}
bool my_cnf(const Formula& f) {
  if (is_conjunction(f)) {
    for (const Formula& g : get_operands(f))
      if (!my_clause(g)) return false;
    return true;
  }
  return my_clause(f);
}
void atoms_of(const Formula& f, std::set<Formula>* out) {
  if (is_relational(f) || is_forall(f)) {
    out->insert(f);
  } else if (is_negation(f)) {
    atoms_of(get_operand(f), out);
  } else if (is_nary(f)) {
    for (const Formula& g : get_operands(f)) atoms_of(g, out);
  }
}
// Relational formulas over the same sides, one the negation of the other.
bool opposite(const Formula& a, const Formula& b) {
  if (!is_relational(a) || !is_relational(b)) return false;
  if (!get_lhs_expression(a).EqualTo(get_lhs_expression(b)) ||
      !get_rhs_expression(a).EqualTo(get_rhs_expression(b)))
    return false;
  return (is_equal_to(a) && is_not_equal_to(b)) ||
         (is_not_equal_to(a) && is_equal_to(b)) ||
         (is_greater_than(a) && is_less_than_or_equal_to(b)) ||
         (is_less_than_or_equal_to(a) && is_greater_than(b)) ||
         (is_less_than(a) && is_greater_than_or_equal_to(b)) ||
         (is_greater_than_or_equal_to(a) && is_less_than(b));
}
// Bodies of quantifiers in positive positions of a CNF.
void check_bodies(const Formula& f, Ctx& c) {
  if (is_conjunction(f) || is_disjunction(f)) {
    for (const Formula& g : get_operands(f)) check_bodies(g, c);
  } else if (is_forall(f)) {
    const Formula& b = get_quantified_formula(f);
    c.check(my_cnf(b), cat("the quantified formula is not in CNF: ", b));
    check_bodies(b, c);
  }
}
}  // namespace

PBT_TARGET("C11", nnf, 300000,
           "random formula (connectives up to depth 4, exact arithmetic or "
           "purely Boolean atoms, quantifiers), converted with and without "
           "pushing negations; compared at 5 points (all 32 when purely "
           "Boolean), with finite domains for quantified variables; "
           "non-trivial: a negated connective, at least 3 connectives") {
  const Vars& vs = pick_vars(s);
  const Case k = gen_case(s, c, vs, 4);
  bool t = false, fl = false;
  bool negated = false;
  std::function<void(const F&)> look = [&](const F& f) {
    if (f->op == FOp::Not && f->f[0]->op >= FOp::And) negated = true;
    if (f->op == FOp::Imply || f->op == FOp::Iff) negated = true;
    for (const F& g : f->f) look(g);
  };
  look(k.f);
  for (const bool push : {false, true}) {
    const Formula out = push ? Nnfizer{}.Convert(k.g, true)
                             : (s.chance(1, 2) ? Nnfizer{}.Convert(k.g)
                                               : Nnfizer{}.Convert(k.g, false));
    std::string why;
    c.check(nnf_shape(out, push, &why),
            cat("Convert(push=", push, ") gives ", out, ": ", why));
    equivalent(k.f, out, vs, k.pts, c, &t, &fl);
    std::set<Formula> in, res;
    atoms_of(k.g, &in);
    atoms_of(out, &res);
    for (const Formula& a : res) {
      bool known = false;
      for (const Formula& b : in)
        known = known || a.EqualTo(b) || (push && opposite(a, b));
      c.check(known, cat("Convert(push=", push, ") gives ", out,
                         " with the new atom ", a));
    }
    const Formula again = Nnfizer{}.Convert(out, push);
    c.check(again.EqualTo(out),
            cat("converting again changes ", out, " to ", again));
  }
  if (t) c.label("true somewhere");
  if (fl) c.label("false somewhere");
  if (negated && boolgen::count_conn(k.f) >= 3) c.nontrivial(show(k.f));
}

PBT_TARGET("C12", naive_cnf, 200000,
           "random formula with at most 200 clauses after distribution; the "
           "conversion is compared at 5 points (all 32 when purely Boolean) "
           "and its shape is checked, also inside quantifiers; non-trivial: "
           "the conversion has at least 2 clauses and a clause of 2 literals") {
  const Vars& vs = pick_vars(s);
  const Case k = gen_case(s, c, vs, 3);
  if (boolgen::worst_clauses(k.f) > 200) c.discard();
  bool t = false, fl = false;
  const Formula out = NaiveCnfizer{}.Convert(k.g);
  c.check(my_cnf(out), cat("not in CNF: ", out));
  check_bodies(out, c);
  equivalent(k.f, out, vs, k.pts, c, &t, &fl);
  c.check(is_cnf(out), cat("is_cnf() is false for ", out));
  const std::set<Formula> cl = get_clauses(out);
  if (is_conjunction(out)) {
    const auto& ops = get_operands(out);
    c.check(cl.size() == ops.size(), cat("get_clauses() of ", out));
    for (const Formula& g : cl)
      c.check(ops.count(g) == 1 && is_clause(g), cat("get_clauses() of ", out, " has ", g));
  } else {
    c.check(cl.size() == 1 && cl.begin()->EqualTo(out), cat("get_clauses() of ", out));
  }
  bool wide = false;
  for (const Formula& g : cl) wide = wide || is_disjunction(g);
  if (t) c.label("true somewhere");
  if (fl) c.label("false somewhere");
  if (cl.size() >= 2 && wide) c.nontrivial(show(k.f));
}

namespace {
// Is the conjunction of clauses over the variables >= first satisfiable when
// all other atoms have their value at p?  Clauses are reflected formulas.
struct Dpll {
  std::vector<std::vector<int>> cl;  // +-(v+1)
  bool solve(std::map<int, bool> a) const {
    for (bool changed = true; changed;) {
      changed = false;
      for (const auto& c : cl) {
        int unit = 0, open = 0;
        bool sat = false;
        for (int l : c) {
          const auto it = a.find(std::abs(l));
          if (it == a.end()) {
            ++open;
            unit = l;
          } else if (it->second == (l > 0)) {
            sat = true;
          }
        }
        if (sat) continue;
        if (open == 0) return false;
        if (open == 1) {
          a[std::abs(unit)] = unit > 0;
          changed = true;
        }
      }
    }
    for (const auto& c : cl)
      for (int l : c)
        if (!a.count(std::abs(l))) {
          for (const bool b : {false, true}) {
            std::map<int, bool> a2 = a;
            a2[std::abs(l)] = b;
            if (solve(a2)) return true;
          }
          return false;
        }
    return true;
  }
};
// 1 satisfiable, 0 unsatisfiable, -1 an atom could not be evaluated.
int extendable(const std::vector<F>& clauses, const std::vector<double>& p,
               int first) {
  Dpll d;
  for (const F& c : clauses) {
    std::vector<F> lits;
    if (c->op == FOp::Or)
      lits = c->f;
    else
      lits = {c};
    std::vector<int> out;
    bool sat = false;
    for (const F& l : lits) {
      const bool neg = l->op == FOp::Not;
      const F& a = neg ? l->f[0] : l;
      if (a->op == FOp::BVar && a->v >= first) {
        out.push_back(neg ? -(a->v + 1) : a->v + 1);
        continue;
      }
      const BResult r = truth(a, p);
      if (!r.reliable) return -1;
      if (r.value != neg) sat = true;
    }
    if (!sat) d.cl.push_back(out);
  }
  return d.solve({}) ? 1 : 0;
}
// Appends the variables of `f` that `vs` lacks.
void extend(const Formula& f, Vars* vs) {
  for (const Variable& v : f.GetFreeVariables())
    if (vs->index(v) < 0) vs->v.push_back(v);
}
}  // namespace

PBT_TARGET("C13", tseitin, 300000,
           "1-3 random formulas given to one converter (quantified bodies with "
           "at most 60 clauses); for 5 points (all 32 when purely Boolean) the "
           "clauses must be satisfiable by values of the fresh variables "
           "exactly when the formula holds; non-trivial: at least two fresh "
           "variables") {
  const Vars& base = pick_vars(s);
  TseitinCnfizer conv;
  const int rounds = s.weighted({3, 1, 1}) + 1;
  std::string all;
  bool nt = false;
  for (int i = 0; i < rounds; ++i) {
    Vars vs = base;
    const Case k = gen_case(s, c, vs, 4);
    all += show(k.f) + " ; ";
    c.describe(cat(all, "  ~>  ", k.g));
    bool big = false;
    std::function<void(const F&)> look = [&](const F& f) {
      if (f->op == FOp::Forall && boolgen::worst_clauses(f) > 60) big = true;
      for (const F& g : f->f) look(g);
    };
    look(k.f);
    if (big) c.discard();
    const std::vector<Formula> out = conv.Convert(k.g);
    std::vector<F> cl;
    std::string txt;
    for (const Formula& g : out) txt += cat(g, " ; ");
    for (const Formula& g : out) {
      c.check(my_clause(g), cat("not a clause: ", g, " in ", txt));
      extend(g, &vs);
      cl.push_back(reflect(g, vs));
    }
    const int fresh = static_cast<int>(vs.v.size()) - kVars;
    for (int v = kVars; v < kVars + fresh; ++v) {
      c.check(vs.v[v].get_type() == Variable::Type::BOOLEAN,
              cat("fresh variable ", vs.v[v], " is not Boolean"));
      c.check(conv.map().count(vs.v[v]) == 1,
              cat("variable ", vs.v[v], " is not recorded in map()"));
    }
    for (const auto& m : conv.map())
      c.check(base.index(m.first) < 0,
              cat("variable ", m.first, " of the input reused as fresh"));
    for (const auto& p : k.pts) {
      const BResult r = truth(k.f, p);
      if (!r.reliable) continue;
      std::vector<double> pp = p;
      pp.resize(vs.v.size(), 0);
      const int e = extendable(cl, pp, kVars);
      if (e < 0) continue;
      c.label(r.value ? "point:true" : "point:false");
      c.check((e == 1) == r.value,
              cat("the formula is ", r.value, " at ", show(p), " but its clauses ",
                  txt, " are ", e ? "satisfiable" : "unsatisfiable"));
    }
    if (fresh >= 2) nt = true;
  }
  if (nt) c.nontrivial(all);
}

PBT_TARGET("C14", abstraction, 200000,
           "1-5 random formulas given to one abstractor (single and list "
           "interface); after each, the result must be purely Boolean, agree "
           "with the formula at 5 points when fresh variables take the value "
           "of their atom, and the two maps must be inverse; non-trivial: at "
           "least 3 atoms and 2 conversions") {
  const Vars& base = pick_vars(s);
  Vars vs = base;
  PredicateAbstractor pa;
  Gen g{s};
  g.prop = false;
  g.foralls = s.chance(1, 3);
  const int rounds = s.range(1, 5);
  std::string all;
  const auto pts = points(s, false, 5);
  std::vector<std::pair<Formula, Variable>> seen;
  for (int i = 0; i < rounds; ++i) {
    std::vector<F> fs;
    std::vector<Formula> gs;
    const bool list = s.chance(1, 3);
    const int n = list ? static_cast<int>(s.draw(4)) : 1;
    for (int j = 0; j < n; ++j) {
      g.foralls_used = 0;
      fs.push_back(g.formula(static_cast<int>(s.draw(4))));
      all += show(fs.back()) + (list ? " , " : " ; ");
      try {
        gs.push_back(build(fs.back(), base));
      } catch (const std::exception&) {
        c.discard();
      }
    }
    c.describe(all);
    const Formula out = list ? pa.Convert(gs) : pa.Convert(gs[0]);
    // Purely Boolean, over original and recorded variables.
    std::function<void(const Formula&)> shape = [&](const Formula& f) {
      if (is_true(f) || is_false(f) || is_variable(f)) return;
      if (is_negation(f)) return shape(get_operand(f));
      c.check(is_conjunction(f) || is_disjunction(f),
              cat("not purely Boolean: ", f, " in ", out));
      for (const Formula& h : get_operands(f)) shape(h);
    };
    shape(out);
    const auto& map = pa.var_to_formula_map();
    for (const auto& m : map)
      if (vs.index(m.first) < 0) vs.v.push_back(m.first);
    const F back = reflect(out, vs);
    const F want = list ? conn(FOp::And, fs) : fs[0];
    for (const auto& m : map) {
      c.check(base.index(m.first) < 0, cat("input variable ", m.first, " reused"));
      c.check(m.first.get_type() == Variable::Type::BOOLEAN, "not Boolean");
      c.check(pa[m.first].EqualTo(m.second), "operator[](Variable)");
      c.check(pa[m.second].equal_to(m.first),
              cat("two variables for the atom ", m.second));
      c.check(is_relational(m.second) || is_forall(m.second),
              cat("variable for ", m.second));
      for (const auto& m2 : map)
        c.check(m.first.equal_to(m2.first) || !m.second.EqualTo(m2.second),
                cat("two variables for the atom ", m.second));
    }
    // Earlier entries stay.
    for (const auto& q : seen)
      c.check(pa[q.first].equal_to(q.second) && pa[q.second].EqualTo(q.first),
              cat("the variable of ", q.first, " changed"));
    seen.clear();
    for (const auto& m : map) seen.emplace_back(m.second, m.first);
    for (const auto& p : pts) {
      const BResult r = truth(want, p);
      if (!r.reliable) continue;
      std::vector<double> pp = p;
      pp.resize(vs.v.size(), 0);
      bool ok = true;
      for (size_t v = kVars; v < vs.v.size(); ++v) {
        const BResult a = truth(reflect(pa[vs.v[v]], base), p);
        ok = ok && a.reliable;
        pp[v] = a.value;
      }
      if (!ok) continue;
      const BResult q = truth(back, pp);
      c.label(r.value ? "point:true" : "point:false");
      c.check(q.reliable && q.value == r.value,
              cat(show(want), " is ", r.value, " at ", show(p), " but ", out,
                  " is ", q.value));
    }
  }
  if (rounds >= 2 && vs.v.size() >= kVars + 3) c.nontrivial(all);
}

namespace {
bool my_poly(const Expression& e) {
  auto nonneg_int = [](const Expression& x) {
    if (!is_constant(x)) return false;
    const double d = get_constant_value(x);
    return d >= 0 && d <= 2147483647.0 && d == std::floor(d);
  };
  if (is_nan(e)) return false;
  if (is_constant(e) || is_variable(e)) return true;
  if (is_addition(e)) {
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      if (!my_poly(p.first)) return false;
    return true;
  }
  if (is_multiplication(e)) {
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      if (!my_poly(p.first) || !nonneg_int(p.second)) return false;
    return true;
  }
  if (is_division(e))
    return my_poly(get_first_argument(e)) && is_constant(get_second_argument(e));
  if (is_pow(e))
    return my_poly(get_first_argument(e)) && nonneg_int(get_second_argument(e));
  return false;
}
bool poly_tree(const N& n) {
  switch (n->op) {
    case Op::Const:
    case Op::Var: return true;
    case Op::Add:
    case Op::Sub:
    case Op::Mul: return poly_tree(n->a[0]) && poly_tree(n->a[1]);
    case Op::Neg: return poly_tree(n->a[0]);
    case Op::Pow:
      return poly_tree(n->a[0]) && n->a[1]->op == Op::Const &&
             n->a[1]->style == 0 && n->a[1]->c >= 0 && n->a[1]->c <= 100 &&
             n->a[1]->c == std::floor(n->a[1]->c);
    default: return false;
  }
}
bool any_op(const F& f, const std::function<bool(const Node&)>& p) {
  for (const N& a : f->e)
    if (has_op(a, p)) return true;
  for (const F& g : f->f)
    if (any_op(g, p)) return true;
  return false;
}
bool any_forall(const F& f) { return boolgen::count_forall(f) > 0; }
}  // namespace

PBT_TARGET("C35", classify_expr, 300000,
           "random expression (all node kinds); is_polynomial, include_ite and "
           "IsDifferentiable are compared with an independent classification "
           "of its structure, polynomials as written must be polynomials; "
           "non-trivial: at least 4 operations") {
  const Vars vs = make_vars2(kReal, kBool);
  GenOpt o;
  o.nvars = kReal;
  o.bool_vars = {4, 5};
  o.max_terms = 8;
  const int prof = s.weighted({2, 2, 1});
  o.trans = prof == 1;
  o.ite = o.minmax = prof != 2;
  o.division = s.chance(1, 2);
  const N n = gen_expr(s, o);
  c.describe(show(n));
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  c.add(cat("  ~>  ", e));
  const N r = reflect(e, vs);
  // Visiting NaN is refused.
  if (has_op(r, [](const Node& k) {
        return k.op == Op::Const && std::isnan(k.c);
      }))
    c.discard();
  const bool ite = has_op(r, [](const Node& k) { return k.op == Op::Ite; });
  const bool nondiff = has_op(r, [](const Node& k) {
    return k.op == Op::Ite || k.op == Op::Abs || k.op == Op::Min ||
           k.op == Op::Max;
  });
  c.check(e.include_ite() == ite, cat("include_ite() is ", e.include_ite()));
  c.check(IsDifferentiable(e) == !nondiff,
          cat("IsDifferentiable() is ", IsDifferentiable(e)));
  const bool poly = my_poly(e);
  c.check(e.is_polynomial() == poly,
          cat("is_polynomial() is ", e.is_polynomial()));
  if (poly_tree(n))
    c.check(e.is_polynomial(), "a sum of products is not a polynomial");
  c.label(poly ? "polynomial" : "not polynomial");
  c.label(ite ? "ite" : "no ite");
  c.label(nondiff ? "not differentiable" : "differentiable");
  // Through an uninterpreted function and a NaN.
  if (s.chance(1, 8)) {
    const Expression uf = uninterpreted_function(
        "uf", Variables{vs.v[0], vs.v[1]});
    c.check(!uf.is_polynomial() && !IsDifferentiable(uf) && !uf.include_ite(),
            "classification of an uninterpreted function");
    const Expression sum = e + uf;
    c.check(!IsDifferentiable(sum) && !sum.is_polynomial() &&
                sum.include_ite() == ite,
            cat("classification of ", sum));
  }
  if (n->size >= 5) c.nontrivial(show(n));
}

PBT_TARGET("C35", classify_formula, 300000,
           "random formula with quantifiers and if-then-else terms; is_atomic, "
           "is_clause, is_cnf, get_clauses, include_ite and IsDifferentiable "
           "are compared with an independent classification of its structure "
           "and must not fail; non-trivial: at least 2 connectives") {
  const Vars vs = make_vars2(kReal, kBool);
  Gen g{s};
  g.prop = s.chance(1, 4);
  g.ite = s.chance(1, 4);
  F f;
  if (s.chance(1, 2)) {
    f = g.formula(s.range(0, 3));
  } else {
    // A conjunction of disjunctions of literals, with an odd one sometimes.
    std::vector<F> cs;
    const int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::vector<F> ls;
      const int m = s.range(1, 3);
      for (int j = 0; j < m; ++j) {
        F l = s.chance(1, 6) ? g.formula(1) : g.atom();
        if (s.chance(1, 3)) l = conn(FOp::Not, {l});
        ls.push_back(l);
      }
      cs.push_back(ls.size() == 1 ? ls[0] : conn(FOp::Or, ls));
    }
    f = cs.size() == 1 ? cs[0] : conn(FOp::And, cs);
  }
  c.describe(show(f));
  Formula h = Formula::True();
  try {
    h = build(f, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  c.add(cat("  ~>  ", h));
  const F r = reflect(h, vs);
  if (any_op(r, [](const Node& k) {
        return k.op == Op::Const && std::isnan(k.c);
      }))
    c.discard();
  const bool atomic =
      my_atom(h) ||
      (is_negation(h) && (is_variable(get_operand(h)) || is_relational(get_operand(h))));
  c.check(is_atomic(h) == atomic, cat("is_atomic() is ", is_atomic(h)));
  const bool clause = my_clause(h);
  c.check(is_clause(h) == clause, cat("is_clause() is ", is_clause(h)));
  const bool cnf = my_cnf(h);
  c.check(is_cnf(h) == cnf, cat("is_cnf() is ", is_cnf(h)));
  if (cnf) {
    const std::set<Formula> cl = get_clauses(h);
    if (is_conjunction(h))
      c.check(cl.size() == get_operands(h).size(), "get_clauses()");
    else
      c.check(cl.size() == 1 && cl.begin()->EqualTo(h), "get_clauses()");
  }
  const bool ite = any_op(r, [](const Node& k) { return k.op == Op::Ite; });
  c.check(h.include_ite() == ite, cat("include_ite() is ", h.include_ite()));
  const bool nondiff = any_forall(r) || any_op(r, [](const Node& k) {
    return k.op == Op::Ite || k.op == Op::Abs || k.op == Op::Min ||
           k.op == Op::Max;
  });
  c.check(IsDifferentiable(h) == !nondiff,
          cat("IsDifferentiable() is ", IsDifferentiable(h)));
  c.label(clause ? "clause" : cnf ? "cnf" : "not cnf");
  c.label(atomic ? "atomic" : "not atomic");
  c.label(nondiff ? "not differentiable" : "differentiable");
  if (boolgen::count_conn(f) >= 2) c.nontrivial(show(f));
}

PBT_TARGET("C35", classify_misc, 100000,
           "relational operators on random values, numbered variable vectors "
           "of random size and type, intersection tests of random variable "
           "sets; non-trivial: two sets of at least 3 variables") {
  using RO = RelationalOperator;
  static const std::vector<RO> ops = {RO::EQ, RO::NEQ, RO::GT,
                                      RO::GEQ, RO::LT, RO::LEQ};
  auto holds = [](RO op, double a, double b) {
    switch (op) {
      case RO::EQ: return a == b;
      case RO::NEQ: return a != b;
      case RO::GT: return a > b;
      case RO::GEQ: return a >= b;
      case RO::LT: return a < b;
      default: return a <= b;
    }
  };
  const double a = gen_value(s);
  const double b = s.chance(1, 3) ? a : gen_value(s);
  std::set<std::string> names;
  for (RO op : ops) {
    c.check(holds(!op, a, b) == !holds(op, a, b), cat("!", op, " is ", !op));
    c.check(!!op == op, cat("double negation of ", op));
    std::ostringstream os;
    os << op;
    names.insert(os.str());
  }
  c.check(names == std::set<std::string>({"=", "≠", ">", "≥", "<", "≤"}),
          "printed relational operators");
  static const std::vector<Variable::Type> types = {
      Variable::Type::CONTINUOUS, Variable::Type::INTEGER,
      Variable::Type::BINARY, Variable::Type::BOOLEAN};
  const int size = s.range(1, 12);
  const Variable::Type type = s.pick(types);
  const std::vector<Variable> v = CreateVector("v", size, type);
  c.check(static_cast<int>(v.size()) == size, "CreateVector size");
  Variables all;
  for (int i = 0; i < size; ++i) {
    c.check(v[i].get_name() == cat("v", i), cat("name ", v[i].get_name()));
    c.check(v[i].get_type() == type, "CreateVector type");
    all.insert(v[i]);
  }
  c.check(static_cast<int>(all.size()) == size, "CreateVector distinct");
  c.check(CreateVector("w", 1)[0].get_type() == Variable::Type::CONTINUOUS,
          "CreateVector default type");
  uint64_t m1 = s.draw(1u << size), m2 = s.draw(1u << size);
  if (s.chance(1, 2)) m2 &= ~m1;
  Variables s1, s2;
  for (int i = 0; i < size; ++i) {
    if ((m1 >> i) & 1) s1.insert(v[i]);
    if ((m2 >> i) & 1) s2.insert(v[i]);
  }
  c.describe(cat("masks ", m1, " ", m2, " of ", size));
  c.check(HaveIntersection(s1, s2) == ((m1 & m2) != 0),
          cat("HaveIntersection of ", s1, " and ", s2));
  if (s1.size() >= 3 && s2.size() >= 3) c.nontrivial(cat(m1, " ", m2, " ", size));
}
