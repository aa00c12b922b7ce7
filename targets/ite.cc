// Elimination of if-then-else terms.
#include <map>

#include "boolgen.h"
#include "dreal/util/if_then_else_eliminator.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using boolgen::Gen;
using boolgen::kBool;
using boolgen::kReal;
using boolgen::kVars;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
void collect(const F& f, std::vector<N>* out);
void collect(const N& n, std::vector<N>* out) {
  if (n->op == Op::Ite) {
    out->push_back(n);
    collect(n->cond, out);
  }
  for (const N& a : n->a) collect(a, out);
}
void collect(const F& f, std::vector<N>* out) {
  for (const N& a : f->e) collect(a, out);
  for (const F& g : f->f) collect(g, out);
}
void quantified(const F& f, std::set<int>* out) {
  if (f->op == FOp::Forall) out->insert(f->qv.begin(), f->qv.end());
  for (const F& g : f->f) quantified(g, out);
}
bool under_forall(const F& f, bool in) {
  if (f->op == FOp::Forall) in = true;
  if (in) {
    std::vector<N> t;
    collect(f, &t);
    if (!t.empty()) return true;
  }
  for (const F& g : f->f)
    if (under_forall(g, in)) return true;
  return false;
}
int depth(const N& n);
int depth_f(const F& f) {
  int r = 0;
  for (const N& a : f->e) r = std::max(r, depth(a));
  for (const F& g : f->f) r = std::max(r, depth_f(g));
  return r;
}
int depth(const N& n) {
  int r = 0;
  for (const N& a : n->a) r = std::max(r, depth(a));
  if (n->cond) r = std::max(r, depth_f(n->cond));
  return r + (n->op == Op::Ite ? 1 : 0);
}
}  // namespace

PBT_TARGET("C15", ite_elim, 120000,
           "random formula with 1-5 if-then-else terms (nested in branches, "
           "conditions, under arithmetic, under a quantifier), 1-2 formulas "
           "per eliminator; at 3 points the result must hold for some values "
           "of the fresh variables, drawn from all values of the if-then-else "
           "terms, exactly when the formula holds (quantified variables range "
           "over finite domains), and random values never make it hold "
           "otherwise; non-trivial: nested or several if-then-else terms and "
           "a fresh variable") {
  static const Vars named = make_vars2(kReal, kBool);
  static const Vars twins = make_twins(kReal, kBool);
  const Vars& base = s.chance(1, 6) ? twins : named;
  Gen g{s};
  g.ite = true;
  g.max_forall = 1;
  g.foralls = s.chance(1, 3);
  IfThenElseEliminator elim;
  const int rounds = s.chance(1, 5) ? 2 : 1;
  std::string all;
  // Free if-then-else terms of everything given to this eliminator so far.
  std::vector<N> terms;
  bool nt = false;
  Vars vs = base;
  std::vector<Formula> outs;
  for (int i = 0; i < rounds; ++i) {
    g.foralls_used = 0;
    const F f = g.formula(static_cast<int>(s.draw(3)));
    all += show(f) + " ; ";
    c.describe(all);
    Formula h = Formula::True();
    try {
      h = build(f, base);
    } catch (const std::exception&) {
      c.discard();
    }
    c.add(cat("  ~>  ", h));
    const F r = reflect(h, base);
    const std::vector<std::vector<double>> pts = {
        boolgen::point(s), boolgen::point(s), boolgen::point(s)};
    const Formula out = elim.Process(h);
    c.check(!out.include_ite(), cat("include_ite() of ", out));
    // Name the fresh variables, free or quantified.
    std::set<int> fresh_free;
    for (const Variable& v : out.GetFreeVariables())
      if (vs.index(v) < 0) vs.v.push_back(v);
    std::function<void(const Formula&)> bound = [&](const Formula& x) {
      if (is_forall(x)) {
        for (const Variable& v : get_quantified_variables(x))
          if (vs.index(v) < 0) vs.v.push_back(v);
        for (const Variable& v : get_quantified_formula(x).GetFreeVariables())
          if (vs.index(v) < 0) vs.v.push_back(v);
        bound(get_quantified_formula(x));
      } else if (is_conjunction(x) || is_disjunction(x)) {
        for (const Formula& y : get_operands(x)) bound(y);
      } else if (is_negation(x)) {
        bound(get_operand(x));
      }
    };
    bound(out);
    for (const Variable& v : out.GetFreeVariables()) {
      const int id = vs.index(v);
      if (id < kVars) continue;
      fresh_free.insert(id);
      c.check(elim.variables().count(v) == 1,
              cat("fresh variable ", v, " is not in variables()"));
      c.check(v.get_type() == Variable::Type::CONTINUOUS, "fresh variable type");
    }
    for (const Variable& v : elim.variables())
      c.check(base.index(v) < 0, cat("input variable ", v, " reused"));
    for (size_t k = kVars; k < vs.v.size(); ++k)
      for (size_t l = kVars; l < k; ++l)
        c.check(!vs.v[k].equal_to(vs.v[l]), "fresh variables coincide");
    const F back = reflect(out, vs);
    {
      std::vector<N> left;
      collect(back, &left);
      c.check(left.empty(), cat("if-then-else left in ", out));
    }
    std::vector<N> now;
    collect(r, &now);
    terms.insert(terms.end(), now.begin(), now.end());
    if (now.empty()) c.label("no if-then-else");
    if (now.size() > 8 || terms.size() > 8) c.discard();
    std::set<int> q;
    quantified(r, &q);
    for (const auto& p : pts) {
      const BResult want =
          evaluate(r, p, boolgen::domain(), std::set<int>{0, 1, 2, 3});
      if (!want.reliable) continue;
      // All values of the if-then-else terms.
      std::set<double> V;
      std::vector<int> qs(q.begin(), q.end());
      size_t combos = 1;
      for (int v : qs) combos *= v < kReal ? boolgen::domain().size() : 2;
      bool ok = true;
      for (size_t k = 0; k <= combos; ++k) {
        std::vector<double> pp = p;
        size_t x = k;
        if (k < combos) {
          for (int v : qs) {
            const size_t n = v < kReal ? boolgen::domain().size() : 2;
            pp[v] = v < kReal ? boolgen::domain()[x % n]
                              : static_cast<double>(x % n);
            x /= n;
          }
        }
        for (const N& t : terms) {
          const Result rv = evaluate(t, pp);
          if (!rv.defined || !rv.reliable) {
            ok = false;
            continue;
          }
          V.insert(rv.value);
        }
      }
      if (!ok) continue;
      if (V.empty()) V.insert(0);
      const std::vector<double> vals(V.begin(), V.end());
      static const std::vector<double> bools = {0, 1};
      const Domain dom = [&](int v) -> const std::vector<double>& {
        if (v >= kVars) return vals;
        return v < kReal ? boolgen::domain() : bools;
      };
      // Cost of a brute-force search.
      double cost = 1;
      for (size_t k = kVars; k < vs.v.size(); ++k)
        cost *= static_cast<double>(vals.size());
      cost *= static_cast<double>(combos);
      if (cost > 3000) {
        c.label("point:too many combinations");
        continue;
      }
      std::vector<double> pp = p;
      pp.resize(vs.v.size(), 0);
      const std::vector<int> ff(fresh_free.begin(), fresh_free.end());
      std::vector<size_t> ix(ff.size(), 0);
      bool found = false;
      for (bool more = true; more && !found;) {
        for (size_t k = 0; k < ff.size(); ++k) pp[ff[k]] = vals[ix[k]];
        const BResult b = evaluate(back, pp, dom);
        if (!b.defined || !b.reliable) {
          ok = false;
          break;
        }
        found = b.value;
        more = false;
        for (size_t k = 0; k < ff.size(); ++k) {
          if (++ix[k] < vals.size()) {
            more = true;
            break;
          }
          ix[k] = 0;
        }
      }
      if (!ok) continue;
      c.label(want.value ? "point:true" : "point:false");
      c.check(found == want.value,
              cat("the formula is ", want.value, " at ", show(p), " but ", out,
                  found ? " holds for " : " does not hold for any ",
                  found ? show(pp) : std::string("fresh values")));
      if (!want.value) {
        for (int k = 0; k < 3; ++k) {
          for (int v : ff) pp[v] = gen_value(s);
          const BResult b = evaluate(back, pp, dom);
          if (b.reliable)
            c.check(!b.value, cat("the formula is false at ", show(p), " but ",
                                  out, " holds for ", show(pp)));
        }
      }
      if (!fresh_free.empty() && now.size() >= 2) nt = true;
      if (under_forall(r, false)) {
        c.label("if-then-else under a quantifier");
        nt = true;
      }
    }
    if (depth_f(r) >= 2) c.label("nested");
  }
  if (nt) c.nontrivial(all);
}
