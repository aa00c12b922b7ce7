// C26: the propositional solver against brute force, over histories.
#include <map>

#include "ast.h"
#include "dreal/solver/config.h"
#include "dreal/solver/sat_solver.h"

using namespace dreal;
using namespace ast;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
// A propositional formula over numbered atoms.
struct Prop;
using P = std::shared_ptr<const Prop>;
struct Prop {
  int op;  // 0 atom, 1 not, 2 and, 3 or, 4 imply, 5 iff, 6 true, 7 false
  int atom = -1;
  std::vector<P> a;
};
P mkp(int op, std::vector<P> a, int atom = -1) {
  Prop p;
  p.op = op;
  p.a = std::move(a);
  p.atom = atom;
  return std::make_shared<const Prop>(p);
}
bool eval_prop(const P& p, unsigned m) {
  switch (p->op) {
    case 0: return m >> p->atom & 1;
    case 1: return !eval_prop(p->a[0], m);
    case 2:
      for (const P& q : p->a)
        if (!eval_prop(q, m)) return false;
      return true;
    case 3:
      for (const P& q : p->a)
        if (eval_prop(q, m)) return true;
      return false;
    case 4: return !eval_prop(p->a[0], m) || eval_prop(p->a[1], m);
    case 5: return eval_prop(p->a[0], m) == eval_prop(p->a[1], m);
    case 6: return true;
    default: return false;
  }
}
std::string show_prop(const P& p) {
  static const char* n[] = {"", "not", "and", "or", "=>", "iff", "true", "false"};
  if (p->op == 0) return cat("a", p->atom);
  std::string r = cat("(", n[p->op]);
  for (const P& q : p->a) r += " " + show_prop(q);
  return r + ")";
}
void atoms_of(const P& p, std::set<int>* out) {
  if (p->op == 0) out->insert(p->atom);
  for (const P& q : p->a) atoms_of(q, out);
}
Formula build_prop(const P& p, const std::vector<Formula>& atoms) {
  switch (p->op) {
    case 0: return atoms[p->atom];
    case 1: return !build_prop(p->a[0], atoms);
    case 2: {
      Formula r = Formula::True();
      for (const P& q : p->a) r = r && build_prop(q, atoms);
      return r;
    }
    case 3: {
      Formula r = Formula::False();
      for (const P& q : p->a) r = r || build_prop(q, atoms);
      return r;
    }
    case 4: return imply(build_prop(p->a[0], atoms), build_prop(p->a[1], atoms));
    case 5: return iff(build_prop(p->a[0], atoms), build_prop(p->a[1], atoms));
    case 6: return Formula::True();
    default: return Formula::False();
  }
}
P gen_prop(Src& s, int n, int depth) {
  const int k = depth <= 0 ? s.weighted({8, 3})
                           : s.weighted({3, 2, 4, 4, 1, 1, 0, 0});
  if (k == 0) {
    if (s.chance(1, 60)) return mkp(s.chance(1, 2) ? 6 : 7, {});
    return mkp(0, {}, static_cast<int>(s.draw(n)));
  }
  if (k == 1) return mkp(1, {gen_prop(s, n, depth - 1)});
  std::vector<P> a;
  const int m = k >= 4 ? 2 : s.range(2, 4);
  for (int i = 0; i < m; ++i) a.push_back(gen_prop(s, n, depth - 1));
  return mkp(k, a);
}
P gen_clause(Src& s, int n) {
  std::vector<P> a;
  const int m = s.range(1, 3);
  for (int i = 0; i < m; ++i) {
    P p = mkp(0, {}, static_cast<int>(s.draw(n)));
    a.push_back(s.chance(1, 2) ? mkp(1, {p}) : p);
  }
  return a.size() == 1 ? a[0] : mkp(3, a);
}
Formula complement(const Formula& f) {
  if (!is_relational(f)) return !f;
  const Expression &l = get_lhs_expression(f), &r = get_rhs_expression(f);
  if (is_equal_to(f)) return l != r;
  if (is_not_equal_to(f)) return l == r;
  if (is_greater_than(f)) return l <= r;
  if (is_greater_than_or_equal_to(f)) return l < r;
  if (is_less_than(f)) return l >= r;
  return l > r;
}
// Finds the atom of a theory literal (or of its negation).
int find_atom(const std::vector<Formula>& atoms, int nt, const Formula& f,
              bool* positive) {
  for (int j = 0; j < nt; ++j) {
    if (atoms[j].EqualTo(f)) {
      *positive = true;
      return j;
    }
    if (complement(atoms[j]).EqualTo(f)) {
      *positive = false;
      return j;
    }
  }
  return -1;
}
}  // namespace

PBT_TARGET("C26", sat_history, 20000,
           "random history of up to 30 operations (adding formulas with "
           "arbitrary nesting over Boolean variables, relational and quantified "
           "atoms; adding learned clauses; push, pop, check) on one solver; "
           "every answer and model is compared with brute force over all "
           "assignments of at most 10 atoms, every completion of a partial "
           "model has to satisfy all formulas in scope; non-trivial: at least "
           "two checks with a push or a learned clause between and both "
           "answers or more than 4 formulas") {
  const int nt = s.range(1, 5), nb = s.range(1, 5), n = nt + nb;
  Variable x{"x"}, y{"y"}, q{"q"};
  std::vector<Formula> atoms;
  std::map<Variable::Id, int> bool_id;
  for (int i = 0; i < nt; ++i) {
    switch (s.draw(5)) {
      case 1: atoms.push_back(x + y == i); break;
      case 2: atoms.push_back(sin(x) <= 0.125 * i + y); break;
      case 3:
        atoms.push_back(forall(Variables{q}, q * x >= i + y));
        break;
      default: atoms.push_back(x > i + 1); break;
    }
  }
  // shared names are legal
  const bool twins = s.chance(1, 4);
  for (int i = 0; i < nb; ++i) {
    Variable b{twins ? std::string("b") : cat("b", i), Variable::Type::BOOLEAN};
    bool_id[b.get_id()] = nt + i;
    atoms.emplace_back(b);
  }
  Config config;
  if (s.chance(1, 4)) config.mutable_random_seed() = s.range(1, 100);
  switch (s.draw(4)) {
    case 1: config.mutable_sat_default_phase() = Config::SatDefaultPhase::False; break;
    case 2: config.mutable_sat_default_phase() = Config::SatDefaultPhase::True; break;
    case 3:
      config.mutable_sat_default_phase() = Config::SatDefaultPhase::RandomInitialPhase;
      break;
    default: break;
  }
  SatSolver solver{config};
  std::vector<std::vector<P>> scopes(1);
  int checks = 0, sats = 0, unsats = 0, total = 0;
  bool history = false;
  const int steps = s.range(2, 30);
  for (int step = 0; step < steps; ++step) {
    const int op = step + 1 == steps ? 4 : s.weighted({7, 2, 2, 2, 5});
    switch (op) {
      case 0: {
        if (s.chance(1, 6)) {
          const P p = gen_clause(s, n), r = gen_prop(s, n, 2);
          c.add("add " + show_prop(p) + " and " + show_prop(r) + "; ");
          solver.AddFormulas({build_prop(p, atoms), build_prop(r, atoms)});
          scopes.back().push_back(p);
          scopes.back().push_back(r);
          total += 2;
          break;
        }
        const P p = s.chance(1, 2) ? gen_clause(s, n)
                                   : gen_prop(s, n, s.range(1, 4));
        c.add("add " + show_prop(p) + "; ");
        solver.AddFormula(build_prop(p, atoms));
        scopes.back().push_back(p);
        ++total;
        break;
      }
      case 1: {
        // a learned clause over atoms in scope
        std::set<int> in;
        for (const auto& sc : scopes)
          for (const P& p : sc) atoms_of(p, &in);
        std::vector<int> th;
        for (int i : in)
          if (i < nt) th.push_back(i);
        if (th.empty()) break;
        // Simplification may have removed an atom from all clauses: take the
        // literals of a model, as the solver does.
        const auto m = solver.CheckSat();
        if (!m || m->second.empty()) break;
        std::set<Formula> fs;
        std::vector<P> neg;
        const int k = s.range(1, 3);
        for (int i = 0; i < k; ++i) {
          const auto& l = m->second[s.draw(m->second.size())];
          const Formula f = solver.theory_literal(l.first);
          bool pos = true;
          const int at = find_atom(atoms, nt, f, &pos);
          c.check(at >= 0, "unknown theory literal " + f.to_string());
          fs.insert(l.second ? f : !f);
          const P a = mkp(0, {}, at);
          neg.push_back(l.second == pos ? mkp(1, {a}) : a);
        }
        const P p = mkp(3, neg);
        c.add("learn " + show_prop(p) + "; ");
        solver.AddLearnedClause(fs);
        scopes.back().push_back(p);
        history = checks > 0;
        break;
      }
      case 2:
        if (scopes.size() > 4) break;
        c.add("push; ");
        solver.Push();
        scopes.emplace_back();
        break;
      case 3:
        if (scopes.size() == 1) break;
        c.add("pop; ");
        solver.Pop();
        scopes.pop_back();
        history = checks > 0;
        break;
      default: {
        c.add("check; ");
        ++checks;
        std::vector<bool> good(1u << n);
        bool any = false;
        for (unsigned m = 0; m < 1u << n; ++m) {
          bool ok = true;
          for (const auto& sc : scopes)
            for (const P& p : sc) ok = ok && eval_prop(p, m);
          good[m] = ok;
          any = any || ok;
        }
        c.count(1u << n);
        const auto r = solver.CheckSat();
        if (!r) {
          ++unsats;
          c.check(!any, "unsatisfiable, but there is a model");
          break;
        }
        ++sats;
        c.check(any, "satisfiable, but there is no model");
        unsigned fixed = 0, value = 0;
        for (const auto& l : r->first) {
          const auto it = bool_id.find(l.first.get_id());
          c.check(it != bool_id.end(),
                  "the model has an unknown Boolean variable " +
                      l.first.get_name());
          c.check(!(fixed >> it->second & 1), "a variable twice in the model");
          fixed |= 1u << it->second;
          if (l.second) value |= 1u << it->second;
        }
        for (const auto& l : r->second) {
          const Formula f = solver.theory_literal(l.first);
          bool pos = true;
          const int at = find_atom(atoms, nt, f, &pos);
          c.check(at >= 0, "unknown theory literal " + f.to_string());
          const unsigned bit = 1u << at;
          if (fixed & bit)
            c.check(((value & bit) != 0) == (l.second == pos),
                    "an atom with both values in the model");
          fixed |= bit;
          if (l.second == pos) value |= bit;
        }
        for (unsigned m = 0; m < 1u << n; ++m)
          if ((m & fixed) == value)
            c.check(good[m], cat("the model ", value, " of the atoms ", fixed,
                                 " does not satisfy the formulas when completed to ", m));
      }
    }
  }
  if (checks >= 2 && history && ((sats && unsats) || total > 4))
    c.nontrivial(c.desc_);
  if (sats && unsats) c.label("both answers");
  c.label(sats ? "sat" : "unsat");
}
