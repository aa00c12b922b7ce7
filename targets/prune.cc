// C22 interval evaluation, C23 pruning, C24 explanations.
#include <cmath>
#include <limits>
#include <sstream>

#include "ast.h"
#include "scene.h"
#include "dreal/contractor/contractor.h"
#include "dreal/contractor/contractor_status.h"
#include "dreal/contractor/generic_contractor_generator.h"
#include "dreal/solver/config.h"
#include "dreal/solver/expression_evaluator.h"
#include "dreal/solver/formula_evaluator.h"
#include "dreal/solver/theory_solver.h"
#include "dreal/util/box.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
bool contains(const Box::Interval& i, double lo, double hi) {
  return !i.is_empty() && i.lb() <= hi && lo <= i.ub();
}
}  // namespace

PBT_TARGET("C22", evaluate_expression, 30000,
           "random expression (all operators but if-then-else, interval "
           "constants included) and random box with up to 4 dimensions, points "
           "of the box evaluated independently; non-trivial: at least 3 "
           "operators and a finite result interval over a box with an inner "
           "point") {
  const Scene sc = gen_scene(s, false, true);
  const N e = gen_expr(s, options(static_cast<int>(sc.p.size()), s));
  bool built;
  const Expression de = try_build(e, sc.vs, &built);
  if (!built) c.discard();
  c.describe(cat(show(e), " over ", show_box(sc)));
  std::vector<std::pair<std::vector<double>, Result>> pts;
  for (int k = 0; k < 6; ++k) {
    const std::vector<double> q = k == 0 ? sc.p : sample(s, sc);
    const Result v = evaluate(e, q);
    if (v.defined && v.reliable) pts.emplace_back(q, v);
  }
  if (pts.empty()) c.discard();
  const Box::Interval r = ExpressionEvaluator{de}(sc.box);
  for (const auto& pt : pts) {
    const std::vector<double>& q = pt.first;
    const Result& v = pt.second;
    c.check(contains(r, v.value - v.tol, v.value + v.tol),
            cat("the evaluation ", show_iv(r), " misses the value ", v.value,
                " at ", show(q)));
  }
  bool point = true;
  for (size_t i = 0; i < sc.p.size(); ++i)
    if (sc.lb[i] < sc.p[i] && sc.p[i] < sc.ub[i]) point = false;
  if (e->size > 4 && !point && !r.is_unbounded()) c.nontrivial(c.desc_);
  c.label(point ? "point box" : "box");
}

PBT_TARGET("C22", evaluate_formula, 30000,
           "random relational constraint (all relations, negated or not) on a "
           "random box; VALID / UNSAT compared with the truth at points of "
           "the box, the reported interval with lhs - rhs; non-trivial: VALID or "
           "UNSAT on a box that is not a point") {
  const Scene sc = gen_scene(s, true, true);
  const int n = static_cast<int>(sc.p.size());
  F f;
  if (s.chance(1, 2)) {
    const N e = gen_expr(s, options(n, s));
    f = constraint_at(s, e, sc.p, s.chance(1, 2));
    if (!f) c.discard();
  } else {
    f = gen_rel(s, options(n, s));
    if (s.chance(1, 4)) f = conn(FOp::Not, {f});
  }
  bool built;
  const Formula df = try_build(f, sc.vs, &built);
  if (!built) c.discard();
  c.describe(cat(show(f), " over ", show_box(sc)));
  if (is_true(df) || is_false(df)) c.discard();
  const Formula inner = is_negation(df) ? get_operand(df) : df;
  if (!is_relational(inner)) c.discard();
  std::vector<std::vector<double>> pts;
  const F rf = reflect(inner, sc.vs);
  const N diff = mk(Op::Sub, {rf->e[0], rf->e[1]});
  for (int k = 0; k < 6; ++k) {
    const std::vector<double> q = k == 0 ? sc.p : sample(s, sc);
    if (evaluate(diff, q).defined) pts.push_back(q);
  }
  if (pts.empty()) c.discard();
  const FormulaEvaluator ev = make_relational_formula_evaluator(df);
  c.check(ev.formula().EqualTo(df), "formula() is another formula");
  c.check(ev.variables().IsSubsetOf(df.GetFreeVariables()), "variables()");
  c.check(ev.is_neq() == (is_negation(df) ? is_equal_to(inner)
                                          : is_not_equal_to(df)),
          "is_neq()");
  const FormulaEvaluationResult r = ev(sc.box);
  for (const std::vector<double>& q : pts) {
    const BResult b = evaluate(f, q);
    if (b.defined && b.reliable) {
      if (r.type() == FormulaEvaluationResult::Type::VALID)
        c.check(b.value, "VALID, but false at " + show(q));
      if (r.type() == FormulaEvaluationResult::Type::UNSAT)
        c.check(!b.value, "UNSAT, but true at " + show(q));
    }
    const Result v = evaluate(diff, q);
    if (v.defined && v.reliable)
      c.check(contains(r.evaluation(), v.value - v.tol, v.value + v.tol),
              cat("the evaluation ", show_iv(r.evaluation()),
                  " misses the value ", v.value, " at ", show(q)));
  }
  c.label(r.type() == FormulaEvaluationResult::Type::VALID   ? "valid"
          : r.type() == FormulaEvaluationResult::Type::UNSAT ? "unsat"
                                                             : "unknown");
  bool point = true;
  for (int i = 0; i < n; ++i)
    if (sc.lb[i] < sc.ub[i]) point = false;
  if (r.type() != FormulaEvaluationResult::Type::UNKNOWN && !point)
    c.nontrivial(c.desc_);
}

namespace {
// Builds a contractor and tells whether it must keep the planted point.
struct CtcGen {
  Src& s;
  const Scene& sc;
  const Config& config;
  std::string text;
  bool worklist = false, effect = false;
  std::vector<F> used;
  int budget = 6;
  bool allow_false = false;

  F constraint(bool want) {
    for (int k = 0; k < 4; ++k) {
      const N e =
          gen_expr(s, options(static_cast<int>(sc.p.size()), s));
      const F f = constraint_at(s, e, sc.p, want);
      if (!f) continue;
      bool built;
      const Formula df = try_build(f, sc.vs, &built);
      if (!built || is_true(df) || is_false(df)) continue;
      return f;
    }
    return nullptr;
  }
  static TerminationCondition term(int rounds) {
    auto left = std::make_shared<int>(rounds);
    return [left](const Box::IntervalVector&, const Box::IntervalVector&) {
      return --*left <= 0;
    };
  }
  // keep: does the result have to keep the point?
  Contractor make(int depth, bool* keep) {
    *keep = true;
    const int k = depth <= 0 || budget <= 0 ? s.weighted({6, 2, 1, 1})
                                            : s.weighted({4, 2, 1, 1, 3, 2, 3, 2, 3});
    --budget;
    switch (k) {
      case 1: {
        std::vector<Formula> fs;
        const int n = s.range(1, 3);
        text += "polytope(";
        for (int i = 0; i < n; ++i) {
          const F f = constraint(true);
          if (!f) continue;
          used.push_back(f);
          text += show(f) + "; ";
          fs.push_back(build(f, sc.vs));
        }
        text += ") ";
        if (fs.empty()) break;
        return make_contractor_ibex_polytope(fs, sc.box, config);
      }
      case 2:
        text += "integer ";
        return make_contractor_integer(sc.box, config);
      case 3:
        break;
      case 4:
      case 5:
      case 6: {
        std::vector<Contractor> v;
        const int n = s.range(1, 3);
        text += k == 4 ? "seq(" : k == 5 ? "fixpoint(" : "worklist(";
        bool all_id = true;
        for (int i = 0; i < n; ++i) {
          bool kp = true;
          v.push_back(make(depth - 1, &kp));
          all_id = all_id && is_id(v.back());
          *keep = *keep && kp;
        }
        text += ") ";
        if (k == 4) return make_contractor_seq(v, config);
        const int rounds = s.range(1, 4);
        if (k == 5) return make_contractor_fixpoint(term(rounds), v, config);
        worklist = true;
        // the work list itself only ends when nothing changes any more
        return make_contractor_worklist_fixpoint(term(rounds), v, config);
      }
      case 7: {
        std::vector<Contractor> v;
        const int n = s.range(1, 3);
        text += "join(";
        *keep = false;
        for (int i = 0; i < n; ++i) {
          if (s.chance(1, 3)) {
            const F f = constraint(false);
            if (f) {
              text += show(f) + " ";
              v.push_back(
                  make_contractor_ibex_fwdbwd(build(f, sc.vs), sc.box, config));
              continue;
            }
          }
          bool kp = true;
          v.push_back(make(depth - 1, &kp));
          *keep = *keep || kp;
        }
        text += ") ";
        return make_contractor_join(v, config);
      }
      case 8: {
        // a formula with And / Or / Not that holds at the point
        const F f = formula(2);
        if (!f) break;
        const BResult b = evaluate(f, sc.p);
        if (!b.defined || !b.reliable || !b.value) break;
        const Formula df = build(f, sc.vs);
        if (is_true(df) || is_false(df)) break;
        text += "generic(" + show(f) + ") ";
        return GenericContractorGenerator{}.Generate(df, sc.box, config);
      }
      default: {
        const F f = constraint(true);
        if (!f) break;
        used.push_back(f);
        text += "fwdbwd(" + show(f) + ") ";
        return make_contractor_ibex_fwdbwd(build(f, sc.vs), sc.box, config);
      }
    }
    text += "id ";
    return make_contractor_id(config);
  }
  F formula(int depth) {
    const int k = depth <= 0 ? 0 : s.weighted({2, 3, 3, 1});
    if (k == 0) return constraint(s.chance(3, 4));
    if (k == 3) {
      const F f = formula(depth - 1);
      return f ? conn(FOp::Not, {f}) : nullptr;
    }
    std::vector<F> fs;
    const int n = s.range(2, 3);
    for (int i = 0; i < n; ++i) {
      const F f = formula(depth - 1);
      if (f) fs.push_back(f);
    }
    if (fs.size() < 2) return nullptr;
    return conn(k == 1 ? FOp::And : FOp::Or, fs);
  }
};

void no_growth(const Box& a, const Box& b, Ctx& c) {
  c.check(a.size() == b.size(), "the pruned box has another size");
  for (int i = 0; i < a.size(); ++i) {
    c.check(a.variable(i).equal_to(b.variable(i)),
            "the pruned box has other variables");
    if (b.empty()) continue;
    c.check(a[i].lb() <= b[i].lb() && b[i].ub() <= a[i].ub(),
            cat("dimension ", i, " grew from ", show_iv(a[i]), " to ",
                show_iv(b[i])));
  }
}
}  // namespace

PBT_TARGET("C23", prune, 30000,
           "random contractor tree (forward-backward, polytope, integer, "
           "sequence, fixpoint, worklist, join, generated from a formula) over "
           "constraints built to hold at a planted point of a random box with "
           "real, integer and binary variables; after pruning the point is "
           "still there, the box did not grow and changed dimensions are "
           "reported; non-trivial: the box changed") {
  const Scene sc = gen_scene(s, true, true);
  Config config;
  config.mutable_use_polytope() = s.chance(1, 3);
  CtcGen g{s, sc, config};
  bool keep = true;
  const Contractor ctc = g.make(3, &keep);
  c.describe(cat(g.text, " on ", show_box(sc), " at ", show(sc.p)));
  const int n = sc.box.size();
  const int branching = s.chance(1, 4) ? static_cast<int>(s.draw(n)) : -1;
  const bool has_top_worklist = is_worklist_fixpoint(ctc);
  ContractorStatus cs(sc.box, has_top_worklist &&
                                      branching < static_cast<int>(ctc.input().size())
                                  ? branching
                                  : -1);
  std::ostringstream os;
  os << ctc;
  c.check(!os.str().empty(), "display");
  ctc.Prune(&cs);
  const Box& out = cs.box();
  no_growth(sc.box, out, c);
  if (keep) {
    c.check(!out.empty(), "the box with the solution " + show(sc.p) +
                              " was pruned to the empty box");
    for (int i = 0; i < n; ++i)
      c.check(out[i].lb() <= sc.p[i] && sc.p[i] <= out[i].ub(),
              cat("the solution ", show(sc.p), " was pruned: x", i, " in ",
                  show_iv(out[i])));
  }
  bool changed = out.empty();
  if (!out.empty())
    for (int i = 0; i < n; ++i)
      if (!(out[i] == sc.box[i])) {
        changed = true;
        if (!g.worklist)
          c.check(cs.output()[i], cat("dimension ", i,
                                      " changed without being reported"));
        bool relevant = true;
        if (ctc.input().size() > static_cast<size_t>(i))
          relevant = ctc.input()[i];
        else
          relevant = false;
        c.check(relevant,
                cat("dimension ", i, " changed but is not an input"));
      }
  // a second time: still sound
  if (!out.empty()) {
    const Box mid = out;
    ctc.Prune(&cs);
    no_growth(mid, cs.box(), c);
    if (keep) {
      c.check(!cs.box().empty(), "the second pruning emptied the box");
      for (int i = 0; i < n; ++i)
        c.check(cs.box()[i].lb() <= sc.p[i] && sc.p[i] <= cs.box()[i].ub(),
                "the second pruning lost the solution");
    }
  }
  if (changed) c.nontrivial(c.desc_);
  c.label(changed ? "changed" : "unchanged");
}

namespace {
// No point of the box may satisfy the whole explanation.
void check_explanation(const std::set<Formula>& ex, const std::vector<F>& fs,
                       const std::vector<Formula>& dfs, const Scene& sc,
                       const std::vector<std::vector<double>>& points, Ctx& c) {
  std::vector<int> in;
  for (const Formula& f : ex) {
    int at = -1;
    for (size_t i = 0; i < dfs.size(); ++i)
      if (dfs[i].EqualTo(f)) at = static_cast<int>(i);
    c.check(at >= 0, "the explanation has a formula that was not asserted: " +
                         f.to_string());
    in.push_back(at);
  }
  for (const std::vector<double>& q : points) {
    bool sat = true;
    for (int i : in) {
      const BResult b = evaluate(fs[i], q);
      if (!b.defined || !b.reliable || !b.value) {
        sat = false;
        break;
      }
    }
    std::string e;
    for (int i : in) e += show(fs[i]) + " ";
    c.check(!sat, cat("the point ", show(q),
                      " of the box satisfies the whole explanation: ", e));
  }
  (void)sc;
}

struct Conflict {
  std::vector<F> fs;
  std::vector<Formula> dfs;
  std::vector<std::vector<double>> points;
  int false_at_p = 0;
};
// A list of constraints, most of which hold at the point.
bool gen_conflict(Src& s, const Scene& sc, Conflict* k) {
  Config config;
  CtcGen g{s, sc, config};
  const int n = s.range(2, 5);
  for (int i = 0; i < n; ++i) {
    const bool want = s.chance(3, 4);
    const F f = g.constraint(want);
    if (!f) continue;
    if (!want) ++k->false_at_p;
    k->fs.push_back(f);
    k->dfs.push_back(build(f, sc.vs));
  }
  // a pair of constraints in conflict
  if (s.chance(1, 2)) {
    const N e = gen_expr(s, options(static_cast<int>(sc.p.size()), s));
    const F f = rel(FOp::Ge, e, cst(2)), h = rel(FOp::Lt, e, cst(1));
    const bool ok = evaluate(e, sc.p).reliable;
    for (const F& x : {f, h}) {
      if (!ok) continue;
      bool built;
      const Formula d = try_build(x, sc.vs, &built);
      if (!built || is_true(d) || is_false(d)) continue;
      const size_t at = s.draw(k->fs.size() + 1);
      k->fs.insert(k->fs.begin() + at, x);
      k->dfs.insert(k->dfs.begin() + at, d);
    }
  }
  if (k->fs.empty()) return false;
  for (const Formula& f : k->dfs)
    if (!is_relational(f) &&
        !(is_negation(f) && is_relational(get_operand(f))))
      return false;
  k->points.push_back(sc.p);
  for (int i = 0; i < 8; ++i) k->points.push_back(sample(s, sc));
  return true;
}
}  // namespace

PBT_TARGET("C24", prune_explanation, 30000,
           "list of 2 to 7 constraints, some of them false at a planted point "
           "or in conflict with each other, pruned by a sequence / fixpoint / "
           "worklist of contractors; when the box becomes empty, no point of "
           "the original box satisfies all formulas of the explanation; "
           "non-trivial: an empty box whose explanation is a proper subset or "
           "has at least 2 formulas") {
  const Scene sc = gen_scene(s, true, false);
  Conflict k;
  if (!gen_conflict(s, sc, &k)) c.discard();
  Config config;
  std::string text;
  for (const F& f : k.fs) text += show(f) + "; ";
  std::vector<Contractor> v;
  const int shape = static_cast<int>(s.draw(4));
  for (const Formula& f : k.dfs) {
    v.push_back(s.chance(1, 6)
                    ? make_contractor_ibex_polytope({f}, sc.box, config)
                    : make_contractor_ibex_fwdbwd(f, sc.box, config));
  }
  if (shape == 3) {
    v.push_back(make_contractor_ibex_polytope(k.dfs, sc.box, config));
    text += "all in a polytope; ";
  }
  v.push_back(make_contractor_integer(sc.box, config));
  c.describe(cat(text, "shape ", shape, " on ", show_box(sc), " at ", show(sc.p)));
  const Contractor ctc =
      shape == 1   ? make_contractor_worklist_fixpoint(CtcGen::term(3), v, config)
                   : make_contractor_fixpoint(CtcGen::term(4), v, config);
  ContractorStatus cs(sc.box);
  ctc.Prune(&cs);
  if (!cs.box().empty()) {
    c.label("not empty");
    return;
  }
  c.label("empty");
  const std::set<Formula> ex = cs.Explanation();
  // An integer variable without any integer needs no constraint.
  bool trivial = false;
  for (size_t i = 0; i < sc.p.size(); ++i)
    if (integral(sc.type[i]) && std::ceil(sc.lb[i]) > std::floor(sc.ub[i]))
      trivial = true;
  if (trivial) return;
  check_explanation(ex, k.fs, k.dfs, sc, k.points, c);
  if (ex.size() < k.fs.size() || ex.size() >= 2) c.nontrivial(c.desc_);
}

PBT_TARGET("C24", theory_explanation, 20000,
           "the same constraint lists given to TheorySolver::CheckSat (filter, "
           "contractors, evaluation and branching) one after another on one "
           "solver with different boxes; an unsatisfiable answer has an "
           "explanation from the list that no point of the box satisfies, a "
           "delta-sat answer a model inside the box whose points satisfy every "
           "constraint up to delta; non-trivial: an unsatisfiable answer after "
           "branching or with a proper subset, or a satisfiable answer with "
           "at least 2 constraints") {
  const Scene sc = gen_scene(s, true, false);
  const double delta = s.chance(1, 2) ? 0.001 : 0.1;
  int budget = 300;
  struct Out {};
  Config config;
  config.mutable_precision() = delta;
  config.mutable_use_polytope() = s.chance(1, 4);
  config.mutable_use_worklist_fixpoint() = s.chance(1, 4);
  config.mutable_stack_left_box_first() = s.chance(1, 2);
  int branches = 0;
  bool stuck = false;  // a box that is too small to be divided
  config.mutable_brancher() = [&budget, &branches, &stuck](
                                  const Box& b, const DynamicBitset& a,
                                  Box* l, Box* r) {
    if (--budget < 0) throw Out{};
    ++branches;
    const int d = BranchLargestFirst(b, a, l, r);
    if (d < 0) stuck = true;
    return d;
  };
  TheorySolver solver{config};
  const int rounds = s.range(1, 3);
  Conflict all;
  for (int round = 0; round < rounds; ++round) {
    Scene now = sc;
    if (round > 0) {
      // a smaller box around the same point: the caches of the solver are used
      now.box = Box{};
      for (size_t i = 0; i < now.p.size(); ++i) {
        if (s.chance(1, 2) && std::ceil(now.p[i]) - 0.5 >= now.lb[i] &&
            !integral(now.type[i]))
          now.lb[i] = std::min(now.p[i], std::ceil(now.p[i]) - 0.5);
        now.box.Add(now.vs.v[i]);
        now.box[static_cast<int>(i)] = Box::Interval{now.lb[i], now.ub[i]};
      }
    }
    Conflict k;
    if (round > 0 && s.chance(1, 2)) {
      k = all;
      if (k.fs.size() > 1 && s.chance(1, 2)) {
        const size_t at = s.draw(k.fs.size());
        k.fs.erase(k.fs.begin() + at);
        k.dfs.erase(k.dfs.begin() + at);
      }
      k.points.assign(1, now.p);
      for (int i = 0; i < 8; ++i) k.points.push_back(sample(s, now));
    } else if (!gen_conflict(s, now, &k)) {
      c.discard();
    }
    all = k;
    std::string text;
    for (const F& f : k.fs) text += show(f) + "; ";
    c.add(cat(text, "delta ", delta, " on ", show_box(now), " at ", show(now.p),
              "\n"));
    bool sat;
    branches = 0;
    stuck = false;
    try {
      sat = solver.CheckSat(now.box, k.dfs);
    } catch (const Out&) {
      c.label("budget");
      return;
    }
    if (!sat) {
      const std::set<Formula> ex = solver.GetExplanation();
      check_explanation(ex, k.fs, k.dfs, now, k.points, c);
      c.label("unsat");
      if (branches > 0 || ex.size() < k.fs.size()) c.nontrivial(c.desc_);
      continue;
    }
    c.label("delta-sat");
    const Box& m = solver.GetModel();
    no_growth(now.box, m, c);
    c.check(!m.empty(), "the model is empty");
    if (stuck) {
      c.label("undividable");
      continue;
    }
    // corners and the middle of the model
    for (int t = 0; t < 4; ++t) {
      std::vector<double> q;
      for (int i = 0; i < m.size(); ++i)
        q.push_back(t == 0   ? m[i].mid()
                    : t == 1 ? m[i].lb()
                    : t == 2 ? m[i].ub()
                             : s.chance(1, 2) ? m[i].lb() : m[i].ub());
      for (size_t i = 0; i < k.fs.size(); ++i) {
        const Formula& d = k.dfs[i];
        const Formula in = is_negation(d) ? get_operand(d) : d;
        const F rf = reflect(in, now.vs);
        // IBEX takes x^y with a variable exponent for positive x only.
        auto varpow = [](const Node& n) {
          return n.op == Op::Pow &&
                 (n.a[1]->op != Op::Const || n.a[1]->style != 0);
        };
        if (has_op(rf->e[0], varpow) || has_op(rf->e[1], varpow)) continue;
        const Result v = evaluate(mk(Op::Sub, {rf->e[0], rf->e[1]}), q);
        if (!v.defined || !v.reliable) continue;
        F r = k.fs[i];
        bool neg = is_negation(d);
        FOp op = rf->op;
        const double w = delta * (1 + 1e-6) + v.tol;
        bool ok = true;
        switch (op) {
          case FOp::Eq: ok = neg || std::fabs(v.value) <= w; break;
          case FOp::Ne: ok = !neg || std::fabs(v.value) <= w; break;
          case FOp::Lt:
          case FOp::Le: ok = neg ? v.value >= -w : v.value <= w; break;
          default: ok = neg ? v.value <= w : v.value >= -w; break;
        }
        c.check(ok, cat("the model's point ", show(q), " violates ",
                        show(k.fs[i]), " by more than delta: lhs - rhs = ",
                        v.value));
      }
    }
    if (k.fs.size() >= 2) c.nontrivial(c.desc_);
  }
}

PBT_TARGET("C24", chain_explanation, 20000,
           "a chain of 3 to 7 constraints over 2 to 6 variables that is "
           "infeasible as a whole but feasible without any one of them, next to "
           "other constraints, in any order, given to TheorySolver::CheckSat or "
           "pruned by a fixpoint; the explanation names every constraint of the "
           "chain (otherwise a known point satisfies it); non-trivial: refuted "
           "with at least 4 constraints in the chain") {
  const Chain ch = gen_chain(s, s.range(2, 6));
  Scene sc = ch.sc;
  std::vector<F> fs = ch.fs;
  std::vector<std::vector<double>> points = ch.points;
  // Others: about a separate variable, or satisfied by all the points.
  const int others = s.range(0, 3);
  if (others > 0) {
    const int z = static_cast<int>(sc.p.size());
    sc.vs.v.emplace_back("z", Variable::Type::CONTINUOUS);
    sc.type.push_back(Variable::Type::CONTINUOUS);
    sc.p.push_back(1);
    sc.lb.push_back(-5);
    sc.ub.push_back(5);
    sc.box.Add(sc.vs.v[z]);
    sc.box[z] = Box::Interval{-5, 5};
    for (auto& q : points) q.push_back(1);
    for (int i = 0; i < others; ++i) {
      F f;
      if (s.chance(1, 2)) {
        const N e = s.chance(1, 2) ? mk(Op::Mul, {var(z), var(z)}) : var(z);
        f = rel(s.chance(1, 2) ? FOp::Ge : FOp::Eq, e, cst(1));
      } else {
        const int v = static_cast<int>(s.draw(z));
        f = rel(FOp::Le, s.chance(1, 2) ? mk(Op::Sub, {var(v), var(z)}) : var(v),
                cst(sc.ub[v] - 1));
      }
      bool all = true;
      for (const auto& q : points) all = all && evaluate(f, q).value;
      if (all) fs.insert(fs.begin() + s.draw(fs.size() + 1), f);
    }
  }
  std::vector<Formula> dfs;
  std::string text;
  for (const F& f : fs) {
    dfs.push_back(build(f, sc.vs));
    if (is_true(dfs.back()) || is_false(dfs.back())) c.discard();
    text += show(f) + "; ";
  }
  const int shape = static_cast<int>(s.draw(3));
  c.describe(cat(text, "shape ", shape, " on ", show_box(sc)));
  Config config;
  std::set<Formula> ex;
  if (shape < 2) {
    struct Out {};
    int budget = 500;
    config.mutable_use_worklist_fixpoint() = s.chance(1, 3);
    config.mutable_brancher() = [&budget](const Box& b, const DynamicBitset& a,
                                          Box* l, Box* r) {
      if (--budget < 0) throw Out{};
      return BranchLargestFirst(b, a, l, r);
    };
    TheorySolver solver{config};
    try {
      if (solver.CheckSat(sc.box, dfs)) {
        // Equal up to delta along the chain.
        c.label("delta-sat");
        return;
      }
    } catch (const Out&) {
      c.label("budget");
      return;
    }
    ex = solver.GetExplanation();
  } else {
    std::vector<Contractor> v;
    for (const Formula& f : dfs)
      v.push_back(make_contractor_ibex_fwdbwd(f, sc.box, config));
    const Contractor ctc =
        s.chance(1, 2)
            ? make_contractor_worklist_fixpoint(CtcGen::term(3), v, config)
            : make_contractor_fixpoint(CtcGen::term(4), v, config);
    ContractorStatus cs(sc.box);
    ctc.Prune(&cs);
    if (!cs.box().empty()) {
      c.label("not empty");
      return;
    }
    ex = cs.Explanation();
  }
  c.label("refuted");
  check_explanation(ex, fs, dfs, sc, points, c);
  if (ch.fs.size() >= 4) c.nontrivial(c.desc_);
}
