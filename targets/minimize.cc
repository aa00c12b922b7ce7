// C30 optimisation.
#include <cmath>
#include <limits>
#include <sstream>

#include "ast.h"
#include "dreal/api/api.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
struct Budget {};

// A constraint with a margin: how far the formula is from being false (closed
// sets only); NaN: not known.
double slack(const F& f, bool pos, const std::vector<double>& q) {
  switch (f->op) {
    case FOp::And:
    case FOp::Or: {
      const bool conj = (f->op == FOp::And) == pos;
      double r = conj ? kInf : -kInf;
      for (const F& g : f->f) {
        const double t = slack(g, pos, q);
        if (std::isnan(t)) return t;
        r = conj ? std::min(r, t) : std::max(r, t);
      }
      return r;
    }
    case FOp::Not: return slack(f->f[0], !pos, q);
    default: break;
  }
  const Result v = evaluate(mk(Op::Sub, {f->e[0], f->e[1]}), q);
  if (!v.defined || !v.reliable) return std::numeric_limits<double>::quiet_NaN();
  double t = 0;
  switch (f->op) {
    case FOp::Lt:
    case FOp::Le: t = -v.value; break;
    case FOp::Gt:
    case FOp::Ge: t = v.value; break;
    case FOp::Eq: return pos ? -std::fabs(v.value) : std::fabs(v.value);
    default: abort();
  }
  return (pos ? t : -t) - v.tol;
}

// The infimum has to be attained: only total continuous functions.
bool partial(const N& e) {
  return has_op(e, [](const Node& n) {
    switch (n.op) {
      case Op::Log: case Op::Sqrt: case Op::Tan: case Op::Asin: case Op::Acos:
      case Op::Atan2: case Op::Div: return true;
      case Op::Pow: {
        const N& k = n.a[1];
        return k->op != Op::Const || k->style != 0 || k->c != std::floor(k->c) || k->c < 1;
      }
      default: return false;
    }
  });
}
struct Problem {
  Vars vs;
  int n{0};
  std::vector<double> p, lb, ub;
  std::vector<bool> is_int;
  std::vector<F> fs;
  std::vector<N> objectives;
  bool equality{false};
};

N part(Src& s, int n) {
  const N x = var(static_cast<int>(s.draw(n)));
  switch (s.draw(9)) {
    case 0: return x;
    case 1: return mk(Op::Mul, {x, x});
    case 2: return mk(Op::Sin, {mk(Op::Mul, {cst(2), x})});
    case 3: return mk(Op::Mul, {cst(gen_const(s, false)), x});
    case 4: return mk(Op::Sub, {mk(Op::Pow, {x, cst(3)}), mk(Op::Mul, {cst(2), x})});
    case 5: return mk(Op::Cos, {mk(Op::Mul, {cst(3), x})});
    case 6: return mk(Op::Mul, {x, var(static_cast<int>(s.draw(n)))});
    case 7: return mk(Op::Abs, {x});
    default: {
      const N d = mk(Op::Sub, {x, cst(gen_const(s, false))});
      return mk(Op::Mul, {d, d});
    }
  }
}
N term(Src& s, int n) {
  if (s.chance(1, 5)) {
    GenOpt o;
    o.nvars = n;
    o.max_terms = 4;
    o.max_size = 12;
    o.ite = false;
    return gen_expr(s, o);
  }
  N e = part(s, n);
  const int k = s.range(0, 2);
  for (int i = 0; i < k; ++i)
    e = mk(s.chance(2, 3) ? Op::Add : Op::Sub, {e, part(s, n)});
  return e;
}
// A closed inequality that holds at p.
F atom(Src& s, const Problem& pr, bool want) {
  for (int t = 0; t < 6; ++t) {
    const N e = term(s, pr.n);
    bool built;
    try_build(e, pr.vs, &built);
    if (!built) continue;
    const Result r = evaluate(e, pr.p);
    if (!r.defined || !r.reliable || std::fabs(r.value) > 1e4 || partial(e)) continue;
    static const std::vector<double> ms = {1, 0.25, 0.05, 4, 10};
    const double m = s.pick(ms) + 4 * r.tol;
    switch (s.draw(4)) {
      case 0: return rel(FOp::Le, e, cst(want ? r.value + m : r.value - m));
      case 1: return rel(FOp::Ge, e, cst(want ? r.value - m : r.value + m));
      case 2:
        return conn(FOp::Not, {rel(FOp::Gt, e, cst(want ? r.value + m : r.value - m))});
      default: return rel(FOp::Ge, cst(want ? r.value + m : r.value - m), e);
    }
  }
  const int v = static_cast<int>(s.draw(pr.n));
  return want ? rel(FOp::Le, var(v), cst(pr.p[v] + 1))
              : rel(FOp::Le, var(v), cst(pr.p[v] - 1));
}
F gen(Src& s, const Problem& pr, int depth, bool want) {
  if (depth == 0 || s.chance(1, 2)) return atom(s, pr, want);
  const bool conj = s.chance(1, 3);
  const bool a = conj ? want : want && s.chance(1, 2);
  const F f = gen(s, pr, depth - 1, conj ? want || s.chance(1, 2) : a);
  const F g = gen(s, pr, depth - 1, conj ? want : want ? true : false);
  return conn(conj ? FOp::And : FOp::Or, {f, g});
}
}  // namespace

PBT_TARGET("C30", minimize, 2500,
           "a random objective (sometimes two) under 0 to 3 random closed constraints over "
           "1 to 3 bounded variables, feasible at a planted point, in a random "
           "configuration, through Minimize(), Context::Minimize, Context::Maximize; a model must be in the bounds, satisfy the "
           "weakened constraints, and no point that is feasible with margin delta "
           "(planted, sampled, found by a local search with the harness's own evaluator) "
           "may have an objective lower by more than 2 delta; no answer only if the planted "
           "point is infeasible; non-trivial: at least one constraint and a model") {
  Problem pr;
  pr.n = s.weighted({3, 3, 1}) + 1;
  static const std::vector<double> ms = {1, 0.5, 2, 4, 0.25, 8};
  for (int i = 0; i < pr.n; ++i) {
    const bool in = s.chance(1, 8);
    pr.is_int.push_back(in);
    pr.vs.v.emplace_back(cat("x", i), in ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS);
    double p = s.range(-8, 8) / 4.0, l = p - s.pick(ms), u = p + s.pick(ms);
    if (in) p = std::floor(p), l = std::floor(l), u = std::ceil(u);
    pr.p.push_back(p);
    pr.lb.push_back(l);
    pr.ub.push_back(u);
  }
  const int k = s.range(0, 3);
  for (int i = 0; i < k; ++i) pr.fs.push_back(gen(s, pr, s.range(0, 2), true));
  const int no = s.chance(1, 8) ? 2 : 1;
  for (int i = 0; i < no; ++i) {
    N e = term(s, pr.n);
    bool built;
    try_build(e, pr.vs, &built);
    const Result r = evaluate(e, pr.p);
    if (!built || !r.defined || !r.reliable || partial(e)) e = var(0);
    pr.objectives.push_back(e);
  }
  Config cfg;
  int budget = 500;
  bool stuck = false;
  static const std::vector<double> deltas = {0.1, 0.01, 0.5, 0.03};
  const double delta = s.pick(deltas);
  cfg.mutable_precision() = delta;
  std::string text = cat("delta ", delta);
  if (s.chance(1, 3)) {
    cfg.mutable_use_local_optimization() = true;
    text += ", local optimization";
  }
  if (s.chance(1, 6)) {
    cfg.mutable_use_polytope() = true;
    text += ", polytope";
  }
  if (s.chance(1, 6)) {
    cfg.mutable_use_polytope_in_forall() = true;
    text += ", polytope in forall";
  }
  if (s.chance(1, 6)) {
    cfg.mutable_use_worklist_fixpoint() = true;
    text += ", worklist";
  }
  if (s.chance(1, 8)) {
    cfg.mutable_number_of_jobs() = 2;
    text += ", 2 jobs";
  } else {
    cfg.mutable_brancher() = [&](const Box& b, const DynamicBitset& a, Box* l, Box* r) {
      if (--budget < 0) throw Budget{};
      return BranchLargestFirst(b, a, l, r);
    };
  }
  const bool api = no == 1 && s.chance(1, 3);
  if (api) text += " (API)";
  std::vector<Formula> dfs;
  for (const F& f : pr.fs) {
    bool built;
    dfs.push_back(try_build(f, pr.vs, &built));
    if (!built) c.discard();
    text += "; " + show(f);
    const BResult r = evaluate(f, pr.p);
    if (!r.defined || !r.reliable || !r.value) c.discard();
  }
  std::vector<Expression> objs;
  for (const N& e : pr.objectives) {
    objs.push_back(build(e, pr.vs));
    text += "; minimize " + show(e);
  }
  for (int i = 0; i < pr.n; ++i)
    text += cat("; x", i, pr.is_int[i] ? " int in [" : " in [", pr.lb[i], ",", pr.ub[i], "]");
  c.describe(text + " feasible at " + show(pr.p));
  // Candidates: feasible with margin delta, low objective(s).
  std::vector<std::vector<double>> start;
  start.push_back(pr.p);
  for (int t = 0; t < 12; ++t) {
    std::vector<double> q;
    for (int i = 0; i < pr.n; ++i) {
      double x = pr.lb[i] + (pr.ub[i] - pr.lb[i]) * static_cast<double>(s.draw(33)) / 32;
      if (pr.is_int[i]) x = std::floor(x);
      q.push_back(x);
    }
    start.push_back(q);
  }
  const bool assert_bounds = s.chance(1, 2);

  const bool done = pbt::limited(c, 2.5, [&](Ctx& c) {
    optional<Box> m;
    try {
      std::vector<Formula> all = dfs;
      if (api || assert_bounds)
        for (int i = 0; i < pr.n; ++i) {
          all.push_back(pr.lb[i] <= pr.vs.v[i]);
          all.push_back(pr.vs.v[i] <= pr.ub[i]);
        }
      if (api) {
        Formula f = Formula::True();
        for (const Formula& d : all) f = f && d;
        if (pr.n % 2) {
          m = Minimize(objs[0], f, cfg);
        } else {
          Box b;
          if (Minimize(objs[0], f, cfg, &b)) m = b;
        }
      } else {
        Context x{cfg};
        for (int i = 0; i < pr.n; ++i) {
          if (assert_bounds) x.DeclareVariable(pr.vs.v[i]);
          else x.DeclareVariable(pr.vs.v[i], pr.lb[i], pr.ub[i]);
        }
        for (const Formula& d : all) x.Assert(d);
        if (objs.size() == 1 && pr.n % 2) x.Maximize(-objs[0]);
        else if (objs.size() == 1) x.Minimize(objs[0]);
        else x.Minimize(objs);
        m = x.CheckSat();
      }
    } catch (const Budget&) {
      c.label("budget");
      return;
    }
    if (!m) {
      c.label("none");
      c.fail("no solution, but the planted point is feasible");
    }
    c.label("model");
    c.check(m->size() == pr.n, cat("the model has ", m->size(), " variables"));
    for (int i = 0; i < pr.n; ++i) {
      const Box::Interval& iv = (*m)[pr.vs.v[i]];
      c.check(pr.lb[i] <= iv.lb() && iv.ub() <= pr.ub[i],
              cat("the model has x", i, " in ", show_iv(iv), ", outside its bounds"));
      if (iv.lb() < iv.ub() && !iv.is_bisectable()) stuck = true;
    }
    if (stuck) {
      c.label("undividable");
      return;
    }
    if (!pr.fs.empty()) c.nontrivial(c.desc_);
    Box full;
    for (int i = 0; i < pr.n; ++i) {
      full.Add(pr.vs.v[i]);
      full[i] = (*m)[pr.vs.v[i]];
    }
    std::vector<std::vector<double>> pts = points_of(full, 5);
    for (const std::vector<double>& q : pts)
      for (const F& f : pr.fs)
        c.check(weak(f, true, q, delta),
                cat("the point ", show(q), " of the model violates ", show(f),
                    " even weakened by delta"));
    // Objective values of a point; false: not known.
    auto value = [&](const std::vector<double>& q, std::vector<double>* r, double* tol) {
      r->clear();
      for (const N& e : pr.objectives) {
        const Result v = evaluate(e, q);
        if (!v.defined || !v.reliable) return false;
        r->push_back(v.value);
        *tol = std::max(*tol, v.tol);
      }
      return true;
    };
    auto feasible = [&](const std::vector<double>& q) {
      for (int i = 0; i < pr.n; ++i) {
        // Domains of integer variables are exact, other bounds are constraints.
        const double d = pr.is_int[i] && !api ? 0 : delta;
        if (!(q[i] >= pr.lb[i] + d && q[i] <= pr.ub[i] - d)) return false;
      }
      for (const F& f : pr.fs) {
        const double t = slack(f, true, q);
        if (!(t >= delta)) return false;
      }
      return true;
    };
    std::vector<std::pair<std::vector<double>, double>> got;  // of the model
    std::vector<double> best;                                  // values to beat
    double tol = 0;
    for (const std::vector<double>& q : pts) {
      std::vector<double> v;
      if (!value(q, &v, &tol)) continue;
      // the point of the model that is worst
      if (best.empty()) best = v;
      if (pr.objectives.size() == 1) best[0] = std::max(best[0], v[0]);
    }
    if (best.empty()) return;
    auto beats = [&](const std::vector<double>& v, double by) {
      for (size_t i = 0; i < v.size(); ++i)
        if (!(v[i] < best[i] - by)) return false;
      return true;
    };
    bool some = false;
    for (std::vector<double> q : start) {
      std::vector<double> v;
      double t = 0;
      if (!feasible(q)) {
        // towards the planted point or the middle of the model
        for (double w : {0.5, 0.25, 0.1}) {
          std::vector<double> r = q;
          for (int i = 0; i < pr.n; ++i) {
            r[i] = pr.p[i] + (q[i] - pr.p[i]) * w;
            if (pr.is_int[i]) r[i] = std::floor(r[i]);
          }
          if (feasible(r)) {
            q = r;
            break;
          }
        }
        if (!feasible(q)) continue;
      }
      some = true;
      if (!value(q, &v, &t)) continue;
      // descend along the axes
      double sum = 0;
      for (double y : v) sum += y;
      double h = 1;
      for (int it = 0; it < 60 && h > 1e-3; ++it) {
        bool better = false;
        for (int i = 0; i < pr.n; ++i)
          for (int sg : {-1, 1}) {
            std::vector<double> r = q, w;
            if (pr.is_int[i]) {
              if (h < 0.5) continue;
              r[i] += sg;
            } else {
              r[i] += sg * h;
            }
            double t2 = 0;
            if (!feasible(r) || !value(r, &w, &t2)) continue;
            double sm = 0;
            for (double y : w) sm += y;
            if (sm < sum) q = r, sum = sm, v = w, t = t2, better = true;
          }
        if (!better) h /= 2;
      }
      c.check(!beats(v, 2 * delta * (1 + 1e-6) + t + tol),
              cat("the model ", show(pts[0]), " has the objective ", best[0],
                  ", but the feasible point ", show(q), " has ", v[0]));
    }
    if (some) c.label("compared");
  });
  if (!done) c.label("time");
}
