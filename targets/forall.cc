// C29 universally quantified constraints.
#include <cmath>
#include <limits>
#include <sstream>

#include "ast.h"
#include "dreal/api/api.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
#include "enclose.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using enclose::Iv;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
struct Budget {};

void configure(Src& s, Config* cfg, double* delta, int* budget,
               std::string* text) {
  static const std::vector<double> deltas = {0.01, 0.1, 0.5, 0.001};
  *delta = s.pick(deltas);
  Config& c = *cfg;
  c.mutable_precision() = *delta;
  *text = cat("delta ", *delta);
  if (s.chance(1, 6)) {
    c.mutable_use_polytope() = true;
    *text += ", polytope";
  }
  if (s.chance(1, 6)) {
    c.mutable_use_polytope_in_forall() = true;
    *text += ", polytope in forall";
  }
  if (s.chance(1, 6)) {
    c.mutable_use_worklist_fixpoint() = true;
    *text += ", worklist";
  }
  if (s.chance(1, 3)) {
    c.mutable_use_local_optimization() = true;
    *text += ", local optimization";
  }
  c.mutable_stack_left_box_first() = s.chance(1, 2);
  if (s.chance(1, 8)) {
    c.mutable_number_of_jobs() = 2;
    *text += ", 2 jobs";
  } else {
    c.mutable_brancher() = [budget](const Box& b, const DynamicBitset& a,
                                           Box* l, Box* r) {
      if (--*budget < 0) throw Budget{};
      return BranchLargestFirst(b, a, l, r);
    };
  }
}

// x0 ... are existential, the variables from nx on universal.
struct Game {
  Vars vs;
  int nx{0}, ny{0};
  int nb{0};                    // Boolean variables, after the others
  std::vector<double> p;        // values of the existential variables
  std::vector<double> lb, ub;   // of all variables
  std::vector<bool> is_int;
  std::vector<std::vector<Iv>> cells;  // p times a subdivision of the domain
};

Game gen_game(Src& s) {
  Game g;
  g.nx = s.range(1, 2);
  g.ny = s.weighted({3, 1}) + 1;
  static const std::vector<double> ms = {1, 0.5, 2, 0.25, 4, 8, 0};
  for (int i = 0; i < g.nx + g.ny; ++i) {
    const bool in = s.chance(1, 10);
    g.is_int.push_back(in);
    g.vs.v.emplace_back(cat(i < g.nx ? "x" : "y", i),
                        in ? Variable::Type::INTEGER : Variable::Type::CONTINUOUS);
    double p = s.range(-8, 8) / 4.0, l = p - s.pick(ms), u = p + s.pick(ms);
    if (in) p = std::floor(p), l = std::floor(l), u = std::ceil(u);
    g.p.push_back(p);
    g.lb.push_back(l);
    g.ub.push_back(u);
  }
  const int k = g.ny == 1 ? 24 : 8;
  for (int i = 0; i < (g.ny == 1 ? k : k * k); ++i) {
    std::vector<Iv> c;
    for (int j = 0; j < g.nx; ++j) c.push_back(Iv{g.p[j], g.p[j], true});
    for (int j = 0; j < g.ny; ++j) {
      const int t = j == 0 ? i % k : i / k;
      const long double l = g.lb[g.nx + j], u = g.ub[g.nx + j];
      c.push_back(enclose::out(l + (u - l) * t / k, l + (u - l) * (t + 1) / k));
    }
    g.cells.push_back(c);
  }
  return g;
}
using Cells = std::vector<int>;

struct BodyGen {
  Src& s;
  const Game& g;
  double delta;
  bool ite = false;
  bool hold = true;   // false: bounds may be violated in a part of the domain
  int leaves = 0;

  N part(int first, int n) {
    const N x = var(first + static_cast<int>(s.draw(n)));
    switch (s.draw(9)) {
      case 0: return x;
      case 1: return mk(Op::Mul, {x, x});
      case 2: return mk(Op::Sin, {x});
      case 3: return mk(Op::Mul, {cst(gen_const(s, false)), x});
      case 4: return mk(Op::Sub, {mk(Op::Pow, {x, cst(3)}), x});
      case 5: return mk(Op::Cos, {mk(Op::Mul, {cst(3), x})});
      case 6: return mk(Op::Exp, {x});
      case 7: return mk(Op::Sub, {mk(Op::Mul, {x, x}), x});
      default: return mk(Op::Add, {x, cst(gen_const(s, false))});
    }
  }
  N term() {
    if (ite && s.chance(1, 3)) {
      const N a = part(0, g.nx + g.ny), b = part(0, g.nx + g.ny);
      static const std::vector<FOp> ops = {FOp::Le, FOp::Lt, FOp::Ge, FOp::Gt};
      const N c = mk(Op::Ite, {plain(), plain()},
                     rel(s.pick(ops), a, s.chance(1, 2) ? b : cst(gen_const(s, false))));
      switch (s.draw(3)) {
        case 0: return c;
        case 1: return mk(Op::Add, {c, part(0, g.nx + g.ny)});
        default: return mk(Op::Mul, {c, part(0, g.nx + g.ny)});
      }
    }
    return plain();
  }
  N plain() {
    switch (s.draw(8)) {
      case 6: {
        // the same variable again and again
        N e = part(g.nx, g.ny);
        const int n = s.range(2, 4);
        for (int i = 0; i < n; ++i)
          e = mk(s.chance(1, 2) ? Op::Add : Op::Sub, {e, part(0, s.chance(3, 4) ? 1 : g.nx)});
        return e;
      }
      case 0: return mk(Op::Sub, {part(0, g.nx), part(g.nx, g.ny)});
      case 1: return mk(Op::Mul, {part(0, g.nx), part(g.nx, g.ny)});
      case 2:
        return mk(Op::Add, {mk(Op::Mul, {part(0, g.nx), part(g.nx, g.ny)}),
                            part(g.nx, g.ny)});
      case 3: {
        const N d = mk(Op::Sub, {part(0, g.nx), part(g.nx, g.ny)});
        return mk(Op::Mul, {d, d});
      }
      case 4:
        return mk(Op::Add, {mk(Op::Mul, {part(0, g.nx), part(g.nx, g.ny)}),
                            mk(Op::Mul, {part(0, g.nx), part(g.nx, g.ny)})});
      case 5: return s.chance(2, 3) ? part(g.nx, g.ny) : part(0, g.nx);
      default: {
        GenOpt o;
        o.nvars = g.nx + g.ny;
        o.max_terms = 5;
        o.max_size = 16;
        o.ite = false;
        return gen_expr(s, o);
      }
    }
  }
  // e <= c in one of several forms
  F at_most(const N& e, double c) {
    const bool strict = s.chance(1, 4);
    switch (s.draw(5)) {
      case 0: return rel(strict ? FOp::Gt : FOp::Ge, cst(c), e);
      case 1: return conn(FOp::Not, {rel(strict ? FOp::Ge : FOp::Gt, e, cst(c))});
      case 2: return rel(FOp::Ge, mk(Op::Neg, {e}), cst(-c));
      case 3: return rel(FOp::Le, mk(Op::Sub, {e, cst(c)}), cst(0));
      default: return rel(strict ? FOp::Lt : FOp::Le, e, cst(c));
    }
  }
  // Bounds of a random term on the cells.
  bool bounds(const Cells& cs, N* e, std::vector<Iv>* r) {
    for (int t = 0; t < 6; ++t) {
      *e = term();
      bool built;
      try_build(*e, g.vs, &built);
      if (!built) continue;
      r->clear();
      for (int c : cs) {
        r->push_back(enclose::enclose(*e, g.cells[c]));
        if (!r->back().ok || std::fabs(r->back().u) > 1e3 ||
            std::fabs(r->back().l) > 1e3) {
          r->clear();
          break;
        }
      }
      if (!r->empty()) return true;
    }
    return false;
  }
  static double up(long double x) {
    return std::nextafter(static_cast<double>(x), kInf);
  }
  F leaf(const Cells& cs) {
    ++leaves;
    N e;
    std::vector<Iv> r;
    if (cs.empty() || !bounds(cs, &e, &r)) {
      const int v = g.nx + static_cast<int>(s.draw(g.ny));
      return rel(FOp::Le, var(v), cst(g.ub[v]));
    }
    long double u = r[0].u, l = r[0].u;
    for (const Iv& i : r) u = std::max(u, i.u), l = std::min(l, i.u);
    static const std::vector<double> ms = {0, 0.3, 1, 2, 50, 0.01};
    double c = up(u + s.pick(ms) * delta);
    if (!hold) {
      static const std::vector<double> ts = {0.02, 0.1, 0.3, 0.6};
      c = static_cast<double>(u - (u - l) * s.pick(ts));
      if (s.chance(1, 4)) c = static_cast<double>(u - 3 * delta);
    }
    return at_most(e, c);
  }
  // True on all of the cells.
  F gen(int depth, const Cells& cs) {
    if (depth == 0 || cs.empty() || s.chance(1, 3)) return leaf(cs);
    switch (s.draw(4)) {
      case 0: {
        const F a = gen(depth - 1, cs);
        return conn(FOp::And, {a, gen(depth - 1, cs)});
      }
      case 1: {
        // a disjunction: some cells each
        N e;
        std::vector<Iv> r;
        if (!bounds(cs, &e, &r)) return leaf(cs);
        const double c = up(r[s.draw(r.size())].u);
        Cells rest;
        for (size_t i = 0; i < cs.size(); ++i)
          if (!(r[i].u <= c)) rest.push_back(cs[i]);
        ++leaves;
        const F a = at_most(e, c);
        if (s.chance(1, 3))
          return conn(FOp::Imply, {conn(FOp::Not, {a}), gen(depth - 1, rest)});
        return conn(FOp::Or, {a, gen(depth - 1, rest)});
      }
      case 2:
        return conn(FOp::Not, {conn(FOp::Or, {conn(FOp::Not, {gen(depth - 1, cs)}),
                                              conn(FOp::Not, {gen(depth - 1, cs)})})});
      default: {
        // a premise that does not hold in some cells
        N e;
        std::vector<Iv> r;
        if (!bounds(cs, &e, &r)) return leaf(cs);
        const double c = up(r[s.draw(r.size())].u);
        Cells rest;
        for (size_t i = 0; i < cs.size(); ++i)
          if (!(r[i].u <= c)) rest.push_back(cs[i]);
        ++leaves;
        return conn(FOp::Imply, {rel(FOp::Gt, e, cst(c)), gen(depth - 1, rest)});
      }
    }
  }
  F quantified(int depth) {
    Cells all;
    for (size_t i = 0; i < g.cells.size(); ++i) all.push_back(static_cast<int>(i));
    const F body = gen(depth, all);
    std::vector<F> fs, in;
    std::vector<int> qv;
    const bool imply = s.chance(1, 2);
    for (int j = g.nx; j < g.nx + g.ny; ++j) {
      qv.push_back(j);
      const F l = rel(FOp::Ge, var(j), cst(g.lb[j])),
              u = rel(FOp::Le, var(j), cst(g.ub[j]));
      if (imply) {
        in.push_back(l);
        in.push_back(u);
      } else {
        fs.push_back(s.chance(1, 2) ? conn(FOp::Not, {l})
                                    : rel(FOp::Lt, var(j), cst(g.lb[j])));
        fs.push_back(rel(FOp::Gt, var(j), cst(g.ub[j])));
      }
    }
    if (imply) return forall_(qv, conn(FOp::Imply, {conn(FOp::And, in), body}));
    fs.push_back(body);
    return forall_(qv, conn(FOp::Or, fs));
  }
};

// Is the condition of an if-then-else within delta of changing?
bool near_switch(const F& f, const std::vector<double>& q, double delta);
bool near_switch(const N& n, const std::vector<double>& q, double delta) {
  if (n->cond) {
    std::vector<F> todo = {n->cond};
    while (!todo.empty()) {
      const F f = todo.back();
      todo.pop_back();
      todo.insert(todo.end(), f->f.begin(), f->f.end());
      if (!is_rel(f->op)) continue;
      const Result v = evaluate(mk(Op::Sub, {f->e[0], f->e[1]}), q);
      if (!v.defined || !v.reliable) return true;
      if (std::fabs(v.value) <= delta * (1 + 1e-6) + v.tol) return true;
    }
    if (near_switch(n->cond, q, delta)) return true;
  }
  for (const N& a : n->a)
    if (near_switch(a, q, delta)) return true;
  return false;
}
bool near_switch(const F& f, const std::vector<double>& q, double delta) {
  for (const N& e : f->e)
    if (near_switch(e, q, delta)) return true;
  for (const F& g : f->f)
    if (near_switch(g, q, delta)) return true;
  return false;
}

// The weakened formula at a point; quantified variables over `ys`.
bool weak_q(const F& f, const Game& g, std::vector<double> q, double delta,
            const std::vector<std::vector<double>>& ys, std::vector<double>* ce) {
  if (f->op == FOp::And) {
    for (const F& h : f->f)
      if (!weak_q(h, g, q, delta, ys, ce)) return false;
    return true;
  }
  if (f->op == FOp::Or) {
    for (const F& h : f->f)
      if (weak_q(h, g, q, delta, ys, ce)) return true;
    return false;
  }
  if (f->op != FOp::Forall) return weak(f, true, q, delta);
  for (const std::vector<double>& y : ys) {
    for (int j = 0; j < g.ny; ++j) q[g.nx + j] = y[j];
    if (!weak(f->f[0], true, q, delta) && !near_switch(f->f[0], q, delta)) {
      *ce = q;
      return false;
    }
  }
  return true;
}
std::vector<std::vector<double>> grid(const Game& g) {
  std::vector<std::vector<double>> axes;
  for (int j = g.nx; j < g.nx + g.ny; ++j) {
    std::vector<double> a;
    const int k = g.ny == 1 ? 64 : 12;
    for (int i = 0; i <= k; ++i) {
      double y = g.lb[j] + (g.ub[j] - g.lb[j]) * i / k;
      if (g.is_int[j]) y = std::floor(y);
      a.push_back(y);
    }
    axes.push_back(a);
  }
  std::vector<std::vector<double>> r;
  for (double y : axes[0]) {
    if (g.ny == 1) {
      r.push_back({y});
    } else {
      for (double z : axes[1]) r.push_back({y, z});
    }
  }
  return r;
}
}  // namespace

PBT_TARGET("C29", exist_forall, 3000,
           "exists x in a box: conjunctions of up to 2 formulas 'forall y in [a, b]: "
           "psi(x, y)' and constraints on x; psi is a random Boolean combination of "
           "inequalities, proved (own interval arithmetic on a subdivision of the domain) "
           "to hold for a planted x, or violated in a part of the domain; random "
           "configurations; unsat: not when psi was proved; delta-sat: the points of "
           "the model against a grid of y, weakened by delta; non-trivial: at least 2 "
           "atoms below the quantifier") {
  Game g = gen_game(s);
  Config cfg;
  double delta;
  int budget = 400;
  bool stuck = false;
  std::string text;
  configure(s, &cfg, &delta, &budget, &text);
  std::vector<F> fs, seen;
  std::vector<Formula> dfs;
  bool planted = true;
  int atoms = 0;
  const int n = s.range(1, 2);
  const bool ite = s.chance(1, 5);
  bool escapes = false;
  for (int i = 0; i < n; ++i) {
    BodyGen b{s, g, delta};
    b.ite = ite;
    bool needed = true;  // at the planted point
    F e = nullptr;       // or something else
    if (s.chance(1, 3)) {
      escapes = true;
      needed = s.chance(1, 2);
      if (s.chance(1, 2)) {
        e = bvar(g.nx + g.ny + g.nb++);
        g.vs.v.emplace_back(cat("b", g.nb), Variable::Type::BOOLEAN);
        g.p.push_back(!needed);
        if (s.chance(1, 3)) {
          e = conn(FOp::Not, {e});
          g.p.back() = needed;
        }
      } else {
        const int v = static_cast<int>(s.draw(g.nx));
        const bool below = s.chance(1, 2);
        const double at = g.p[v] + (below == needed ? -1 : 1) * s.range(1, 4) / 8.0;
        e = rel(below ? FOp::Le : FOp::Ge, var(v), cst(at));
      }
    }
    if (s.chance(1, needed ? 3 : 2)) {
      b.hold = false;
      if (needed) planted = false;
    }
    const F f = b.quantified(s.range(0, 2));
    fs.push_back(!e ? f : s.chance(1, 2) ? conn(FOp::Or, {f, e}) : conn(FOp::Or, {e, f}));
    atoms += b.leaves;
  }
  if (s.chance(1, 3)) {
    GenOpt o;
    o.nvars = g.nx;
    o.max_terms = 4;
    o.max_size = 10;
    o.ite = false;
    const F f = constraint_at(
        s, gen_expr(s, o), std::vector<double>(g.p.begin(), g.p.begin() + g.nx), true);
    if (f) fs.push_back(f);
  }
  if (s.chance(1, 3)) std::swap(fs.front(), fs.back());
  if (escapes && s.chance(4, 5))
    cfg.mutable_sat_default_phase() = Config::SatDefaultPhase::True;
  for (const F& f : fs) {
    bool built;
    dfs.push_back(try_build(f, g.vs, &built));
    if (!built) c.discard();
    seen.push_back(reflect(dfs.back(), g.vs));
    text += "; " + show(f);
  }
  for (int i = 0; i < g.nx; ++i)
    text += cat("; x", i, g.is_int[i] ? " int in [" : " in [", g.lb[i], ",", g.ub[i], "]");
  for (int i = g.nx; i < g.nx + g.ny; ++i) if (g.is_int[i]) text += cat("; x", i, " int");
  c.describe(text + (planted ? "; holds at " : "; around ") + show(g.p) +
             (escapes ? " (the last ones Boolean)" : ""));
  const bool done = pbt::limited(c, 2.0, [&](Ctx& c) {
    optional<Box> m;
    try {
      Context x{cfg};
      for (int i = 0; i < g.nx; ++i) x.DeclareVariable(g.vs.v[i], g.lb[i], g.ub[i]);
      for (int i = 0; i < g.nb; ++i) x.DeclareVariable(g.vs.v[g.nx + g.ny + i]);
      for (const Formula& d : dfs) x.Assert(d);
      m = x.CheckSat();
    } catch (const Budget&) {
      c.label("budget");
      return;
    } catch (const std::runtime_error& e) {
      // A quantified formula that does not hold cannot be used.
      const std::string what = e.what();
      if (!escapes || what.find("forall constraint is not supported") == what.npos)
        throw;
      c.label("refused");
      return;
    }
    if (atoms >= 2) c.nontrivial(c.desc_);
    if (!m) {
      c.label(planted ? "unsat" : "unsat, not planted");
      c.check(!planted, "unsat, but the planted point is a solution");
      return;
    }
    if (ite) c.label("if-then-else");
    c.label(planted ? "delta-sat" : "delta-sat, not planted");
    if (escapes) c.label("disjunction");
    c.check(m->size() == g.nx + g.nb, cat("the model has ", m->size(), " variables"));
    for (int i = 0; i < g.nx; ++i) {
      const Box::Interval& iv = (*m)[g.vs.v[i]];
      c.check(g.lb[i] <= iv.lb() && iv.ub() <= g.ub[i],
              cat("the model has x", i, " in ", show_iv(iv), ", outside its bounds"));
      if (iv.lb() < iv.ub() && !iv.is_bisectable()) stuck = true;
    }
    if (stuck) {
      c.label("undividable");
      return;
    }
    const std::vector<std::vector<double>> ys = grid(g);
    for (std::vector<double> q : points_of(*m, 5)) {
      q.insert(q.begin() + g.nx, g.ny, 0.0);
      for (const F& f : seen) {
        std::vector<double> ce;
        const bool ok = weak_q(f, g, q, delta, ys, &ce);
        c.check(ok,
                cat("the point ", show(q), " of the model ", show_iv((*m)[0]), " violates ", show(f),
                    " even weakened by delta at ", show(ce)));
      }
    }
  });
  if (!done) c.label("time");
}

namespace {
struct HStep {
  enum Kind { Assert, Push, Pop, Check, Precision } kind;
  int f{0};
  double delta{0};
};
}  // namespace

PBT_TARGET("C28", quantified_history, 1500,
           "random history of assertions (quantified and plain ones), pushes, pops, "
           "checks and changes of the precision on one Context; every verdict and model is "
           "checked against the assertions in scope and the current precision as in "
           "exist_forall; non-trivial: at least 2 checks with a quantified formula in scope") {
  Game g = gen_game(s);
  Config cfg;
  double delta;
  int budget = 400;
  bool stuck = false;
  std::string text;
  configure(s, &cfg, &delta, &budget, &text);
  std::vector<F> fs, seen;
  std::vector<Formula> dfs;
  std::vector<bool> holds;
  const int n = s.range(1, 3);
  for (int i = 0; i < n; ++i) {
    F f;
    bool hold = true;
    if (s.chance(3, 4)) {
      BodyGen b{s, g, delta};
      if (s.chance(1, 2)) b.hold = hold = false;
      f = b.quantified(s.range(0, 1));
    } else {
      GenOpt o;
      o.nvars = g.nx;
      o.max_terms = 4;
      o.max_size = 10;
      o.ite = false;
      f = constraint_at(s, gen_expr(s, o),
                        std::vector<double>(g.p.begin(), g.p.begin() + g.nx), true);
      if (!f) continue;
    }
    bool built;
    dfs.push_back(try_build(f, g.vs, &built));
    if (!built) c.discard();
    fs.push_back(f);
    seen.push_back(reflect(dfs.back(), g.vs));
    holds.push_back(hold);
    text += cat("\nf", dfs.size() - 1, ": ", show(f));
  }
  if (fs.empty()) c.discard();
  std::vector<HStep> steps;
  int depth = 0;
  const int len = s.range(3, 12);
  static const std::vector<double> ps = {0.01, 0.1, 1, 5, 0.001};
  for (int i = 0; i < len; ++i) {
    HStep st{HStep::Check};
    switch (s.weighted({4, 3, 1, 1, 1})) {
      case 0:
        st.kind = HStep::Assert;
        st.f = static_cast<int>(s.draw(fs.size()));
        text += cat("\nassert f", st.f);
        break;
      case 1: text += "\ncheck"; break;
      case 2:
        st.kind = HStep::Push;
        ++depth;
        text += "\npush";
        break;
      case 3:
        if (!depth) continue;
        st.kind = HStep::Pop;
        --depth;
        text += "\npop";
        break;
      default:
        st.kind = HStep::Precision;
        st.delta = s.pick(ps);
        text += cat("\nprecision ", st.delta);
        break;
    }
    steps.push_back(st);
  }
  steps.push_back(HStep{HStep::Check});
  text += "\ncheck\n";
  for (int i = 0; i < g.nx; ++i)
    text += cat("; x", i, g.is_int[i] ? " int in [" : " in [", g.lb[i], ",", g.ub[i], "]");
  for (int i = g.nx; i < g.nx + g.ny; ++i) if (g.is_int[i]) text += cat("; x", i, " int");
  c.describe(text + "; around " + show(g.p));
  const bool done = pbt::limited(c, 3.0, [&](Ctx& c) {
    const std::vector<std::vector<double>> ys = grid(g);
    int checks = 0;
    try {
      Context x{cfg};
      for (int i = 0; i < g.nx; ++i) x.DeclareVariable(g.vs.v[i], g.lb[i], g.ub[i]);
      std::vector<std::vector<int>> frames(1);
      for (const HStep& st : steps) {
        switch (st.kind) {
          case HStep::Assert:
            frames.back().push_back(st.f);
            x.Assert(dfs[st.f]);
            break;
          case HStep::Push:
            frames.emplace_back();
            x.Push(1);
            break;
          case HStep::Pop:
            frames.pop_back();
            x.Pop(1);
            break;
          case HStep::Precision:
            delta = st.delta;
            x.mutable_config().mutable_precision() = delta;
            break;
          case HStep::Check: {
            budget = 400;
            stuck = false;
            const optional<Box> m = x.CheckSat();
            {
              const Box& gm = x.get_model();
              c.check(m ? gm == *m : gm.empty(), "get_model() after a check");
            }
            std::set<int> in;
            for (const std::vector<int>& f : frames) in.insert(f.begin(), f.end());
            bool planted = true, quantified = false;
            for (int i : in) {
              planted = planted && holds[i];
              quantified = quantified || fs[i]->op == FOp::Forall;
            }
            if (quantified && ++checks == 2) c.nontrivial(c.desc_);
            if (!m) {
              c.label(planted ? "unsat" : "unsat, not planted");
              c.check(!planted, cat("check ", checks, ": unsat, but the planted point is a solution"));
              break;
            }
            c.label(planted ? "delta-sat" : "delta-sat, not planted");
            for (int i = 0; i < g.nx; ++i) {
              const Box::Interval& iv = (*m)[g.vs.v[i]];
              c.check(g.lb[i] <= iv.lb() && iv.ub() <= g.ub[i],
                      cat("the model has x", i, " in ", show_iv(iv), ", outside its bounds"));
              if (iv.lb() < iv.ub() && !iv.is_bisectable()) stuck = true;
            }
            if (stuck) break;
            for (std::vector<double> q : points_of(*m, 4)) {
              q.resize(g.nx + g.ny);
              for (int i : in) {
                std::vector<double> ce;
                const bool ok = weak_q(seen[i], g, q, delta, ys, &ce);
                c.check(ok,
                        cat("check ", checks, ": the point ", show(q), " of the model ",
                            show_iv((*m)[0]), " violates ", show(fs[i]),
                            " even weakened by ", delta, " at ", show(ce)));
              }
            }
            break;
          }
        }
      }
    } catch (const Budget&) {
      c.label("budget");
    }
  });
  if (!done) c.label("time");
}
