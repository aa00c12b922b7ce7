// C27 verdicts, C28 incremental solving, C34 parallel search.
#include <cmath>
#include <limits>
#include <sstream>

#include "ast.h"
#include "dreal/api/api.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
struct Budget {};

struct Setup {
  Config config;
  double delta;
  std::string text;
};

// A configuration; the brancher counts down *budget and throws Budget.
void configure(Src& s, Setup* u, int* budget, int jobs = 1) {
  static const std::vector<double> deltas = {0.001, 0.1, 0.5, 0.01};
  u->delta = s.pick(deltas);
  Config& c = u->config;
  c.mutable_precision() = u->delta;
  u->text = cat("delta ", u->delta);
  if (s.chance(1, 4)) {
    c.mutable_use_polytope() = true;
    u->text += ", polytope";
  }
  if (s.chance(1, 4)) {
    c.mutable_use_worklist_fixpoint() = true;
    u->text += ", worklist";
  }
  c.mutable_stack_left_box_first() = s.chance(1, 2);
  const int phase = static_cast<int>(s.draw(4));
  c.mutable_sat_default_phase() = static_cast<Config::SatDefaultPhase>(phase);
  c.mutable_random_seed() = static_cast<uint32_t>(s.draw(3));
  if (jobs > 1) {
    c.mutable_number_of_jobs() = jobs;
    u->text += cat(", ", jobs, " jobs");
  } else {
    c.mutable_brancher() = [budget](const Box& b, const DynamicBitset& a,
                                           Box* l, Box* r) {
      if (--*budget < 0) throw Budget{};
      return BranchLargestFirst(b, a, l, r);
    };
  }
}

// Is there a dimension that is not a point but cannot be bisected either?
bool has_stuck(const Box& m) {
  for (int i = 0; i < m.size(); ++i)
    if (m[i].lb() < m[i].ub() && !m[i].is_bisectable()) return true;
  return false;
}
// A point of an interval.
double point_in(const Box::Interval& iv, Variable::Type t) {
  return integral(t) ? std::floor(iv.mid()) : iv.mid();
}

// A model: the declared variables in their bounds, integers, and points that
// satisfy the weakened formula.
void check_model(const Box& m, const Scene& sc, const std::set<int>& vars,
                 const std::vector<F>& fs, double delta, bool points, Ctx& c) {
  c.check(!m.empty(), "the model is an empty box");
  c.check(m.size() == static_cast<int>(vars.size()),
          cat("the model has ", m.size(), " variables, not ", vars.size()));
  Box full;  // in the order of the scene
  for (size_t i = 0; i < sc.p.size(); ++i) {
    const Variable& v = sc.vs.v[i];
    full.Add(v);
    if (!vars.count(static_cast<int>(i))) continue;
    c.check(m.has_variable(v), cat("the model misses ", v.get_name()));
    const Box::Interval& iv = m[v];
    c.check(sc.lb[i] <= iv.lb() && iv.ub() <= sc.ub[i],
            cat("the model has ", v.get_name(), " in ", show_iv(iv),
                ", outside its bounds"));
    if (integral(sc.type[i]))
      // wider boxes are not cut further
      c.check((iv.lb() == iv.ub() || iv.ub() - iv.lb() <= delta) &&
                  iv.lb() == std::floor(iv.lb()) && iv.ub() == std::floor(iv.ub()),
              cat("the model has ", v.get_name(), " in ", show_iv(iv),
                  ", not an integer"));
    full[static_cast<int>(i)] = iv;
  }
  if (!points) return;
  for (const std::vector<double>& q : points_of(full, 5))
    for (const F& f : fs)
      c.check(weak(f, true, q, delta),
              cat("the point ", show(q), " of the model violates ", show(f),
                  " even weakened by delta"));
}

std::set<int> all_vars(const Scene& sc) {
  std::set<int> r;
  for (size_t i = 0; i < sc.p.size(); ++i) r.insert(static_cast<int>(i));
  return r;
}

struct Problem {
  Scene sc;
  int nreal;
  std::vector<F> fs;         // assertions, bounds included
  std::vector<Formula> dfs;  // the same
  std::vector<F> seen;       // the same as dReal has them
  std::vector<int> bound;    // how each variable gets its bounds
  bool ite = false;
  std::vector<std::vector<double>> points;
  std::string text;
};
void finish_problem(Src& s, Ctx& c, Problem* pr);
void gen_problem(Src& s, Ctx& c, Problem* pr, bool api) {
  Scene& sc = pr->sc;
  sc = gen_scene(s, true, true);
  for (size_t i = 0; i < sc.p.size(); ++i) {
    // wide domains
    if (sc.type[i] == Variable::Type::BINARY || !s.chance(1, 6)) continue;
    static const std::vector<double> w = {kInf, 1e10, 1e6, 3e9};
    // dReal's integers are ints
    const double most = integral(sc.type[i]) ? 2147483647.0 : kInf;
    if (s.chance(1, 2)) sc.lb[i] = std::max(-most, sc.p[i] - s.pick(w));
    if (s.chance(1, 2)) sc.ub[i] = std::min(most, sc.p[i] + s.pick(w));
    if (integral(sc.type[i]) && s.chance(1, 3))  // the default domain
      sc.lb[i] = -most, sc.ub[i] = most;
    sc.box[static_cast<int>(i)] = Box::Interval{sc.lb[i], sc.ub[i]};
  }
  pr->nreal = static_cast<int>(sc.p.size());
  add_bools(s, &sc, s.chance(1, 2) ? s.range(1, 3) : 0);
  FormulaGen g{s, sc, pr->nreal};
  g.ite = pr->ite = s.chance(1, 4);
  const int n = s.range(1, 3);
  for (int i = 0; i < n; ++i)
    pr->fs.push_back(g.gen(s.range(0, 2), s.chance(4, 5)));
  for (int i = 0; i < pr->nreal; ++i) {
    const int how = api ? 2 : static_cast<int>(s.draw(3));
    pr->bound.push_back(how);
    if (how != 2) continue;
    // bounds that are assertions
    pr->fs.push_back(s.chance(1, 2) ? rel(FOp::Le, cst(sc.lb[i]), var(i))
                                    : conn(FOp::Not, {rel(FOp::Lt, var(i), cst(sc.lb[i]))}));
    pr->fs.push_back(rel(FOp::Le, var(i), cst(sc.ub[i])));
  }
  finish_problem(s, c, pr);
  pr->points.push_back(sc.p);
  for (int k = 0; k < 6; ++k) pr->points.push_back(sample(s, sc));
}
// A point known to satisfy all assertions.
bool satisfies(const Problem& pr, const std::vector<double>& q) {
  for (const F& f : pr.fs) {
    const BResult r = evaluate(f, q);
    if (!r.defined || !r.reliable || !r.value) return false;
  }
  return true;
}
std::string free_names(const Problem& pr) {
  std::string r;
  for (const Variable& v : pr.sc.vs.v) r += v.get_name() + " ";
  return r;
}

void declare(Context* x, const Problem& pr) {
  for (size_t i = 0; i < pr.sc.p.size(); ++i) {
    const Variable& v = pr.sc.vs.v[i];
    if (i < pr.bound.size() && pr.bound[i] == 1) {
      x->DeclareVariable(v, pr.sc.lb[i], pr.sc.ub[i]);
    } else {
      x->DeclareVariable(v);
      if (i < pr.bound.size() && pr.bound[i] == 0)
        x->SetInterval(v, pr.sc.lb[i], pr.sc.ub[i]);
    }
  }
}

void finish_problem(Src& s, Ctx& c, Problem* pr) {
  const Scene& sc = pr->sc;
  // any order
  for (size_t i = pr->fs.size(); i > 1; --i)
    std::swap(pr->fs[i - 1], pr->fs[s.draw(i)]);
  for (const F& f : pr->fs) {
    bool built;
    const Formula d = try_build(f, sc.vs, &built);
    if (!built) c.discard();
    pr->dfs.push_back(d);
    pr->seen.push_back(reflect(d, sc.vs));
    pr->text += show(f) + "; ";
  }
  pr->text += show_box(sc) + " at " + show(sc.p);
}

// A chain of constraints with one more link than can hold together; one of
// some links may be given up, either by a Boolean or by an integer selector.
void gen_chain_problem(Src& s, Ctx& c, Problem* pr) {
  const Chain ch = gen_chain(s, s.range(2, 5));
  Scene& sc = pr->sc;
  sc = ch.sc;
  const int n = static_cast<int>(ch.fs.size());
  std::vector<std::vector<double>> points = ch.points;
  const bool selector = s.chance(1, 3);
  int z = -1;
  if (selector) {
    z = static_cast<int>(sc.p.size());
    sc.vs.v.emplace_back("z", Variable::Type::INTEGER);
    sc.type.push_back(Variable::Type::INTEGER);
    sc.p.push_back(0);
    sc.lb.push_back(-1);
    sc.ub.push_back(n);
    sc.box.Add(sc.vs.v[z]);
    sc.box[z] = Box::Interval{-1, static_cast<double>(n)};
    for (int j = 0; j < n; ++j) points[j].push_back(j);
  }
  pr->nreal = static_cast<int>(sc.p.size());
  int b0 = pr->nreal;
  if (!selector) {
    add_bools(s, &sc, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) points[j].push_back(i == j);
  }
  auto escape = [&](int i) {
    if (!selector) return bvar(b0 + i);
    return s.chance(1, 2) ? rel(FOp::Eq, var(z), cst(i))
           : conn(FOp::And, {rel(FOp::Ge, var(z), cst(i)), rel(FOp::Le, var(z), cst(i))});
  };
  const int allowed = static_cast<int>(s.draw(4));  // one, some, all, none
  const int one = static_cast<int>(s.draw(n));
  std::vector<int> may;
  for (int i = 0; i < n; ++i) {
    const bool ok = allowed == 2 || (allowed < 2 && i == one) ||
                    (allowed == 1 && s.chance(1, 2));
    if (ok) may.push_back(i);
    const int how = static_cast<int>(s.draw(3));
    if (!ok && how == 0) {
      pr->fs.push_back(ch.fs[i]);
      continue;
    }
    F f = s.chance(1, 2) ? conn(FOp::Or, {ch.fs[i], escape(i)})
                         : conn(FOp::Or, {escape(i), ch.fs[i]});
    if (how == 2 && ok)  // one of the two, exactly
      f = conn(FOp::And, {f, conn(FOp::Or, {conn(FOp::Not, {escape(i)}), conn(FOp::Not, {ch.fs[i]})})});
    pr->fs.push_back(f);
    if (!ok) pr->fs.push_back(conn(FOp::Not, {escape(i)}));
  }
  // Not two at once.
  if (!selector && s.chance(2, 3))
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j)
        pr->fs.push_back(conn(FOp::Not, {conn(FOp::And, {bvar(b0 + i), bvar(b0 + j)})}));
  sc.p = points[one];
  // Constraints that hold anyway.
  for (int i = s.range(0, 2); i > 0; --i) {
    const int v = static_cast<int>(s.draw(ch.sc.p.size()));
    pr->fs.push_back(rel(FOp::Le, mk(Op::Mul, {var(v), var(v)}),
                         cst(std::max(sc.ub[v] * sc.ub[v], sc.lb[v] * sc.lb[v]))));
  }
  for (int i = 0; i < pr->nreal; ++i) pr->bound.push_back(static_cast<int>(s.draw(2)));
  finish_problem(s, c, pr);
  for (int j : may) pr->points.push_back(points[j]);
}

void verdict(Src& s, Ctx& c, int jobs, bool chain = false) {
  Problem pr;
  int budget = 300;
  bool stuck = false;
  const bool api = !chain && s.chance(1, 4);
  // One or two configurations; a parallel one is always accompanied by a
  // sequential one.
  std::vector<Setup> us;
  std::vector<int> js;
  if (jobs > 1 || s.chance(1, 3)) js.push_back(1);
  js.push_back(jobs);
  std::string text;
  for (int j : js) {
    us.emplace_back();
    configure(s, &us.back(), &budget, j);
    text += us.back().text + (api ? " (API); " : "; ");
  }
  if (chain)
    gen_chain_problem(s, c, &pr);
  else
    gen_problem(s, c, &pr, api);
  c.describe(text + pr.text);
  const Scene& sc = pr.sc;
  const bool done = pbt::limited(c, 2.0, [&](Ctx& c) {
    std::vector<std::vector<double>> points = pr.points;
    bool unsat = false;
    for (size_t k = 0; k < us.size(); ++k) {
      const Setup& u = us[k];
      optional<Box> m;
      std::set<int> vars;
      budget = 300;
      stuck = false;
      try {
        if (api) {
          Formula f = Formula::True();
          for (const Formula& d : pr.dfs) f = f && d;
          const Variables fv = f.GetFreeVariables();
          for (size_t i = 0; i < sc.p.size(); ++i)
            if (fv.include(sc.vs.v[i])) vars.insert(static_cast<int>(i));
          Box b;
          if (u.delta < 0.05) {
            m = CheckSatisfiability(f, u.config);
          } else if (CheckSatisfiability(f, u.config, &b)) {
            m = b;
          }
        } else {
          Context x{u.config};
          declare(&x, pr);
          vars = all_vars(sc);
          for (const Formula& d : pr.dfs) x.Assert(d);
          m = x.CheckSat();
          const Box& gm = x.get_model();
          c.check(m ? gm == *m : gm.empty(), "get_model()");
        }
      } catch (const Budget&) {
        c.label("budget");
        continue;
      }
      if (!m) {
        c.label("unsat");
        if (js[k] == 1 && budget < 295) c.label("unsat after branching");
        unsat = true;
        c.nontrivial(c.desc_);
        continue;
      }
      c.label("delta-sat");
      // A box that cannot be divided is an answer, whatever its width.
      stuck = has_stuck(*m);
      check_model(*m, sc, vars, pr.seen, u.delta, !stuck && !pr.ite, c);
      if (static_cast<int>(vars.size()) == m->size()) {
        std::vector<double> q = sc.p;
        for (int v : vars) q[v] = point_in((*m)[sc.vs.v[v]], sc.type[v]);
        points.push_back(q);
      }
      if (stuck) c.label("undividable");
      if (js[k] == 1 && budget < 295) c.label("sat after branching");
      if (pr.ite) c.label("if-then-else");
      size_t size = 0;
      for (const F& f : pr.fs) size += f->size;
      if (size >= 12) c.nontrivial(c.desc_);
    }
    if (unsat)
      for (const std::vector<double>& q : points)
        c.check(!satisfies(pr, q), "unsat, but " + show(q) + " is a solution");
  });
  if (!done) c.label("time");
}
}  // namespace

PBT_TARGET("C27", verdict, 6000,
           "1 to 3 random Boolean combinations of constraints over up to 4 real "
           "/ integer / binary and 3 Boolean variables, mostly true at a planted "
           "point, with bounds given as domains or assertions, solved through "
           "Context or CheckSatisfiability in 1 or 2 random configurations; unsat: "
           "no planted, sampled or reported point satisfies the assertions; delta-sat: the model's "
           "variables, bounds, integrality and the delta-weakened assertions at "
           "its points; non-trivial: unsat, or delta-sat with formulas of at "
           "least 12 nodes") {
  verdict(s, c, 1);
}

PBT_TARGET("C27", chain_verdict, 3000,
           "a chain of 3 to 6 constraints that cannot hold together, where one "
           "of some links may be given up by a Boolean or an integer selector; "
           "checked as above, with a known solution for every such link; "
           "non-trivial as above") {
  verdict(s, c, 1, true);
}

PBT_TARGET("C34", parallel_verdict, 3000,
           "the same problems solved sequentially and by 2 to 4 jobs; non-trivial as "
           "above") {
  const int jobs = s.range(2, 4);
  verdict(s, c, jobs);
}


namespace {
struct Frame {
  std::vector<int> declared;
  std::map<int, std::pair<double, double>> bounds;  // overriding outer ones
  std::vector<std::pair<F, F>> asserted;            // as written, as dReal has it
};
struct Step {
  enum Kind { Declare, Interval, Assert, Push, Pop, Check, Precision } kind;
  int v{0};
  int how{0};
  double lb{0}, ub{0};
  F f, seen;
  Formula d;
};
}  // namespace

PBT_TARGET("C28", history, 4000,
           "random history of declarations (variables may come back in another "
           "order after a pop), domains (also widened after a check), "
           "assertions, pushes, pops, checks and changes of the precision on one Context, configured "
           "at random; every verdict and model is checked against the "
           "declarations, domains and assertions in scope, with planted, sampled "
           "and earlier reported points and those of a fresh Context; "
           "non-trivial: at least 2 checks with different assertions, one after "
           "a pop") {
  Scene sc = gen_scene(s, true, true);
  const int nreal = static_cast<int>(sc.p.size());
  add_bools(s, &sc, s.chance(1, 2) ? s.range(1, 2) : 0);
  const int n = static_cast<int>(sc.p.size());
  int budget = 300;
  bool stuck = false;
  Setup u;
  configure(s, &u, &budget, s.chance(1, 8) ? 2 : 1);
  const bool ite = s.chance(1, 4);
  std::vector<Step> steps;
  std::vector<Frame> frames(1);
  std::vector<F> pool;
  std::string text;
  auto in_scope = [&]() {
    std::set<int> r;
    for (const Frame& f : frames) r.insert(f.declared.begin(), f.declared.end());
    return r;
  };
  auto declare = [&](int v) {
    Step st{Step::Declare};
    st.v = v;
    st.how = v < nreal ? static_cast<int>(s.draw(2)) : 2;
    st.lb = sc.lb[v];
    st.ub = sc.ub[v];
    if (v < nreal && !integral(sc.type[v]) && s.chance(1, 4)) {
      st.lb -= 2;
      st.ub += 3;
    }
    frames.back().declared.push_back(v);
    frames.back().bounds[v] = {st.lb, st.ub};
    text += cat("declare ", sc.vs.v[v].get_name(), " [", st.lb, ",", st.ub, "]\n");
    steps.push_back(st);
  };
  if (s.chance(1, 2))
    for (int v = 0; v < n; ++v)
      if (s.chance(3, 4)) declare(v);
  const int len = s.range(4, 16);
  for (int i = 0; i < len; ++i) {
    const std::set<int> have = in_scope();
    const int op = s.weighted({5, 4, 2, 2, 2, 1, 1, 1});
    if (op == 0) {
      // assert
      F f;
      if (!pool.empty() && s.chance(1, 3)) {
        f = s.pick(pool);
        if (s.chance(1, 4)) f = conn(FOp::Not, {f});
      } else {
        FormulaGen g{s, sc, nreal};
        g.ite = ite;
        g.max_size = 12;
        f = g.gen(s.range(0, 2), s.chance(5, 6));
      }
      if (s.chance(1, 25)) f = s.chance(1, 2) ? ftrue() : ffalse();
      std::set<int> used;
      vars_of(f, &used);
      for (int v : used)
        if (!in_scope().count(v)) declare(v);
      Step st{Step::Assert};
      bool built;
      st.f = f;
      st.d = try_build(f, sc.vs, &built);
      if (!built) continue;
      st.seen = reflect(st.d, sc.vs);
      pool.push_back(f);
      frames.back().asserted.emplace_back(f, st.seen);
      text += "assert " + show(f) + "\n";
      steps.push_back(st);
    } else if (op == 1) {
      text += "check\n";
      steps.push_back(Step{Step::Check});
    } else if (op == 2) {
      text += "push\n";
      frames.emplace_back();
      steps.push_back(Step{Step::Push});
    } else if (op == 3) {
      if (frames.size() == 1) continue;
      text += "pop\n";
      frames.pop_back();
      steps.push_back(Step{Step::Pop});
    } else if (op == 4 || op == 5) {
      std::vector<int> out;
      for (int v = 0; v < n; ++v)
        if (!have.count(v)) out.push_back(v);
      if (!out.empty()) declare(s.pick(out));
    } else if (op == 7) {
      static const std::vector<double> ps = {0.001, 0.5, 0.1, 5, 0.01};
      Step st{Step::Precision};
      st.lb = s.pick(ps);
      text += cat("precision ", st.lb, "\n");
      steps.push_back(st);
    } else {
      // another domain for a variable without assertions of its own
      if (have.empty()) continue;
      std::vector<int> hv(have.begin(), have.end());
      const int v = s.pick(hv);
      if (v >= nreal) continue;
      bool own = false;
      for (const Frame& f : frames)
        for (const auto& a : f.asserted) {
          std::set<int> used;
          vars_of(a.second, &used);
          own = own || used.count(v);
          own = own || used.empty();
        }
      if (own && s.chance(1, 2)) continue;
      for (const Frame& f : frames)
        for (const auto& a : f.asserted) {
          std::set<int> used;
          vars_of(a.second, &used);
          if (used.size() <= 1 && (used.empty() || used.count(v))) goto next;
          // conjunctions are not taken apart by Assert, but stay away
          if (a.second->op == FOp::And) goto next;
        }
      {
        Step st{Step::Interval};
        st.v = v;
        st.lb = sc.lb[v] - s.range(0, 3);
        st.ub = sc.ub[v] + s.range(0, 3);
        if (sc.type[v] == Variable::Type::BINARY) st.lb = 0, st.ub = 1;
        if (s.chance(1, 3) && !integral(sc.type[v])) {
          // away from the point
          st.lb = sc.p[v] + 1;
          st.ub = sc.p[v] + 2;
        }
        frames.back().bounds[v] = {st.lb, st.ub};
        text += cat("domain ", sc.vs.v[v].get_name(), " [", st.lb, ",", st.ub, "]\n");
        steps.push_back(st);
      }
    next:;
    }
  }
  steps.push_back(Step{Step::Check});
  std::vector<std::vector<double>> points;
  points.push_back(sc.p);
  for (int k = 0; k < 5; ++k) points.push_back(sample(s, sc));
  c.describe(cat(u.text, "\n", text, "check\n", show_box(sc), " at ", show(sc.p)));

  const bool done = pbt::limited(c, 3.0, [&](Ctx& c) {
    Context x{u.config};
    frames.assign(1, Frame{});
    int checks = 0;
    bool popped = false, after_pop = false;
    std::set<size_t> kinds;
    try {
      for (const Step& st : steps) {
        switch (st.kind) {
          case Step::Declare:
            if (st.how == 0) {
              x.DeclareVariable(sc.vs.v[st.v]);
              x.SetInterval(sc.vs.v[st.v], st.lb, st.ub);
            } else if (st.how == 1) {
              x.DeclareVariable(sc.vs.v[st.v], st.lb, st.ub);
            } else {
              x.DeclareVariable(sc.vs.v[st.v]);
            }
            frames.back().declared.push_back(st.v);
            frames.back().bounds[st.v] = {st.lb, st.ub};
            break;
          case Step::Interval:
            x.SetInterval(sc.vs.v[st.v], st.lb, st.ub);
            frames.back().bounds[st.v] = {st.lb, st.ub};
            break;
          case Step::Assert:
            x.Assert(st.d);
            frames.back().asserted.emplace_back(st.f, st.seen);
            break;
          case Step::Precision:
            u.delta = st.lb;
            x.mutable_config().mutable_precision() = st.lb;
            break;
          case Step::Push:
            x.Push(1);
            frames.emplace_back();
            break;
          case Step::Pop:
            x.Pop(1);
            frames.pop_back();
            popped = true;
            break;
          case Step::Check: {
            // What is in scope.
            Scene now = sc;
            std::set<int> vars;
            std::vector<F> fs, seen;
            for (const Frame& f : frames) {
              vars.insert(f.declared.begin(), f.declared.end());
              for (const auto& b : f.bounds) {
                now.lb[b.first] = b.second.first;
                now.ub[b.first] = b.second.second;
              }
              for (const auto& a : f.asserted) {
                fs.push_back(a.first);
                seen.push_back(a.second);
              }
            }
            budget = 300;
            stuck = false;
            const optional<Box> m = x.CheckSat();
            {
              const Box& gm = x.get_model();
              c.check(m ? gm == *m : gm.empty(), "get_model() after a check");
            }
            ++checks;
            kinds.insert(fs.size() * 8 + vars.size());
            after_pop = after_pop || popped;
            auto solution = [&](const std::vector<double>& q) {
              for (int v : vars)
                if (!(now.lb[v] <= q[v] && q[v] <= now.ub[v])) return false;
              for (const F& f : fs) {
                const BResult r = evaluate(f, q);
                if (!r.defined || !r.reliable || !r.value) return false;
              }
              return true;
            };
            if (m) {
              c.label("delta-sat");
              stuck = has_stuck(*m);
              check_model(*m, now, vars, seen, u.delta, !stuck && !ite, c);
              std::vector<double> q = sc.p;
              for (int v : vars) q[v] = point_in((*m)[sc.vs.v[v]], sc.type[v]);
              points.push_back(q);
            } else {
              c.label("unsat");
              for (const std::vector<double>& q : points)
                c.check(!solution(q), cat("check ", checks, ": unsat, but ",
                                          show(q), " is a solution"));
              // From scratch.
              u.config.mutable_precision() = u.delta;
              Context y{u.config};
              for (int v : vars)
                if (v < nreal) {
                  y.DeclareVariable(sc.vs.v[v], now.lb[v], now.ub[v]);
                } else {
                  y.DeclareVariable(sc.vs.v[v]);
                }
              for (const F& f : fs) y.Assert(build(f, sc.vs));
              budget = 300;
              const optional<Box> my = y.CheckSat();
              if (my) {
                std::vector<double> q = sc.p;
                for (int v : vars) q[v] = point_in((*my)[sc.vs.v[v]], sc.type[v]);
                c.check(!solution(q), cat("check ", checks, ": unsat, but ",
                                          show(q), " is a solution"));
                c.label("only unsat in the history");
              }
            }
            break;
          }
        }
      }
    } catch (const Budget&) {
      c.label("budget");
    }
    if (checks >= 2 && after_pop && kinds.size() >= 2) c.nontrivial(c.desc_);
  });
  if (!done) c.label("time");
}
