// Expression construction: simplification preserves the value; operators never
// disturb other handles.
#include "ast.h"

using namespace ast;  // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
GenOpt random_opt(Src& s, Ctx& c) {
  GenOpt o;
  o.real_consts = s.chance(1, 4);
  const int k = s.weighted({4, 3, 3});
  if (k == 0) {
    o.trans = false;
    o.inexact_consts = false;
    o.division = s.chance(1, 3);
    c.label("profile:polynomial");
  } else if (k == 1) {
    o.max_terms = 14;
    c.label("profile:general");
  } else {
    o.trans = s.chance(1, 2);
    o.nvars = 2;
    o.inexact_consts = false;
    c.label("profile:dense");
  }
  return o;
}

void check_value(const N& n, const Expression& e, const Vars& vs,
                 const std::vector<double>& p, Ctx& c, const char* what) {
  const Result r = evaluate(n, p);
  if (!r.defined) {
    c.label("point:undefined");
    return;
  }
  if (!r.reliable) {
    c.label("point:ill-conditioned");
    return;
  }
  c.label("point:compared");
  c.count();
  double got = 0;
  try {
    got = e.Evaluate(vs.env(p));
  } catch (const std::exception& ex) {
    c.fail(cat(what, ": evaluating ", e, " at ", show(p), " threw ", ex.what(),
               " but the expression denotes ", r.value));
  }
  if (!close(got, r))
    c.fail(cat(what, ": ", e, " evaluates to ", got, " at ", show(p),
               " but the expression as written denotes ", r.value));
}
}  // namespace

PBT_TARGET("C01", construct, 240000,
           "random expression DAG (arithmetic, powers, division, "
           "transcendentals, min/max, ite) built through randomly chosen "
           "operator forms, evaluated at 5 points against an independent "
           "evaluator of the written tree; non-trivial: at least 3 operators, "
           "at least one variable, and at least one point compared") {
  const GenOpt o = random_opt(s, c);
  N n = gen_expr(s, o);
  const Vars vs = make_vars(o.nvars);
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 5; ++i) pts.push_back(gen_point(s, o.nvars));
  if (s.chance(1, 4)) {
    // Badly scaled variables: tiny coefficients and large values, or the
    // other way around.  The terms stay of moderate size.
    std::vector<int> k;
    for (int i = 0; i < o.nvars; ++i) k.push_back(s.range(0, 120) - 60);
    n = rescale(n, k);
    for (auto& p : pts)
      for (int i = 0; i < o.nvars; ++i) p[i] = std::ldexp(p[i], k[i]);
    c.label("badly scaled");
  }
  c.describe(show(n));
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception& ex) {
    // Constant folding rejects terms outside their domain.
    c.label("rejected at construction");
    const bool has_ite =
        has_op(n, [](const Node& x) { return x.op == Op::Ite; });
    if (has_ite) return;
    for (const auto& p : pts) {
      const Result r = evaluate(n, p);
      if (r.reliable)
        c.fail(cat("construction threw ", ex.what(), " but the value at ",
                   show(p), " is ", r.value));
    }
    return;
  }
  c.add(cat("  ~>  ", e));
  std::set<int> vars;
  vars_of(n, &vars);
  const N back = reflect(e, vs);
  bool compared = false;
  for (const auto& p : pts) {
    check_value(n, e, vs, p, c, "construction");
    // The accessors describe the same function as Evaluate.
    const Result r = evaluate(n, p);
    if (!r.reliable) continue;
    compared = true;
    const Result rb = evaluate(back, p);
    c.check(!rb.defined || !rb.reliable || std::fabs(rb.value - r.value) <= r.tol + rb.tol,
            cat("accessors of ", e, " describe ", show(back), " = ", rb.value,
                " at ", show(p), ", expected ", r.value));
  }
  // Variables never appear from nowhere.
  for (const Variable& v : e.GetVariables())
    c.check(vars.count(vs.index(v)) > 0,
            cat("unexpected variable ", v, " in ", e));
  if (n->size >= 4 && !vars.empty() && compared) c.nontrivial(show(n));
}

// A pool of handles, modified in place in every way the API offers.  Each
// handle has a model tree; after every step all handles still denote their
// tree.
PBT_TARGET("C01", handles, 60000,
           "history of 4-24 in-place / moving / aliased operator applications "
           "over a pool of 4 shared handles; every handle is re-evaluated after "
           "every step; non-trivial: at least 4 mutations with two handles "
           "sharing a cell at some time") {
  GenOpt o;
  o.nvars = 2;
  const Vars vs = make_vars(o.nvars);
  constexpr int kPool = 4;
  std::vector<Expression> h;
  std::vector<N> m;
  std::string log;
  GenOpt small = o;
  small.max_terms = 3;
  small.trans = s.chance(1, 3);
  small.division = s.chance(1, 3);
  small.inexact_consts = false;
  small.ite = false;
  for (int i = 0; i < kPool; ++i) {
    const N n = gen_expr(s, small);
    m.push_back(n);
    try {
      h.push_back(build(n, vs));
    } catch (const std::exception&) {
      c.discard();
    }
    log += cat("h", i, " = ", show(n), "; ");
  }
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 3; ++i) pts.push_back(gen_point(s, o.nvars));
  const int steps = s.range(4, 24);
  int mutations = 0;
  bool shared = false;
  for (int k = 0; k < steps; ++k) {
    const int i = static_cast<int>(s.draw(kPool));
    const int j = static_cast<int>(s.draw(kPool));
    const int op = static_cast<int>(s.draw(22));
    N next;
    auto un = [&](Op q, N a) { return mk(q, {a}); };
    auto bi = [&](Op q, N a, N b) { return mk(q, {a, b}); };
    const N one = cst(1);
    int target = i;
    N tmodel;
    if (m[i]->size + m[j]->size > 60 && op < 18) {
      // start the handle afresh
      h[i] = Expression{vs.v[k % o.nvars]};
      m[i] = var(k % o.nvars);
      log += cat("h", i, " = x", k % o.nvars, "; ");
      continue;
    }
    try {
      switch (op) {
        case 0: log += cat("h", i, " += h", j, "; "); tmodel = bi(Op::Add, m[i], m[j]); h[i] += h[j]; break;
        case 1: log += cat("h", i, " -= h", j, "; "); tmodel = bi(Op::Sub, m[i], m[j]); h[i] -= h[j]; break;
        case 2: log += cat("h", i, " *= h", j, "; "); tmodel = bi(Op::Mul, m[i], m[j]); h[i] *= h[j]; break;
        case 3: log += cat("h", i, " /= h", j, "; "); tmodel = bi(Op::Div, m[i], m[j]); h[i] /= h[j]; break;
        case 4: log += cat("h", i, " = h", j, "; "); tmodel = m[j]; if (i != j) shared = true; h[i] = h[j]; break;
        case 5: log += cat("h", i, " = h", i, " + h", j, "; "); tmodel = bi(Op::Add, m[i], m[j]); h[i] = h[i] + h[j]; break;
        case 6: log += cat("h", i, " = -h", j, "; "); tmodel = un(Op::Neg, m[j]); h[i] = -h[j]; break;
        case 7: log += cat("h", i, " = -move(h", i, "); "); tmodel = un(Op::Neg, m[i]); h[i] = -std::move(h[i]); break;
        case 8: log += cat("h", i, " = move(h", i, ") + h", j, "; ");
          if (i == j) continue;
          tmodel = bi(Op::Add, m[i], m[j]); h[i] = std::move(h[i]) + h[j]; break;
        case 9: log += cat("h", i, " = h", j, " + move(h", i, "); ");
          if (i == j) continue;
          tmodel = bi(Op::Add, m[j], m[i]); h[i] = h[j] + std::move(h[i]); break;
        case 10: log += cat("h", i, " = h", j, " - move(h", i, "); ");
          if (i == j) continue;
          tmodel = bi(Op::Sub, m[j], m[i]); h[i] = h[j] - std::move(h[i]); break;
        case 11: log += cat("h", i, " = move(h", i, ") * h", j, "; ");
          if (i == j) continue;
          tmodel = bi(Op::Mul, m[i], m[j]); h[i] = std::move(h[i]) * h[j]; break;
        case 12: log += cat("h", i, " = h", j, " * move(h", i, "); ");
          if (i == j) continue;
          tmodel = bi(Op::Mul, m[j], m[i]); h[i] = h[j] * std::move(h[i]); break;
        case 13: {
          log += cat("h", i, " = copy(h", i, ") + copy(h", j, "); ");
          tmodel = bi(Op::Add, m[i], m[j]);
          Expression a{h[i]}, b{h[j]};
          h[i] = std::move(a) + std::move(b);
          break;
        }
        case 14: {
          log += cat("h", i, " = copy(h", i, ") * copy(h", j, "); ");
          tmodel = bi(Op::Mul, m[i], m[j]);
          Expression a{h[i]}, b{h[j]};
          h[i] = std::move(a) * std::move(b);
          break;
        }
        case 15: {
          log += cat("h", i, " = copy(h", i, ") - copy(h", j, "); ");
          tmodel = bi(Op::Sub, m[i], m[j]);
          Expression a{h[i]}, b{h[j]};
          h[i] = std::move(a) - std::move(b);
          break;
        }
        case 16: log += cat("h", i, " = h", i, " * h", j, "; "); tmodel = bi(Op::Mul, m[i], m[j]); h[i] = h[i] * h[j]; break;
        case 17: log += cat("h", i, " = h", j, "^2; "); tmodel = bi(Op::Pow, m[j], cst(2)); h[i] = pow(h[j], 2.0); break;
        case 18: log += cat("h", i, "++; "); tmodel = bi(Op::Add, m[i], one); if (k % 2) { h[i]++; } else { ++h[i]; } break;
        case 19: {
          log += cat("h", j, " = h", i, "--; ");
          // postfix: the result is the old value
          if (i == j) continue;
          const N old = m[i];
          Expression prev = h[i]--;
          m[i] = bi(Op::Sub, m[i], one);
          h[j] = prev;
          target = j;
          tmodel = old;
          break;
        }
        case 20: log += cat("h", i, " += ", 2, "; "); tmodel = bi(Op::Add, m[i], cst(2)); h[i] += 2.0; break;
        case 21: log += cat("h", i, " *= ", -1, "; "); tmodel = bi(Op::Mul, m[i], cst(-1)); h[i] *= -1.0; break;
      }
    } catch (const std::exception& ex) {
      // Division by a constant zero etc.
      if (op == 3 || op == 17) {
        c.label("rejected operation");
        return;
      }
      bool defined = false;
      for (const auto& p : pts) defined = defined || (tmodel && evaluate(tmodel, p).reliable);
      c.describe(log);
      if (defined) c.fail(cat("operation threw ", ex.what()));
      return;
    }
    ++mutations;
    m[target] = tmodel;
    c.describe(log);
    for (int q = 0; q < kPool; ++q)
      for (const auto& p : pts)
        check_value(m[q], h[q], vs, p, c, cat("handle h", q).c_str());
  }
  if (mutations >= 4 && shared) c.nontrivial(log);
}
