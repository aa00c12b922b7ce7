// Formula construction and evaluation.
#include "ast.h"

using namespace dreal;  // NOLINT
using namespace ast;  // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
constexpr int kReal = 2, kBool = 3;

std::vector<double> gen_env(Src& s) {
  std::vector<double> p = gen_point(s, kReal);
  for (int i = 0; i < kBool; ++i) p.push_back(static_cast<double>(s.draw(2)));
  return p;
}
GenOpt opt(Src& s) {
  GenOpt o;
  o.nvars = kReal;
  o.bool_vars = {2, 3, 4};
  o.max_terms = s.chance(1, 4) ? 6 : 2;
  o.trans = s.chance(1, 4);
  o.division = s.chance(1, 4);
  o.inexact_consts = false;
  o.real_consts = s.chance(1, 6);
  return o;
}
int count_conn(const F& f) {
  int n = f->op >= FOp::And ? 1 : 0;
  for (const F& g : f->f) n += count_conn(g);
  return n;
}
void compare(const F& f, const Formula& g, const Vars& vs,
             const std::vector<double>& p, Ctx& c, bool* compared) {
  const BResult r = evaluate(f, p);
  if (!r.reliable) {
    c.label(r.defined ? "point:ill-conditioned" : "point:undefined");
    return;
  }
  *compared = true;
  c.label(r.value ? "point:true" : "point:false");
  bool got = false;
  try {
    got = g.Evaluate(vs.env(p));
  } catch (const std::exception& ex) {
    c.fail(cat("evaluating ", g, " at ", show(p), " threw ", ex.what()));
  }
  c.check(got == r.value, cat(g, " evaluates to ", got, " at ", show(p),
                              " but the formula as written is ", r.value));
}
}  // namespace

PBT_TARGET("C06", formula, 250000,
           "random formula (relations over random terms, Boolean variables, "
           "not/and/or/imply/iff, up to depth 3) built through random API "
           "forms, evaluated at 6 environments against an independent "
           "evaluator; non-trivial: at least 2 connectives and a comparison") {
  const GenOpt o = opt(s);
  const F f = gen_formula(s, o, 1 + static_cast<int>(s.draw(3)));
  c.describe(show(f));
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  Formula g = Formula::True();
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 6; ++i) pts.push_back(gen_env(s));
  try {
    g = build(f, vs);
  } catch (const std::exception& ex) {
    c.label("rejected at construction");
    return;  // constant folding outside the domain; covered by C01
  }
  c.add(cat("  ~>  ", g));
  const F back = reflect(g, vs);
  bool compared = false;
  for (const auto& p : pts) {
    compare(f, g, vs, p, c, &compared);
    const BResult r = evaluate(f, p);
    if (!r.reliable) continue;
    const BResult rb = evaluate(back, p);
    c.check(!rb.reliable || rb.value == r.value,
            cat("accessors describe ", show(back), " which is ", rb.value,
                " at ", show(p), ", expected ", r.value));
  }
  std::set<int> vars;
  vars_of(f, &vars);
  for (const Variable& v : g.GetFreeVariables())
    c.check(vars.count(vs.index(v)) > 0, cat("unexpected variable ", v));
  if (count_conn(f) >= 2 && compared) c.nontrivial(show(f));
}

// Relations between terms that are equal, shifted or constant: the
// simplification of relational operators.
PBT_TARGET("C06", relations, 200000,
           "all six relations between two related terms (same, permuted, "
           "shifted by a constant, constants, through Variable / double / "
           "Expression overloads), compared at 4 points; non-trivial: the two "
           "sides are related terms and a point was compared") {
  GenOpt o;
  o.nvars = kReal;
  o.max_terms = 3;
  o.trans = s.chance(1, 5);
  o.division = false;
  o.inexact_consts = s.chance(1, 5);
  o.real_consts = s.chance(1, 5);
  const N a = gen_expr(s, o);
  N b;
  const int k = s.weighted({2, 3, 2, 2, 2, 2});
  const double shift = gen_const(s, false);
  switch (k) {
    case 0: b = a; break;
    case 1: b = mk(Op::Add, {a, cst(shift)}); break;
    case 2: b = mk(Op::Sub, {cst(shift), a}); break;
    case 3: b = cst(shift); break;
    case 4: b = mk(Op::Mul, {cst(shift), a}); break;
    default: b = gen_expr(s, o); break;
  }
  const bool swap = s.chance(1, 2);
  static const std::vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                        FOp::Ne, FOp::Ge, FOp::Lt};
  const FOp op = s.pick(rels);
  F f = rel(op, swap ? b : a, swap ? a : b);
  const bool neg = s.chance(1, 3);
  if (neg) f = conn(FOp::Not, {f});
  c.describe(show(f));
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  Formula g = Formula::True();
  try {
    g = build(f, vs);
  } catch (const std::exception&) {
    return;
  }
  c.add(cat("  ~>  ", g));
  bool compared = false;
  for (int i = 0; i < 4; ++i) {
    std::vector<double> p = gen_env(s);
    compare(f, g, vs, p, c, &compared);
  }
  if (a->op == Op::Var && !neg) {
    // Overloads on variables.
    const Variable& v = vs.v[a->v];
    const Variable& w = vs.v[b->op == Op::Var ? b->v : 0];
    for (int i = 0; i < 2; ++i) {
      const std::vector<double> p = gen_env(s);
      const Environment env = vs.env(p);
      const double pv = p[a->v], pw = p[b->op == Op::Var ? b->v : 0];
      c.check((v == w).Evaluate(env) == (pv == pw), "Variable == Variable");
      c.check((v != w).Evaluate(env) == (pv != pw), "Variable != Variable");
      c.check((v < w).Evaluate(env) == (pv < pw), "Variable < Variable");
      c.check((v <= w).Evaluate(env) == (pv <= pw), "Variable <= Variable");
      c.check((v > w).Evaluate(env) == (pv > pw), "Variable > Variable");
      c.check((v >= w).Evaluate(env) == (pv >= pw), "Variable >= Variable");
    }
  }
  if (k <= 4 && compared) c.nontrivial(show(f));
}

PBT_TARGET("C06", formula_handles, 60000,
           "history of 3-16 copying / moving combinations over a pool of 4 "
           "formula handles; all handles are evaluated at 8 environments "
           "after every step; non-trivial: at least 3 mutations and two "
           "handles sharing a cell") {
  GenOpt o = opt(s);
  o.trans = false;
  o.division = false;
  o.max_terms = 2;
  o.powers = false;
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  std::vector<Formula> h;
  std::vector<F> m;
  std::string log;
  for (int i = 0; i < 4; ++i) {
    const F f = gen_formula(s, o, 1);
    m.push_back(f);
    try {
      h.push_back(build(f, vs));
    } catch (const std::exception&) {
      c.discard();
    }
    log += cat("h", i, " = ", show(f), "; ");
  }
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 8; ++i) pts.push_back(gen_env(s));
  const int steps = s.range(3, 16);
  int mut = 0;
  bool shared = false, compared = false;
  for (int k = 0; k < steps; ++k) {
    const int i = static_cast<int>(s.draw(4));
    const int j = static_cast<int>(s.draw(4));
    const int op = static_cast<int>(s.draw(14));
    auto A = [&](F a, F b) { return conn(FOp::And, {a, b}); };
    auto O = [&](F a, F b) { return conn(FOp::Or, {a, b}); };
    if (m[i]->size + m[j]->size > 120) {
      h[i] = Formula{vs.v[kReal]};
      m[i] = bvar(kReal);
      log += cat("h", i, " = b2; ");
      continue;
    }
    if (i == j && op >= 2 && op <= 7) continue;
    switch (op) {
      case 0: log += cat("h", i, " = h", i, " && h", j, "; "); m[i] = A(m[i], m[j]); h[i] = h[i] && h[j]; break;
      case 1: log += cat("h", i, " = h", i, " || h", j, "; "); m[i] = O(m[i], m[j]); h[i] = h[i] || h[j]; break;
      case 2: log += cat("h", i, " = move(h", i, ") && h", j, "; "); m[i] = A(m[i], m[j]); h[i] = std::move(h[i]) && h[j]; break;
      case 3: log += cat("h", i, " = move(h", i, ") || h", j, "; "); m[i] = O(m[i], m[j]); h[i] = std::move(h[i]) || h[j]; break;
      case 4: log += cat("h", i, " = h", j, " && move(h", i, "); "); m[i] = A(m[j], m[i]); h[i] = h[j] && std::move(h[i]); break;
      case 5: log += cat("h", i, " = h", j, " || move(h", i, "); "); m[i] = O(m[j], m[i]); h[i] = h[j] || std::move(h[i]); break;
      case 6: {
        log += cat("h", i, " = copy && copy h", j, "; ");
        Formula a{h[i]}, b{h[j]};
        m[i] = A(m[i], m[j]);
        h[i] = std::move(a) && std::move(b);
        break;
      }
      case 7: {
        log += cat("h", i, " = copy || copy h", j, "; ");
        Formula a{h[i]}, b{h[j]};
        m[i] = O(m[i], m[j]);
        h[i] = std::move(a) || std::move(b);
        break;
      }
      case 8: log += cat("h", i, " = h", j, "; "); if (i != j) shared = true; m[i] = m[j]; h[i] = h[j]; break;
      case 9: log += cat("h", i, " = !h", j, "; "); m[i] = conn(FOp::Not, {m[j]}); h[i] = !h[j]; break;
      case 10: {
        log += cat("h", i, " = make_conjunction({h", i, ", h", j, "}); ");
        m[i] = A(m[i], m[j]);
        h[i] = make_conjunction(std::set<Formula>{h[i], h[j]});
        break;
      }
      case 11: {
        log += cat("h", i, " = make_disjunction({h", i, ", h", j, "}); ");
        m[i] = O(m[i], m[j]);
        h[i] = make_disjunction(std::set<Formula>{h[i], h[j]});
        break;
      }
      case 12: log += cat("h", i, " = imply(h", i, ", h", j, "); "); m[i] = conn(FOp::Imply, {m[i], m[j]}); h[i] = imply(h[i], h[j]); break;
      case 13: log += cat("h", i, " = iff(h", i, ", h", j, "); "); m[i] = conn(FOp::Iff, {m[i], m[j]}); h[i] = iff(h[i], h[j]); break;
    }
    ++mut;
    c.describe(log);
    for (int q = 0; q < 4; ++q)
      for (const auto& p : pts) compare(m[q], h[q], vs, p, c, &compared);
  }
  if (mut >= 3 && shared && compared) c.nontrivial(log);
}
