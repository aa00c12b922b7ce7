// Free variables, substitution and partial evaluation.
#include <map>

#include "ast.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
constexpr int kReal = 4, kBool = 3;  // ids 0..3 real, 4..6 Boolean

struct Model {
  std::map<int, N> e;
  std::map<int, F> f;
};
N subst(const N& n, const Model& m);
F subst(const F& f, const Model& m) {
  if (f->op == FOp::BVar) {
    const auto it = m.f.find(f->v);
    return it == m.f.end() ? f : it->second;
  }
  if (f->op == FOp::True || f->op == FOp::False) return f;
  if (is_rel(f->op))
    return rel(f->op, subst(f->e[0], m), subst(f->e[1], m), f->style);
  if (f->op == FOp::Forall) {
    Model m2 = m;
    for (int q : f->qv) {
      m2.e.erase(q);
      m2.f.erase(q);
    }
    return forall_(f->qv, subst(f->f[0], m2));
  }
  std::vector<F> a;
  for (const F& g : f->f) a.push_back(subst(g, m));
  return conn(f->op, a, f->style);
}
N subst(const N& n, const Model& m) {
  if (n->op == Op::Var) {
    const auto it = m.e.find(n->v);
    return it == m.e.end() ? n : it->second;
  }
  if (n->op == Op::Const) return n;
  std::vector<N> a;
  for (const N& x : n->a) a.push_back(subst(x, m));
  return mk(n->op, a, n->cond ? subst(n->cond, m) : nullptr, n->style);
}

std::vector<double> gen_env(Src& s) {
  std::vector<double> p = gen_point(s, kReal);
  for (int i = 0; i < kBool; ++i) p.push_back(static_cast<double>(s.draw(2)));
  return p;
}

GenOpt opt(Src& s) {
  GenOpt o;
  o.nvars = 3;
  o.bool_vars = {4, 5, 6};
  o.max_terms = s.chance(1, 4) ? 12 : 7;
  o.max_size = 30;
  o.trans = s.chance(1, 2);
  o.division = s.chance(1, 2);
  o.inexact_consts = s.chance(1, 4);
  o.real_consts = s.chance(1, 5);
  return o;
}

Model gen_model(Src& s, bool formulas, std::string* log) {
  GenOpt o;
  o.nvars = kReal;
  o.bool_vars = {4, 5, 6};
  o.max_terms = 3;
  o.max_size = 9;
  o.trans = s.chance(1, 3);
  o.division = s.chance(1, 4);
  o.ite = s.chance(1, 4);
  o.inexact_consts = false;
  Model m;
  for (int v = 0; v < kReal; ++v) {
    if (!s.chance(1, 2)) continue;
    switch (s.weighted({2, 2, 4})) {
      case 0: m.e[v] = cst(gen_const(s, false)); break;
      case 1: m.e[v] = var(static_cast<int>(s.draw(kReal))); break;
      default: m.e[v] = gen_expr(s, o); break;
    }
    *log += cat(" x", v, ":=", show(m.e[v]));
  }
  if (formulas)
    for (int v = 4; v < 4 + kBool; ++v) {
      if (!s.chance(1, 3)) continue;
      switch (s.weighted({2, 2, 3})) {
        case 0: m.f[v] = s.chance(1, 2) ? ftrue() : ffalse(); break;
        case 1: m.f[v] = bvar(4 + static_cast<int>(s.draw(kBool))); break;
        default: m.f[v] = gen_formula(s, o, 1); break;
      }
      *log += cat(" x", v, ":=", show(m.f[v]));
    }
  return m;
}

bool has_ite_f(const F& f);
bool has_ite(const N& n) {
  if (n->op == Op::Ite) return true;
  for (const N& x : n->a)
    if (has_ite(x)) return true;
  return false;
}
bool has_ite_f(const F& f) {
  for (const N& x : f->e)
    if (has_ite(x)) return true;
  for (const F& g : f->f)
    if (has_ite_f(g)) return true;
  return false;
}

struct Real {
  ExpressionSubstitution e;
  FormulaSubstitution f;
};
Real realise(const Model& m, const Vars& vs) {
  Real r;
  for (const auto& p : m.e) r.e.emplace(vs.v[p.first], build(p.second, vs));
  for (const auto& p : m.f) r.f.emplace(vs.v[p.first], build(p.second, vs));
  return r;
}

std::set<int> ids(const Variables& vars, const Vars& vs) {
  std::set<int> r;
  for (const Variable& v : vars) r.insert(vs.index(v));
  return r;
}
std::string show_ids(const std::set<int>& a) {
  std::string r = "{";
  for (int i : a) r += cat(" ", i);
  return r + " }";
}

template <typename Q>
auto apply(const Q& q, const Real& r, int form) {
  // The equivalent interfaces.
  if (form == 1 && r.f.empty()) return q.Substitute(r.e);
  if (form == 1 && r.e.empty()) return q.Substitute(r.f);
  if (form == 2 && r.f.empty() && r.e.size() == 1)
    return q.Substitute(r.e.begin()->first, r.e.begin()->second);
  return q.Substitute(r.e, r.f);
}
}  // namespace

PBT_TARGET("C03", substitute_expr, 400000,
           "random expression and a random simultaneous substitution of terms "
           "for real and formulas for Boolean variables; the result is "
           "evaluated at 4 points against the independently substituted tree, "
           "free variables are compared with the reflected structure; "
           "non-trivial: a substituted variable occurs, the replacement is not "
           "a plain variable or constant, and a point was compared") {
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  const GenOpt o = opt(s);
  const N n = gen_expr(s, o);
  std::string log = show(n) + "  with";
  const Model m = gen_model(s, true, &log);
  const int form = static_cast<int>(s.draw(3));
  c.describe(log);
  Expression e;
  Real r;
  try {
    e = build(n, vs);
    r = realise(m, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const N ref = reflect(e, vs);
  std::set<int> rv, wv;
  vars_of(ref, &rv);
  vars_of(n, &wv);
  c.check(ids(e.GetVariables(), vs) == rv,
          cat("GetVariables() of ", e, " is ", e.GetVariables(), ", occurring: ",
              show_ids(rv)));
  const N t = subst(n, m);
  if (t->size > 400) c.discard();
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 4; ++i) pts.push_back(gen_env(s));
  Expression got;
  try {
    got = apply(e, r, form);
  } catch (const std::exception& ex) {
    c.label("substitution rejected");
    if (has_ite(t)) return;
    for (const auto& p : pts)
      if (evaluate(t, p).reliable)
        c.fail(cat("Substitute threw ", ex.what(), " but the result is defined "
                   "at ", show(p)));
    return;
  }
  c.add(cat("  ~>  ", got));
  std::set<int> tv, gv;
  // Variables of the substituted simplified term.
  vars_of(subst(ref, m), &tv);
  const N gref = reflect(got, vs);
  vars_of(gref, &gv);
  c.check(ids(got.GetVariables(), vs) == gv, "GetVariables() of the result");
  for (int v : gv)
    c.check(tv.count(v) > 0, cat("variable ", v, " from nowhere in ", got));
  bool compared = false;
  for (const auto& p : pts) {
    const Result w = evaluate(t, p);
    if (!w.reliable) {
      c.label(w.defined ? "point:ill-conditioned" : "point:undefined");
      continue;
    }
    c.label("point:compared");
    compared = true;
    double val = 0;
    try {
      val = got.Evaluate(vs.env(p));
    } catch (const std::exception& ex) {
      c.fail(cat("evaluating ", got, " at ", show(p), " threw ", ex.what()));
    }
    c.check(close(val, w), cat("result ", got, " evaluates to ", val, " at ",
                               show(p), ", expected ", w.value));
  }
  // Untouched and identity substitutions.
  bool touches = false, deep = false;
  for (int v : rv) {
    const auto it = m.e.find(v);
    if (it != m.e.end() && it->second->op != Op::Var &&
        it->second->op != Op::Const)
      deep = true;
    touches |= m.e.count(v) > 0 || m.f.count(v) > 0;
  }
  if (deep && compared) c.nontrivial(log);
}

PBT_TARGET("C03", substitute_formula, 200000,
           "as substitute_expr for formulas; non-trivial: a substituted "
           "variable occurs and a point was compared") {
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  const GenOpt o = opt(s);
  const F f = gen_formula(s, o, 1 + static_cast<int>(s.draw(2)));
  if (f->size > 60) c.discard();
  std::string log = show(f) + "  with";
  const Model m = gen_model(s, true, &log);
  const int form = static_cast<int>(s.draw(3));
  c.describe(log);
  Formula e = Formula::True();
  Real r;
  try {
    e = build(f, vs);
    r = realise(m, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const F ref = reflect(e, vs);
  std::set<int> rv;
  vars_of(ref, &rv);
  c.check(ids(e.GetFreeVariables(), vs) == rv,
          cat("GetFreeVariables() of ", e, " is ", e.GetFreeVariables(),
              ", occurring: ", show_ids(rv)));
  const F t = subst(f, m);
  if (t->size > 500) c.discard();
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < 4; ++i) pts.push_back(gen_env(s));
  Formula got = Formula::True();
  try {
    if (form == 2 && r.e.empty() && r.f.size() == 1)
      got = e.Substitute(r.f.begin()->first, r.f.begin()->second);
    else
      got = apply(e, r, form);
  } catch (const std::exception& ex) {
    // A sub-term folded outside its domain.
    c.label("substitution rejected");
    if (f->op == FOp::BVar || has_ite_f(t) || !is_rel(f->op)) return;
    for (const auto& p : pts)
      if (evaluate(t, p).reliable)
        c.fail(cat("Substitute threw ", ex.what(), " but the result is defined "
                   "at ", show(p)));
    return;
  }
  c.add(cat("  ~>  ", got));
  std::set<int> gv, tv;
  vars_of(reflect(got, vs), &gv);
  vars_of(subst(ref, m), &tv);
  c.check(ids(got.GetFreeVariables(), vs) == gv,
          "GetFreeVariables() of the result");
  for (int v : gv)
    c.check(tv.count(v) > 0, cat("variable ", v, " from nowhere in ", got));
  bool compared = false;
  for (const auto& p : pts) {
    const BResult w = evaluate(t, p);
    if (!w.reliable) {
      c.label(w.defined ? "point:ill-conditioned" : "point:undefined");
      continue;
    }
    compared = true;
    c.label(w.value ? "point:true" : "point:false");
    bool val = false;
    try {
      val = got.Evaluate(vs.env(p));
    } catch (const std::exception& ex) {
      c.fail(cat("evaluating ", got, " at ", show(p), " threw ", ex.what()));
    }
    c.check(val == w.value, cat("result ", got, " is ", val, " at ", show(p),
                                ", expected ", w.value));
  }
  bool touches = false;
  for (int v : rv) touches |= m.e.count(v) > 0 || m.f.count(v) > 0;
  if (touches && compared) c.nontrivial(log);
}

PBT_TARGET("C03", quantified, 120000,
           "universally quantified bodies, nested up to 2 deep and under "
           "connectives, with substitutions that may mention the bound "
           "variables as keys but never introduce them; bound variables stay, "
           "free ones are replaced, free variables are exact; non-trivial: a "
           "bound variable is a key and a free one is replaced") {
  // Real 0,1 free; 2,3 bound; Boolean 4,5 free; 6 bound.
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  GenOpt o = opt(s);
  o.nvars = 4;
  o.max_terms = 3;
  o.trans = false;
  o.division = false;
  const F body = gen_formula(s, o, 1 + static_cast<int>(s.draw(2)));
  if (body->size > 50) c.discard();
  std::vector<int> q;
  if (s.chance(3, 4)) q.push_back(2);
  if (s.chance(1, 2)) q.push_back(3);
  if (s.chance(1, 2)) q.push_back(6);
  if (q.empty()) q.push_back(2);
  GenOpt ro;
  ro.nvars = 2;
  ro.bool_vars = {4, 5};
  ro.max_terms = 2;
  ro.trans = false;
  ro.division = false;
  ro.ite = false;
  Model m;
  std::string log = cat("forall", show_ids(std::set<int>(q.begin(), q.end())),
                        " ", show(body), " with");
  for (int v = 0; v < 4; ++v)
    if (s.chance(1, 2)) {
      m.e[v] = s.chance(1, 3) ? cst(gen_const(s, false)) : gen_expr(s, ro);
      log += cat(" x", v, ":=", show(m.e[v]));
    }
  for (int v = 4; v < 7; ++v)
    if (s.chance(1, 3)) {
      m.f[v] = s.chance(1, 3) ? (s.chance(1, 2) ? ftrue() : ffalse())
                              : gen_formula(s, ro, 1);
      log += cat(" x", v, ":=", show(m.f[v]));
    }
  c.describe(log);
  Formula b = Formula::True(), bs = Formula::True();
  Real r;
  Variables qv;
  for (int v : q) qv.insert(vs.v[v]);
  try {
    b = build(body, vs);
    r = realise(m, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const Formula f = forall(qv, b);
  std::set<int> expect;
  vars_of(reflect(b, vs), &expect);
  for (int v : q) expect.erase(v);
  c.check(ids(f.GetFreeVariables(), vs) == expect,
          cat("free variables of ", f, " are ", f.GetFreeVariables()));
  Formula got = Formula::True();
  try {
    got = f.Substitute(r.e, r.f);
  } catch (const std::exception&) {
    c.discard();
  }
  c.add(cat("  ~>  ", got));
  c.check(is_forall(got), cat("not a quantified formula: ", got));
  Model m2 = m;
  for (int v : q) {
    m2.e.erase(v);
    m2.f.erase(v);
  }
  const F t = subst(body, m2);
  const Variables gq = get_quantified_variables(got);
  for (const Variable& v : gq)
    c.check(qv.include(v), cat("quantifies a new variable ", v));
  const Formula gb = get_quantified_formula(got);
  std::set<int> gv;
  vars_of(reflect(gb, vs), &gv);
  for (int v : q)
    if (gv.count(v))
      c.check(gq.include(vs.v[v]), cat("bound variable became free: ", got));
  for (int v : q) gv.erase(v);
  c.check(ids(got.GetFreeVariables(), vs) == gv,
          cat("free variables of ", got, " are ", got.GetFreeVariables()));
  bool compared = false;
  for (int i = 0; i < 4; ++i) {
    const std::vector<double> p = gen_env(s);
    const BResult w = evaluate(t, p);
    if (!w.reliable) continue;
    compared = true;
    bool val = false;
    try {
      val = gb.Evaluate(vs.env(p));
    } catch (const std::exception& ex) {
      c.fail(cat("evaluating ", gb, " threw ", ex.what()));
    }
    c.check(val == w.value, cat("body ", gb, " is ", val, " at ", show(p),
                                ", expected ", w.value));
  }
  bool bk = false, fk = false;
  std::set<int> bv;
  vars_of(body, &bv);
  for (int v : bv) {
    const bool key = m.e.count(v) || m.f.count(v);
    const bool bound = std::count(q.begin(), q.end(), v) > 0;
    bk |= key && bound;
    fk |= key && !bound;
  }
  if (bk && fk && compared) c.nontrivial(log);
}

PBT_TARGET("C03", partial_evaluation, 150000,
           "partial evaluation with values for a random subset of the "
           "variables (in 1-3 steps), completed by full evaluation of the "
           "rest, against direct evaluation of the written tree; non-trivial: "
           "some but not all variables given, and a point compared") {
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  GenOpt o = opt(s);
  o.nvars = kReal;
  const N n = gen_expr(s, o);
  const std::vector<double> p = gen_env(s);
  const int steps = s.range(1, 3);
  std::string log = show(n) + " at " + show(p);
  Expression e;
  try {
    e = build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const Result w = evaluate(n, p);
  Expression cur = e;
  std::set<int> given;
  for (int i = 0; i < steps; ++i) {
    Environment env;
    for (int v = 0; v < kReal; ++v)
      if (s.chance(1, 3)) {
        env.insert(vs.v[v], p[v]);
        given.insert(v);
      }
    log += cat(" step", env.size());
    c.describe(log);
    try {
      cur = cur.EvaluatePartial(env);
    } catch (const std::exception& ex) {
      if (w.reliable && !has_ite(n))
        c.fail(cat("EvaluatePartial threw ", ex.what()));
      return;
    }
    std::set<int> vars = ids(cur.GetVariables(), vs);
    for (int v : given)
      c.check(!vars.count(v), cat("variable ", v, " survives in ", cur));
  }
  if (!w.reliable) return;
  // Only the remaining variables are supplied.
  Environment rest;
  for (const Variable& v : cur.GetVariables()) rest.insert(v, p[vs.index(v)]);
  double val = 0;
  try {
    val = cur.Evaluate(rest);
  } catch (const std::exception& ex) {
    c.fail(cat("evaluating ", cur, " threw ", ex.what()));
  }
  c.check(close(val, w), cat("partial result ", cur, " evaluates to ", val,
                             ", expected ", w.value));
  std::set<int> vars;
  vars_of(n, &vars);
  bool some = false, rem = false;
  for (int v : vars) (given.count(v) ? some : rem) = true;
  if (some && rem) c.nontrivial(log);
}

PBT_TARGET("C03", uninterpreted, 20000,
           "uninterpreted functions over random variable sets, alone and inside "
           "terms: the variables after substitution are those of the "
           "substituted arguments; non-trivial: some argument is substituted "
           "and some is not") {
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  Variables args;
  std::set<int> av;
  for (int v = 0; v < kReal + kBool; ++v)
    if (s.chance(1, 2)) {
      args.insert(vs.v[v]);
      av.insert(v);
    }
  std::string log = cat("f(", args, ") with");
  const Model m = gen_model(s, true, &log);
  const bool inside = s.chance(1, 2);
  c.describe(log);
  Real r;
  try {
    r = realise(m, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  const Expression f = uninterpreted_function("f", args);
  std::set<int> expect;
  bool some = false, other = false;
  for (int v : av) {
    if (m.e.count(v)) {
      for (int i : ids(r.e.at(vs.v[v]).GetVariables(), vs)) expect.insert(i);
      some = true;
    } else if (m.f.count(v)) {
      for (int i : ids(r.f.at(vs.v[v]).GetFreeVariables(), vs)) expect.insert(i);
      some = true;
    } else {
      expect.insert(v);
      other = true;
    }
  }
  const Expression e = inside ? sin(f) : f;
  c.check(ids(e.GetVariables(), vs) == av, "GetVariables of the application");
  const Expression got = e.Substitute(r.e, r.f);
  c.check(ids(got.GetVariables(), vs) == expect,
          cat(e, " becomes ", got, ", expected variables ", show_ids(expect)));
  if (some && other) c.nontrivial(log);
}
