// C32 .dr input.
#include <cmath>
#include <set>

#include "answers.h"
#include "ast.h"
#include "dreal/dr/driver.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
#include "optimum.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using namespace answers;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;
using std::string;
using std::vector;

namespace {
struct DrPrinter {
  Src& s;
  const vector<string>& names;
  std::set<string>* features;

  string num(double a) {  // a >= 0
    char buf[400];
    switch (s.weighted({5, 1, 1, 1})) {
      case 0: snprintf(buf, sizeof buf, "%.17g", a); break;
      case 1: snprintf(buf, sizeof buf, "%.20e", a); break;
      case 2:
        if (a == std::floor(a) && a < 1e15)
          snprintf(buf, sizeof buf, "%.0f.", a);
        else
          snprintf(buf, sizeof buf, "%.17G", a);
        break;
      default:
        if (a == std::floor(a) && a < 1e15)
          snprintf(buf, sizeof buf, "%.0f.0", a);
        else
          snprintf(buf, sizeof buf, "%.18g", a);
    }
    string r = buf;
    if (r.size() > 2 && r[0] == '0' && r[1] == '.' && s.chance(1, 3)) r.erase(0, 1);
    return r;
  }
  string sp() { return s.chance(1, 3) ? "" : " "; }
  // levels: 0 sums, 1 products, 2 negation, 3 powers, 4 the rest
  string wrap(const string& t, int level, int need) {
    if (level < need || s.chance(1, 12)) return "(" + sp() + t + sp() + ")";
    if (level < 4) features->insert("precedence");
    return t;
  }
  string print(const N& n, int need) {
    static const std::map<Op, string> fn = {
        {Op::Log, "log"},   {Op::Abs, "abs"},     {Op::Exp, "exp"},
        {Op::Sqrt, "sqrt"}, {Op::Pow, "pow"},     {Op::Sin, "sin"},
        {Op::Cos, "cos"},   {Op::Tan, "tan"},     {Op::Asin, "asin"},
        {Op::Acos, "acos"}, {Op::Atan, "atan"},   {Op::Atan2, "atan2"},
        {Op::Sinh, "sinh"}, {Op::Cosh, "cosh"},   {Op::Tanh, "tanh"},
        {Op::Min, "min"},   {Op::Max, "max"}};
    switch (n->op) {
      case Op::Const:
        if (std::signbit(n->c)) return wrap("-" + sp() + num(-n->c), 2, need);
        return wrap(num(n->c), 4, need);
      case Op::Var: return wrap(names[n->v], 4, need);
      case Op::Neg: return wrap("-" + sp() + print(n->a[0], s.chance(1, 4) ? 2 : 3), 2, need);
      case Op::Add:
        return wrap(print(n->a[0], 0) + sp() + "+" + sp() + print(n->a[1], 1), 0, need);
      case Op::Sub:
        return wrap(print(n->a[0], 0) + sp() + "-" + sp() + print(n->a[1], 1), 0, need);
      case Op::Mul:
        return wrap(print(n->a[0], 1) + sp() + "*" + sp() + print(n->a[1], 2), 1, need);
      case Op::Div:
        return wrap(print(n->a[0], 1) + sp() + "/" + sp() + print(n->a[1], 2), 1, need);
      case Op::Pow:
        if (s.chance(1, 2)) {
          // right-associative; a negation may follow
          const int r = s.chance(1, 2) ? 2 : 3;
          features->insert("^");
          return wrap(print(n->a[0], 4) + sp() + "^" + sp() + print(n->a[1], r), 3, need);
        }
        break;
      default: break;
    }
    string r = fn.at(n->op) + sp() + "(";
    for (size_t i = 0; i < n->a.size(); ++i)
      r += (i ? "," + sp() : "") + print(n->a[i], 0);
    return wrap(r + ")", 4, need);
  }
  // levels: 0 =>, 1 or, 2 and, 3 not, 4 relations
  string fwrap(const string& t, int level, int need) {
    if (level < need || s.chance(1, 12)) return "(" + sp() + t + sp() + ")";
    if (level < 4 && need < 4) features->insert("connective precedence");
    return t;
  }
  string print(const F& f, int need) {
    static const std::map<FOp, string> ops = {
        {FOp::Eq, "="}, {FOp::Gt, ">"}, {FOp::Ge, ">="}, {FOp::Lt, "<"},
        {FOp::Le, "<="}};
    switch (f->op) {
      case FOp::True: return fwrap("0 <= 1", 4, need);
      case FOp::False: return fwrap("0 > 1", 4, need);
      case FOp::Ne:
        return fwrap("not " + print(rel(FOp::Eq, f->e[0], f->e[1]), s.chance(1, 2) ? 3 : 5), 3, need);
      case FOp::Not: return fwrap("not " + print(f->f[0], 3), 3, need);
      case FOp::And:
      case FOp::Or: {
        const int l = f->op == FOp::And ? 2 : 1;
        string r = print(f->f[0], l);
        for (size_t i = 1; i < f->f.size(); ++i)
          r += (l == 2 ? " and " : " or ") + print(f->f[i], l + 1);
        return fwrap(r, l, need);
      }
      case FOp::Imply:
        return fwrap(print(f->f[0], 1) + (s.chance(1, 2) ? " => " : " implies ") +
                         print(f->f[1], 0),
                     0, need);
      case FOp::Iff: {
        const F &a = f->f[0], &b = f->f[1];
        return print(conn(FOp::And, {conn(FOp::Imply, {a, b}),
                                     conn(FOp::Imply, {b, a})}),
                     need);
      }
      case FOp::BVar:
      case FOp::Forall: abort();
      default:
        return fwrap(print(f->e[0], 0) + sp() + ops.at(f->op) + sp() +
                         print(f->e[1], 0),
                     4, need);
    }
  }
};

string dr_layout(Src& s, const string& t) {
  const int style = s.weighted({4, 1, 1});
  if (style == 0) return t;
  string r;
  for (char ch : t) {
    if (ch != ' ')
      r += ch;
    else if (style == 1)
      r += s.chance(1, 4) ? "\r\n" : "\n\t";
    else
      r += s.chance(1, 6) ? " # x = 1; [\n" : "  ";
  }
  return r;
}

struct DrScript {
  Scene sc;
  vector<string> names;
  vector<F> fs;
  vector<N> costs;
  bool pinned{false};
  std::set<string> features;
  string text;
};
void gen_dr(Src& s, Ctx& c, DrScript* d) {
  Scene& sc = d->sc;
  sc = gen_scene(s, false, false);
  const int n = static_cast<int>(sc.p.size());
  d->pinned = s.chance(1, 2);
  static const vector<string> pat = {"x#", "v_#", "X.#", "expx#", "e#", "var#",
                                     "and_#", "E#", "ctr.#", "pow_#", "y__#."};
  for (int i = 0; i < n; ++i) {
    string nm = s.chance(1, 2) ? pat[0] : s.pick(pat);
    d->names.push_back(nm.replace(nm.find('#'), 1, std::to_string(i)));
    if (d->pinned) sc.lb[i] = sc.ub[i] = sc.p[i];
    if (sc.p[i] == 0) sc.p[i] = 0;  // no -0
  }
  DrPrinter pr{s, d->names, &d->features};
  auto bound = [&](double v) -> string {
    if (s.chance(1, 6)) return pr.print(mk(Op::Mul, {cst(2), cst(v / 2)}), 0);
    return pr.print(cst(v), 0);
  };
  d->text = s.chance(1, 8) ? "# first\nvar:\n" : s.chance(1, 8) ? "var :" : "var:\n";
  for (int i = 0; i < n; ++i) {
    string t;
    if (sc.lb[i] == sc.ub[i] && s.chance(2, 3))
      t = bound(sc.lb[i]) + " " + d->names[i] + ";";
    else
      t = "[" + bound(sc.lb[i]) + "," + pr.sp() + bound(sc.ub[i]) + "] " + d->names[i] + pr.sp() + ";";
    d->text += dr_layout(s, t) + (s.chance(1, 8) ? "" : "\n");
  }
  FormulaGen g{s, sc, n};
  const int k = s.range(0, 3);
  if (k) d->text += "ctr:\n";
  for (int i = 0; i < k; ++i) {
    d->fs.push_back(g.gen(s.range(0, 3), s.chance(4, 5)));
    bool built;
    try_build(d->fs.back(), sc.vs, &built);
    if (!built) c.discard();
    d->text += dr_layout(s, pr.print(d->fs.back(), 0)) + ";" + (s.chance(1, 8) ? "" : "\n");
  }
  if (d->pinned && s.chance(1, 4)) {
    string t;
    const int m = s.range(1, 2);
    for (int i = 0; i < m; ++i) {
      GenOpt o = options(n, s);
      o.real_consts = false;
      const N e = gen_expr(s, o);
      const Result r = evaluate(e, sc.p);
      bool built;
      const Expression x = try_build(e, sc.vs, &built);
      if (!built || !r.defined || !r.reliable || x.GetVariables().empty()) continue;
      d->costs.push_back(e);
      t += dr_layout(s, pr.print(e, 0)) + ";\n";
    }
    if (!d->costs.empty()) d->text += (s.chance(1, 2) ? "cost:\n" : "cost : ") + t;
  }
  if (s.chance(1, 8)) d->text += "# the end";
}

bool dr_run(const string& t, const Config& cf, string* out, string* err) {
  bool ok = false;
  Capture cap;
  try {
    DrDriver d{Context{cf}};
    ok = d.parse_string(t);
  } catch (const Budget&) {
    throw;
  } catch (const std::exception& e) {
    *err = e.what();
  }
  *out = cap.done();
  *err += cap.errs.str();
  return ok;
}
}  // namespace

PBT_TARGET("C32", dr_script, 12000,
           "random .dr files (variables in intervals or at points, constraints "
           "printed with the fewest parentheses the documented precedences "
           "allow, number formats, comments, white space, cost functions) from "
           "syntax trees that are mostly true at a planted point; the answer "
           "is printed in the documented format, unsat only if the planted and "
           "sampled points violate a constraint, the model is within the bounds "
           "and satisfies the weakened constraints, and the minimum at the only "
           "point is the value there; non-trivial: precedence mattered and a "
           "constraint of at least 8 nodes") {
  DrScript d;
  gen_dr(s, c, &d);
  const Scene& sc = d.sc;
  Config cf;
  static const vector<double> deltas = {0.001, 0.5, 0.01};
  const double delta = s.pick(deltas);
  cf.mutable_precision() = delta;
  const bool produce = s.chance(3, 4);
  cf.mutable_produce_models() = produce;
  int budget = 300;
  bool stuck = false;
  cf.mutable_brancher() = [&budget, &stuck](const Box& b, const DynamicBitset& a,
                                            Box* l, Box* r) {
    if (--budget < 0) throw Budget{};
    const int k = BranchLargestFirst(b, a, l, r);
    if (k < 0) stuck = true;
    return k;
  };
  vector<vector<double>> points{sc.p};
  for (int i = 0; i < 5; ++i) points.push_back(sample(s, sc));
  c.describe(d.text + cat("delta ", delta, " at ") + show(sc.p));
  for (const string& f : d.features) c.label(f);
  const bool finished = pbt::limited(c, 3.0, [&](Ctx& c) {
    string out, err;
    bool ok = false;
    try {
      ok = dr_run(d.text, cf, &out, &err);
    } catch (const Budget&) {
      c.label("budget");
      return;
    }
    c.check(ok, "rejected: " + err);
    const vector<string> ls = lines(out);
    c.check(!ls.empty(), "no answer");
    if (ls[0] == "unsat") {
      c.label("unsat");
      c.check(ls.size() == 1, "answer: " + out);
      for (const vector<double>& q : points) {
        bool all = true;
        for (const F& f : d.fs) {
          const BResult r = evaluate(f, q);
          all = all && r.defined && r.reliable && r.value;
        }
        c.check(!all, "unsat, but " + show(q) + " is a solution");
      }
    } else {
      c.label("delta-sat");
      std::ostringstream yes;
      yes << "delta-sat with delta = " << delta;
      c.check(ls[0] == yes.str(), "answer: " + out);
      if (!produce) {
        c.check(ls.size() == 1, "answer: " + out);
      } else {
        // The model: with cost functions there are more variables.
        Box m;
        size_t at = 1;
        std::map<string, Box::Interval> got;
        for (; at < ls.size(); ++at) {
          const size_t k = ls[at].find(" : ");
          if (k == string::npos) break;
          double lo, hi;
          c.check(parse_interval(ls[at].substr(k + 3), &lo, &hi),
                  "model line: " + ls[at]);
          got[ls[at].substr(0, k)] = Box::Interval{lo, hi};
        }
        c.check(got.size() == sc.p.size(),
                cat("the model has ", got.size(), " variables: ", out));
        for (size_t i = 0; i < sc.p.size(); ++i) {
          const auto it = got.find(d.names[i]);
          c.check(it != got.end(), "the model misses " + d.names[i]);
          c.check(sc.lb[i] <= it->second.lb() && it->second.ub() <= sc.ub[i],
                  "the model has " + d.names[i] + " in " + show_iv(it->second));
          m.Add(sc.vs.v[i]);
          m[static_cast<int>(i)] = it->second;
        }
        for (size_t k = 0; k < d.costs.size(); ++k, ++at) {
          c.check(at < ls.size() && ls[at].find("Found minimum for ") == 0,
                  "answer: " + out);
          const size_t is = ls[at].rfind(" is ");
          const double v = std::stod(ls[at].substr(is + 4));
          const Result r = evaluate(d.costs[k], sc.p);
          c.check(std::fabs(v - r.value) <= 2e-5 * std::fabs(r.value) + r.tol + 1e-9,
                  cat("minimum ", v, " instead of ", r.value));
          c.label("minimum");
        }
        c.check(at == ls.size(), "answer: " + out);
        if (!stuck)
          for (const F& f : d.fs)
            for (const vector<double>& q : points_of(m, 5)) {
              bool built;
              const F seen = reflect(try_build(f, sc.vs, &built), sc.vs);
              c.check(weak(seen, true, q, delta),
                      "the point " + show(q) + " of the model violates " + show(f) +
                          " even weakened by delta");
            }
      }
    }
    c.count();
    size_t size = 0;
    for (const F& f : d.fs) size = std::max<size_t>(size, f->size);
    if (d.features.count("precedence") && size >= 8) c.nontrivial(c.desc_);
  });
  if (!finished) c.label("time");
}

PBT_TARGET("C32", dr_reject, 4000,
           "the same files with one error (unknown names, missing or doubled "
           "separators, unbalanced brackets, sections in another order, a "
           "formula where a term is due and the reverse, wrong numbers of "
           "arguments) are rejected without an answer; non-trivial: the file "
           "has at least two constraints") {
  DrScript d;
  gen_dr(s, c, &d);
  string t = d.text, kind;
  auto strip = [&]() {  // no comments, so that each character counts
    string r;
    bool com = false;
    for (char ch : t) {
      if (ch == '#') com = true;
      if (ch == '\n') com = false;
      if (!com) r += ch;
    }
    t = r;
  };
  strip();
  auto positions = [&](const string& chars) {
    vector<size_t> at;
    for (size_t i = 0; i < t.size(); ++i)
      if (chars.find(t[i]) != string::npos) at.push_back(i);
    return at;
  };
  // a new constraint, before the cost functions
  auto constraint = [&](const string& f) {
    const size_t k = t.rfind("cost");
    const size_t end = d.costs.empty() ? t.size() : k;
    t.insert(end, (d.fs.empty() ? "\nctr:\n" : "\n") + f + ";\n");
  };
  DrPrinter pr{s, d.names, &d.features};
  auto term = [&]() {
    return s.chance(1, 2) ? d.names[s.draw(d.names.size())] : pr.print(cst(2), 0);
  };
  switch (s.draw(7)) {
    case 0:
      kind = "unknown name";
      constraint(s.chance(1, 2) ? "nobody <= " + term() : term() + " < sin(nobody)");
      break;
    case 1: {
      kind = "separator";
      const vector<size_t> at = positions(";");
      const size_t k = s.pick(at);
      // (a constraint may go on with a minus)
      const size_t next = t.find_first_not_of("; \t\r\n", k);
      if (s.chance(1, 2) || (next != string::npos && t[next] == '-'))
        t.insert(k, ";");
      else
        t[k] = ' ';
      break;
    }
    case 2: {
      kind = "brackets";
      const vector<size_t> at = positions("()[]");
      if (at.empty()) c.discard();
      const size_t k = s.pick(at);
      if (s.chance(1, 2))
        t.erase(k, 1);
      else
        t.insert(k, 1, t[k]);
      // ((x)) has a second reading without either pair only if both go
      break;
    }
    case 3:
      kind = "sections";
      switch (s.draw(3)) {
        case 0: t += "\nvar:\n1 zz;\n"; break;
        case 1: t = "ctr:\n0 <= 1;\n" + t; break;
        default: t = t.substr(t.find(':') + 1);
      }
      break;
    case 4:
      kind = "sorts";
      switch (s.draw(6)) {
        case 0: constraint(term()); break;
        case 1: constraint("not " + term()); break;
        case 2: constraint("(" + term() + " < 1) + 1 < 2"); break;
        case 3: constraint(term() + " and " + term() + " < 1"); break;
        case 4: constraint("sin(" + term() + " < 1) < 1"); break;
        default: constraint(term() + " <= 1 => " + term()); break;
      }
      break;
    case 5:
      kind = "arguments";
      switch (s.draw(4)) {
        case 0: constraint("sin(" + term() + "," + term() + ") < 1"); break;
        case 1: constraint("pow(" + term() + ") < 1"); break;
        case 2: constraint("min(" + term() + ") < 1"); break;
        default: constraint("exp() < 1"); break;
      }
      break;
    default:
      kind = "relations";
      switch (s.draw(4)) {
        case 0: constraint(term() + " <= " + term() + " <= 3"); break;
        case 1: constraint(term() + " == " + term()); break;
        case 2: constraint(term() + " < "); break;
        default: constraint(term() + " 3 < 1"); break;
      }
  }
  c.describe(t);
  c.label(kind);
  Config cf;
  string out, err;
  int budget = 50;
  cf.mutable_brancher() = [&budget](const Box& b, const DynamicBitset& a, Box* l,
                                    Box* r) {
    if (--budget < 0) throw Budget{};
    return BranchLargestFirst(b, a, l, r);
  };
  const bool finished = pbt::limited(c, 3.0, [&](Ctx& c) {
    bool ok = true;
    try {
      ok = dr_run(t, cf, &out, &err);
    } catch (const Budget&) {
    }
    c.check(!ok, "accepted: " + out);
    c.check(out.empty(), "answered: " + out);
    c.check(!err.empty(), "no message");
  });
  c.count();
  if (finished && d.fs.size() >= 2) c.nontrivial(c.desc_);
}

PBT_TARGET("C32", dr_optimum, 1500,
           "files with one or two cost functions (quadratic and linear) over one "
           "or two variables with linear constraints that hold at a planted point "
           "with a margin: never unsat, the model is in the bounds, violates no "
           "constraint by more than delta, no feasible point of a grid is better "
           "by more than 2 delta, and the printed minima are the values at the "
           "model; non-trivial: a constraint and an answer") {
  const optimum::Problem r = optimum::gen(s, s.chance(1, 5) ? 2 : 1);
  std::set<string> features;
  vector<string> names{"x", "y"};
  DrPrinter pr{s, names, &features};
  string t = "var:\n";
  for (int i = 0; i < r.n; ++i)
    t += "[" + pr.print(cst(r.lb[i]), 0) + ", " + pr.print(cst(r.ub[i]), 0) + "] " + names[i] + ";\n";
  t += "ctr:\n";
  for (const auto& l : r.cs) {
    const bool flip = s.chance(1, 3);
    const string a = pr.print(optimum::term(l), 0), b = pr.print(cst(l.b), 0);
    t += (flip ? b : a) + (l.le != flip ? " <= " : " >= ") + (flip ? a : b) + ";\n";
  }
  if (r.cs.empty() && s.chance(1, 2)) t += names[0] + " <= " + pr.print(cst(r.ub[0] + 8), 0) + ";\n";
  t += "cost:\n";
  for (const auto& f : r.fs) t += pr.print(optimum::term(f), 0) + ";\n";
  if (t.find("ctr:\ncost") != string::npos) t.erase(t.find("ctr:\n"), 5);
  Config cf;
  cf.mutable_precision() = r.delta;
  cf.mutable_produce_models() = true;
  if (s.chance(1, 3)) cf.mutable_use_local_optimization() = true;
  int budget = 500;
  cf.mutable_brancher() = [&budget](const Box& b, const DynamicBitset& a, Box* l, Box* r) {
    if (--budget < 0) throw Budget{};
    return BranchLargestFirst(b, a, l, r);
  };
  c.describe(t + cat("delta ", r.delta));
  const bool finished = pbt::limited(c, 3.0, [&](Ctx& c) {
    string out, err;
    bool ok = false;
    try {
      ok = dr_run(t, cf, &out, &err);
    } catch (const Budget&) {
      c.label("budget");
      return;
    }
    c.check(ok, "rejected: " + err);
    const vector<string> ls = lines(out);
    c.check(ls.size() == 1 + r.n + r.fs.size(), "answer: " + out);
    std::ostringstream yes;
    yes << "delta-sat with delta = " << r.delta;
    c.check(ls[0] == yes.str(), "answer: " + out);
    vector<double> lo(r.n), hi(r.n), mid(r.n);
    for (int i = 0; i < r.n; ++i) {
      c.check(ls[1 + i].rfind(names[i] + " : ", 0) == 0 &&
                  parse_interval(ls[1 + i].substr(4), &lo[i], &hi[i]),
              "answer: " + out);
      mid[i] = (lo[i] + hi[i]) / 2;
    }
    optimum::judge(c, r, lo, hi, 1);
    for (size_t j = 0; j < r.fs.size(); ++j) {
      const string& l = ls[1 + r.n + j];
      const size_t is = l.rfind(" is ");
      c.check(l.rfind("Found minimum for ", 0) == 0 && is != string::npos, "answer: " + out);
      const double v = std::stod(l.substr(is + 4)), w = r.fs[j].at(mid);
      c.check(std::fabs(v - w) <= 20 * r.delta + 1e-4 * std::fabs(w),
              cat("minimum ", v, ", but the model has ", w));
    }
    c.count();
    if (!r.cs.empty()) c.nontrivial(c.desc_);
  });
  if (!finished) c.label("time");
}
