// C36 local optimisation.
#include <cmath>
#include <stdexcept>

#include "ast.h"
#include "dreal/contractor/counterexample_refiner.h"
#include "dreal/optimization/nlopt_optimizer.h"
#include "dreal/solver/config.h"
#include "dreal/util/box.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
// A convex problem in z = x - p with the optimum z*.
struct Convex {
  int n{0};                     // decision variables are 0 .. n-1
  std::vector<double> z;        // the optimum
  std::vector<double> w, c;     // the objective is sum w (z - c)^2 + k
  double k{0};
  struct Con {
    std::vector<double> a;      // linear part
    std::vector<double> q, d;   // or sum q (z - d)^2
    double rhs{0};
    bool eq{false}, active{false};
  };
  std::vector<Con> cons;
  std::vector<double> lb, ub;
};

// Linear independence of the gradients of the active constraints; SLSQP cannot
// do without.
struct Basis {
  std::vector<std::vector<double>> b;
  bool add(std::vector<double> v) {
    double before = 0, after = 0;
    for (double x : v) before += x * x;
    for (const auto& u : b) {
      double k = 0;
      for (size_t j = 0; j < v.size(); ++j) k += u[j] * v[j];
      for (size_t j = 0; j < v.size(); ++j) v[j] -= k * u[j];
    }
    for (double x : v) after += x * x;
    if (!(after > 0.1 * before)) return false;
    for (double& x : v) x /= std::sqrt(after);
    b.push_back(v);
    return true;
  }
};

double small(Src& s) { return s.range(-8, 8) / 4.0; }

Convex gen_convex(Src& s, bool bounds_active) {
  Convex p;
  p.n = s.range(1, 3);
  for (int j = 0; j < p.n; ++j) {
    p.z.push_back(small(s));
    static const std::vector<double> ws = {1, 0.5, 2};
    p.w.push_back(s.pick(ws));
  }
  p.k = small(s);
  std::vector<double> g(p.n, 0.0);  // sum of lambda * gradient
  const int m = s.range(0, 3);
  int eqs = 0;
  Basis basis;
  for (int i = 0; i < m; ++i) {
    Convex::Con con;
    con.active = s.chance(1, 2);
    std::vector<double> grad(p.n, 0.0);
    bool zero = true;
    if (s.chance(1, 3)) {
      for (int j = 0; j < p.n; ++j) {
        const double q = s.chance(1, 4) ? 0.0 : s.range(1, 4) / 2.0;
        con.q.push_back(q);
        const double off = (s.chance(1, 2) ? 1 : -1) * s.range(2, 8) / 4.0;
        con.d.push_back(p.z[j] + off);
        con.rhs += q * off * off;
        grad[j] = -2 * q * off;
        zero = zero && grad[j] == 0;
      }
    } else {
      con.eq = eqs == 0 && p.n > 1 && s.chance(1, 4);
      for (int j = 0; j < p.n; ++j) {
        con.a.push_back(s.range(-2, 2));
        con.rhs += con.a[j] * p.z[j];
        grad[j] = con.a[j];
        zero = zero && grad[j] == 0;
      }
    }
    if (zero) continue;
    if (con.eq) con.active = true;
    if (con.active && !basis.add(grad)) {
      if (con.eq) continue;
      con.active = false;
    }
    eqs += con.eq;
    const double lambda = con.active ? s.range(0, 6) / 4.0 : 0;
    if (!con.active) con.rhs += s.range(1, 8) / 4.0;
    const double sign = con.eq && s.chance(1, 2) ? -1 : 1;
    for (int j = 0; j < p.n; ++j) g[j] += sign * lambda * grad[j];
    p.cons.push_back(con);
  }
  for (int j = 0; j < p.n; ++j) {
    double l = p.z[j] - s.range(1, 8) / 2.0, u = p.z[j] + s.range(1, 8) / 2.0;
    std::vector<double> unit(p.n, 0.0);
    unit[j] = 1;
    if (bounds_active && s.chance(1, 3) && basis.add(unit)) {
      const double lambda = s.range(0, 6) / 4.0;
      if (s.chance(1, 2)) {
        u = p.z[j];
        g[j] += lambda;
      } else {
        l = p.z[j];
        g[j] -= lambda;
      }
    }
    p.lb.push_back(l);
    p.ub.push_back(u);
    p.c.push_back(p.z[j] + g[j] / (2 * p.w[j]));
  }
  return p;
}

// The same problem given to NLopt directly; does it find the optimum, also from
// nearby points?
struct Function {
  const Convex* p;
  const Convex::Con* con;  // or the objective
  const std::vector<double>* shift;
};
double call(unsigned n, const double* x, double* grad, void* data) {
  const Function& f = *static_cast<Function*>(data);
  double r = f.con ? -f.con->rhs : f.p->k;
  for (unsigned j = 0; j < n; ++j) {
    const double z = x[j] - (*f.shift)[j];
    double g = 0;
    if (!f.con) {
      r += f.p->w[j] * (z - f.p->c[j]) * (z - f.p->c[j]);
      g = 2 * f.p->w[j] * (z - f.p->c[j]);
    } else if (f.con->a.empty()) {
      r += f.con->q[j] * (z - f.con->d[j]) * (z - f.con->d[j]);
      g = 2 * f.con->q[j] * (z - f.con->d[j]);
    } else {
      r += f.con->a[j] * z;
      g = f.con->a[j];
    }
    if (grad) grad[j] = g;
  }
  return r;
}
bool easy(const Convex& p, const Box& box, const std::vector<double>& shift,
          const std::vector<double>& start, bool cobyla, double delta, double tol) {
  for (int k = 0; k < 8; ++k) {
    nlopt::opt o{cobyla ? nlopt::algorithm::LN_COBYLA : nlopt::algorithm::LD_SLSQP,
                 static_cast<unsigned>(p.n)};
    o.set_ftol_abs(1e-14);
    o.set_ftol_rel(1e-14);
    o.set_maxeval(3000);
    std::vector<double> l, u, x = start;
    for (int j = 0; j < p.n; ++j) {
      l.push_back(box[j].lb());
      u.push_back(box[j].ub());
      if (k) x[j] += ((k >> j) & 1) ? 1e-3 : -1e-3;
      x[j] = std::min(u[j], std::max(l[j], x[j]));
    }
    o.set_lower_bounds(l);
    o.set_upper_bounds(u);
    std::vector<Function> fs;
    fs.push_back(Function{&p, nullptr, &shift});
    for (const Convex::Con& con : p.cons) fs.push_back(Function{&p, &con, &shift});
    o.set_min_objective(call, &fs[0]);
    for (size_t i = 1; i < fs.size(); ++i) {
      if (fs[i].con->eq) {
        o.add_equality_constraint(call, &fs[i], delta);
      } else {
        o.add_inequality_constraint(call, &fs[i], delta);
      }
    }
    double v;
    try {
      o.optimize(x, v);
    } catch (const std::runtime_error&) {
      return false;
    }
    for (int j = 0; j < p.n; ++j)
      if (!(std::fabs(x[j] - shift[j] - p.z[j]) <= tol)) return false;
  }
  return true;
}

struct Writer {
  Src& s;
  const Convex& p;
  bool params;  // z_j is x_j - p_j
  N z(int j) {
    return params ? mk(Op::Sub, {var(j), var(p.n + j)}) : var(j);
  }
  N sum(const std::vector<N>& v) {
    N r = v[0];
    for (size_t i = 1; i < v.size(); ++i)
      r = s.chance(1, 2) ? mk(Op::Add, {r, v[i]}) : mk(Op::Add, {v[i], r});
    return r;
  }
  N times(double k, const N& e) {
    if (k == 1) return e;
    if (k == -1 && s.chance(1, 2)) return mk(Op::Neg, {e});
    return s.chance(1, 2) ? mk(Op::Mul, {cst(k), e}) : mk(Op::Mul, {e, cst(k)});
  }
  N square(int j, double c) {
    const N x = z(j);
    const N d = s.chance(1, 2) ? mk(Op::Sub, {x, cst(c)}) : mk(Op::Sub, {cst(c), x});
    switch (s.draw(3)) {
      case 0: return mk(Op::Mul, {d, d});
      case 1: return mk(Op::Pow, {d, cst(2)});
      default:
        return sum({mk(Op::Mul, {x, x}), times(-2 * c, x), cst(c * c)});
    }
  }
  N objective() {
    std::vector<N> v;
    for (int j = 0; j < p.n; ++j) v.push_back(times(p.w[j], square(j, p.c[j])));
    if (p.k != 0) v.push_back(cst(p.k));
    return sum(v);
  }
  F constraint(const Convex::Con& c) {
    std::vector<N> l, r;
    for (int j = 0; j < p.n; ++j) {
      if (!c.a.empty() && c.a[j] != 0) {
        if (s.chance(1, 4)) {
          r.push_back(times(-c.a[j], z(j)));
        } else {
          l.push_back(times(c.a[j], z(j)));
        }
      }
      if (!c.q.empty() && c.q[j] != 0)
        l.push_back(times(c.q[j], square(j, c.d[j])));
    }
    if (l.empty() || c.rhs != 0 || r.empty()) r.push_back(cst(c.rhs));
    if (l.empty()) l.push_back(cst(0));
    const N a = sum(l), b = sum(r);
    if (c.eq) {
      switch (s.draw(3)) {
        case 0: return rel(FOp::Eq, a, b);
        case 1: return rel(FOp::Eq, b, a);
        default: return conn(FOp::Not, {rel(FOp::Ne, a, b)});
      }
    }
    switch (s.draw(8)) {
      case 0: return rel(FOp::Le, a, b);
      case 1: return rel(FOp::Lt, a, b);
      case 2: return rel(FOp::Ge, b, a);
      case 3: return rel(FOp::Gt, b, a);
      case 4: return conn(FOp::Not, {rel(FOp::Gt, a, b)});
      case 5: return conn(FOp::Not, {rel(FOp::Ge, a, b)});
      case 6: return conn(FOp::Not, {rel(FOp::Lt, b, a)});
      default: return conn(FOp::Not, {rel(FOp::Le, b, a)});
    }
  }
};
}  // namespace

PBT_TARGET("C36", convex_problem, 4000,
           "a convex quadratic objective over 1 to 3 bounded variables with 0 to 3 "
           "linear or convex constraints, whose unique optimum is known (planted by "
           "the KKT conditions), written in random equivalent forms (negations, "
           "conjunctions, sides exchanged), possibly with parameters given by an "
           "environment and solved for several values of them, by SLSQP or COBYLA: "
           "the result is in the bounds, satisfies the constraints, has the reported "
           "value and (SLSQP) is the optimum unless NLopt itself, called directly, misses it; non-trivial: a constraint or bound is active") {
  const bool params = s.chance(1, 2);
  const Convex p = gen_convex(s, !params);
  Writer wr{s, p, params};
  Vars vs;
  std::vector<Variable> decision;
  for (int j = 0; j < p.n; ++j) vs.v.emplace_back(cat("x", j));
  if (params)
    for (int j = 0; j < p.n; ++j) vs.v.emplace_back(cat("p", j));
  const N obj = wr.objective();
  std::vector<F> fs;
  for (const Convex::Con& con : p.cons) fs.push_back(wr.constraint(con));
  std::string text = "minimize " + show(obj);
  for (const F& f : fs) text += "; " + show(f);
  std::vector<F> given = fs;
  if (fs.size() >= 2 && s.chance(1, 3)) given = {conn(FOp::And, fs)};
  bool cobyla = s.chance(1, 4);  // not too reliable
  for (const Convex::Con& con : p.cons) cobyla = cobyla && !con.eq;
  std::vector<std::vector<double>> ps;
  for (int k = params ? s.range(1, 3) : 1; k > 0; --k) {
    ps.emplace_back();
    for (int j = 0; j < p.n; ++j) ps.back().push_back(params ? small(s) : 0);
  }
  Box box;
  for (int j = 0; j < p.n; ++j) {
    box.Add(vs.v[j]);
    box[j] = params ? Box::Interval{-20, 20} : Box::Interval{p.lb[j], p.ub[j]};
    text += cat("; x", j, " in ", show_iv(box[j]));
  }
  static const std::vector<double> deltas = {1e-6, 1e-8, 1e-4};
  const double delta = s.pick(deltas);
  text += cat("; delta ", delta, cobyla ? ", COBYLA" : ", SLSQP");
  for (const auto& q : ps)
    if (params) text += " p = " + show(q);
  const bool vec = s.chance(1, 2);
  std::vector<double> frac;
  for (int j = 0; j < p.n; ++j) frac.push_back(s.range(0, 8) / 8.0);
  c.describe(text + "; optimum z = " + show(p.z));
  Config config;
  config.mutable_precision() = delta;
  config.mutable_nlopt_ftol_abs() = 1e-14;
  config.mutable_nlopt_ftol_rel() = 1e-14;
  config.mutable_nlopt_maxeval() = 3000;
  config.mutable_nlopt_maxtime() = 10;
  NloptOptimizer opt{cobyla ? nlopt::algorithm::LN_COBYLA : nlopt::algorithm::LD_SLSQP,
                     box, config};
  opt.SetMinObjective(build(obj, vs));
  if (vec) {
    std::vector<Formula> v;
    for (const F& f : given) v.push_back(build(f, vs));
    opt.AddConstraints(v);
  } else {
    for (const F& f : given) {
      const Formula d = build(f, vs);
      if (is_relational(d) && s.chance(1, 2)) {
        opt.AddRelationalConstraint(d);
      } else {
        opt.AddConstraint(d);
      }
    }
  }
  if (s.chance(1, 4)) {
    // Refused, and without consequences.
    const Expression x0{vs.v[0]};
    Formula bad;
    switch (s.draw(5)) {
      case 0: bad = x0 >= 100 || x0 <= -100; break;
      case 1: bad = !(x0 >= 100 && x0 <= 200); break;
      case 2: bad = x0 != 0; break;
      case 3: bad = !(x0 == 0); break;
      default: bad = forall({Variable{"y"}}, x0 >= 100); break;
    }
    bool thrown = false;
    try {
      if (s.chance(1, 2)) {
        opt.AddConstraint(bad);
      } else {
        opt.AddConstraints({bad});
      }
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    c.check(thrown, "an unsupported constraint is accepted");
  }
  bool active = false;
  for (const Convex::Con& con : p.cons) active = active || con.active;
  for (int j = 0; j < p.n; ++j) active = active || p.lb[j] == p.z[j] || p.ub[j] == p.z[j];
  for (const std::vector<double>& q : ps) {
    std::vector<double> x;
    for (int j = 0; j < p.n; ++j)
      if (cobyla) {
        x.push_back(std::min(box[j].ub(), std::max(box[j].lb(), p.z[j] + q[j] + frac[j] / 2 - 0.25)));
      } else {
        x.push_back(box[j].lb() + frac[j] * (box[j].ub() - box[j].lb()));
      }
    const std::vector<double> start = x;
    double v = 12345;
    try {
      if (params) {
        Environment env;
        for (int j = 0; j < p.n; ++j) env.insert(vs.v[p.n + j], q[j]);
        opt.Optimize(&x, &v, env);
      } else {
        opt.Optimize(&x, &v);
      }
    } catch (const nlopt::roundoff_limited&) {
      c.label("roundoff");
      continue;
    } catch (const std::runtime_error& e) {
      // NLopt's own
      const std::string what = e.what();
      if (what != "nlopt failure" && what.compare(0, 4, "bug:") != 0) throw;
      c.label("failure");
      continue;
    }
    c.check(static_cast<int>(x.size()) == p.n, "size of the result");
    for (int j = 0; j < p.n; ++j)
      c.check(box[j].lb() <= x[j] && x[j] <= box[j].ub(),
              cat("x", j, " = ", x[j], " is out of its bounds"));
    std::vector<double> at = x;
    if (params) at.insert(at.end(), q.begin(), q.end());
    const Result r = evaluate(obj, at);
    c.check(std::fabs(r.value - v) <= 1e-9 * (1 + std::fabs(v)) + r.tol,
            cat("the value ", v, " is reported, but it is ", r.value, " at ", show(at)));
    const double tol = cobyla ? 0.3 : 2e-3 + 10 * std::sqrt(delta);
    bool near = true;
    for (int j = 0; j < p.n; ++j) near = near && std::fabs(x[j] - q[j] - p.z[j]) <= tol;
    for (const F& f : fs) near = near && weak(f, true, at, tol);
    if (!near && !easy(p, box, q, start, cobyla, delta, tol / 4)) {
      c.label("difficult");
      continue;
    }
    for (const F& f : fs)
      c.check(weak(f, true, at, tol), "the result " + show(at) + " violates " + show(f));
    for (int j = 0; j < p.n && !cobyla; ++j)
      c.check(std::fabs(x[j] - q[j] - p.z[j]) <= tol,
              cat("x", j, " = ", x[j], ", but the optimum is at ", q[j] + p.z[j]));
    c.label(cobyla ? "COBYLA" : "SLSQP");
    if (active) c.nontrivial(c.desc_);
  }
}

PBT_TARGET("C36", refine, 4000,
           "a counterexample of 1 or 2 relations (concave in 1 to 3 quantified "
           "variables, shifted by the other variables) with bounds on the quantified "
           "variables in random forms is refined: other variables keep their "
           "intervals, quantified variables become the known points of the largest "
           "violation (integer ones stay); non-trivial: a bound is active") {
  const int ny = s.range(1, 3), nx = s.range(0, 2);
  Vars vs;
  std::vector<int> at(nx + ny, -1);  // a random order
  for (int k = 0; k < nx + ny; ++k) vs.v.emplace_back(cat("v", k));
  const bool integer = s.chance(1, 15);
  std::vector<int> xs, ys;
  for (int k = 0; k < nx + ny; ++k) {
    const bool y = static_cast<int>(xs.size()) == nx ||
                   (static_cast<int>(ys.size()) < ny && s.chance(1, 2));
    (y ? ys : xs).push_back(k);
  }
  if (integer) vs.v[ys[0]] = Variable{"i", Variable::Type::INTEGER};
  // The counterexample, in the order of the sets.
  Box box;
  Variables fv;
  for (int y : ys) fv += vs.v[y];
  std::vector<double> mid(nx + ny, 0.0);
  for (int x : xs) {
    mid[x] = small(s);
    const double w = s.range(0, 4) / 16.0;
    box.Add(vs.v[x]);
    box[vs.v[x]] = Box::Interval{mid[x] - w, mid[x] + w};
  }
  std::vector<double> opt(nx + ny, 0.0), lo(nx + ny), hi(nx + ny);
  std::vector<F> bounds;
  std::vector<std::vector<N>> terms(2);
  std::vector<double> room(2, 0.0);
  bool active = false;
  for (int y : ys) {
    lo[y] = small(s) - 1;
    hi[y] = lo[y] + s.range(1, 8) / 2.0;
    mid[y] = lo[y] + (hi[y] - lo[y]) * s.range(0, 8) / 8.0;
    const N v = var(y), l = cst(lo[y]), u = cst(hi[y]);
    bounds.push_back(s.chance(1, 2) ? rel(s.chance(1, 2) ? FOp::Ge : FOp::Gt, v, l)
                                    : rel(s.chance(1, 2) ? FOp::Le : FOp::Lt, l, v));
    bounds.push_back(s.chance(1, 2) ? rel(s.chance(1, 2) ? FOp::Le : FOp::Lt, v, u)
                                    : rel(s.chance(1, 2) ? FOp::Ge : FOp::Gt, u, v));
    // w (y - x - c)^2 in one of the relations
    double c0 = small(s), w = s.range(1, 4) / 2.0, peak = c0;
    N d = mk(Op::Sub, {v, cst(c0)});
    if (nx && s.chance(1, 2)) {
      const int x = s.pick(xs);
      d = mk(Op::Sub, {d, var(x)});
      peak += mid[x];
    }
    opt[y] = std::min(hi[y], std::max(lo[y], peak));
    active = active || opt[y] != peak;
    const int k = static_cast<int>(s.draw(2));
    terms[k].push_back(mk(Op::Mul, {cst(w), mk(Op::Mul, {d, d})}));
    room[k] += w * (mid[y] - peak) * (mid[y] - peak);
  }
  std::vector<F> rels;
  for (int k = 0; k < 2; ++k) {
    if (terms[k].empty()) continue;
    N e = terms[k][0];
    for (size_t i = 1; i < terms[k].size(); ++i) e = mk(Op::Add, {e, terms[k][i]});
    const double slack = s.range(1, 8) / 4.0;
    N r = cst(room[k] + slack);
    if (nx && s.chance(1, 3)) {
      const int x = s.pick(xs);
      r = mk(Op::Sub, {mk(Op::Add, {r, var(x)}), cst(mid[x])});
    }
    if (nx == 0 || (r->op == Op::Const)) {
      // must depend on another variable to be an objective
      bool dep = false;
      std::set<int> used;
      vars_of(e, &used);
      for (int x : xs) dep = dep || used.count(x);
      if (!dep) {
        if (!nx) continue;
        r = mk(Op::Sub, {mk(Op::Add, {r, var(xs[0])}), cst(mid[xs[0]])});
      }
    }
    switch (s.draw(4)) {
      case 0: rels.push_back(rel(FOp::Le, e, r)); break;
      case 1: rels.push_back(rel(FOp::Lt, e, r)); break;
      case 2: rels.push_back(rel(FOp::Ge, r, e)); break;
      default: rels.push_back(rel(FOp::Gt, r, e)); break;
    }
  }
  for (int y : ys) {
    box.Add(vs.v[y]);
    const double w = s.range(0, 4) / 64.0;
    box[vs.v[y]] = Box::Interval{mid[y] - w, mid[y] + w};
  }
  std::vector<F> fs = bounds;
  fs.insert(fs.end(), rels.begin(), rels.end());
  std::string text;
  Formula query = Formula::True();
  for (const F& f : fs) {
    query = query && build(f, vs);
    text += show(f) + "; ";
  }
  for (int y : ys) text += cat(vs.v[y].get_name(), "(x", y, ") ");
  text += "quantified; at " + show(mid) + "; optimum " + show(opt);
  c.describe(text);
  if (!is_conjunction(query)) c.discard();
  Config config;
  config.mutable_precision() = 1e-6;
  config.mutable_nlopt_ftol_abs() = 1e-14;
  config.mutable_nlopt_ftol_rel() = 1e-14;
  config.mutable_nlopt_maxeval() = 3000;
  config.mutable_nlopt_maxtime() = 10;
  CounterexampleRefiner refiner{query, fv, config};
  const Box r = refiner.Refine(box);
  c.check(r.size() == box.size(), "the size of the box");
  for (int x : xs) c.check(r[vs.v[x]] == box[vs.v[x]], "a free variable has changed");
  if (rels.empty() || integer) {
    c.check(r == box, "nothing to refine, but changed");
    c.label("unchanged");
    return;
  }
  if (r == box) {
    c.label("failed");
    return;
  }
  if (active) c.nontrivial(c.desc_);
  std::set<int> moved;
  for (const F& f : rels) vars_of(f, &moved);
  for (int y : ys) {
    const Box::Interval& iv = r[vs.v[y]];
    c.check(iv.lb() == iv.ub(), cat("v", y, " is not a point"));
    c.check(lo[y] - 1e-9 <= iv.lb() && iv.lb() <= hi[y] + 1e-9,
            cat("v", y, " = ", iv.lb(), " is out of its bounds"));
    if (moved.count(y))
      c.check(std::fabs(iv.lb() - opt[y]) <= 5e-3,
              cat("v", y, " = ", iv.lb(), ", but the largest violation is at ", opt[y]));
  }
}
