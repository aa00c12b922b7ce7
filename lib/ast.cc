#include "ast.h"

#include <algorithm>
#include <sstream>

namespace ast {
using std::string;
using std::vector;

namespace {
N make(Node n) {
  n.size = 1;
  for (const N& a : n.a) n.size += a->size;
  if (n.cond) n.size += n.cond->size;
  return std::make_shared<const Node>(std::move(n));
}
F make(FNode n) {
  n.size = 1;
  for (const N& a : n.e) n.size += a->size;
  for (const F& a : n.f) n.size += a->size;
  return std::make_shared<const FNode>(std::move(n));
}
}  // namespace

N cst(double c, int style) {
  Node n;
  n.op = Op::Const;
  n.c = c;
  n.style = style;
  return make(n);
}
N var(int v) {
  Node n;
  n.op = Op::Var;
  n.v = v;
  return make(n);
}
N mk(Op op, vector<N> a, F cond, int style) {
  Node n;
  n.op = op;
  n.a = std::move(a);
  n.cond = std::move(cond);
  n.style = style;
  return make(n);
}
F ftrue() {
  FNode n;
  n.op = FOp::True;
  return make(n);
}
F ffalse() {
  FNode n;
  n.op = FOp::False;
  return make(n);
}
F bvar(int v) {
  FNode n;
  n.op = FOp::BVar;
  n.v = v;
  return make(n);
}
F rel(FOp op, N a, N b, int style) {
  FNode n;
  n.op = op;
  n.e = {std::move(a), std::move(b)};
  n.style = style;
  return make(n);
}
F conn(FOp op, vector<F> f, int style) {
  FNode n;
  n.op = op;
  n.f = std::move(f);
  n.style = style;
  return make(n);
}
F forall_(vector<int> qv, F body) {
  FNode n;
  n.op = FOp::Forall;
  n.qv = std::move(qv);
  n.f = {std::move(body)};
  return make(n);
}
bool is_rel(FOp op) { return op >= FOp::Eq && op <= FOp::Le; }

static const char* name(Op op) {
  static const char* names[] = {
      "const", "var",  "+",    "-",    "*",    "/",     "neg",  "log", "abs",
      "exp",   "sqrt", "pow",  "sin",  "cos",  "tan",   "asin", "acos",
      "atan",  "atan2", "sinh", "cosh", "tanh", "min",  "max",  "ite"};
  return names[static_cast<int>(op)];
}
static const char* name(FOp op) {
  static const char* names[] = {"true", "false", "bvar", "=",  "!=", ">",
                                ">=",   "<",     "<=",   "and", "or", "not",
                                "=>",   "iff",   "forall"};
  return names[static_cast<int>(op)];
}
string show(const N& n) {
  std::ostringstream os;
  os.precision(17);
  if (n->op == Op::Const) {
    os << n->c << (n->style == 0 ? "" : n->style == 1 ? "+" : "-");
  } else if (n->op == Op::Var) {
    os << "x" << n->v;
  } else {
    os << "(" << name(n->op);
    if (n->cond) os << " " << show(n->cond);
    for (const N& a : n->a) os << " " << show(a);
    os << ")";
  }
  return os.str();
}
string show(const F& f) {
  std::ostringstream os;
  if (f->op == FOp::True || f->op == FOp::False) return name(f->op);
  if (f->op == FOp::BVar) {
    os << "b" << f->v;
    return os.str();
  }
  os << "(" << name(f->op);
  if (f->op == FOp::Forall) {
    os << " {";
    for (int v : f->qv) os << "x" << v << " ";
    os << "}";
  }
  for (const N& a : f->e) os << " " << show(a);
  for (const F& a : f->f) os << " " << show(a);
  os << ")";
  return os.str();
}
string show(const vector<double>& p) {
  std::ostringstream os;
  os.precision(17);
  os << "[";
  for (size_t i = 0; i < p.size(); ++i) os << (i ? ", " : "") << p[i];
  os << "]";
  return os.str();
}
void vars_of(const N& n, std::set<int>* out) {
  if (n->op == Op::Var) out->insert(n->v);
  for (const N& a : n->a) vars_of(a, out);
  if (n->cond) vars_of(n->cond, out);
}
void vars_of(const F& f, std::set<int>* out) {
  if (f->op == FOp::BVar) out->insert(f->v);
  for (const N& a : f->e) vars_of(a, out);
  if (f->op == FOp::Forall) {
    std::set<int> in;
    vars_of(f->f[0], &in);
    for (int v : f->qv) in.erase(v);
    out->insert(in.begin(), in.end());
  } else {
    for (const F& a : f->f) vars_of(a, out);
  }
}
bool has_op(const N& n, const std::function<bool(const Node&)>& p) {
  if (p(*n)) return true;
  for (const N& a : n->a)
    if (has_op(a, p)) return true;
  if (n->cond) {
    std::function<bool(const F&)> rec = [&](const F& f) -> bool {
      for (const N& a : f->e)
        if (has_op(a, p)) return true;
      for (const F& g : f->f)
        if (rec(g)) return true;
      return false;
    };
    return rec(n->cond);
  }
  return false;
}

// ---- semantics ------------------------------------------------------------
namespace {
bool small_dyadic(long double v) {
  if (!(std::fabs(v) <= 1048576.0L)) return false;
  const long double w = v * 1024.0L;
  return w == std::floor(w);
}
uint64_t next_rng(EvalState* st) {
  st->rng = st->rng * 6364136223846793005ull + 1442695040888963407ull;
  return st->rng >> 33;
}
Val finish(long double v, bool exact, EvalState* st) {
  Val r;
  if (!std::isfinite(v)) {
    st->undefined = true;
    return r;
  }
  r.exact = exact && small_dyadic(v);
  if (!r.exact) st->inexact = true;
  if (!r.exact && st->eps != 0) {
    const long double u =
        static_cast<long double>(next_rng(st) % 2001) / 1000.0L - 1.0L;
    v = v * (1.0L + st->eps * u) + st->eps * u * 1e-3L;
  }
  r.v = v;
  st->max_abs = std::max(st->max_abs, std::fabs(v));
  return r;
}
}  // namespace

Val eval(const N& n, EvalState* st) {
  if (st->undefined) return Val{};
  auto bad = [&]() {
    st->undefined = true;
    return Val{};
  };
  switch (n->op) {
    case Op::Const: {
      if (!std::isfinite(n->c)) return bad();
      return finish(n->c, true, st);
    }
    case Op::Var:
      return finish((*st->vals)[n->v].v, true, st);
    case Op::Ite: {
      const bool c = eval(n->cond, st);
      if (st->undefined) return Val{};
      return eval(c ? n->a[0] : n->a[1], st);
    }
    default:
      break;
  }
  const Val a = eval(n->a[0], st);
  if (st->undefined) return Val{};
  Val b;
  if (n->a.size() > 1) {
    b = eval(n->a[1], st);
    if (st->undefined) return Val{};
  }
  const bool ex2 = a.exact && b.exact;
  const bool ex1 = a.exact;
  switch (n->op) {
    case Op::Add: return finish(a.v + b.v, ex2, st);
    case Op::Sub: return finish(a.v - b.v, ex2, st);
    case Op::Mul: return finish(a.v * b.v, ex2, st);
    case Op::Neg: return finish(-a.v, ex1, st);
    case Op::Div:
      if (b.v == 0) return bad();
      if (!b.exact && std::fabs(b.v) < 1e-6) st->reliable = false;
      return finish(a.v / b.v, ex2, st);
    case Op::Log:
      if (a.v <= 0) return bad();
      return finish(std::log(a.v), false, st);
    case Op::Abs: return finish(std::fabs(a.v), ex1, st);
    case Op::Exp: return finish(std::exp(a.v), false, st);
    case Op::Sqrt:
      if (a.v < 0) return bad();
      if (!a.exact && a.v < 1e-4) st->reliable = false;
      return finish(std::sqrt(a.v), false, st);
    case Op::Pow: {
      const bool integral = b.v == std::floor(b.v);
      if (!b.exact && std::fabs(b.v - std::round(b.v)) < 1e-6 && a.v <= 0)
        st->reliable = false;
      if (!a.exact && std::fabs(a.v) < 1e-4) st->reliable = false;
      if (a.v < 0 && !integral) return bad();
      if (a.v == 0 && b.v <= 0) return bad();
      const long double y = std::pow(a.v, b.v);
      // an underflow is not the number zero
      if (a.v != 0 && std::fabs(y) < 1e-300L) st->reliable = false;
      return finish(y, ex2 && integral && b.v >= 0, st);
    }
    case Op::Sin: return finish(std::sin(a.v), false, st);
    case Op::Cos: return finish(std::cos(a.v), false, st);
    case Op::Tan: {
      const long double c = std::cos(a.v);
      if (std::fabs(c) < 1e-3) st->reliable = false;
      return finish(std::tan(a.v), false, st);
    }
    case Op::Asin:
    case Op::Acos:
      if (a.v < -1 || a.v > 1) return bad();
      if (!a.exact && 1 - std::fabs(a.v) < 1e-6) st->reliable = false;
      return finish(n->op == Op::Asin ? std::asin(a.v) : std::acos(a.v), false,
                    st);
    case Op::Atan: return finish(std::atan(a.v), false, st);
    case Op::Atan2:
      if (a.v == 0 && b.v == 0) return bad();
      // Branch cut: the sign of a zero is not part of the real semantics.
      if (b.v <= 0 && std::fabs(a.v) < 1e-6) st->reliable = false;
      if (std::fabs(a.v) + std::fabs(b.v) < 1e-6) st->reliable = false;
      return finish(std::atan2(a.v, b.v), false, st);
    case Op::Sinh: return finish(std::sinh(a.v), false, st);
    case Op::Cosh: return finish(std::cosh(a.v), false, st);
    case Op::Tanh: return finish(std::tanh(a.v), false, st);
    case Op::Min: return finish(std::min(a.v, b.v), a.v < b.v ? a.exact : b.exact, st);
    case Op::Max: return finish(std::max(a.v, b.v), a.v > b.v ? a.exact : b.exact, st);
    default: abort();
  }
}

bool eval(const F& f, EvalState* st) {
  if (st->undefined) return false;
  switch (f->op) {
    case FOp::True: return true;
    case FOp::False: return false;
    case FOp::BVar:
      if (st->bool_value) return st->bool_value(f->v);
      return (*st->vals)[f->v].v != 0;
    case FOp::And: {
      // No short circuit: a conjunction is a set, in any order.
      bool r = true;
      for (const F& g : f->f) r = eval(g, st) && r;
      return r;
    }
    case FOp::Or: {
      bool r = false;
      for (const F& g : f->f) r = eval(g, st) || r;
      return r;
    }
    case FOp::Not: return !eval(f->f[0], st);
    case FOp::Imply: {
      const bool a = eval(f->f[0], st), b = eval(f->f[1], st);
      return !a || b;
    }
    case FOp::Iff: {
      const bool a = eval(f->f[0], st), b = eval(f->f[1], st);
      return a == b;
    }
    case FOp::Forall: {
      if (!st->domain) {
        st->undefined = true;
        return false;
      }
      vector<Val>& vals = *st->vals;
      const size_t n = f->qv.size();
      vector<Val> saved;
      for (int q : f->qv) saved.push_back(vals[q]);
      vector<size_t> ix(n, 0);
      bool r = true;
      for (bool more = true; more;) {
        for (size_t i = 0; i < n; ++i) {
          vals[f->qv[i]] = Val{};
          vals[f->qv[i]].v = st->domain(f->qv[i])[ix[i]];
        }
        r = eval(f->f[0], st) && r;
        more = false;
        for (size_t i = 0; i < n; ++i) {
          if (++ix[i] < st->domain(f->qv[i]).size()) {
            more = true;
            break;
          }
          ix[i] = 0;
        }
      }
      for (size_t i = 0; i < n; ++i) vals[f->qv[i]] = saved[i];
      return r;
    }
    default: break;
  }
  const Val a = eval(f->e[0], st);
  if (st->undefined) return false;
  const Val b = eval(f->e[1], st);
  if (st->undefined) return false;
  if (!(a.exact && b.exact)) {
    const long double sc = 1 + std::fabs(a.v) + std::fabs(b.v);
    if (std::fabs(a.v - b.v) < 1e-6L * sc) st->reliable = false;
  }
  switch (f->op) {
    case FOp::Eq: return a.v == b.v;
    case FOp::Ne: return a.v != b.v;
    case FOp::Gt: return a.v > b.v;
    case FOp::Ge: return a.v >= b.v;
    case FOp::Lt: return a.v < b.v;
    case FOp::Le: return a.v <= b.v;
    default: abort();
  }
}

static vector<Val> to_vals(const vector<double>& p) {
  vector<Val> r(p.size());
  for (size_t i = 0; i < p.size(); ++i) r[i].v = p[i];
  return r;
}
Result evaluate(const N& n, const vector<double>& vals) {
  vector<Val> v = to_vals(vals);
  Result r;
  EvalState nominal;
  nominal.vals = &v;
  const Val x = eval(n, &nominal);
  if (nominal.undefined) return r;
  r.defined = true;
  r.value = static_cast<double>(x.v);
  if (!nominal.reliable) return r;
  double spread = 0;
  for (int k = 1; k <= 3; ++k) {
    EvalState p;
    p.vals = &v;
    p.eps = 1e-11;
    p.rng = 77 * k;
    const Val y = eval(n, &p);
    if (p.undefined || !p.reliable) return r;
    spread = std::max<double>(spread, std::fabs(static_cast<double>(y.v - x.v)));
  }
  r.tol = 50 * spread + 1e-9 * (1 + static_cast<double>(nominal.max_abs));
  r.reliable = r.tol <= 1e-4 * (1 + std::fabs(r.value)) &&
               nominal.max_abs < 1e12;
  return r;
}
BResult evaluate(const F& f, const vector<double>& vals,
                 const Domain& domain) {
  vector<Val> v = to_vals(vals);
  BResult r;
  EvalState nominal;
  nominal.domain = domain;
  nominal.vals = &v;
  r.value = eval(f, &nominal);
  if (nominal.undefined) return r;
  r.defined = true;
  if (!nominal.reliable || nominal.max_abs > 1e12) return r;
  if (!nominal.inexact) {
    r.reliable = true;
    return r;
  }
  for (int k = 1; k <= 3; ++k) {
    EvalState p;
    p.domain = domain;
    p.vals = &v;
    p.eps = 1e-11;
    p.rng = 77 * k;
    const bool y = eval(f, &p);
    if (p.undefined || !p.reliable || y != r.value) return r;
  }
  r.reliable = true;
  return r;
}
BResult evaluate(const F& f, const vector<double>& vals) {
  return evaluate(f, vals, Domain{});
}
BResult evaluate(const F& f, const vector<double>& vals,
                 const vector<double>& reals, const std::set<int>& real_ids) {
  static const vector<double> bools = {0, 1};
  return evaluate(f, vals, Domain([&](int v) -> const vector<double>& {
    return real_ids.count(v) ? reals : bools;
  }));
}
bool close(double got, const Result& r) {
  return std::isfinite(got) && std::fabs(got - r.value) <= r.tol;
}

// ---- dReal side -----------------------------------------------------------
using namespace dreal;  // NOLINT

Environment Vars::env(const vector<double>& vals) const {
  Environment e;
  for (size_t i = 0; i < v.size() && i < vals.size(); ++i)
    e.insert(v[i], vals[i]);
  return e;
}
int Vars::index(const Variable& x) const {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].equal_to(x)) return static_cast<int>(i);
  return -1;
}
Vars make_vars(int n, const string& prefix) {
  Vars vs;
  for (int i = 0; i < n; ++i)
    vs.v.push_back(Variable{prefix + std::to_string(i)});
  return vs;
}
Vars make_vars2(int nreal, int nbool) {
  Vars vs = make_vars(nreal);
  for (int i = 0; i < nbool; ++i)
    vs.v.push_back(
        Variable{"b" + std::to_string(nreal + i), Variable::Type::BOOLEAN});
  return vs;
}
Vars make_twins(int nreal, int nbool) {
  Vars vs;
  for (int i = 0; i < nreal; ++i) vs.v.push_back(Variable{"x"});
  for (int i = 0; i < nbool; ++i)
    vs.v.push_back(Variable{"b", Variable::Type::BOOLEAN});
  return vs;
}
N rescale(const N& n, const vector<int>& k) {
  if (n->op == Op::Const) return n;
  if (n->op == Op::Var)
    return k[n->v] == 0 ? n
                        : mk(Op::Mul, {cst(std::ldexp(1.0, -k[n->v])), n});
  vector<N> a;
  for (const N& x : n->a) a.push_back(rescale(x, k));
  return mk(n->op, a, n->cond ? rescale(n->cond, k) : nullptr, n->style);
}
F rescale(const F& f, const vector<int>& k) {
  if (is_rel(f->op))
    return rel(f->op, rescale(f->e[0], k), rescale(f->e[1], k), f->style);
  if (f->f.empty()) return f;
  vector<F> a;
  for (const F& g : f->f) a.push_back(rescale(g, k));
  if (f->op == FOp::Forall) return forall_(f->qv, a[0]);
  return conn(f->op, a, f->style);
}
Expression build(const N& n, const Vars& vs) {
  switch (n->op) {
    case Op::Const:
      switch (n->style) {
        case 1:
          return real_constant(n->c, std::nextafter(n->c, HUGE_VAL), true);
        case 2:
          return real_constant(std::nextafter(n->c, -HUGE_VAL), n->c, false);
        default: return Expression{n->c};
      }
    case Op::Var: return Expression{vs.v[n->v]};
    case Op::Ite:
      return if_then_else(build(n->cond, vs), build(n->a[0], vs),
                          build(n->a[1], vs));
    default: break;
  }
  Expression a = build(n->a[0], vs);
  if (n->a.size() == 1) {
    switch (n->op) {
      case Op::Neg: return n->style % 2 ? -std::move(a) : -a;
      case Op::Log: return log(a);
      case Op::Abs: return abs(a);
      case Op::Exp: return exp(a);
      case Op::Sqrt: return sqrt(a);
      case Op::Sin: return sin(a);
      case Op::Cos: return cos(a);
      case Op::Tan: return tan(a);
      case Op::Asin: return asin(a);
      case Op::Acos: return acos(a);
      case Op::Atan: return atan(a);
      case Op::Sinh: return sinh(a);
      case Op::Cosh: return cosh(a);
      case Op::Tanh: return tanh(a);
      default: abort();
    }
  }
  Expression b = build(n->a[1], vs);
  const int st = n->style % 6;
  switch (n->op) {
    case Op::Add:
      switch (st) {
        case 1: return std::move(a) + b;
        case 2: return a + std::move(b);
        case 3: return std::move(a) + std::move(b);
        case 4: return a += b;
        case 5: return Sum({a, b});
        default: return a + b;
      }
    case Op::Sub:
      switch (st) {
        case 1: return std::move(a) - b;
        case 2: return a - std::move(b);
        case 3: return std::move(a) - std::move(b);
        case 4: return a -= b;
        case 5: return Sum({a, -b});
        default: return a - b;
      }
    case Op::Mul:
      switch (st) {
        case 1: return std::move(a) * b;
        case 2: return a * std::move(b);
        case 3: return std::move(a) * std::move(b);
        case 4: return a *= b;
        case 5: return Prod({a, b});
        default: return a * b;
      }
    case Op::Div:
      if (st == 4) return a /= b;
      if (st == 1) return std::move(a) / b;
      return a / b;
    case Op::Pow: return pow(a, b);
    case Op::Atan2: return atan2(a, b);
    case Op::Min: return min(a, b);
    case Op::Max: return max(a, b);
    default: abort();
  }
}
Formula build(const F& f, const Vars& vs) {
  switch (f->op) {
    case FOp::True: return Formula::True();
    case FOp::False: return Formula::False();
    case FOp::BVar: return Formula{vs.v[f->v]};
    case FOp::Forall: {
      Variables q;
      for (int v : f->qv) q.insert(vs.v[v]);
      return forall(q, build(f->f[0], vs));
    }
    case FOp::Not:
      if (f->style % 2 && f->f[0]->op == FOp::BVar) return !vs.v[f->f[0]->v];
      return !build(f->f[0], vs);
    case FOp::Imply:
    case FOp::Iff: {
      const bool im = f->op == FOp::Imply;
      const bool v0 = f->style % 2 && f->f[0]->op == FOp::BVar;
      const bool v1 = f->style % 2 && f->f[1]->op == FOp::BVar;
      if (v0 && v1) {
        const Variable& a = vs.v[f->f[0]->v];
        const Variable& b = vs.v[f->f[1]->v];
        return im ? imply(a, b) : iff(a, b);
      }
      if (v0) {
        const Variable& a = vs.v[f->f[0]->v];
        const Formula b = build(f->f[1], vs);
        return im ? imply(a, b) : (f->style % 4 == 3 ? a == b : iff(a, b));
      }
      if (v1) {
        const Formula a = build(f->f[0], vs);
        const Variable& b = vs.v[f->f[1]->v];
        return im ? imply(a, b) : (f->style % 4 == 3 ? a == b : iff(a, b));
      }
      const Formula a = build(f->f[0], vs);
      const Formula b = build(f->f[1], vs);
      if (im) return imply(a, b);
      if (f->style % 4 == 2) return a == b;
      if (f->style % 4 == 3) return !(a != b);
      return iff(a, b);
    }
    case FOp::And:
    case FOp::Or: {
      const bool conj = f->op == FOp::And;
      if (f->style >= 4 && f->f.size() == 2) {
        // The overloads taking variables.
        const bool v0 = f->f[0]->op == FOp::BVar;
        const bool v1 = f->f[1]->op == FOp::BVar;
        if (v0 && v1) {
          const Variable& a = vs.v[f->f[0]->v];
          const Variable& b = vs.v[f->f[1]->v];
          return conj ? a && b : a || b;
        }
        if (v0) {
          const Variable& a = vs.v[f->f[0]->v];
          Formula b = build(f->f[1], vs);
          if (f->style % 2) return conj ? a && std::move(b) : a || std::move(b);
          return conj ? a && b : a || b;
        }
        if (v1) {
          const Variable& b = vs.v[f->f[1]->v];
          Formula a = build(f->f[0], vs);
          if (f->style % 2) return conj ? std::move(a) && b : std::move(a) || b;
          return conj ? a && b : a || b;
        }
      }
      vector<Formula> fs;
      for (const F& g : f->f) fs.push_back(build(g, vs));
      switch (f->style % 4) {
        case 1: {
          std::set<Formula> s(fs.begin(), fs.end());
          return conj ? make_conjunction(s) : make_disjunction(s);
        }
        case 2:
          return conj ? make_conjunction(fs) : make_disjunction(fs);
        case 3: {
          // Right fold through the rvalue overloads.
          Formula r = conj ? Formula::True() : Formula::False();
          for (size_t i = fs.size(); i-- > 0;)
            r = conj ? std::move(fs[i]) && std::move(r)
                     : std::move(fs[i]) || std::move(r);
          return r;
        }
        default: {
          Formula r = fs.empty()
                          ? (conj ? Formula::True() : Formula::False())
                          : fs[0];
          for (size_t i = 1; i < fs.size(); ++i)
            r = conj ? r && fs[i] : r || fs[i];
          return r;
        }
      }
    }
    default: break;
  }
  const Expression a = build(f->e[0], vs);
  const Expression b = build(f->e[1], vs);
  switch (f->op) {
    case FOp::Eq: return a == b;
    case FOp::Ne: return a != b;
    case FOp::Gt: return a > b;
    case FOp::Ge: return a >= b;
    case FOp::Lt: return a < b;
    case FOp::Le: return a <= b;
    default: abort();
  }
}

N reflect(const Expression& e, const Vars& vs) {
  if (is_nan(e)) return cst(std::nan(""));
  if (is_constant(e)) return cst(get_constant_value(e));
  if (is_real_constant(e)) {
    const double v = get_constant_value(e);
    return cst(v, v == get_lb_of_real_constant(e) ? 1 : 2);
  }
  if (is_variable(e)) {
    const int i = vs.index(get_variable(e));
    if (i < 0) throw pbt::Failure{"unknown variable in " + e.to_string()};
    return var(i);
  }
  if (is_addition(e)) {
    N r = cst(get_constant_in_addition(e));
    for (const auto& p : get_expr_to_coeff_map_in_addition(e))
      r = mk(Op::Add, {r, mk(Op::Mul, {cst(p.second), reflect(p.first, vs)})});
    return r;
  }
  if (is_multiplication(e)) {
    N r = cst(get_constant_in_multiplication(e));
    for (const auto& p : get_base_to_exponent_map_in_multiplication(e))
      r = mk(Op::Mul, {r, mk(Op::Pow, {reflect(p.first, vs),
                                       reflect(p.second, vs)})});
    return r;
  }
  if (is_if_then_else(e)) {
    return mk(Op::Ite,
              {reflect(get_then_expression(e), vs),
               reflect(get_else_expression(e), vs)},
              reflect(get_conditional_formula(e), vs));
  }
  auto bin = [&](Op op) {
    return mk(op, {reflect(get_first_argument(e), vs),
                   reflect(get_second_argument(e), vs)});
  };
  auto un = [&](Op op) { return mk(op, {reflect(get_argument(e), vs)}); };
  if (is_division(e)) return bin(Op::Div);
  if (is_pow(e)) return bin(Op::Pow);
  if (is_atan2(e)) return bin(Op::Atan2);
  if (is_min(e)) return bin(Op::Min);
  if (is_max(e)) return bin(Op::Max);
  if (is_log(e)) return un(Op::Log);
  if (is_abs(e)) return un(Op::Abs);
  if (is_exp(e)) return un(Op::Exp);
  if (is_sqrt(e)) return un(Op::Sqrt);
  if (is_sin(e)) return un(Op::Sin);
  if (is_cos(e)) return un(Op::Cos);
  if (is_tan(e)) return un(Op::Tan);
  if (is_asin(e)) return un(Op::Asin);
  if (is_acos(e)) return un(Op::Acos);
  if (is_atan(e)) return un(Op::Atan);
  if (is_sinh(e)) return un(Op::Sinh);
  if (is_cosh(e)) return un(Op::Cosh);
  if (is_tanh(e)) return un(Op::Tanh);
  throw pbt::Failure{"unexpected expression kind: " + e.to_string()};
}
F reflect(const Formula& f, const Vars& vs) {
  if (is_true(f)) return ftrue();
  if (is_false(f)) return ffalse();
  if (is_variable(f)) {
    const int i = vs.index(get_variable(f));
    if (i < 0) throw pbt::Failure{"unknown variable in " + f.to_string()};
    return bvar(i);
  }
  if (is_negation(f)) return conn(FOp::Not, {reflect(get_operand(f), vs)});
  if (is_conjunction(f) || is_disjunction(f)) {
    vector<F> fs;
    for (const Formula& g : get_operands(f)) fs.push_back(reflect(g, vs));
    return conn(is_conjunction(f) ? FOp::And : FOp::Or, fs);
  }
  if (is_forall(f)) {
    vector<int> q;
    for (const Variable& v : get_quantified_variables(f)) {
      const int i = vs.index(v);
      if (i < 0) throw pbt::Failure{"unknown variable in " + f.to_string()};
      q.push_back(i);
    }
    return forall_(q, reflect(get_quantified_formula(f), vs));
  }
  auto r = [&](FOp op) {
    return rel(op, reflect(get_lhs_expression(f), vs),
               reflect(get_rhs_expression(f), vs));
  };
  if (is_equal_to(f)) return r(FOp::Eq);
  if (is_not_equal_to(f)) return r(FOp::Ne);
  if (is_greater_than(f)) return r(FOp::Gt);
  if (is_greater_than_or_equal_to(f)) return r(FOp::Ge);
  if (is_less_than(f)) return r(FOp::Lt);
  if (is_less_than_or_equal_to(f)) return r(FOp::Le);
  throw pbt::Failure{"unexpected formula kind: " + f.to_string()};
}

// ---- generators -----------------------------------------------------------
double gen_const(pbt::Src& s, bool inexact) {
  static const vector<double> common = {0, 1, -1, 2, 3, -2, 0.5, -3, 4, -0.5,
                                        5, 0.25, 7, -4, 10, 1.5};
  static const vector<double> odd = {0.1, -0.3, 3.14, M_PI, M_E, 1e-3, 100.25,
                                     1.0 / 3, -2.7, 0.7};
  static const vector<double> wide = {
      1e10, -1e10, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
      1e-8, 1e15, -1e-9, 12345678.9, 1e100, -1e-100, 1048577.0, 1e-5};
  if (inexact && s.chance(1, 8))
    return s.chance(1, 4) ? s.pick(wide) : s.pick(odd);
  return s.pick(common);
}
double gen_value(pbt::Src& s) {
  static const vector<double> vals = {0,    1,   -1,  2,    -2,   0.5, -0.5, 3,
                                      -3,   1.5, 0.25, -1.5, 0.75, -0.25, 4, -4};
  if (s.chance(1, 4)) {
    // Any multiple of 1/64 in [-4, 4).
    return static_cast<double>(static_cast<int>(s.draw(512)) - 256) / 64.0;
  }
  return s.pick(vals);
}
vector<double> gen_point(pbt::Src& s, int n) {
  vector<double> r;
  for (int i = 0; i < n; ++i) r.push_back(gen_value(s));
  return r;
}

N gen_expr(pbt::Src& s, const GenOpt& o) {
  vector<N> pool;
  const int leaves = 1 + static_cast<int>(s.draw(3));
  auto leaf = [&]() -> N {
    if (s.chance(1, 4)) {
      const double d = gen_const(s, o.inexact_consts);
      return cst(d, o.real_consts && s.chance(1, 5) ? s.range(1, 2) : 0);
    }
    return var(static_cast<int>(s.draw(o.nvars)));
  };
  for (int i = 0; i < leaves; ++i) pool.push_back(leaf());
  const int ops = static_cast<int>(s.draw(o.max_terms + 1));
  auto operand = [&]() -> N {
    const int k = s.weighted({5, 3, 2});
    if (k == 0) return pool.back();
    if (k == 1) return pool[s.draw(pool.size())];
    return leaf();
  };
  static const vector<Op> arith = {Op::Add, Op::Sub, Op::Mul, Op::Mul, Op::Add,
                                   Op::Neg};
  static const vector<Op> trans = {Op::Log,  Op::Exp,  Op::Sqrt, Op::Sin,
                                   Op::Cos,  Op::Tan,  Op::Asin, Op::Acos,
                                   Op::Atan, Op::Atan2, Op::Sinh, Op::Cosh,
                                   Op::Tanh, Op::Abs};
  for (int i = 0; i < ops; ++i) {
    const int k = s.weighted({10, o.powers ? 4 : 0, o.division ? 2 : 0,
                              o.trans ? 4 : 0, o.minmax ? 1 : 0,
                              o.ite ? 1 : 0});
    N r;
    const int style = static_cast<int>(s.draw(6));
    switch (k) {
      case 0: {
        const Op op = s.pick(arith);
        const N a = operand();
        r = op == Op::Neg ? mk(op, {a}, nullptr, style)
                          : mk(op, {a, operand()}, nullptr, style);
        break;
      }
      case 1: {
        const N a = operand();
        static const vector<double> exps = {2, 3, 0, 1, 4, -1, -2, 0.5, 1.5, 5,
                                            -3, -0.5};
        N b;
        if (s.chance(1, 6))
          b = operand();
        else
          b = cst(exps[o.inexact_consts || o.trans ? s.draw(exps.size())
                                                   : s.draw(5)],
                  o.real_consts && s.chance(1, 12) ? s.range(1, 2) : 0);
        if (!o.trans && !o.inexact_consts && b->op != Op::Const) b = cst(2);
        r = mk(Op::Pow, {a, b});
        break;
      }
      case 2:
        r = mk(Op::Div, {operand(), operand()}, nullptr, style);
        break;
      case 3: {
        const Op op = s.pick(trans);
        if (op == Op::Atan2)
          r = mk(op, {operand(), operand()});
        else
          r = mk(op, {operand()});
        break;
      }
      case 4:
        {
          const Op op = s.chance(1, 2) ? Op::Max : Op::Min;
          r = mk(op, {operand(), operand()});
        }
        break;
      case 5: {
        static const vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                         FOp::Ne, FOp::Ge, FOp::Lt};
        const FOp ro = s.pick(rels);
        const N ca = operand();
        const N cb = operand();
        F c = rel(ro, ca, cb);
        if (s.chance(1, 4)) c = conn(FOp::Not, {c});
        if (!o.bool_vars.empty()) {
          const int kb = static_cast<int>(s.draw(6));
          const F bv = bvar(s.pick(o.bool_vars));
          if (kb == 1) c = bv;
          if (kb == 2) c = conn(FOp::And, {c, bv});
          if (kb == 3) c = conn(FOp::Or, {conn(FOp::Not, {bv}), c});
        }
        r = mk(Op::Ite, {operand(), operand()}, c);
        break;
      }
    }
    if (r->size > o.max_size) continue;
    pool.push_back(r);
  }
  return pool.back();
}
F gen_rel(pbt::Src& s, const GenOpt& o) {
  static const vector<FOp> rels = {FOp::Le, FOp::Gt, FOp::Eq,
                                   FOp::Ne, FOp::Ge, FOp::Lt};
  const FOp op = s.pick(rels);
  const N a = gen_expr(s, o);
  const N b = s.chance(1, 2) ? cst(gen_const(s, o.inexact_consts))
                             : gen_expr(s, o);
  return rel(op, a, b);
}
F gen_formula(pbt::Src& s, const GenOpt& o, int depth) {
  const int k = depth <= 0
                    ? 0
                    : s.weighted({3, 4, 4, 2, 1, 1});
  const int style = static_cast<int>(s.draw(6));
  switch (k) {
    case 0: {
      if (s.chance(1, 16)) return s.chance(1, 2) ? ftrue() : ffalse();
      if (!o.bool_vars.empty() && o.bool_atoms && s.chance(1, 2))
        return bvar(s.pick(o.bool_vars));
      return gen_rel(s, o);
    }
    case 1:
    case 2: {
      vector<F> fs;
      const int n = 2 + static_cast<int>(s.draw(3));
      for (int i = 0; i < n; ++i) {
        if (i > 0 && s.chance(1, 6)) {
          F prev = fs[s.draw(fs.size())];
          if (s.chance(1, 2)) prev = conn(FOp::Not, {prev});
          fs.push_back(prev);
        } else {
          fs.push_back(gen_formula(s, o, depth - 1));
        }
      }
      return conn(k == 1 ? FOp::And : FOp::Or, fs, style);
    }
    case 3: return conn(FOp::Not, {gen_formula(s, o, depth - 1)}, style);
    case 4:
    case 5: {
      // separate draws: the order of argument evaluation is unspecified
      const F a = gen_formula(s, o, depth - 1);
      const F b = gen_formula(s, o, depth - 1);
      return conn(k == 4 ? FOp::Imply : FOp::Iff, {a, b}, style);
    }
  }
  abort();
}

}  // namespace ast
