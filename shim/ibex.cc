#include "ibex.h"

#include <algorithm>
#include <set>
#include <sstream>
#include <stdexcept>
#include <unordered_map>

namespace ibex {

namespace {
const double kInf = std::numeric_limits<double>::infinity();
const double kMax = std::numeric_limits<double>::max();

double next(double x) { return std::nextafter(x, kInf); }
double prev(double x) { return std::nextafter(x, -kInf); }
double up_ulps(double x, int n) {
  for (int i = 0; i < n; ++i) x = next(x);
  return x;
}
double down_ulps(double x, int n) {
  for (int i = 0; i < n; ++i) x = prev(x);
  return x;
}

// Directed rounding of one operation, from the sign of the rounding error.
// `up` picks the direction.
double round_dir(double r, double err, bool up) {
  // exact = r + err
  if (err != err) return up ? next(r) : prev(r);
  if (up) return err > 0 ? next(r) : r;
  return err < 0 ? prev(r) : r;
}
double add_dir(double a, double b, bool up) {
  const double r = a + b;
  if (std::isinf(a) || std::isinf(b)) return r;
  if (std::isinf(r)) return up ? (r > 0 ? r : -kMax) : (r > 0 ? kMax : r);
  const double bb = r - a;
  const double err = (a - (r - bb)) + (b - bb);
  return round_dir(r, err, up);
}
double mul_dir(double a, double b, bool up) {
  if (a == 0 || b == 0) return 0;
  const double r = a * b;
  if (std::isinf(a) || std::isinf(b)) return r;
  if (std::isinf(r)) return up ? (r > 0 ? r : -kMax) : (r > 0 ? kMax : r);
  if (std::fabs(r) < 1e-280) return up ? next(r) : prev(r);
  return round_dir(r, std::fma(a, b, -r), up);
}
double div_dir(double a, double b, bool up) {  // b != 0
  if (a == 0) return 0;
  if (std::isinf(b)) return std::isinf(a) ? (up ? kInf : -kInf) : 0;
  const double r = a / b;
  if (std::isinf(a)) return r;
  if (std::isinf(r)) return up ? (r > 0 ? r : -kMax) : (r > 0 ? kMax : r);
  if (std::fabs(r) < 1e-280 || std::fabs(a) < 1e-280)
    return up ? next(r) : prev(r);
  const double rem = std::fma(-r, b, a);  // a - r*b; exact = r + rem/b
  return round_dir(r, b > 0 ? rem : -rem, up);
}
double sqrt_dir(double a, bool up) {
  if (a <= 0 || std::isinf(a)) return a <= 0 ? 0 : a;
  const double r = std::sqrt(a);
  if (a < 1e-280) return up ? next(r) : prev(r);
  return round_dir(r, std::fma(-r, r, a), up);
}

constexpr int kUlps = 4;
template <typename F>
Interval mono(const Interval& x, F f, bool increasing = true) {
  if (x.is_empty()) return x;
  double l = f(increasing ? x.lb() : x.ub());
  double u = f(increasing ? x.ub() : x.lb());
  l = l == 0 ? l : down_ulps(l, kUlps);
  u = u == 0 ? u : up_ulps(u, kUlps);
  if (l == kInf) l = kMax;
  if (u == -kInf) u = -kMax;
  return Interval(l, u);
}
Interval empty() { return Interval::empty_set(); }
// contains an integer
bool has_integer(const Interval& x) {
  if (x.is_empty()) return false;
  if (x.is_unbounded()) return true;
  return std::floor(x.ub()) >= std::ceil(x.lb());
}
}  // namespace

const Interval Interval::EMPTY_SET = Interval(1, 0);
const Interval Interval::ALL_REALS = Interval();
const Interval Interval::ZERO = Interval(0.0);
const Interval Interval::ONE = Interval(1.0);
const Interval Interval::POS_REALS = Interval(0, kInf);
const Interval Interval::NEG_REALS = Interval(-kInf, 0);
const Interval Interval::PI = Interval(3.141592653589793, 3.1415926535897936);
const Interval Interval::TWO_PI = Interval(6.283185307179586, 6.283185307179587);
const Interval Interval::HALF_PI = Interval(1.5707963267948966, 1.5707963267948968);
namespace {
// (static initialisation order)
Interval pi() { return Interval(3.141592653589793, 3.1415926535897936); }
Interval two_pi() { return Interval(6.283185307179586, 6.283185307179587); }
Interval half_pi() { return Interval(1.5707963267948966, 1.5707963267948968); }
}  // namespace

double Interval::mid() const {
  if (is_empty()) return std::numeric_limits<double>::quiet_NaN();
  if (lb_ == -kInf) return ub_ == kInf ? 0 : -kMax;
  if (ub_ == kInf) return kMax;
  if (lb_ == ub_) return lb_;
  double m = 0.5 * (lb_ + ub_);
  if (std::isinf(m)) m = 0.5 * lb_ + 0.5 * ub_;
  return m < lb_ ? lb_ : m > ub_ ? ub_ : m;
}
double Interval::diam() const {
  if (is_empty()) return 0;
  return add_dir(ub_, -lb_, true);
}
bool Interval::is_bisectable() const {
  if (is_empty()) return false;
  const double m = mid();
  return lb_ < m && m < ub_;
}
std::pair<Interval, Interval> Interval::bisect(double ratio) const {
  assert(is_bisectable());
  double p;
  if (lb_ == -kInf) {
    p = ub_ == kInf ? 0 : -kMax;
  } else if (ub_ == kInf) {
    p = kMax;
  } else if (ratio == 0.5) {
    p = mid();
  } else {
    p = lb_ + ratio * diam();
    if (p >= ub_) p = next(lb_);
  }
  return {Interval(lb_, p), Interval(p, ub_)};
}
Interval& Interval::inflate(double r) { return *this += Interval(-r, r); }
Interval& Interval::operator&=(const Interval& x) {
  if (is_empty() || x.is_empty()) {
    set_empty();
    return *this;
  }
  return *this = Interval(std::max(lb_, x.lb_), std::min(ub_, x.ub_));
}
Interval& Interval::operator|=(const Interval& x) {
  if (x.is_empty()) return *this;
  if (is_empty()) return *this = x;
  lb_ = std::min(lb_, x.lb_);
  ub_ = std::max(ub_, x.ub_);
  return *this;
}
Interval& Interval::operator+=(const Interval& x) { return *this = *this + x; }
Interval& Interval::operator-=(const Interval& x) { return *this = *this - x; }
Interval& Interval::operator*=(const Interval& x) { return *this = *this * x; }
Interval& Interval::operator/=(const Interval& x) { return *this = *this / x; }

Interval operator&(const Interval& x, const Interval& y) {
  Interval r = x;
  return r &= y;
}
Interval operator|(const Interval& x, const Interval& y) {
  Interval r = x;
  return r |= y;
}
Interval operator+(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  return Interval(add_dir(x.lb(), y.lb(), false), add_dir(x.ub(), y.ub(), true));
}
Interval operator-(const Interval& x) {
  if (x.is_empty()) return x;
  return Interval(-x.ub(), -x.lb());
}
Interval operator-(const Interval& x, const Interval& y) { return x + (-y); }
Interval operator*(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  const double a = x.lb(), b = x.ub(), c = y.lb(), d = y.ub();
  const double l = std::min(std::min(mul_dir(a, c, false), mul_dir(a, d, false)),
                            std::min(mul_dir(b, c, false), mul_dir(b, d, false)));
  const double u = std::max(std::max(mul_dir(a, c, true), mul_dir(a, d, true)),
                            std::max(mul_dir(b, c, true), mul_dir(b, d, true)));
  return Interval(l, u);
}
Interval operator/(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  const double a = x.lb(), b = x.ub(), c = y.lb(), d = y.ub();
  if (c == 0 && d == 0) return empty();
  if (a == 0 && b == 0) return x;
  if (c > 0 || d < 0) {
    const double l = std::min(std::min(div_dir(a, c, false), div_dir(a, d, false)),
                              std::min(div_dir(b, c, false), div_dir(b, d, false)));
    const double u = std::max(std::max(div_dir(a, c, true), div_dir(a, d, true)),
                              std::max(div_dir(b, c, true), div_dir(b, d, true)));
    return Interval(l, u);
  }
  if (c < 0 && d > 0) return Interval();
  if (c == 0) {  // (0, d]
    const double l = a >= 0 ? div_dir(a, d, false) : -kInf;
    const double u = b <= 0 ? div_dir(b, d, true) : kInf;
    return Interval(l, u);
  }
  // [c, 0)
  const double l = b <= 0 ? div_dir(b, c, false) : -kInf;
  const double u = a >= 0 ? div_dir(a, c, true) : kInf;
  return Interval(l, u);
}
Interval abs(const Interval& x) {
  if (x.is_empty()) return x;
  return Interval(x.mig(), x.mag());
}
Interval min(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  return Interval(std::min(x.lb(), y.lb()), std::min(x.ub(), y.ub()));
}
Interval max(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  return Interval(std::max(x.lb(), y.lb()), std::max(x.ub(), y.ub()));
}
Interval sqr(const Interval& x) {
  if (x.is_empty()) return x;
  const double l = x.mig(), u = x.mag();
  return Interval(std::max(0.0, mul_dir(l, l, false)), mul_dir(u, u, true));
}
Interval sqrt(const Interval& x) {
  const Interval y = x & Interval(0, kInf);
  if (y.is_empty()) return y;
  return Interval(std::max(0.0, sqrt_dir(y.lb(), false)), sqrt_dir(y.ub(), true));
}
namespace {
// x^n for x >= 0, n >= 1
double pow_dir(double x, int n, bool up) {
  if (x == 0 || x == 1 || std::isinf(x)) return x;
  double r = 1, b = x;
  for (int k = n; k; k >>= 1) {
    if (k & 1) r = mul_dir(r, b, up);
    if (k > 1) b = mul_dir(b, b, up);
    r = std::max(r, 0.0);
    b = std::max(b, 0.0);
  }
  return r;
}
double spow_dir(double x, int n, bool up) {  // odd n
  return x >= 0 ? pow_dir(x, n, up) : -pow_dir(-x, n, !up);
}
Interval positive_pow(const Interval& x, int n) {
  if (n % 2 == 0) {
    const Interval m = abs(x);
    return Interval(pow_dir(m.lb(), n, false), pow_dir(m.ub(), n, true));
  }
  return Interval(spow_dir(x.lb(), n, false), spow_dir(x.ub(), n, true));
}
}  // namespace
Interval pow(const Interval& x, int n) {
  if (x.is_empty()) return x;
  if (n == 0) return Interval(1.0);
  if (n == std::numeric_limits<int>::min()) return Interval();
  if (n < 0) return Interval(1.0) / positive_pow(x, -n);
  return positive_pow(x, n);
}
Interval exp(const Interval& x) {
  if (x.is_empty()) return x;
  auto f = [](double v) { return std::exp(v); };
  Interval r = mono(x, f);
  double l = std::max(0.0, r.lb()), u = r.ub();
  if (u <= 0 && x.ub() > -kInf) u = std::numeric_limits<double>::denorm_min();
  if (x.lb() == 0) l = 1;
  if (x.ub() == 0) u = 1;
  if (x.lb() == -kInf) l = 0;
  return Interval(l, u);
}
Interval log(const Interval& x) {
  if (x.is_empty() || x.ub() <= 0) return empty();
  const double a = std::max(0.0, x.lb());
  double l = a == 0 ? -kInf : std::log(a);
  double u = std::log(x.ub());
  if (l != 0 && !std::isinf(l)) l = down_ulps(l, kUlps);
  if (l == kInf) l = kMax;
  if (u != 0) u = up_ulps(u, kUlps);
  return Interval(l, u);
}
Interval pow(const Interval& x, double d) {
  if (x.is_empty()) return x;
  if (std::floor(d) == d && std::fabs(d) < 1e9) return pow(x, static_cast<int>(d));
  const Interval y = x & Interval(0, kInf);
  if (y.is_empty()) return y;
  if (d > 0) {
    const double l = y.lb() == 0 ? 0 : y.lb() == 1 ? 1 : std::pow(y.lb(), d);
    const double u = y.ub() == 0 ? 0 : y.ub() == 1 ? 1 : std::pow(y.ub(), d);
    return Interval(l == 0 || l == 1 ? l : l == kInf ? kMax : std::max(0.0, down_ulps(l, kUlps)),
                    y.ub() == 0 || u == 1 ? u : up_ulps(u, kUlps));
  }
  return Interval(1.0) / pow(y, -d);
}
Interval pow(const Interval& x, const Interval& y) {
  if (x.is_empty() || y.is_empty()) return empty();
  if (y.lb() == y.ub()) return pow(x, y.lb());
  Interval r = empty();
  if (x.lb() < 0 && has_integer(y)) return Interval();
  const Interval p = x & Interval(0, kInf);
  if (p.is_empty()) return empty();
  if (p.ub() > 0) r |= exp(y * log(p));
  if (p.lb() == 0) {
    if (y.ub() > 0) r |= Interval(0.0);
    if (y.contains(0)) r |= Interval(1.0);
  }
  return r;
}
Interval root(const Interval& x, int n) {
  if (x.is_empty()) return x;
  if (n == 0) return empty();
  if (n < 0) return root(Interval(1.0) / x, -n);
  if (n == 1) return x;
  auto f = [n](double v) {
    if (std::isinf(v) || v == 0) return v;
    return v < 0 ? -std::pow(-v, 1.0 / n) : std::pow(v, 1.0 / n);
  };
  auto widen = [n, f](double v, bool up) {
    const double r = f(v);
    if (r == 0 || std::isinf(r)) return r;
    const double e = 16 * std::fabs(r) * std::numeric_limits<double>::epsilon();
    return up ? r + e : r - e;
  };
  if (n % 2) return Interval(widen(x.lb(), false), widen(x.ub(), true));
  const Interval p = x & Interval(0, kInf);
  if (p.is_empty()) return p;
  const double u = widen(p.ub(), true);
  return Interval(-u, u);
}
Interval sin(const Interval& x) {
  if (x.lb() == 0 && x.ub() == 0) return x;
  return cos(x - half_pi());
}
Interval cos(const Interval& x) {
  if (x.is_empty()) return x;
  if (x.is_unbounded() || x.mag() > 1e9 || x.diam() >= 6.3) return Interval(-1, 1);
  const Interval k = x / two_pi();
  const bool top = has_integer(k);
  const bool bottom = has_integer(k - Interval(0.5));
  const double a = std::cos(x.lb()), b = std::cos(x.ub());
  double l = std::max(-1.0, down_ulps(std::min(a, b), kUlps));
  double u = std::min(1.0, up_ulps(std::max(a, b), kUlps));
  if (top) u = 1;
  if (bottom) l = -1;
  if (x.lb() == 0 && x.ub() == 0) l = 1;
  return Interval(l, u);
}
Interval tan(const Interval& x) {
  if (x.is_empty()) return x;
  if (x.is_unbounded() || x.mag() > 1e9 || x.diam() >= 3.14) return Interval();
  if (has_integer((x - half_pi()) / pi())) return Interval();
  return mono(x, [](double v) { return std::tan(v); });
}
Interval asin(const Interval& x) {
  const Interval y = x & Interval(-1, 1);
  return mono(y, [](double v) { return std::asin(v); });
}
Interval acos(const Interval& x) {
  const Interval y = x & Interval(-1, 1);
  const Interval r = mono(y, [](double v) { return std::acos(v); }, false);
  return r & Interval(0, 4);
}
Interval atan(const Interval& x) {
  return mono(x, [](double v) { return std::atan(v); });
}
Interval atan2(const Interval& y, const Interval& x) {
  if (x.is_empty() || y.is_empty()) return empty();
  const Interval p = pi();
  if (x.ub() == 0 && x.lb() == 0 && y.lb() == 0 && y.ub() == 0) return empty();
  if (x.lb() > 0) return atan(y / x);
  if (y.lb() > 0) return half_pi() - atan(x / y);
  if (y.ub() < 0) return -half_pi() - atan(x / y);
  if (x.lb() >= 0) return Interval(-half_pi().ub(), half_pi().ub());
  if (y.lb() >= 0) return Interval(0, p.ub());
  return Interval(-p.ub(), p.ub());
}
Interval sinh(const Interval& x) {
  return mono(x, [](double v) { return std::sinh(v); });
}
Interval cosh(const Interval& x) {
  if (x.is_empty()) return x;
  Interval r = mono(abs(x), [](double v) { return std::cosh(v); });
  const double l = std::max(1.0, r.lb());
  return Interval(l, x.mag() == 0 ? 1.0 : std::max(l, r.ub()));
}
Interval tanh(const Interval& x) {
  return mono(x, [](double v) { return std::tanh(v); }) & Interval(-1, 1);
}
Interval asinh(const Interval& x) {
  return mono(x, [](double v) { return std::asinh(v); });
}
Interval acosh(const Interval& x) {
  return mono(x & Interval(1, kInf), [](double v) { return std::acosh(v); });
}
Interval atanh(const Interval& x) {
  return mono(x & Interval(-1, 1), [](double v) { return std::atanh(v); });
}
std::ostream& operator<<(std::ostream& os, const Interval& x) {
  if (x.is_empty()) return os << "[ empty ]";
  return os << "[" << x.lb() << ", " << x.ub() << "]";
}

IntervalVector& IntervalVector::operator|=(const IntervalVector& x) {
  assert(size() == x.size());
  if (x.is_empty()) return *this;
  if (is_empty()) return *this = x;
  for (int i = 0; i < size(); ++i) v_[i] |= x.v_[i];
  return *this;
}
IntervalVector& IntervalVector::operator&=(const IntervalVector& x) {
  assert(size() == x.size());
  for (int i = 0; i < size(); ++i) v_[i] &= x.v_[i];
  if (is_empty()) set_empty();
  return *this;
}
bool IntervalVector::operator==(const IntervalVector& x) const {
  if (size() != x.size()) return false;
  if (is_empty() || x.is_empty()) return is_empty() && x.is_empty();
  return v_ == x.v_;
}
std::ostream& operator<<(std::ostream& os, const IntervalVector& x) {
  os << "(";
  for (int i = 0; i < x.size(); ++i) os << (i ? " ; " : "") << x[i];
  return os << ")";
}

// ---- expressions
namespace {
const ExprNode& node(Op op, std::vector<const ExprNode*> a) {
  return *new ExprNode(op, std::move(a));
}
const ExprCtr& ctr(const ExprNode& l, const ExprNode& r, CmpOp op) {
  if (!(r.op == Op::Const && r.value == Interval(0.0)))
    throw std::logic_error("ibex shim: constraints must compare with 0");
  return *new ExprCtr(l, op);
}
}  // namespace
const ExprCtr& ExprNode::operator=(const ExprNode& r) const { return ctr(*this, r, EQ); }
const ExprCtr& ExprNode::operator<(const ExprNode& r) const { return ctr(*this, r, LT); }
const ExprCtr& ExprNode::operator<=(const ExprNode& r) const { return ctr(*this, r, LEQ); }
const ExprCtr& ExprNode::operator>(const ExprNode& r) const { return ctr(*this, r, GT); }
const ExprCtr& ExprNode::operator>=(const ExprNode& r) const { return ctr(*this, r, GEQ); }

const ExprSymbol& ExprSymbol::new_(const char* name, const Dim&) {
  ExprSymbol* s = new ExprSymbol(Op::Var, {});
  s->name = name;
  return *s;
}
const ExprConstant& ExprConstant::new_scalar(const Interval& x) {
  ExprConstant* c = new ExprConstant(Op::Const, {});
  c->value = x;
  return *c;
}
#define BINARY(F, O) \
  const ExprNode& F(const ExprNode& x, const ExprNode& y) { return node(Op::O, {&x, &y}); }
#define UNARY(F, O) \
  const ExprNode& F(const ExprNode& x) { return node(Op::O, {&x}); }
BINARY(operator+, Add)
BINARY(operator-, Sub)
BINARY(operator*, Mul)
BINARY(operator/, Div)
BINARY(pow, Pow)
BINARY(atan2, Atan2)
BINARY(min, Min)
BINARY(max, Max)
UNARY(operator-, Neg)
UNARY(sqr, Sqr)
UNARY(sqrt, Sqrt)
UNARY(exp, Exp)
UNARY(log, Log)
UNARY(sin, Sin)
UNARY(cos, Cos)
UNARY(tan, Tan)
UNARY(asin, Asin)
UNARY(acos, Acos)
UNARY(atan, Atan)
UNARY(sinh, Sinh)
UNARY(cosh, Cosh)
UNARY(tanh, Tanh)
UNARY(abs, Abs)
const ExprNode& operator*(double c, const ExprNode& y) {
  return ExprConstant::new_scalar(c) * y;
}
const ExprNode& pow(const ExprNode& x, int n) {
  ExprNode* r = new ExprNode(Op::PowI, {&x});
  r->n = n;
  return *r;
}
const ExprNode& pow(const ExprNode& x, double d) {
  ExprNode* r = new ExprNode(Op::PowD, {&x});
  r->d = d;
  return *r;
}
const ExprNode& pow(double d, const ExprNode& y) {
  return pow(static_cast<const ExprNode&>(ExprConstant::new_scalar(d)), y);
}
namespace {
void collect(const ExprNode* e, std::set<const ExprNode*>* out) {
  if (!out->insert(e).second) return;
  for (const ExprNode* x : e->a) collect(x, out);
}
}  // namespace
void cleanup(const ExprNode& e, bool delete_symbols) {
  std::set<const ExprNode*> all;
  collect(&e, &all);
  for (const ExprNode* x : all)
    if (delete_symbols || x->op != Op::Var) delete x;
}
std::ostream& operator<<(std::ostream& os, const ExprNode& e) {
  if (e.op == Op::Var) return os << e.name;
  if (e.op == Op::Const) return os << e.value;
  os << "op" << static_cast<int>(e.op);
  if (e.op == Op::PowI) os << "{" << e.n << "}";
  if (e.op == Op::PowD) os << "{" << e.d << "}";
  os << "(";
  for (size_t i = 0; i < e.a.size(); ++i) os << (i ? "," : "") << *e.a[i];
  return os << ")";
}
namespace {
const char* text(CmpOp op) {
  switch (op) {
    case LT: return "<";
    case LEQ: return "<=";
    case EQ: return "=";
    case GEQ: return ">=";
    case GT: return ">";
  }
  return "?";
}
}  // namespace
std::ostream& operator<<(std::ostream& os, const ExprCtr& c) {
  return os << c.e << text(c.op) << "0";
}

// ---- functions
Function::Function(const Array<const ExprSymbol>& vars, const ExprNode& e) {
  std::unordered_map<const ExprNode*, int> var, done;
  for (int i = 0; i < vars.size(); ++i) var[&vars[i]] = i;
  struct Rec {
    std::vector<Instr>& code;
    std::unordered_map<const ExprNode*, int>&var, &done;
    int go(const ExprNode* n) {
      const auto it = done.find(n);
      if (it != done.end()) return it->second;
      Instr in{n->op, -1, -1, n->n, n->d, n->value};
      if (n->op == Op::Var) {
        if (!var.count(n)) throw std::logic_error("ibex shim: unknown symbol");
        in.a = var[n];
      } else {
        if (n->a.size() > 0) in.a = go(n->a[0]);
        if (n->a.size() > 1) in.b = go(n->a[1]);
      }
      code.push_back(in);
      return done[n] = static_cast<int>(code.size()) - 1;
    }
  };
  Rec{code_, var, done}.go(&e);
}
void Function::forward(const IntervalVector& x, std::vector<Interval>* v) const {
  v->resize(code_.size());
  for (size_t i = 0; i < code_.size(); ++i) {
    const Instr& c = code_[i];
    Interval& r = (*v)[i];
    if (c.op == Op::Var) {
      r = x[c.a];
      continue;
    }
    if (c.op == Op::Const) {
      r = c.value;
      continue;
    }
    const Interval& a = (*v)[c.a];
    const Interval& b = (*v)[c.b >= 0 ? c.b : c.a];
    switch (c.op) {
      case Op::Add: r = a + b; break;
      case Op::Sub: r = a - b; break;
      case Op::Mul: r = a * b; break;
      case Op::Div: r = a / b; break;
      case Op::Neg: r = -a; break;
      case Op::Sqr: r = sqr(a); break;
      case Op::Sqrt: r = sqrt(a); break;
      case Op::PowI: r = pow(a, c.n); break;
      case Op::PowD: r = pow(a, c.d); break;
      case Op::Pow: r = pow(a, b); break;
      case Op::Exp: r = exp(a); break;
      case Op::Log: r = log(a); break;
      case Op::Sin: r = sin(a); break;
      case Op::Cos: r = cos(a); break;
      case Op::Tan: r = tan(a); break;
      case Op::Asin: r = asin(a); break;
      case Op::Acos: r = acos(a); break;
      case Op::Atan: r = atan(a); break;
      case Op::Atan2: r = atan2(a, b); break;
      case Op::Sinh: r = sinh(a); break;
      case Op::Cosh: r = cosh(a); break;
      case Op::Tanh: r = tanh(a); break;
      case Op::Abs: r = abs(a); break;
      case Op::Min: r = min(a, b); break;
      case Op::Max: r = max(a, b); break;
      default: throw std::logic_error("ibex shim: operator");
    }
  }
}
Interval Function::eval(const IntervalVector& x) const {
  if (x.is_empty()) return empty();
  std::vector<Interval> v;
  forward(x, &v);
  return v.back();
}
namespace {
// Contracts a w.r.t. exists b: a * b in v.
Interval solve_mul(const Interval& v, const Interval& b, const Interval& a) {
  if (b.contains(0) && v.contains(0)) return a;
  if (b.lb() < 0 && b.ub() > 0)
    return (a & (v / (b & Interval(0, kInf)))) | (a & (v / (b & Interval(-kInf, 0))));
  return a & (v / b);
}
// a with |a| in r (r >= 0)
Interval both_signs(const Interval& r, const Interval& a) {
  return (a & r) | (a & -r);
}
template <typename F>
Interval branches(const Interval& a, const Interval& period, F branch) {
  if (a.is_unbounded() || a.mag() > 1e6) return a;
  const Interval k = a / period;
  const double from = std::floor(k.lb()) - 2, to = std::ceil(k.ub()) + 2;
  if (to - from > 40) return a;
  Interval r = empty();
  for (double i = from; i <= to; ++i) r |= a & branch(period * Interval(i));
  return r;
}
}  // namespace
bool Function::backward(const Interval& y, IntervalVector& x) const {
  if (x.is_empty()) return false;
  std::vector<Interval> v;
  forward(x, &v);
  if (v.back().is_empty()) {
    x.set_empty();
    return false;
  }
  if (v.back().is_subset(y)) return true;
  v.back() &= y;
  if (v.back().is_empty()) {
    x.set_empty();
    return false;
  }
  for (int i = static_cast<int>(code_.size()) - 1; i >= 0; --i) {
    const Instr& c = code_[i];
    const Interval w = v[i];
    if (w.is_empty()) {
      x.set_empty();
      return false;
    }
    if (c.op == Op::Var) {
      x[c.a] &= w;
      if (x[c.a].is_empty()) {
        x.set_empty();
        return false;
      }
      continue;
    }
    if (c.op == Op::Const) continue;
    Interval& a = v[c.a];
    Interval& b = v[c.b >= 0 ? c.b : c.a];
    switch (c.op) {
      case Op::Add:
        a &= w - b;
        b &= w - a;
        break;
      case Op::Sub:
        a &= w + b;
        b &= a - w;
        break;
      case Op::Mul:
        if (c.a == c.b) break;
        a = solve_mul(w, b, a);
        if (!a.is_empty()) b = solve_mul(w, a, b);
        break;
      case Op::Div:
        if (c.a == c.b) break;
        a &= w * b;
        if (!a.is_empty()) b = solve_mul(a, w, b);
        break;
      case Op::Neg: a &= -w; break;
      case Op::Sqr: a = both_signs(sqrt(w), a); break;
      case Op::Sqrt: a &= sqr(w & Interval(0, kInf)); break;
      case Op::PowI:
        if (c.n == 0) break;
        if (c.n % 2) {
          if (c.n > 0) {
            a &= root(w, c.n);
          } else {
            a = solve_mul(Interval(1.0), root(w, -c.n), a);
          }
        } else {
          const Interval p = w & Interval(0, kInf);
          if (p.is_empty()) {
            a = p;
            break;
          }
          const Interval r = root(c.n > 0 ? p : Interval(1.0) / p, std::abs(c.n));
          a &= r;
        }
        break;
      case Op::PowD: {
        const Interval p = w & Interval(0, kInf);
        a &= Interval(0, kInf);
        if (a.is_empty() || p.is_empty()) {
          a = empty();
          break;
        }
        if (c.d > 0) {
          const Interval r = pow(p, 1 / c.d);
          // 1 / d is rounded: widen
          const double s = 1e-12;
          a &= Interval(r.lb() - s * (1 + std::fabs(r.lb()) * (1 + std::fabs(std::log(std::fmax(r.lb(), 1e-300))))),
                        r.ub() == kInf ? kInf : r.ub() + s * (1 + r.ub() * (1 + std::fabs(std::log(std::fmax(r.ub(), 1e-300))))));
        }
        break;
      }
      case Op::Pow:
        if (a.lb() > 0 && c.a != c.b) {
          const Interval lw = log(w);
          if (lw.is_empty()) {
            a = empty();
            break;
          }
          const Interval la = solve_mul(lw, b, log(a));
          if (la.is_empty()) {
            a = la;
            break;
          }
          b = solve_mul(lw, la, b);
          a &= exp(la);
        }
        break;
      case Op::Exp: a &= log(w); break;
      case Op::Log: a &= exp(w); break;
      case Op::Sin: {
        const Interval s = asin(w);
        if (s.is_empty()) {
          a = s;
          break;
        }
        a = branches(a, two_pi(), [&](const Interval& k) { return s + k; }) |
            branches(a, two_pi(), [&](const Interval& k) { return (pi() - s) + k; });
        break;
      }
      case Op::Cos: {
        const Interval s = acos(w);
        if (s.is_empty()) {
          a = s;
          break;
        }
        a = branches(a, two_pi(), [&](const Interval& k) { return s + k; }) |
            branches(a, two_pi(), [&](const Interval& k) { return k - s; });
        break;
      }
      case Op::Tan: {
        const Interval s = atan(w);
        a = branches(a, pi(), [&](const Interval& k) { return s + k; });
        break;
      }
      case Op::Asin:
        a &= Interval(-1, 1);
        a &= sin(w & Interval(-1.5707963267948968, 1.5707963267948968));
        break;
      case Op::Acos:
        a &= Interval(-1, 1);
        a &= cos(w & Interval(0, 3.1415926535897936));
        break;
      case Op::Atan: a &= tan(w & Interval(-1.5707963267948968, 1.5707963267948968)); break;
      case Op::Sinh: a &= asinh(w); break;
      case Op::Cosh: a = both_signs(acosh(w), a); break;
      case Op::Tanh: {
        const Interval t = w & Interval(-1, 1);
        if (t.is_empty()) {
          a = t;
          break;
        }
        a &= Interval(t.lb() <= -1 ? -kInf : atanh(t).lb(), t.ub() >= 1 ? kInf : atanh(t).ub());
        break;
      }
      case Op::Abs: a = both_signs(w & Interval(0, kInf), a); break;
      case Op::Min:
        a &= Interval(w.lb(), kInf);
        b &= Interval(w.lb(), kInf);
        if (a.is_empty() || b.is_empty()) break;
        if (b.lb() > w.ub()) {
          a &= w;
        } else if (a.lb() > w.ub()) {
          b &= w;
        }
        break;
      case Op::Max:
        a &= Interval(-kInf, w.ub());
        b &= Interval(-kInf, w.ub());
        if (a.is_empty() || b.is_empty()) break;
        if (b.ub() < w.lb()) {
          a &= w;
        } else if (a.ub() < w.lb()) {
          b &= w;
        }
        break;
      case Op::Atan2: break;
      default: throw std::logic_error("ibex shim: operator");
    }
    if (a.is_empty() || b.is_empty()) {
      x.set_empty();
      return false;
    }
  }
  return false;
}

NumConstraint::NumConstraint(const Array<const ExprSymbol>& vars, const ExprCtr& c)
    : NumConstraint(vars, c, true) {}
NumConstraint::NumConstraint(const Array<const ExprSymbol>& vars, const ExprCtr& c,
                             bool own)
    : f(vars, c.e), op(c.op), own_{own}, vars_{vars}, e_{&c.e} {}
NumConstraint::~NumConstraint() {
  if (!own_) return;
  cleanup(*e_, false);
  for (int i = 0; i < vars_.size(); ++i) delete &vars_[i];
}
Interval NumConstraint::right_hand_side() const {
  switch (op) {
    case LT:
    case LEQ: return Interval(-kInf, 0);
    case EQ: return Interval(0.0);
    case GEQ:
    case GT: return Interval(0, kInf);
  }
  return Interval();
}
std::ostream& operator<<(std::ostream& os, const NumConstraint& c) {
  return os << *c.e_ << text(c.op) << "0";
}

System::System(const SystemFactory& f) : nb_ctr{static_cast<int>(f.ctrs_.size())} {
  for (const ExprCtr* c : f.ctrs_)
    ctrs.push_back(std::shared_ptr<NumConstraint>(new NumConstraint(f.vars_, *c, false)));
}
void CtcPolytopeHull::contract(IntervalVector& x) {
  for (int round = 0; round < 2; ++round)
    for (const auto& c : sys_.ctrs) {
      if (x.is_empty()) {
        x.set_empty();
        return;
      }
      c->f.backward(c->right_hand_side(), x);
    }
}
}  // namespace ibex
