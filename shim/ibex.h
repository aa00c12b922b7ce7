// A small, sound stand-in for the parts of IBEX 2.8 that dreal uses (IBEX is
// not installed here): intervals, boxes, expressions, constraints and the
// forward-backward (HC4) contractor.  Every operation encloses the exact
// result; the arithmetic operations and sqrt round to the nearest enclosing
// doubles, the elementary functions enclose within a few ulps.
#pragma once
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ibex {

#define POS_INFINITY (std::numeric_limits<double>::infinity())
#define NEG_INFINITY (-std::numeric_limits<double>::infinity())

class Interval {
 public:
  Interval() : lb_{NEG_INFINITY}, ub_{POS_INFINITY} {}
  Interval(double x) : lb_{x}, ub_{x} {  // NOLINT
    if (!(x > NEG_INFINITY && x < POS_INFINITY)) set_empty();
  }
  Interval(double lb, double ub) : lb_{lb}, ub_{ub} {
    if (!(lb <= ub) || lb == POS_INFINITY || ub == NEG_INFINITY) set_empty();
  }
  Interval& operator=(double x) { return *this = Interval(x); }

  static const Interval EMPTY_SET, ALL_REALS, ZERO, ONE, POS_REALS, NEG_REALS,
      PI, TWO_PI, HALF_PI;

  static Interval empty_set() { return Interval(1, 0); }
  static Interval all_reals() { return Interval(); }
  static Interval zero() { return Interval(0.0); }
  static Interval one() { return Interval(1.0); }
  static Interval pos_reals() { return Interval(0, POS_INFINITY); }
  static Interval neg_reals() { return Interval(NEG_INFINITY, 0); }

  double lb() const { return lb_; }
  double ub() const { return ub_; }
  bool is_empty() const { return !(lb_ <= ub_); }
  void set_empty() {
    lb_ = std::numeric_limits<double>::quiet_NaN();
    ub_ = std::numeric_limits<double>::quiet_NaN();
  }
  double mid() const;
  double rad() const { return is_empty() ? 0 : diam() / 2; }
  double diam() const;
  double mag() const { return std::fmax(std::fabs(lb_), std::fabs(ub_)); }
  double mig() const {
    return lb_ > 0 ? lb_ : ub_ < 0 ? -ub_ : 0;
  }
  bool is_unbounded() const {
    return !is_empty() && (lb_ == NEG_INFINITY || ub_ == POS_INFINITY);
  }
  bool is_degenerated() const { return is_empty() || lb_ == ub_; }
  bool is_bisectable() const;
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const;
  bool contains(double d) const { return lb_ <= d && d <= ub_; }
  bool interior_contains(double d) const { return lb_ < d && d < ub_; }
  bool is_subset(const Interval& x) const {
    return is_empty() || (x.lb_ <= lb_ && ub_ <= x.ub_);
  }
  bool is_superset(const Interval& x) const { return x.is_subset(*this); }
  bool is_strict_subset(const Interval& x) const {
    return is_subset(x) && *this != x;
  }
  bool is_interior_subset(const Interval& x) const {
    return is_empty() || (!x.is_empty() &&
                          (x.lb_ == NEG_INFINITY || x.lb_ < lb_) &&
                          (x.ub_ == POS_INFINITY || ub_ < x.ub_));
  }
  bool intersects(const Interval& x) const { return lb_ <= x.ub_ && x.lb_ <= ub_; }
  bool is_disjoint(const Interval& x) const { return !intersects(x); }
  Interval& inflate(double r);

  bool operator==(const Interval& x) const {
    return is_empty() ? x.is_empty() : (lb_ == x.lb_ && ub_ == x.ub_);
  }
  bool operator!=(const Interval& x) const { return !(*this == x); }
  Interval& operator&=(const Interval& x);
  Interval& operator|=(const Interval& x);
  Interval& operator+=(const Interval& x);
  Interval& operator-=(const Interval& x);
  Interval& operator*=(const Interval& x);
  Interval& operator/=(const Interval& x);

 private:
  double lb_, ub_;
};

Interval operator&(const Interval& x, const Interval& y);
Interval operator|(const Interval& x, const Interval& y);
Interval operator+(const Interval& x, const Interval& y);
Interval operator-(const Interval& x, const Interval& y);
Interval operator*(const Interval& x, const Interval& y);
Interval operator/(const Interval& x, const Interval& y);
Interval operator-(const Interval& x);
Interval sqr(const Interval& x);
Interval sqrt(const Interval& x);
Interval pow(const Interval& x, int n);
Interval pow(const Interval& x, double d);
Interval pow(const Interval& x, const Interval& y);
Interval root(const Interval& x, int n);
Interval exp(const Interval& x);
Interval log(const Interval& x);
Interval sin(const Interval& x);
Interval cos(const Interval& x);
Interval tan(const Interval& x);
Interval asin(const Interval& x);
Interval acos(const Interval& x);
Interval atan(const Interval& x);
Interval atan2(const Interval& y, const Interval& x);
Interval sinh(const Interval& x);
Interval cosh(const Interval& x);
Interval tanh(const Interval& x);
Interval asinh(const Interval& x);
Interval acosh(const Interval& x);
Interval atanh(const Interval& x);
Interval abs(const Interval& x);
Interval min(const Interval& x, const Interval& y);
Interval max(const Interval& x, const Interval& y);
std::ostream& operator<<(std::ostream& os, const Interval& x);

class IntervalVector {
 public:
  explicit IntervalVector(int n) : v_(n) { assert(n >= 1); }
  IntervalVector(int n, const Interval& x) : v_(n, x) {}
  void resize(int n) { v_.resize(n); }
  int size() const { return static_cast<int>(v_.size()); }
  bool is_empty() const {
    for (const Interval& x : v_)
      if (x.is_empty()) return true;
    return false;
  }
  void set_empty() {
    for (Interval& x : v_) x.set_empty();
  }
  Interval& operator[](int i) {
    assert(0 <= i && i < size());
    return v_[i];
  }
  const Interval& operator[](int i) const {
    assert(0 <= i && i < size());
    return v_[i];
  }
  IntervalVector& operator|=(const IntervalVector& x);
  IntervalVector& operator&=(const IntervalVector& x);
  bool operator==(const IntervalVector& x) const;
  bool operator!=(const IntervalVector& x) const { return !(*this == x); }
  double max_diam() const {
    double m = 0;
    for (const Interval& x : v_) m = std::fmax(m, x.diam());
    return m;
  }

 private:
  std::vector<Interval> v_;
};
std::ostream& operator<<(std::ostream& os, const IntervalVector& x);

struct Dim {
  static Dim scalar() { return Dim{}; }
};

enum CmpOp { LT, LEQ, EQ, GEQ, GT };

class ExprCtr;

enum class Op {
  Var, Const, Add, Sub, Mul, Div, Neg, Sqr, Sqrt, PowI, PowD, Pow, Exp, Log,
  Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Sinh, Cosh, Tanh, Abs, Min, Max
};

// Expressions form DAGs; the nodes made by operators are freed with the
// constraint (see ExprCtr), symbols and constants made by new_* by whoever
// deletes them.
class ExprNode {
 public:
  ExprNode(Op o, std::vector<const ExprNode*> args) : op{o}, a(std::move(args)) {}
  virtual ~ExprNode() = default;
  const ExprCtr& operator=(const ExprNode& r) const;  // NOLINT
  const ExprCtr& operator<(const ExprNode& r) const;
  const ExprCtr& operator<=(const ExprNode& r) const;
  const ExprCtr& operator>(const ExprNode& r) const;
  const ExprCtr& operator>=(const ExprNode& r) const;

  Op op;
  std::vector<const ExprNode*> a;
  int n{0};
  double d{0};
  Interval value;    // constants
  std::string name;  // symbols
};
class ExprSymbol : public ExprNode {
 public:
  static const ExprSymbol& new_(const char* name, const Dim&);
  using ExprNode::ExprNode;
  using ExprNode::operator=;
};
class ExprConstant : public ExprNode {
 public:
  static const ExprConstant& new_scalar(const Interval& x);
  static const ExprConstant& new_scalar(double x) { return new_scalar(Interval(x)); }
  using ExprNode::ExprNode;
};
class ExprCtr {
 public:
  ExprCtr(const ExprNode& l, CmpOp o) : e(l), op(o) {}
  const ExprNode& e;  // compared with 0
  CmpOp op;
};
std::ostream& operator<<(std::ostream& os, const ExprNode& e);
std::ostream& operator<<(std::ostream& os, const ExprCtr& c);

const ExprNode& operator+(const ExprNode& x, const ExprNode& y);
const ExprNode& operator-(const ExprNode& x, const ExprNode& y);
const ExprNode& operator*(const ExprNode& x, const ExprNode& y);
const ExprNode& operator/(const ExprNode& x, const ExprNode& y);
const ExprNode& operator-(const ExprNode& x);
const ExprNode& operator*(double c, const ExprNode& y);
const ExprNode& sqr(const ExprNode& x);
const ExprNode& sqrt(const ExprNode& x);
const ExprNode& pow(const ExprNode& x, int n);
const ExprNode& pow(const ExprNode& x, double d);
const ExprNode& pow(double d, const ExprNode& y);
const ExprNode& pow(const ExprNode& x, const ExprNode& y);
const ExprNode& exp(const ExprNode& x);
const ExprNode& log(const ExprNode& x);
const ExprNode& sin(const ExprNode& x);
const ExprNode& cos(const ExprNode& x);
const ExprNode& tan(const ExprNode& x);
const ExprNode& asin(const ExprNode& x);
const ExprNode& acos(const ExprNode& x);
const ExprNode& atan(const ExprNode& x);
const ExprNode& atan2(const ExprNode& y, const ExprNode& x);
const ExprNode& sinh(const ExprNode& x);
const ExprNode& cosh(const ExprNode& x);
const ExprNode& tanh(const ExprNode& x);
const ExprNode& abs(const ExprNode& x);
const ExprNode& min(const ExprNode& x, const ExprNode& y);
const ExprNode& max(const ExprNode& x, const ExprNode& y);
void cleanup(const ExprNode& e, bool delete_symbols);

template <typename T>
class Array {
 public:
  void add(T& x) { v_.push_back(&x); }
  int size() const { return static_cast<int>(v_.size()); }
  T& operator[](int i) const { return *v_[i]; }

 private:
  std::vector<T*> v_;
};

// A function of the given variables: evaluation over a box and projection.
class Function {
 public:
  Function(const Array<const ExprSymbol>& vars, const ExprNode& e);
  Interval eval(const IntervalVector& x) const;
  // Contracts x w.r.t. f(x) in y; true if f(x) is inside y for the whole box
  // (then x is unchanged).
  bool backward(const Interval& y, IntervalVector& x) const;

 private:
  struct Instr {
    Op op;
    int a, b;  // operands (indices of earlier instructions) or the variable
    int n;
    double d;
    Interval value;
  };
  void forward(const IntervalVector& x, std::vector<Interval>* v) const;
  std::vector<Instr> code_;
};

class NumConstraint {
 public:
  // Owns the expression and the symbols, like ibex::Function.
  NumConstraint(const Array<const ExprSymbol>& vars, const ExprCtr& c);
  NumConstraint(const NumConstraint&) = delete;
  ~NumConstraint();
  Interval right_hand_side() const;
  Function f;
  CmpOp op;

 private:
  friend class System;
  NumConstraint(const Array<const ExprSymbol>& vars, const ExprCtr& c, bool own);
  bool own_;
  Array<const ExprSymbol> vars_;
  const ExprNode* e_;
  friend std::ostream& operator<<(std::ostream& os, const NumConstraint& c);
};
std::ostream& operator<<(std::ostream& os, const NumConstraint& c);

class SystemFactory {
 public:
  void add_var(const Array<const ExprSymbol>& vars) { vars_ = vars; }
  void add_ctr(const ExprCtr& c) { ctrs_.push_back(&c); }

 private:
  friend class System;
  Array<const ExprSymbol> vars_;
  std::vector<const ExprCtr*> ctrs_;
};
class System {
 public:
  explicit System(const SystemFactory& f);
  int nb_ctr;
  std::vector<std::shared_ptr<NumConstraint>> ctrs;
};
class LinearizerCombo {
 public:
  enum linear_mode { AFFINE2, XNEWTON, COMPO, HANSEN };
  LinearizerCombo(const System& s, linear_mode) : sys(s) {}
  const System& sys;
};
class CtcPolytopeHull {
 public:
  explicit CtcPolytopeHull(LinearizerCombo& l) : sys_(l.sys) {}
  void contract(IntervalVector& x);

 private:
  const System& sys_;
};

}  // namespace ibex
