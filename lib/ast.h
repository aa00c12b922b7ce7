// An independent model of dReal's expression / formula language: syntax trees
// that never touch the code under test, their semantics over the reals (with a
// reliability estimate) and generators.  `build` turns a tree into a dReal
// object through the public API.
#pragma once
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "dreal/symbolic/symbolic.h"
#include "pbt.h"

namespace ast {

enum class Op {
  Const, Var,
  Add, Sub, Mul, Div, Neg,
  Log, Abs, Exp, Sqrt, Pow, Sin, Cos, Tan, Asin, Acos, Atan, Atan2, Sinh, Cosh,
  Tanh, Min, Max, Ite
};
enum class FOp { True, False, BVar, Eq, Ne, Gt, Ge, Lt, Le, And, Or, Not,
                 Imply, Iff, Forall };

struct FNode;
struct Node;
using N = std::shared_ptr<const Node>;
using F = std::shared_ptr<const FNode>;

struct Node {
  Op op;
  double c{0};
  int v{-1};
  std::vector<N> a;
  F cond;
  int size{1};
  int style{0};  // which of the equivalent API forms builds it
};
struct FNode {
  FOp op;
  int v{-1};            // BVar
  std::vector<N> e;     // relational
  std::vector<F> f;     // connectives
  std::vector<int> qv;  // Forall
  int size{1};
  int style{0};
};

// style 1 / 2: a real constant (an interval of two neighbouring doubles) whose
// representative value is its lower / upper bound.
N cst(double c, int style = 0);
N var(int v);
N mk(Op op, std::vector<N> a, F cond = nullptr, int style = 0);
F ftrue();
F ffalse();
F bvar(int v);
F rel(FOp op, N a, N b, int style = 0);
F conn(FOp op, std::vector<F> f, int style = 0);
F forall_(std::vector<int> qv, F body);

std::string show(const N& n);
std::string show(const F& f);
void vars_of(const N& n, std::set<int>* out);
void vars_of(const F& f, std::set<int>* out);  // free variables
bool is_rel(FOp op);

// ---- semantics ------------------------------------------------------------
struct Val {
  long double v{0};
  bool exact{false};  // a small dyadic number, computed without rounding
};
struct EvalState {
  // Relative perturbation of every inexact operation (0: nominal run).
  double eps{0};
  uint64_t rng{1};
  bool undefined{false};
  bool reliable{true};
  bool inexact{false};  // some intermediate value was rounded
  long double max_abs{0};
  std::vector<Val>* vals{nullptr};
  std::function<bool(int)> bool_value;  // value of a Boolean variable
  // Values a quantified variable ranges over; without it a quantified formula
  // is undefined.
  std::function<const std::vector<double>&(int)> domain;
};
Val eval(const N& n, EvalState* st);
bool eval(const F& f, EvalState* st);

struct Result {
  bool defined{false};    // every evaluated sub-term is in its domain
  bool reliable{false};   // and the value is numerically trustworthy
  double value{0};
  double tol{0};
};
// Points: vals[i] is the value of variable i.
Result evaluate(const N& n, const std::vector<double>& vals);
struct BResult {
  bool defined{false};
  bool reliable{false};
  bool value{false};
};
BResult evaluate(const F& f, const std::vector<double>& vals);
using Domain = std::function<const std::vector<double>&(int)>;
// Quantified variables range over a finite domain.
BResult evaluate(const F& f, const std::vector<double>& vals, const Domain& d);
// Real ones (listed in `real_ids`) over `reals`, all others over {0, 1}.
BResult evaluate(const F& f, const std::vector<double>& vals,
                 const std::vector<double>& reals,
                 const std::set<int>& real_ids);
bool close(double got, const Result& r);

// ---- dReal side -----------------------------------------------------------
using dreal::Expression;
using dreal::Formula;
using dreal::Variable;
using dreal::drake::symbolic::Environment;
struct Vars {
  std::vector<Variable> v;
  Environment env(const std::vector<double>& vals) const;
  int index(const Variable& x) const;
};
// CONTINUOUS variables x0 ... x{n-1}.
Vars make_vars(int n, const std::string& prefix = "x");
// nreal CONTINUOUS variables followed by nbool BOOLEAN ones.
Vars make_vars2(int nreal, int nbool);
// The same, but all variables of a kind have the same name.
Vars make_twins(int nreal, int nbool);
// Replaces each variable x_i by 2^-k[i] * x_i.
N rescale(const N& n, const std::vector<int>& k);
F rescale(const F& f, const std::vector<int>& k);
Expression build(const N& n, const Vars& vs);
Formula build(const F& f, const Vars& vs);
// Back from dReal objects, through the public accessors only.
N reflect(const Expression& e, const Vars& vs);
F reflect(const Formula& f, const Vars& vs);

// ---- generators -----------------------------------------------------------
struct GenOpt {
  int nvars{3};
  int max_terms{10};    // operations applied
  int max_size{40};     // tree size
  bool trans{true};     // transcendental functions
  bool division{true};
  bool powers{true};
  bool ite{true};
  bool minmax{true};
  bool inexact_consts{true};
  bool real_consts{false};     // also constants given by an interval
  std::vector<int> bool_vars;  // ids usable as Boolean atoms
  bool bool_atoms{true};
};
double gen_const(pbt::Src& s, bool inexact = true);
double gen_value(pbt::Src& s);
std::vector<double> gen_point(pbt::Src& s, int n);
N gen_expr(pbt::Src& s, const GenOpt& o);
F gen_rel(pbt::Src& s, const GenOpt& o);
F gen_formula(pbt::Src& s, const GenOpt& o, int depth);
std::string show(const std::vector<double>& p);
bool has_op(const N& n, const std::function<bool(const Node&)>& p);

}  // namespace ast
