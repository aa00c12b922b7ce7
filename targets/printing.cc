// Printing: SMT-LIB prefix form and infix form, read back by independent
// readers.
#include <cctype>
#include <cstdlib>
#include <iomanip>
#include <map>

#include "ast.h"
#include "dreal/symbolic/prefix_printer.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
constexpr int kReal = 3, kBool = 2;

// What a reader returns: a term or a formula.
struct T {
  N n;
  F f;
};
struct Bad {
  std::string why;
};

struct Names {
  std::map<std::string, int> id;
  explicit Names(const Vars& vs) {
    for (size_t i = 0; i < vs.v.size(); ++i)
      id[vs.v[i].get_name()] = static_cast<int>(i);
  }
};

double number(const std::string& t) {
  // numeral, decimal or scientific notation; no sign
  size_t i = 0;
  auto digits = [&]() {
    const size_t b = i;
    while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) ++i;
    return i - b;
  };
  size_t n = digits();
  if (i < t.size() && t[i] == '.') {
    ++i;
    n += digits();
  }
  if (n == 0) throw Bad{"not a number: " + t};
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    if (digits() == 0) throw Bad{"not a number: " + t};
  }
  if (i != t.size()) throw Bad{"not a number: " + t};
  return std::strtod(t.c_str(), nullptr);
}
bool starts_number(const std::string& t) {
  return !t.empty() && (std::isdigit(static_cast<unsigned char>(t[0])) ||
                        (t[0] == '.' && t.size() > 1));
}

const std::map<std::string, std::pair<Op, int>>& functions() {
  static const std::map<std::string, std::pair<Op, int>> m = {
      {"log", {Op::Log, 1}},     {"abs", {Op::Abs, 1}},
      {"exp", {Op::Exp, 1}},     {"sqrt", {Op::Sqrt, 1}},
      {"sin", {Op::Sin, 1}},     {"cos", {Op::Cos, 1}},
      {"tan", {Op::Tan, 1}},     {"asin", {Op::Asin, 1}},
      {"acos", {Op::Acos, 1}},   {"atan", {Op::Atan, 1}},
      {"atan2", {Op::Atan2, 2}}, {"sinh", {Op::Sinh, 1}},
      {"cosh", {Op::Cosh, 1}},   {"tanh", {Op::Tanh, 1}},
      {"min", {Op::Min, 2}},     {"max", {Op::Max, 2}},
      {"pow", {Op::Pow, 2}}};
  return m;
}

// ---- SMT-LIB ---------------------------------------------------------------
class Prefix {
 public:
  Prefix(const std::string& t, const Names& names) : names_(names) {
    for (size_t i = 0; i < t.size();) {
      const char ch = t[i];
      if (ch == ' ' || ch == '\n' || ch == '\t') {
        ++i;
      } else if (ch == '(' || ch == ')') {
        tok_.push_back(std::string(1, ch));
        ++i;
      } else {
        size_t j = i;
        while (j < t.size() && t[j] != ' ' && t[j] != '(' && t[j] != ')') ++j;
        tok_.push_back(t.substr(i, j - i));
        i = j;
      }
    }
  }
  T parse() {
    const T r = term();
    if (p_ != tok_.size()) throw Bad{"trailing text"};
    return r;
  }

 private:
  const Names& names_;
  std::vector<std::string> tok_;
  size_t p_{0};
  std::string next() {
    if (p_ >= tok_.size()) throw Bad{"unexpected end"};
    return tok_[p_++];
  }
  static N real(const T& t) {
    if (!t.n) throw Bad{"a formula where a term is expected"};
    return t.n;
  }
  static F boolean(const T& t) {
    if (!t.f) throw Bad{"a term where a formula is expected"};
    return t.f;
  }
  T term() {
    const std::string t = next();
    if (t == ")") throw Bad{"unexpected )"};
    if (t != "(") {
      if (t == "true") return T{nullptr, ftrue()};
      if (t == "false") return T{nullptr, ffalse()};
      if (starts_number(t)) return T{cst(number(t)), nullptr};
      const auto it = names_.id.find(t);
      if (it == names_.id.end()) throw Bad{"unknown symbol " + t};
      if (it->second >= kReal) return T{nullptr, bvar(it->second)};
      return T{var(it->second), nullptr};
    }
    const std::string op = next();
    std::vector<T> a;
    while (p_ < tok_.size() && tok_[p_] != ")") a.push_back(term());
    next();
    auto need = [&](bool ok) {
      if (!ok) throw Bad{"wrong number of arguments of " + op};
    };
    if (op == "+" || op == "*") {
      need(a.size() >= 2);
      N r = real(a[0]);
      for (size_t i = 1; i < a.size(); ++i)
        r = mk(op == "+" ? Op::Add : Op::Mul, {r, real(a[i])});
      return T{r, nullptr};
    }
    if (op == "-") {
      need(!a.empty());
      N r = real(a[0]);
      if (a.size() == 1) return T{mk(Op::Neg, {r}), nullptr};
      for (size_t i = 1; i < a.size(); ++i) r = mk(Op::Sub, {r, real(a[i])});
      return T{r, nullptr};
    }
    if (op == "/" || op == "^") {
      need(a.size() == 2);
      return T{mk(op == "/" ? Op::Div : Op::Pow, {real(a[0]), real(a[1])}),
               nullptr};
    }
    if (op == "ite") {
      need(a.size() == 3);
      return T{mk(Op::Ite, {real(a[1]), real(a[2])}, boolean(a[0])), nullptr};
    }
    const auto fn = functions().find(op);
    if (fn != functions().end() && op != "pow") {
      need(static_cast<int>(a.size()) == fn->second.second);
      std::vector<N> x;
      for (const T& t2 : a) x.push_back(real(t2));
      return T{mk(fn->second.first, x), nullptr};
    }
    static const std::map<std::string, FOp> rels = {
        {"=", FOp::Eq}, {">", FOp::Gt}, {">=", FOp::Ge},
        {"<", FOp::Lt}, {"<=", FOp::Le}};
    const auto r = rels.find(op);
    if (r != rels.end()) {
      need(a.size() == 2);
      if (a[0].f && a[1].f && op == "=")
        return T{nullptr, conn(FOp::Iff, {a[0].f, a[1].f})};
      return T{nullptr, rel(r->second, real(a[0]), real(a[1]))};
    }
    if (op == "not") {
      need(a.size() == 1);
      return T{nullptr, conn(FOp::Not, {boolean(a[0])})};
    }
    if (op == "and" || op == "or") {
      need(a.size() >= 2);
      std::vector<F> x;
      for (const T& t2 : a) x.push_back(boolean(t2));
      return T{nullptr, conn(op == "and" ? FOp::And : FOp::Or, x)};
    }
    throw Bad{"unknown operator " + op};
  }
};

// ---- infix -------------------------------------------------------------------
// Usual conventions: ! and unary minus bind tightest, then * and /, then + and
// -, (all left associative), then comparisons, then and, then or.
class Infix {
 public:
  Infix(const std::string& t, const Names& names) : names_(names) {
    static const std::vector<std::string> ops = {
        "==", "!=", ">=", "<=", ">", "<", "(", ")", "{", "}", "[", "]",
        "+",  "-",  "*",  "/",  ",", "!", "."};
    for (size_t i = 0; i < t.size();) {
      const char ch = t[i];
      if (ch == ' ') {
        ++i;
        continue;
      }
      if (std::isdigit(static_cast<unsigned char>(ch))) {
        size_t j = i;
        while (j < t.size() &&
               (std::isdigit(static_cast<unsigned char>(t[j])) || t[j] == '.' ||
                t[j] == 'e' || t[j] == 'E' ||
                ((t[j] == '+' || t[j] == '-') &&
                 (t[j - 1] == 'e' || t[j - 1] == 'E'))))
          ++j;
        tok_.push_back(t.substr(i, j - i));
        i = j;
        continue;
      }
      if (std::isalpha(static_cast<unsigned char>(ch)) || ch == '_') {
        size_t j = i;
        while (j < t.size() &&
               (std::isalnum(static_cast<unsigned char>(t[j])) || t[j] == '_'))
          ++j;
        tok_.push_back(t.substr(i, j - i));
        i = j;
        continue;
      }
      bool found = false;
      for (const auto& o : ops)
        if (t.compare(i, o.size(), o) == 0) {
          tok_.push_back(o);
          i += o.size();
          found = true;
          break;
        }
      if (!found) throw Bad{cat("unexpected character ", ch)};
    }
  }
  T parse() {
    const T r = disj();
    if (p_ != tok_.size()) throw Bad{"trailing text"};
    return r;
  }

 private:
  const Names& names_;
  std::vector<std::string> tok_;
  size_t p_{0};
  bool at(const std::string& s) const { return p_ < tok_.size() && tok_[p_] == s; }
  bool take(const std::string& s) {
    if (!at(s)) return false;
    ++p_;
    return true;
  }
  void expect(const std::string& s) {
    if (!take(s)) throw Bad{"expected " + s};
  }
  static N real(const T& t) {
    if (!t.n) throw Bad{"a formula where a term is expected"};
    return t.n;
  }
  static F boolean(const T& t) {
    if (!t.f) throw Bad{"a term where a formula is expected"};
    return t.f;
  }
  T disj() {
    T r = conj();
    while (take("or")) {
      const F b = boolean(conj());
      r = T{nullptr, ast::conn(FOp::Or, {boolean(r), b})};
    }
    return r;
  }
  T conj() {
    T r = cmp();
    while (take("and")) {
      const F b = boolean(cmp());
      r = T{nullptr, ast::conn(FOp::And, {boolean(r), b})};
    }
    return r;
  }
  T cmp() {
    const T a = sum();
    static const std::map<std::string, FOp> rels = {
        {"==", FOp::Eq}, {"!=", FOp::Ne}, {">", FOp::Gt},
        {">=", FOp::Ge}, {"<", FOp::Lt},  {"<=", FOp::Le}};
    if (p_ < tok_.size()) {
      const auto it = rels.find(tok_[p_]);
      if (it != rels.end()) {
        ++p_;
        const T b = sum();
        return T{nullptr, rel(it->second, real(a), real(b))};
      }
    }
    return a;
  }
  T sum() {
    T r;
    if (take("-"))
      r = T{mk(Op::Neg, {real(product())}), nullptr};
    else
      r = product();
    for (;;) {
      if (take("+"))
        r = T{mk(Op::Add, {real(r), real(product())}), nullptr};
      else if (take("-"))
        r = T{mk(Op::Sub, {real(r), real(product())}), nullptr};
      else
        return r;
    }
  }
  T product() {
    T r = unary();
    for (;;) {
      if (take("*"))
        r = T{mk(Op::Mul, {real(r), real(unary())}), nullptr};
      else if (take("/"))
        r = T{mk(Op::Div, {real(r), real(unary())}), nullptr};
      else
        return r;
    }
  }
  T unary() {
    if (take("-")) return T{mk(Op::Neg, {real(unary())}), nullptr};
    if (take("!")) return T{nullptr, conn(FOp::Not, {boolean(unary())})};
    return primary();
  }
  T primary() {
    if (p_ >= tok_.size()) throw Bad{"unexpected end"};
    if (take("(")) {
      if (take("if")) {
        const F c = boolean(disj());
        expect("then");
        const N a = real(sum());
        expect("else");
        const N b = real(sum());
        expect(")");
        return T{mk(Op::Ite, {a, b}, c), nullptr};
      }
      const T r = disj();
      expect(")");
      return r;
    }
    const std::string t = tok_[p_++];
    if (starts_number(t)) return T{cst(number(t)), nullptr};
    if (t == "[") {
      // A real constant: two neighbouring numbers.
      double b[2];
      for (int i = 0; i < 2; ++i) {
        if (i) expect(",");
        const bool neg = take("-");
        if (p_ >= tok_.size()) throw Bad{"unexpected end"};
        b[i] = number(tok_[p_++]);
        if (neg) b[i] = -b[i];
      }
      expect("]");
      if (std::nextafter(b[0], HUGE_VAL) != b[1])
        throw Bad{cat("bounds ", b[0], " and ", b[1], " of a real constant")};
      return T{cst(b[0]), nullptr};
    }
    if (t == "True") return T{nullptr, ftrue()};
    if (t == "False") return T{nullptr, ffalse()};
    if (t == "forall") {
      expect("(");
      expect("{");
      std::vector<int> q;
      while (!at("}")) {
        if (!q.empty()) expect(",");
        const auto it = names_.id.find(tok_[p_++]);
        if (it == names_.id.end()) throw Bad{"unknown variable"};
        q.push_back(it->second);
      }
      expect("}");
      expect(".");
      const F b = boolean(disj());
      expect(")");
      return T{nullptr, forall_(q, b)};
    }
    const auto fn = functions().find(t);
    if (fn != functions().end()) {
      expect("(");
      std::vector<N> a;
      for (int i = 0; i < fn->second.second; ++i) {
        if (i) expect(",");
        a.push_back(real(sum()));
      }
      expect(")");
      return T{mk(fn->second.first, a), nullptr};
    }
    const auto it = names_.id.find(t);
    if (it == names_.id.end()) throw Bad{"unknown symbol " + t};
    if (it->second >= kReal) return T{nullptr, bvar(it->second)};
    return T{var(it->second), nullptr};
  }
};

void consts(const F& f, std::set<double>* out);
void consts(const N& n, std::set<double>* out) {
  if (n->op == Op::Const) out->insert(std::fabs(n->c));
  for (const N& a : n->a) consts(a, out);
  if (n->cond) consts(n->cond, out);
}
void consts(const F& f, std::set<double>* out) {
  for (const N& a : f->e) consts(a, out);
  for (const F& g : f->f) consts(g, out);
}
// A constant given by an interval may be written as either of its bounds.
double other_end(const Node& n) {
  return std::nextafter(n.c, n.style == 1 ? HUGE_VAL : -HUGE_VAL);
}
// Replaces it by the one that was read.
N resolve(const N& n, const std::set<double>& read);
F resolve(const F& f, const std::set<double>& read) {
  if (f->f.empty() && f->e.empty()) return f;
  if (is_rel(f->op))
    return rel(f->op, resolve(f->e[0], read), resolve(f->e[1], read));
  std::vector<F> a;
  for (const F& g : f->f) a.push_back(resolve(g, read));
  if (f->op == FOp::Forall) return forall_(f->qv, a[0]);
  return conn(f->op, a);
}
N resolve(const N& n, const std::set<double>& read) {
  if (n->op == Op::Const)
    return cst(n->style == 0 || read.count(std::fabs(n->c)) ? n->c
                                                            : other_end(*n));
  std::vector<N> a;
  for (const N& x : n->a) a.push_back(resolve(x, read));
  if (a.empty()) return n;
  return mk(n->op, a, n->cond ? resolve(n->cond, read) : nullptr);
}
void constants(const N& n, std::vector<N>* out);
void constants(const F& f, std::vector<N>* out) {
  for (const N& a : f->e) constants(a, out);
  for (const F& g : f->f) constants(g, out);
}
void constants(const N& n, std::vector<N>* out) {
  if (n->op == Op::Const) out->push_back(n);
  for (const N& a : n->a) constants(a, out);
  if (n->cond) constants(n->cond, out);
}
bool trivial(double d) { return d == 0 || d == 1; }
// Returns true if the values can be compared too: for no interval both ends
// were read.
template <typename X>
bool same_constants(const X& written, const X& read, const std::string& text,
                    Ctx& c) {
  std::set<double> got, allowed;
  consts(read, &got);
  bool clear = true;
  std::vector<N> all;
  constants(written, &all);
  for (const N& k : all) {
    const double x = std::fabs(k->c);
    allowed.insert(x);
    if (k->style == 0) {
      c.check(trivial(x) || got.count(x) > 0,
              cat("the constant ", x, " cannot be read from ", text));
      continue;
    }
    const double y = std::fabs(other_end(*k));
    allowed.insert(y);
    clear = clear && !(got.count(x) && got.count(y));
    c.check(trivial(x) || trivial(y) || got.count(x) || got.count(y),
            cat("the constant ", x, " cannot be read from ", text));
  }
  for (double d : got)
    c.check(trivial(d) || allowed.count(d) > 0,
            cat("the constant ", d, " in ", text, " does not occur"));
  return clear;
}

struct StreamState {
  std::streamsize precision, width;
  std::ios_base::fmtflags flags;
  char fill;
  explicit StreamState(const std::ostream& os)
      : precision(os.precision()), width(os.width()), flags(os.flags()),
        fill(os.fill()) {}
  bool operator==(const StreamState& o) const {
    return precision == o.precision && width == o.width && flags == o.flags &&
           fill == o.fill;
  }
};

GenOpt opt(Src& s) {
  GenOpt o;
  o.nvars = kReal;
  o.bool_vars = {3, 4};
  o.max_terms = s.chance(1, 3) ? 10 : 5;
  o.max_size = 30;
  o.trans = s.chance(2, 3);
  o.real_consts = s.chance(1, 4);
  return o;
}
double any_const(Src& s) {
  switch (s.weighted({12, 8, 8, 4, 1})) {
    case 4: {
      const double m = std::ldexp(1.0 + static_cast<double>(s.draw(1 << 20)) / (1 << 20),
                                  s.chance(1, 2) ? s.range(1000, 1022) : -s.range(900, 1074));
      return s.chance(1, 2) ? m : -m;
    }
    case 1: return gen_const(s, true);
    case 2: {
      const double m = static_cast<double>(s.draw(1000000)) / 7.0 + 1e-3;
      return (s.chance(1, 2) ? m : -m) *
             std::pow(10.0, static_cast<double>(s.range(0, 40)) - 20);
    }
    case 3: return std::ldexp(1.0 + static_cast<double>(s.draw(1 << 20)) / 1048576.0 / 1048576.0,
                              s.range(0, 200) - 100);
    default: return static_cast<double>(s.draw(2000)) / 1000.0 - 1;
  }
}
// Replaces some constants by ones with many digits.
N spice(Src& s, const N& n) {
  if (n->op == Op::Const)
    return s.chance(1, 2) ? cst(any_const(s), n->style) : n;
  if (n->op == Op::Var)
    return s.chance(1, 6) ? mk(Op::Mul, {cst(any_const(s)), n}) : n;
  std::vector<N> a;
  for (size_t i = 0; i < n->a.size(); ++i)
    a.push_back(n->op == Op::Pow && i == 1 ? n->a[i] : spice(s, n->a[i]));
  return mk(n->op, a, n->cond, n->style);
}
F spice(Src& s, const F& f) {
  if (is_rel(f->op)) {
    const N a = spice(s, f->e[0]);
    const N b = spice(s, f->e[1]);
    return rel(f->op, a, b, f->style);
  }
  if (f->f.empty()) return f;
  std::vector<F> a;
  for (const F& g : f->f) a.push_back(spice(s, g));
  return conn(f->op, a, f->style);
}
bool finite(const N& n) {
  return !has_op(n, [](const Node& k) {
    return k.op == Op::Const && !std::isfinite(k.c);
  });
}
bool finite(const F& f) {
  for (const N& a : f->e)
    if (!finite(a)) return false;
  for (const F& g : f->f)
    if (!finite(g)) return false;
  return true;
}
std::vector<double> point(Src& s) {
  std::vector<double> p = gen_point(s, kReal);
  for (int i = 0; i < kBool; ++i) p.push_back(static_cast<double>(s.draw(2)));
  return p;
}
const std::vector<double>& dom() {
  static const std::vector<double> d = {-1, 0, 0.5, 2};
  return d;
}

void compare(const N& written, const T& got, const std::string& text, Src& s,
             Ctx& c, bool* cmp) {
  c.check(got.n != nullptr, "the text is a formula: " + text);
  std::set<double> read;
  consts(got.n, &read);
  const N want = resolve(written, read);
  if (!same_constants(written, got.n, text, c)) return;
  for (int i = 0; i < 3; ++i) {
    const std::vector<double> p = point(s);
    const Result a = evaluate(want, p);
    if (!a.reliable) continue;
    const Result b = evaluate(got.n, p);
    c.check(b.defined, cat("the text ", text, " is undefined at ", show(p)));
    if (!b.reliable) continue;
    *cmp = true;
    c.check(std::fabs(a.value - b.value) <= a.tol + b.tol,
            cat("the term is ", a.value, " at ", show(p), " but the text ", text,
                " is ", b.value));
  }
}
void compare(const F& written, const T& got, const std::string& text, Src& s,
             Ctx& c, bool* cmp) {
  c.check(got.f != nullptr, "the text is a term: " + text);
  std::set<double> read;
  consts(got.f, &read);
  const F want = resolve(written, read);
  if (!same_constants(written, got.f, text, c)) return;
  for (int i = 0; i < 4; ++i) {
    const std::vector<double> p = point(s);
    const BResult a = evaluate(want, p, dom(), std::set<int>{0, 1, 2});
    if (!a.reliable) continue;
    const BResult b = evaluate(got.f, p, dom(), std::set<int>{0, 1, 2});
    c.check(b.defined, cat("the text ", text, " is undefined at ", show(p)));
    if (!b.reliable) continue;
    *cmp = true;
    c.check(a.value == b.value, cat("the formula is ", a.value, " at ", show(p),
                                    " but the text ", text, " is ", b.value));
  }
}

// Prints through every interface; returns the text.
template <typename X>
std::string print_prefix(const X& e, Src& s, Ctx& c) {
  const std::string text = ToPrefix(e);
  std::ostringstream os;
  if (s.chance(1, 2)) os << std::setprecision(s.range(1, 20));
  if (s.chance(1, 4)) os << std::setfill('*');
  const StreamState before{os};
  {
    PrefixPrinter pp{os};
    std::ostream& r = pp.Print(e);
    c.check(&r == &os, "Print returns another stream");
  }
  c.check(StreamState{os} == before, "printing changed the stream's format");
  c.check(os.str() == text, cat("Print gives ", os.str(), ", ToPrefix ", text));
  return text;
}
template <typename X>
std::string print_infix(const X& e, Src& s, Ctx& c) {
  const std::string text = e.to_string();
  std::ostringstream os;
  if (s.chance(1, 2)) os << std::setprecision(s.range(1, 20));
  const StreamState before{os};
  os << e;
  c.check(StreamState{os} == before,
          cat("printing ", text, " changed the stream's format: precision ",
              before.precision, " -> ", os.precision()));
  c.check(os.str() == text, cat("<< gives ", os.str(), ", to_string ", text));
  return text;
}
T read_prefix(const std::string& t, const Vars& vs, Ctx& c) {
  try {
    const Names names{vs};
    return Prefix{t, names}.parse();
  } catch (const Bad& b) {
    c.fail(cat("invalid SMT-LIB text ", t, ": ", b.why));
  }
}
T read_infix(const std::string& t, const Vars& vs, Ctx& c) {
  try {
    const Names names{vs};
    return Infix{t, names}.parse();
  } catch (const Bad& b) {
    c.fail(cat("unreadable text ", t, ": ", b.why));
  }
}
template <typename X>
bool special_constants(const X& n) {
  std::set<double> cs;
  consts(n, &cs);
  for (double d : cs)
    if (std::round(d * 100) != d * 100) return true;
  return false;
}

template <typename X, typename Y>
Y make(Src& s, Ctx& c, const Vars& vs, const X& n) {
  c.describe(show(n));
  try {
    return build(n, vs);
  } catch (const std::exception&) {
    c.discard();
  }
}
}  // namespace

PBT_TARGET("C08", prefix_expr, 200000,
           "random expression with constants of all magnitudes and digits, "
           "printed through ToPrefix and a stream of random format; an "
           "independent SMT-LIB reader must read a term with the same "
           "constants and the same values at 3 points; non-trivial: a "
           "constant of more than 2 decimals, at least 4 nodes, compared") {
  const Vars vs = make_vars2(kReal, kBool);
  const N n = spice(s, gen_expr(s, opt(s)));
  const Expression e = make<N, Expression>(s, c, vs, n);
  const N want = reflect(e, vs);
  if (!finite(want)) c.discard();
  const std::string text = print_prefix(e, s, c);
  c.add(cat("  ~>  ", text));
  bool cmp = false;
  compare(want, read_prefix(text, vs, c), text, s, c, &cmp);
  if (cmp && n->size >= 4 && special_constants(want)) c.nontrivial(text);
}

PBT_TARGET("C08", prefix_formula, 200000,
           "as prefix_expr for quantifier-free formulas, compared at 4 points; "
           "non-trivial: a connective and a compared point") {
  const Vars vs = make_vars2(kReal, kBool);
  GenOpt o = opt(s);
  o.max_terms = 4;
  const F f = spice(s, gen_formula(s, o, s.range(0, 3)));
  const Formula g = make<F, Formula>(s, c, vs, f);
  const F want = reflect(g, vs);
  if (!finite(want)) c.discard();
  const std::string text = print_prefix(g, s, c);
  c.add(cat("  ~>  ", text));
  bool cmp = false;
  compare(want, read_prefix(text, vs, c), text, s, c, &cmp);
  if (cmp && f->op >= FOp::And) c.nontrivial(text);
}

PBT_TARGET("C09", infix_expr, 200000,
           "random expression with constants of all magnitudes and digits, "
           "printed through to_string and a stream of random precision; an "
           "independent reader with the usual precedences must read a term "
           "with the same constants and the same values at 3 points; "
           "non-trivial: a constant of more than 2 decimals, at least 4 "
           "nodes, compared") {
  const Vars vs = make_vars2(kReal, kBool);
  const N n = spice(s, gen_expr(s, opt(s)));
  const Expression e = make<N, Expression>(s, c, vs, n);
  const N want = reflect(e, vs);
  if (!finite(want)) c.discard();
  const std::string text = print_infix(e, s, c);
  c.add(cat("  ~>  ", text));
  bool cmp = false;
  compare(want, read_infix(text, vs, c), text, s, c, &cmp);
  if (cmp && n->size >= 4 && special_constants(want)) c.nontrivial(text);
}

PBT_TARGET("C09", infix_formula, 200000,
           "as infix_expr for formulas, also quantified ones (finite domains), "
           "compared at 4 points; non-trivial: a connective and a compared "
           "point") {
  const Vars vs = make_vars2(kReal, kBool);
  GenOpt o = opt(s);
  o.max_terms = 4;
  F f = spice(s, gen_formula(s, o, s.range(0, 3)));
  if (s.chance(1, 4)) {
    std::vector<int> q;
    for (int v : {1, 2, 4})
      if (s.chance(1, 2)) q.push_back(v);
    f = forall_(q, f);
    const int k = s.range(0, 3);
    if (k == 1) f = conn(FOp::Not, {f});
    if (k == 2) f = conn(FOp::And, {f, gen_formula(s, o, 1)});
    if (k == 3) f = conn(FOp::Or, {gen_formula(s, o, 1), f});
  }
  const Formula g = make<F, Formula>(s, c, vs, f);
  const F want = reflect(g, vs);
  if (!finite(want)) c.discard();
  const std::string text = print_infix(g, s, c);
  c.add(cat("  ~>  ", text));
  bool cmp = false;
  compare(want, read_infix(text, vs, c), text, s, c, &cmp);
  if (cmp && f->op >= FOp::And) c.nontrivial(text);
}
