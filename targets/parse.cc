// C31 SMT-LIB input.
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>

#include "ast.h"
#include "dreal/smt2/driver.h"
#include "dreal/solver/config.h"
#include "dreal/solver/context.h"
#include "dreal/util/box.h"
#include "answers.h"
#include "optimum.h"
#include "scene.h"

using namespace dreal;
using namespace ast;
using ast::Op;
using namespace scene;
using namespace answers;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;
using std::string;
using std::vector;

namespace {
using Type = Variable::Type;

// ---- substitution on trees -------------------------------------------------
N sub(const N& n, const std::map<int, N>& m, const std::map<int, F>& b);
F sub(const F& f, const std::map<int, N>& m, const std::map<int, F>& b) {
  if (f->op == FOp::BVar) {
    const auto it = b.find(f->v);
    return it == b.end() ? f : it->second;
  }
  if (f->op == FOp::True || f->op == FOp::False) return f;
  if (is_rel(f->op)) return rel(f->op, sub(f->e[0], m, b), sub(f->e[1], m, b));
  vector<F> fs;
  for (const F& g : f->f) fs.push_back(sub(g, m, b));
  if (f->op == FOp::Forall) return forall_(f->qv, fs[0]);
  return conn(f->op, fs);
}
N sub(const N& n, const std::map<int, N>& m, const std::map<int, F>& b) {
  if (n->op == Op::Const) return n;
  if (n->op == Op::Var) {
    const auto it = m.find(n->v);
    return it == m.end() ? n : it->second;
  }
  vector<N> as;
  for (const N& a : n->a) as.push_back(sub(a, m, b));
  return mk(n->op, as, n->cond ? sub(n->cond, m, b) : nullptr, n->style);
}

struct Decl {
  string name;
  Type type;
  double lb, ub;
};
struct Call {
  string fn;
  vector<N> en;  // arguments in order: one of the two is set
  vector<F> ef;
};
struct Quant {
  vector<int> vars;  // as written (Boolean ones included)
  F body;            // without the domains
};

// Everything known about the names of a script.
struct Names {
  vector<Decl> decl;  // by id: declared, quantified and parameter variables
  std::map<const Node*, Call> ncall;
  std::map<const FNode*, Call> fcall;
  std::map<const FNode*, Quant> quant;
  std::map<const FNode*, vector<F>> fite;
  std::map<const Node*, string> nconst;  // (define-fun c () Real n)
  std::map<const FNode*, string> fconst;
  int fresh{0};
  int add(const string& name, Type t, double lb, double ub) {
    decl.push_back({name, t, lb, ub});
    return static_cast<int>(decl.size()) - 1;
  }
};

string sort_name(Type t) {
  switch (t) {
    case Type::CONTINUOUS: return "Real";
    case Type::INTEGER: return "Int";
    case Type::BINARY: return "Binary";
    default: return "Bool";
  }
}

string number(Src& s, double c) {
  char buf[400];
  const bool neg = std::signbit(c);
  const double a = std::fabs(c);
  string r;
  if (a == std::floor(a) && a < 1e15) {
    switch (s.weighted({6, 1, 1, 1})) {
      case 0: snprintf(buf, sizeof buf, "%.0f", a); break;
      case 1: snprintf(buf, sizeof buf, "%.0f.0", a); break;
      case 2: snprintf(buf, sizeof buf, "%.0fe0", a); break;
      default: snprintf(buf, sizeof buf, "%a", a);
    }
  } else {
    switch (s.weighted({6, 1, 1, 1})) {
      case 0: snprintf(buf, sizeof buf, "%.17g", a); break;
      case 1: snprintf(buf, sizeof buf, "%.20e", a); break;
      case 2: snprintf(buf, sizeof buf, "%.17G", a); break;
      default: snprintf(buf, sizeof buf, "%a", a);
    }
    if (buf[0] == '0' && buf[1] == '.' && s.chance(1, 4))
      memmove(buf, buf + 1, strlen(buf));
  }
  r = buf;
  if (neg) r = s.chance(1, 2) ? "-" + r : "(- " + r + ")";
  return r;
}

// ---- printing --------------------------------------------------------------
struct Printer {
  Src& s;
  Names& nm;
  std::map<int, string> names;          // spelling of variables
  std::map<const Node*, string> nenv;   // let-bound terms
  std::map<const FNode*, string> fenv;
  int lets{2};
  std::set<string>* features;

  // The spellings the printed form of a term refers to.
  void uses(const N& n, std::set<string>* out) const {
    const auto it = nenv.find(n.get());
    if (it != nenv.end()) {
      out->insert(it->second);
      return;
    }
    const auto c = nm.nconst.find(n.get());
    if (c != nm.nconst.end()) {
      out->insert(c->second);
      return;
    }
    const auto k = nm.ncall.find(n.get());
    if (k != nm.ncall.end()) {
      for (const N& a : k->second.en)
        if (a) uses(a, out);
      for (const F& a : k->second.ef)
        if (a) uses(a, out);
      return;
    }
    if (n->op == Op::Var) out->insert(names.at(n->v));
    for (const N& a : n->a) uses(a, out);
    if (n->cond) uses(n->cond, out);
  }
  void uses(const F& f, std::set<string>* out) const {
    const auto it = fenv.find(f.get());
    if (it != fenv.end()) {
      out->insert(it->second);
      return;
    }
    const auto c = nm.fconst.find(f.get());
    if (c != nm.fconst.end()) {
      out->insert(c->second);
      return;
    }
    const auto k = nm.fcall.find(f.get());
    if (k != nm.fcall.end()) {
      for (const N& a : k->second.en)
        if (a) uses(a, out);
      for (const F& a : k->second.ef)
        if (a) uses(a, out);
      return;
    }
    const auto q = nm.quant.find(f.get());
    if (q != nm.quant.end()) {
      Printer inner = *this;
      for (int v : q->second.vars) inner.names[v] = "";
      inner.uses(q->second.body, out);
      return;
    }
    if (f->op == FOp::BVar) out->insert(names.at(f->v));
    for (const N& a : f->e) uses(a, out);
    for (const F& a : f->f) uses(a, out);
  }
  // Sub-terms that a let may name.
  void parts(const N& n, vector<N>* ns, vector<F>* fs) const {
    if (nenv.count(n.get()) || nm.nconst.count(n.get())) return;
    const auto k = nm.ncall.find(n.get());
    if (k != nm.ncall.end()) {
      for (const N& a : k->second.en)
        if (a) ns->push_back(a), parts(a, ns, fs);
      for (const F& a : k->second.ef)
        if (a) fs->push_back(a), parts(a, ns, fs);
      return;
    }
    for (const N& a : n->a) ns->push_back(a), parts(a, ns, fs);
    if (n->cond) fs->push_back(n->cond), parts(n->cond, ns, fs);
  }
  void parts(const F& f, vector<N>* ns, vector<F>* fs) const {
    if (fenv.count(f.get()) || nm.fconst.count(f.get())) return;
    const auto k = nm.fcall.find(f.get());
    if (k != nm.fcall.end()) {
      for (const N& a : k->second.en)
        if (a) ns->push_back(a), parts(a, ns, fs);
      for (const F& a : k->second.ef)
        if (a) fs->push_back(a), parts(a, ns, fs);
      return;
    }
    if (nm.quant.count(f.get())) return;  // its variables are not in scope
    const auto i = nm.fite.find(f.get());
    if (i != nm.fite.end()) {
      for (const F& a : i->second) fs->push_back(a), parts(a, ns, fs);
      return;
    }
    for (const N& a : f->e) ns->push_back(a), parts(a, ns, fs);
    for (const F& a : f->f) fs->push_back(a), parts(a, ns, fs);
  }

  template <typename T>
  string let(const T& t) {
    --lets;
    vector<N> ns;
    vector<F> fs;
    parts(t, &ns, &fs);
    Printer inner = *this;
    string binds;
    std::set<string> taken;
    int count = 0;
    const int want = s.range(1, 3);
    auto spell = [&](const Printer& p) -> string {
      std::set<string> used;
      p.uses(t, &used);
      if (s.chance(1, 2)) {
        // Hide a name that the rest does not refer to.
        vector<string> hide;
        for (const auto& x : names)
          if (!x.second.empty() && !used.count(x.second) && !taken.count(x.second))
            hide.push_back(x.second);
        if (!hide.empty()) {
          features->insert("shadowing");
          return s.pick(hide);
        }
      }
      return cat("l", nm.fresh++);
    };
    if (s.chance(1, 4)) {
      // Two variables swap their names.
      vector<int> vs;
      std::set<string> used;
      uses(t, &used);
      for (const auto& x : names)
        if (!x.second.empty() && used.count(x.second) &&
            nm.decl[x.first].type != Type::BOOLEAN)
          vs.push_back(x.first);
      if (vs.size() >= 2) {
        const int a = vs[0], b = vs[1];
        const string na = names[a], nb = names[b];
        if (na != nb) {
          features->insert("swap");
          inner.names[a] = nb;
          inner.names[b] = na;
          // other terms known by these names are out of the question
          for (const auto& e : nenv)
            if (e.second == na || e.second == nb) return print_(t);
          for (const auto& e : fenv)
            if (e.second == na || e.second == nb) return print_(t);
          for (const auto& x : names)
            if (x.first != a && x.first != b &&
                (x.second == na || x.second == nb))
              return print_(t);
          features->insert("let");
          return "(let ((" + nb + " " + na + ") (" + na + " " + nb + ")) " +
                 inner.print(t) + ")";
        }
      }
    }
    for (int i = 0; i < want; ++i) {
      const size_t k = s.draw(ns.size() + fs.size() + 1);
      if (k < ns.size()) {
        const N d = ns[k];
        if (inner.nenv.count(d.get())) continue;
        const string text = print(d);
        Printer probe = inner;
        probe.nenv[d.get()] = "";
        const string nw = spell(probe);
        inner.nenv[d.get()] = nw;
        taken.insert(nw);
        binds += (count++ ? " (" : "(") + nw + " " + text + ")";
      } else if (k < ns.size() + fs.size()) {
        const F d = fs[k - ns.size()];
        if (inner.fenv.count(d.get())) continue;
        const string text = print(d);
        Printer probe = inner;
        probe.fenv[d.get()] = "";
        const string nw = spell(probe);
        inner.fenv[d.get()] = nw;
        taken.insert(nw);
        binds += (count++ ? " (" : "(") + nw + " " + text + ")";
      }
    }
    if (count == 0) return print_(t);
    features->insert(count > 1 ? "parallel let" : "let");
    // A name bound here must not be needed with its old meaning.
    std::set<string> used;
    Printer probe = inner;
    for (auto& e : probe.nenv)
      if (taken.count(e.second) && !nenv.count(e.first)) e.second = "";
    for (auto& e : probe.fenv)
      if (taken.count(e.second) && !fenv.count(e.first)) e.second = "";
    probe.uses(t, &used);
    for (const string& n : taken)
      if (used.count(n)) return print_(t);
    return "(let (" + binds + ") " + inner.print(t) + ")";
  }
  string call(const Call& k) {
    string r = "(" + k.fn;
    for (size_t i = 0; i < k.en.size(); ++i)
      r += " " + (k.en[i] ? print(k.en[i]) : print(k.ef[i]));
    features->insert("call");
    return r + ")";
  }
  string print(const N& n) {
    const auto it = nenv.find(n.get());
    if (it != nenv.end()) return it->second;
    const auto c = nm.nconst.find(n.get());
    if (c != nm.nconst.end()) return c->second;
    if (lets > 0 && n->size > 2 && s.chance(1, 8)) return let(n);
    return print_(n);
  }
  string print(const F& f) {
    const auto it = fenv.find(f.get());
    if (it != fenv.end()) return it->second;
    const auto c = nm.fconst.find(f.get());
    if (c != nm.fconst.end()) return c->second;
    if (lets > 0 && f->size > 2 && s.chance(1, 6)) return let(f);
    return print_(f);
  }
  void flatten(const N& n, Op op, bool left_only, vector<N>* out) {
    // n-ary forms of a + (b + c) and (a - b) - c
    const bool known = nenv.count(n.get()) || nm.nconst.count(n.get()) ||
                       nm.ncall.count(n.get());
    if (!known && n->op == op && (out->empty() || !left_only) && s.chance(2, 3)) {
      flatten(n->a[0], op, left_only, out);
      if (left_only)
        out->push_back(n->a[1]);
      else
        flatten(n->a[1], op, left_only, out);
    } else {
      out->push_back(n);
    }
  }
  string print_(const N& n) {
    const auto k = nm.ncall.find(n.get());
    if (k != nm.ncall.end()) return call(k->second);
    static const std::map<Op, vector<string>> fn = {
        {Op::Log, {"log"}},   {Op::Abs, {"abs"}},   {Op::Exp, {"exp"}},
        {Op::Sqrt, {"sqrt"}}, {Op::Pow, {"^", "pow"}}, {Op::Sin, {"sin"}},
        {Op::Cos, {"cos"}},   {Op::Tan, {"tan"}},   {Op::Asin, {"asin", "arcsin"}},
        {Op::Acos, {"acos", "arccos"}}, {Op::Atan, {"atan", "arctan"}},
        {Op::Atan2, {"atan2", "arctan2"}}, {Op::Sinh, {"sinh"}},
        {Op::Cosh, {"cosh"}}, {Op::Tanh, {"tanh"}}, {Op::Min, {"min"}},
        {Op::Max, {"max"}}};
    switch (n->op) {
      case Op::Const: return number(s, n->c);
      case Op::Var: return names.at(n->v);
      case Op::Neg: return "(- " + print(n->a[0]) + ")";
      case Op::Add:
      case Op::Mul:
      case Op::Sub:
      case Op::Div: {
        vector<N> as;
        const bool left = n->op == Op::Sub || n->op == Op::Div;
        if (left) {
          flatten(n->a[0], n->op, true, &as);
          as.push_back(n->a[1]);
        } else {
          flatten(n->a[0], n->op, false, &as);
          flatten(n->a[1], n->op, false, &as);
        }
        if (as.size() > 2) features->insert("n-ary");
        string r = n->op == Op::Add   ? "(+"
                   : n->op == Op::Mul ? "(*"
                   : n->op == Op::Sub ? "(-"
                                      : "(/";
        for (const N& a : as) r += " " + print(a);
        r += ")";
        return s.chance(1, 20) ? "(+ " + r + ")" : r;
      }
      case Op::Ite:
        features->insert("if-then-else");
        return "(ite " + print(n->cond) + " " + print(n->a[0]) + " " +
               print(n->a[1]) + ")";
      default: {
        string r = "(" + s.pick(fn.at(n->op));
        for (const N& a : n->a) r += " " + print(a);
        return r + ")";
      }
    }
  }
  string print_(const F& f) {
    const auto k = nm.fcall.find(f.get());
    if (k != nm.fcall.end()) return call(k->second);
    const auto i = nm.fite.find(f.get());
    if (i != nm.fite.end()) {
      features->insert("ite formula");
      string r = "(ite";
      for (const F& g : i->second) r += " " + print(g);
      return r + ")";
    }
    const auto q = nm.quant.find(f.get());
    if (q != nm.quant.end()) {
      features->insert("forall");
      Printer inner = *this;
      string r = "(forall (";
      std::set<string> taken, used;
      for (int v : q->second.vars) inner.names[v] = "";
      inner.uses(q->second.body, &used);
      bool first = true;
      for (int v : q->second.vars) {
        const Decl& d = nm.decl[v];
        string name = d.name;
        if (s.chance(1, 2)) {
          vector<string> hide;
          for (const auto& x : names)
            if (!x.second.empty() && !used.count(x.second) && !taken.count(x.second))
              hide.push_back(x.second);
          if (!hide.empty()) name = s.pick(hide);
        }
        taken.insert(name);
        inner.names[v] = name;
        r += cat(first ? "" : " ", "(", name, " ", sort_name(d.type));
        first = false;
        if (std::isfinite(d.lb) || std::isfinite(d.ub))
          r += " [" + number(s, d.lb) + ", " + number(s, d.ub) + "]";
        r += ")";
      }
      return r + ") " + inner.print(q->second.body) + ")";
    }
    static const std::map<FOp, string> ops = {
        {FOp::Eq, "="}, {FOp::Gt, ">"}, {FOp::Ge, ">="}, {FOp::Lt, "<"},
        {FOp::Le, "<="}};
    switch (f->op) {
      case FOp::True: return "true";
      case FOp::False: return "false";
      case FOp::BVar: return names.at(f->v);
      case FOp::Ne:
        return "(not (= " + print(f->e[0]) + " " + print(f->e[1]) + "))";
      case FOp::And:
      case FOp::Or: {
        string r = f->op == FOp::And ? "(and" : "(or";
        for (const F& g : f->f) r += " " + print(g);
        return r + ")";
      }
      case FOp::Not: {
        const F& g = f->f[0];
        if (g->op == FOp::Iff && !fenv.count(g.get()) &&
            !nm.fconst.count(g.get()) && !nm.fcall.count(g.get()) &&
            s.chance(1, 2)) {
          features->insert("xor");
          return "(xor " + print(g->f[0]) + " " + print(g->f[1]) + ")";
        }
        return "(not " + print(g) + ")";
      }
      case FOp::Imply:
        return "(=> " + print(f->f[0]) + " " + print(f->f[1]) + ")";
      case FOp::Iff: {
        const F &a = f->f[0], &b = f->f[1];
        if (s.chance(1, 8)) {
          features->insert("xor");
          return "(xor true " + print(a) + " " + print(b) + ")";
        }
        return "(= " + print(a) + " " + print(b) + ")";
      }
      case FOp::Forall: abort();
      default:
        return "(" + ops.at(f->op) + " " + print(f->e[0]) + " " +
               print(f->e[1]) + ")";
    }
  }
};

// |abc| for abc.  Names of the script have a digit, unlike keywords (except
// atan2).
string bars(Src& s, const string& t, std::set<string>* features) {
  string r, word;
  bool bar = false, str = false;
  auto flush = [&]() {
    const bool name =
        !word.empty() && word.find_first_of("0123456789") != string::npos &&
        (std::isalpha(static_cast<unsigned char>(word[0])) || word[0] == '~') &&
        word != "atan2" && word != "arctan2";
    if (name && s.chance(1, 4)) {
      r += "|" + word + "|";
      features->insert("quoted symbol");
    } else {
      r += word;
    }
    word.clear();
  };
  for (char ch : t) {
    const bool plain =
        !bar && !str && string(" \t\r\n()[],|\";").find(ch) == string::npos;
    if (plain) {
      word += ch;
      continue;
    }
    flush();
    if (ch == '|' && !str) bar = !bar;
    if (ch == '"' && !bar) str = !str;
    r += ch;
  }
  flush();
  return r;
}

// Other white space and comments.
string layout(Src& s, const string& t) {
  const int style = s.weighted({4, 1, 1, 1});
  if (style == 0) return t;
  string r;
  bool bar = false, str = false;
  for (char ch : t) {
    if (ch == '|' && !str) bar = !bar;
    if (ch == '"' && !bar) str = !str;
    if (bar || str || ch != ' ') {
      r += ch;
      if (ch == '(' && !bar && !str && style > 1 && s.chance(1, 8)) r += " ";
      continue;
    }
    if (style == 1) {
      r += "\n\t";
    } else if (style == 2) {
      r += s.chance(1, 6) ? " \r\n" : " ";
    } else {
      r += s.chance(1, 8) ? " ; (a) \"comment\" |\n" : "  ";
    }
  }
  return r;
}

// ---- what the solver was given --------------------------------------------
using Subst = std::function<const vector<double>&(int)>;

// Is there an assignment of the variables without a value (not in `known`)
// that satisfies all the formulas?  Candidates for real ones come from atoms
// that compare them with something known.
struct Search {
  const vector<F>& fs;
  vector<double> vals;
  vector<bool> known;
  vector<Type> type;
  Domain dom;
  bool incomplete{false};
  int budget{3000};

  bool ready(const N& n) const {
    std::set<int> v;
    vars_of(n, &v);
    for (int i : v)
      if (!known[i]) return false;
    return true;
  }
  // Values from equations u = t; is there one whose t is not known yet?
  bool candidates(const F& f, int u, std::set<double>* out) {
    bool complete = true;
    if (is_rel(f->op)) {
      for (int k = 0; k < 2; ++k) {
        const N &a = f->e[k], &b = f->e[1 - k];
        if ((f->op == FOp::Eq || f->op == FOp::Ne) && a->op == Op::Var &&
            a->v == u) {
          if (!ready(b)) {
            complete = false;
          } else {
            const Result r = evaluate(b, vals);
            if (r.defined) out->insert(r.value);
          }
        }
      }
      for (const N& e : f->e) complete = candidates(e, u, out) && complete;
      return complete;
    }
    if (f->op == FOp::Forall) return true;
    for (const F& g : f->f) complete = candidates(g, u, out) && complete;
    return complete;
  }
  bool candidates(const N& n, int u, std::set<double>* out) {
    bool complete = true;
    for (const N& a : n->a) complete = candidates(a, u, out) && complete;
    if (n->cond) complete = candidates(n->cond, u, out) && complete;
    return complete;
  }
  // 1 / 0: all hold / some does not, -1: unknown
  int all() {
    bool unsure = false;
    for (const F& f : fs) {
      std::set<int> v;
      vars_of(f, &v);
      bool skip = false;
      for (int i : v) skip = skip || !known[i];
      if (skip) {
        unsure = true;
        continue;
      }
      const BResult r = evaluate(f, vals, dom);
      if (!r.defined || !r.reliable) {
        unsure = true;
        continue;
      }
      if (!r.value) return 0;
    }
    return unsure ? -1 : 1;
  }
  int solve() {
    if (--budget < 0) {
      incomplete = true;
      return -1;
    }
    const int now = all();
    if (now == 0) return 0;
    std::set<int> open;
    for (const F& f : fs) {
      std::set<int> v;
      vars_of(f, &v);
      for (int i : v)
        if (!known[i]) open.insert(i);
    }
    if (open.empty()) return now;
    // the real variable with the fewest candidates, else a Boolean one
    int best = -1;
    bool best_complete = false;
    std::set<double> values;
    for (int u : open) {
      if (type[u] == Type::BOOLEAN) continue;
      std::set<double> cs;
      bool complete = true;
      for (const F& f : fs) {
        // a definition settles it
        if (f->op == FOp::Eq)
          for (int k = 0; k < 2; ++k)
            if (f->e[k]->op == Op::Var && f->e[k]->v == u && ready(f->e[1 - k])) {
              const Result r = evaluate(f->e[1 - k], vals);
              if (!r.defined) {
                incomplete = true;
                return -1;
              }
              cs = {r.value};
              best = u;
              values = cs;
              goto found;
            }
        complete = candidates(f, u, &cs) && complete;
      }
      if (!cs.empty() &&
          (best < 0 || (complete && !best_complete) ||
           (complete == best_complete && cs.size() < values.size()))) {
        best = u;
        best_complete = complete;
        values = cs;
      }
    }
    for (int u : open)
      if (type[u] == Type::BOOLEAN && (best < 0 || !best_complete || values.size() > 2)) {
        best = u;
        best_complete = true;
        values = {0, 1};
        break;
      }
    if (best >= 0 && !best_complete) incomplete = true;
    if (best < 0) {
      incomplete = true;
      best = *open.begin();
      values = {0, 1, -1, 2.5, 3};
    }
  found:
    int res = 0;
    known[best] = true;
    for (double v : values) {
      vals[best] = v;
      const int r = solve();
      if (r == 1) {
        known[best] = false;
        return 1;
      }
      if (r < 0) res = -1;
    }
    known[best] = false;
    return res;
  }
};

void collect(const Formula& f, Vars* vs);
void add_var(const Variable& v, Vars* vs) {
  for (const Variable& w : vs->v)
    if (w.get_id() == v.get_id()) return;
  vs->v.push_back(v);
}
void collect(const Formula& f, Vars* vs) {
  for (const Variable& v : f.GetFreeVariables()) add_var(v, vs);
  std::function<void(const Formula&)> go = [&](const Formula& g) {
    if (is_forall(g)) {
      for (const Variable& v : get_quantified_variables(g)) add_var(v, vs);
      for (const Variable& v : get_quantified_formula(g).GetFreeVariables())
        add_var(v, vs);
      go(get_quantified_formula(g));
    } else if (is_negation(g)) {
      go(get_operand(g));
    } else if (is_conjunction(g) || is_disjunction(g)) {
      for (const Formula& h : get_operands(g)) go(h);
    }
  };
  go(f);
}

const vector<double>& samples(Type t) {
  static const vector<double> reals = {-2.5, -1, 0, 0.5, 1, 3};
  static const vector<double> ints = {-2, 0, 1, 3};
  static const vector<double> bits = {0, 1};
  return t == Type::CONTINUOUS ? reals : t == Type::INTEGER ? ints : bits;
}

struct Quiet {
  std::ostringstream out, err;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

// ---- scripts ----------------------------------------------------------------
struct Level {
  vector<int> decls;
  vector<string> funs;
  vector<F> asserts;
  vector<N> defined_n;  // terms with a name
  vector<F> defined_f;
  vector<string> consts;
};
struct Template {
  string name;
  vector<int> params;
  N n;
  F f;
  bool plain{true};  // no if-then-else and no quantifier
};

string spelling(Src& s, int k) {
  static const vector<string> pat = {"x#", "v_#", "a!b#", "x.y#", "expx#", "and#",
                                     "|q #|", "~z$#", "let#", "s%#", "e#",
                                     "t&@<>#", "forall-#", "in?t#", "Real#"};
  string p = s.chance(1, 2) ? pat[0] : s.pick(pat);
  const size_t at = p.find('#');
  return p.replace(at, 1, std::to_string(k));
}

struct Script {
  Src& s;
  Names nm;
  vector<Level> levels{1};
  vector<Template> templates;
  vector<size_t> template_marks;
  vector<double> p;  // planted values, by id
  std::set<string> features;
  vector<string> old_functions;
  vector<string> reusable;  // names of variables that went out of scope
  string text;
  int names{0};
  bool quantifiers{false}, ites{false};
  bool session{false};  // bounded variables only
  int max_lets{2};

  int add(const string& name, Type t, double lb, double ub) {
    double v = t == Type::CONTINUOUS ? gen_value(s)
               : t == Type::INTEGER  ? s.range(-3, 3)
                                     : static_cast<double>(s.draw(2));
    if (v < lb || v > ub) v = t == Type::CONTINUOUS ? lb : std::ceil(lb);
    p.push_back(v);
    return nm.add(name, t, lb, ub);
  }

  vector<int> scope(bool bools) const {
    vector<int> r;
    for (const Level& l : levels)
      for (int v : l.decls)
        if ((nm.decl[v].type == Type::BOOLEAN) == bools) r.push_back(v);
    return r;
  }
  Printer printer() {
    Printer p{s, nm};
    p.features = &features;
    p.lets = max_lets;
    for (const Level& l : levels)
      for (int v : l.decls) p.names[v] = nm.decl[v].name;
    return p;
  }
  void emit(const string& t) {
    text += layout(s, s.chance(1, 6) ? bars(s, t, &features) : t);
    text += s.chance(1, 12) ? " " : "\n";
  }
  string new_name() {
    if (!reusable.empty() && s.chance(3, 4)) {
      const string r = s.pick(reusable);
      reusable.erase(std::find(reusable.begin(), reusable.end(), r));
      features.insert("name reused");
      return r;
    }
    return spelling(s, names++);
  }
  int declare(Type t) {
    const string name = new_name();
    double lb = -kInf, ub = kInf;
    string b;
    if (t == Type::BINARY) lb = 0, ub = 1;
    if (session && t != Type::BOOLEAN) {
      static const vector<double> m = {0, 0, 1, 0.125, 3};
      const double v = t == Type::CONTINUOUS ? gen_value(s)
                       : t == Type::INTEGER  ? s.range(-3, 3)
                                             : static_cast<double>(s.draw(2));
      lb = v - (t == Type::CONTINUOUS ? s.pick(m) : s.range(0, 2));
      ub = v + (t == Type::CONTINUOUS ? s.pick(m) : s.range(0, 2));
      if (t == Type::BINARY) lb = std::max(lb, 0.0), ub = std::min(ub, 1.0);
      b = " [" + number(s, lb) + ", " + number(s, ub) + "]";
      const int id = add(name, t, v, v);
      nm.decl[id].lb = lb;
      nm.decl[id].ub = ub;
      emit(cat("(declare-", s.chance(1, 2) ? "fun " + name + " () " : "const " + name + " ",
               sort_name(t), b, ")"));
      levels.back().decls.push_back(id);
      return id;
    }
    if (t != Type::BOOLEAN && s.chance(1, 2)) {
      lb = gen_value(s) - 2;
      ub = lb + s.range(0, 8) + 1;
      if (t == Type::BINARY) lb = 0, ub = s.chance(1, 3) ? 0 : 1;
      b = " [" + number(s, lb) + ", " + number(s, ub) + "]";
      features.insert("bounds");
    }
    const int id = add(name, t, lb, ub);
    if (s.chance(1, 2))
      emit("(declare-fun " + name + " () " + sort_name(t) + b + ")");
    else
      emit("(declare-const " + name + " " + sort_name(t) + b + ")");
    levels.back().decls.push_back(id);
    return id;
  }
  Type a_type(bool bools) {
    switch (s.weighted({5, 2, 1, bools ? 3 : 0})) {
      case 0: return Type::CONTINUOUS;
      case 1: return Type::INTEGER;
      case 2: return Type::BINARY;
      default: return Type::BOOLEAN;
    }
  }
  GenOpt opt(int n) {
    GenOpt o;
    o.nvars = n;
    o.max_terms = 5;
    o.max_size = 14;
    o.ite = false;
    if (s.chance(1, 3)) o.trans = false;
    return o;
  }
  // Some term over the variables in scope.
  N small() {
    const vector<int> vs = scope(false);
    if (vs.empty() || s.chance(1, 4)) return cst(gen_const(s, true));
    const N x = var(s.pick(vs));
    switch (s.draw(4)) {
      case 0: return x;
      case 1: return mk(Op::Add, {x, cst(gen_const(s, false))});
      case 2: return mk(Op::Mul, {x, var(s.pick(vs))});
      default: return mk(Op::Sub, {cst(gen_const(s, false)), x});
    }
  }
  F small_f() {
    const vector<int> vs = scope(true);
    if (!vs.empty() && s.chance(1, 2)) return bvar(s.pick(vs));
    static const vector<FOp> ops = {FOp::Le, FOp::Lt, FOp::Gt, FOp::Eq};
    return rel(s.pick(ops), small(), small());
  }
  // An application of a defined function.
  void fill(const Template& t, std::map<int, N>* m, std::map<int, F>* b, Call* k) {
    k->fn = t.name;
    for (int p : t.params) {
      if (nm.decl[p].type == Type::BOOLEAN) {
        const F f = small_f();
        (*b)[p] = f;
        k->en.push_back(nullptr);
        k->ef.push_back(f);
      } else {
        const N n = small();
        (*m)[p] = n;
        k->en.push_back(n);
        k->ef.push_back(nullptr);
      }
    }
  }
  N call_n(const Template& t) {
    std::map<int, N> m;
    std::map<int, F> b;
    Call k;
    fill(t, &m, &b, &k);
    const N r = copy(sub(t.n, m, b));
    nm.ncall[r.get()] = k;
    keep_n.push_back(r);
    return r;
  }
  F call_f(const Template& t) {
    std::map<int, N> m;
    std::map<int, F> b;
    Call k;
    fill(t, &m, &b, &k);
    const F r = copy(sub(t.f, m, b));
    nm.fcall[r.get()] = k;
    keep_f.push_back(r);
    return r;
  }
  vector<N> keep_n;
  vector<F> keep_f;
  static N copy(const N& n) { return std::make_shared<Node>(*n); }
  static F copy(const F& f) { return std::make_shared<FNode>(*f); }

  // A formula over local indices, tight at the planted values, mapped to the
  // variables in scope, calls and quantified formulas.
  F formula(bool plain, const vector<int>& extra) {
    const bool quant = !plain && quantifiers, ite = !plain && ites;
    vector<int> rs = scope(false), bs = scope(true);
    Scene sc;
    std::map<int, N> m;
    std::map<int, F> b;
    auto local = [&](Type t, double v) {
      const int i = static_cast<int>(sc.p.size());
      sc.p.push_back(v);
      sc.type.push_back(t);
      sc.lb.push_back(v - 1);
      sc.ub.push_back(v + 1);
      sc.vs.v.emplace_back(cat("loc", i), t);
      return i;
    };
    int nreal = 0;
    for (int v : extra)
      if (nm.decl[v].type != Type::BOOLEAN) {
        m[local(Type::CONTINUOUS, p[v])] = var(v);
        ++nreal;
      }
    const int k = rs.empty() ? 0 : s.range(1, 3);
    for (int i = 0; i < k; ++i) {
      const int v = s.pick(rs);
      m[local(Type::CONTINUOUS, p[v])] = var(v);
      ++nreal;
    }
    for (const Template& t : templates)
      if (t.n && (!plain || t.plain) && s.chance(1, 2)) {
        const int times = s.range(1, 2);
        for (int i = 0; i < times; ++i) {
          const N n = call_n(t);
          const Result r = evaluate(n, p);
          if (!r.defined || !r.reliable || std::fabs(r.value) > 1e6) continue;
          m[local(Type::CONTINUOUS, r.value)] = n;
          ++nreal;
        }
      }
    for (const Level& l : levels)
      for (const N& n : l.defined_n)
        if (s.chance(1, 2)) {
          const Result r = evaluate(n, p);
          if (!r.defined || !r.reliable || std::fabs(r.value) > 1e6) continue;
          m[local(Type::CONTINUOUS, r.value)] = n;
          ++nreal;
        }
    if (nreal == 0) {
      m[local(Type::CONTINUOUS, 1)] = cst(1);
      ++nreal;
    }
    auto addb = [&](const F& f) {
      const BResult r = evaluate(f, p, dom());
      if (!r.defined || !r.reliable) return;
      b[local(Type::BOOLEAN, r.value)] = f;
    };
    for (int v : extra)
      if (nm.decl[v].type == Type::BOOLEAN) addb(bvar(v));
    if (!bs.empty())
      for (int i = 0; i < 2; ++i)
        if (s.chance(1, 2)) addb(bvar(s.pick(bs)));
    for (const Template& t : templates)
      if (t.f && (!plain || t.plain) && s.chance(1, 2)) addb(call_f(t));
    for (const Level& l : levels)
      for (const F& f : l.defined_f)
        if (s.chance(1, 2)) addb(f);
    if (quant && s.chance(1, 3)) addb(quantified());
    if (s.chance(1, 6)) {
      const F c = small_f(), x = small_f(), y = small_f();
      const F f = copy(conn(FOp::Or, {conn(FOp::And, {c, x}),
                                      conn(FOp::And, {conn(FOp::Not, {c}), y})}));
      nm.fite[f.get()] = {c, x, y};
      keep_f.push_back(f);
      addb(f);
    }
    FormulaGen g{s, sc, nreal};
    g.ite = ite;
    g.max_size = 12;
    return sub(g.gen(s.range(0, 2), s.chance(7, 8)), m, b);
  }
  Domain dom() {
    return [this](int v) -> const vector<double>& {
      return samples(nm.decl[v].type);
    };
  }
  F quantified() {
    Quant q;
    const int n = s.range(1, 2);
    for (int i = 0; i < n; ++i) {
      const Type t = a_type(true);
      double lb = -kInf, ub = kInf;
      if (t == Type::BINARY) {
        lb = 0, ub = 1;
      } else if (t != Type::BOOLEAN && s.chance(2, 3)) {
        lb = s.range(-2, 1);
        ub = lb + s.range(1, 3);
      }
      q.vars.push_back(add(cat("y", nm.fresh++), t, lb, ub));
    }
    q.body = formula(true, s.chance(3, 4) ? q.vars : vector<int>{q.vars[0]});
    vector<F> dom;
    for (int v : q.vars) {
      const Decl& d = nm.decl[v];
      if (std::isfinite(d.lb)) dom.push_back(rel(FOp::Le, cst(d.lb), var(v)));
      if (std::isfinite(d.ub)) dom.push_back(rel(FOp::Le, var(v), cst(d.ub)));
    }
    const F f = copy(forall_(
        q.vars, dom.empty() ? q.body
                            : conn(FOp::Imply, {conn(FOp::And, dom), q.body})));
    nm.quant[f.get()] = q;
    keep_f.push_back(f);
    return f;
  }

  // Can dReal represent it at all (constant folding may leave a domain)?
  template <typename T>
  bool buildable(const T& t) {
    Vars vs;
    for (const Decl& d : nm.decl) vs.v.emplace_back(d.name, d.type);
    bool ok;
    try_build(t, vs, &ok);
    return ok;
  }
  static bool any_ite(const N& n) {
    return has_op(n, [](const Node& x) { return x.op == Op::Ite; });
  }
  static bool any_forall(const F& f) {
    if (f->op == FOp::Forall) return true;
    for (const F& g : f->f)
      if (any_forall(g)) return true;
    return false;
  }
  void define_function() {
    Template t;
    t.name = cat("f", nm.fresh++);
    if (!old_functions.empty() && s.chance(3, 4)) {
      t.name = s.pick(old_functions);
      old_functions.erase(
          std::find(old_functions.begin(), old_functions.end(), t.name));
      features.insert("function name reused");
    }
    Printer pr = printer();
    const int np = s.range(1, 3);
    vector<string> hide;
    for (int i = 0; i < np; ++i)
      t.params.push_back(add(cat("p", nm.fresh++), a_type(true), -kInf, kInf));
    const bool bool_result = s.chance(1, 2);
    if (bool_result) {
      t.f = formula(s.chance(1, 2), t.params);
      t.plain = !any_forall(t.f) && !has_ite(t.f);
      if (!buildable(t.f)) return;
    } else {
      std::map<int, N> m;
      std::map<int, F> b;
      GenOpt o = opt(0);
      for (int v : t.params)
        if (nm.decl[v].type != Type::BOOLEAN) m[o.nvars++] = var(v);
      const vector<int> rs = scope(false);
      if (!rs.empty() && s.chance(1, 2)) m[o.nvars++] = var(s.pick(rs));
      for (const Template& u : templates)
        if (u.n && s.chance(1, 3)) m[o.nvars++] = call_n(u);
      if (o.nvars == 0) m[o.nvars++] = cst(gen_const(s));
      int k = o.nvars;
      o.ite = ites && s.chance(1, 2);
      for (int v : t.params)
        if (nm.decl[v].type == Type::BOOLEAN) {
          o.bool_vars.push_back(k);
          b[k++] = bvar(v);
        }
      o.bool_atoms = !o.bool_vars.empty();
      t.n = sub(gen_expr(s, o), m, b);
      t.plain = !any_ite(t.n);
      if (!buildable(t.n)) return;
    }
    // parameters may hide names the body does not use
    std::set<string> used, taken;
    Printer probe = pr;
    for (int v : t.params) probe.names[v] = "";
    if (t.n)
      probe.uses(t.n, &used);
    else
      probe.uses(t.f, &used);
    string sig;
    for (int v : t.params) {
      string name = nm.decl[v].name;
      if (s.chance(1, 3)) {
        vector<string> h;
        for (const auto& x : pr.names)
          if (!used.count(x.second) && !taken.count(x.second)) h.push_back(x.second);
        if (!h.empty()) {
          name = s.pick(h);
          features.insert("shadowing");
        }
      }
      taken.insert(name);
      sig += cat(sig.empty() ? "(" : " (", name, " ", sort_name(nm.decl[v].type), ")");
      probe.names[v] = name;
    }
    for (auto& x : probe.names)
      if (taken.count(x.second) &&
          std::find(t.params.begin(), t.params.end(), x.first) == t.params.end())
        x.second = "";
    const string body = t.n ? probe.print(t.n) : probe.print(t.f);
    emit("(define-fun " + t.name + " (" + sig + ") " +
         (t.n ? "Real " : "Bool ") + body + ")");
    templates.push_back(t);
    levels.back().funs.push_back(t.name);
    features.insert("define-fun");
  }
  void define_constant() {
    Printer pr = printer();
    if (s.chance(1, 3)) {
      const F g = formula(false, {});
      const F f = copy(g);
      keep_f.push_back(g);
      keep_f.push_back(f);
      if (nm.fcall.count(g.get())) nm.fcall[f.get()] = nm.fcall[g.get()];
      if (nm.quant.count(g.get())) nm.quant[f.get()] = nm.quant[g.get()];
      if (nm.fite.count(g.get())) nm.fite[f.get()] = nm.fite[g.get()];
      if (!buildable(f)) return;
      const string name = new_name();
      emit("(define-fun " + name + " () Bool " + pr.print_(f) + ")");
      nm.fconst[f.get()] = name;
      keep_f.push_back(f);
      levels.back().defined_f.push_back(f);
      levels.back().consts.push_back(name);
    } else {
      GenOpt o = opt(0);
      std::map<int, N> m;
      for (int v : scope(false))
        if (s.chance(1, 2)) m[o.nvars++] = var(v);
      for (const Template& u : templates)
        if (u.n && s.chance(1, 3)) m[o.nvars++] = call_n(u);
      if (o.nvars == 0) m[o.nvars++] = cst(gen_const(s));
      o.ite = ites && s.chance(1, 2);
      o.bool_atoms = false;
      const N g = sub(gen_expr(s, o), m, {});
      const N n = copy(g);
      keep_n.push_back(g);
      keep_n.push_back(n);
      if (nm.ncall.count(g.get())) nm.ncall[n.get()] = nm.ncall[g.get()];
      const Result r = evaluate(n, p);
      if (!buildable(n) || !r.defined || !r.reliable) return;
      const string name = new_name();
      emit("(define-fun " + name + " () Real " + pr.print_(n) + ")");
      nm.nconst[n.get()] = name;
      keep_n.push_back(n);
      levels.back().defined_n.push_back(n);
      levels.back().consts.push_back(name);
    }
    features.insert("define-fun constant");
  }
  void assertion() {
    const F f = formula(false, {});
    if (!buildable(f)) return;
    emit("(assert " + printer().print(f) + ")");
    levels.back().asserts.push_back(f);
  }
  void push() {
    const int n = s.chance(1, 4) ? 2 : 1;
    emit(cat("(push ", n, ")"));
    for (int i = 0; i < n; ++i) {
      levels.emplace_back();
      template_marks.push_back(templates.size());
    }
    features.insert("push");
  }
  void pop() {
    if (levels.size() == 1) return;
    const int n = levels.size() > 2 && s.chance(1, 2) ? 2 : 1;
    emit(cat("(pop ", n, ")"));
    for (int i = 0; i < n; ++i) {
      for (int v : levels.back().decls) reusable.push_back(nm.decl[v].name);
      for (const string& c : levels.back().consts) reusable.push_back(c);
      for (const string& c : levels.back().funs) old_functions.push_back(c);
      levels.pop_back();
      templates.resize(template_marks.back());
      template_marks.pop_back();
    }
    features.insert("pop");
  }
  void noise() {
    static const vector<string> lines = {
        "(set-logic QF_NRA)", "(set-info :status sat)",
        "(set-info :smt-lib-version 2.6)", "(set-info :source |a ( ; \n b|)",
        "(set-info :notes \"x \"\"y\"\" ; (\")", "; (assert false)",
        "(get-option :precision)", "(set-logic ALL)", "(set-option :random-x |v w|)",
        ";;\r"};
    const string l = s.pick(lines);
    if (l[0] == ';')
      text += l + "\n";
    else
      emit(l);
  }
};

// What a script stands for at some place.
struct Snapshot {
  size_t text_end;
  vector<Level> levels;
  vector<Template> templates;
  std::map<string, string> options;
  double precision;
};

// Are all the sub-terms defined (except those with an excluded variable)?
bool all_defined(const F& f, const vector<double>& q, std::set<int> ex);
bool all_defined(const N& n, const vector<double>& q, const std::set<int>& ex) {
  std::set<int> v;
  vars_of(n, &v);
  bool skip = false;
  for (int i : v) skip = skip || ex.count(i);
  if (!skip) {
    const Result r = evaluate(n, q);
    if (!r.defined || !r.reliable) return false;
  }
  for (const N& a : n->a)
    if (!all_defined(a, q, ex)) return false;
  return !n->cond || all_defined(n->cond, q, ex);
}
bool all_defined(const F& f, const vector<double>& q, std::set<int> ex) {
  if (f->op == FOp::Forall) ex.insert(f->qv.begin(), f->qv.end());
  for (const N& a : f->e)
    if (!all_defined(a, q, ex)) return false;
  for (const F& a : f->f)
    if (!all_defined(a, q, ex)) return false;
  return true;
}

// 1: holds, 0: does not, -1: not known
int truth(const Snapshot& sn, const Names& nm, const vector<double>& q,
          const Domain& dom) {
  int res = 1;
  for (const Level& l : sn.levels) {
    for (const N& n : l.defined_n)
      if (!all_defined(n, q, {})) return -1;
    for (const F& n : l.defined_f)
      if (!all_defined(n, q, {})) return -1;
    for (const F& f : l.asserts) {
      if (!all_defined(f, q, {})) return -1;
      const BResult r = evaluate(f, q, dom);
      if (!r.defined || !r.reliable) return -1;
      if (!r.value) res = 0;
    }
    for (int v : l.decls)
      if (!(nm.decl[v].lb <= q[v] && q[v] <= nm.decl[v].ub)) res = 0;
  }
  // (lets in a function that do not depend on its parameters once simplified)
  for (const Template& t : sn.templates)
    if (t.n ? !all_defined(t.n, q, {}) : !all_defined(t.f, q, {})) return -1;
  return res;
}

// The same for the context.
int truth(const Context& x, const Snapshot& sn, const Names& nm,
          const vector<double>& q, Ctx& c) {
  Vars vs;
  const Box& b = x.box();
  for (const Variable& v : b.variables()) vs.v.push_back(v);
  vector<bool> known(vs.v.size(), false);
  vector<double> vals(vs.v.size(), 0);
  for (const Level& l : sn.levels) {
    for (int v : l.decls) {
      int at = -1;
      for (size_t i = 0; i < vs.v.size(); ++i)
        if (vs.v[i].get_name() == nm.decl[v].name) {
          c.check(at < 0, "two variables " + nm.decl[v].name);
          at = static_cast<int>(i);
        }
      c.check(at >= 0, "no variable " + nm.decl[v].name);
      c.check(vs.v[at].get_type() == nm.decl[v].type,
              "type of " + nm.decl[v].name);
      known[at] = true;
      vals[at] = q[v];
    }
    for (const string& n : l.consts) {
      int count = 0;
      for (const Variable& v : vs.v) count += v.get_name() == n;
      c.check(count == 1, "no constant " + n);
    }
  }
  if (b.empty()) return 0;
  vector<F> fs;
  for (const Formula& f : x.assertions()) {
    const size_t n = vs.v.size();
    collect(f, &vs);
    for (size_t i = n; i < vs.v.size(); ++i) {
      known.push_back(false);
      vals.push_back(0);
    }
    for (const Variable& v : f.GetFreeVariables())
      c.check(b.has_variable(v), "variable " + v.get_name() +
                                     " of an assertion is not in the box: " +
                                     f.to_string());
    const F r = reflect(f, vs);
    if (r->op == FOp::And)
      for (const F& g : r->f) fs.push_back(g);
    else
      fs.push_back(r);
  }
  // what the box says
  Search se{fs, vals, known, {}, {}};
  se.dom = [&](int v) -> const vector<double>& {
    return samples(vs.v[v].get_type());
  };
  for (const Variable& v : vs.v) se.type.push_back(v.get_type());
  for (int i = 0; i < b.size(); ++i) {
    const double l = b[i].lb(), u = b[i].ub();
    if (se.known[i]) {
      if (!(l <= se.vals[i] && se.vals[i] <= u)) return 0;
    } else if (l == u || u - l < 1e-12 * std::fabs(l)) {
      se.known[i] = true;
      se.vals[i] = b[i].mid();
    } else if (std::isfinite(l) || std::isfinite(u)) {
      if (vs.v[i].get_type() == Type::CONTINUOUS) {
        if (std::isfinite(l)) fs.push_back(rel(FOp::Ge, var(i), cst(l, 1)));
        if (std::isfinite(u)) fs.push_back(rel(FOp::Le, var(i), cst(u, 1)));
      }
    }
  }
  const int r = se.solve();
  if (r != 1 && se.incomplete) return -1;
  return r;
}
}  // namespace

PBT_TARGET("C31", smt2_script, 20000,
           "random SMT-LIB scripts (declarations with bounds, nested terms, let "
           "with shadowing and simultaneous bindings, functions and constants, "
           "if-then-else, quantifiers, push and pop with names that come back "
           "with another meaning, comments, white space, number formats) written "
           "from syntax trees; variables, domains and the assertions in the "
           "context must have the same solutions among planted and sampled points "
           "as the trees in scope; non-trivial: at least 3 features and a "
           "decided point") {
  Script sc{s};
  sc.quantifiers = s.chance(1, 3);
  sc.ites = s.chance(1, 3);
  vector<Snapshot> snaps;
  std::map<string, string> options;
  double precision = Config{}.precision();
  auto snap = [&]() {
    snaps.push_back(
        {sc.text.size(), sc.levels, sc.templates, options, precision});
  };
  sc.declare(sc.a_type(false));
  const int len = s.range(1, 14);
  for (int i = 0; i < len; ++i) {
    switch (s.weighted({6, 4, 2, 2, 2, 3, 1, 1})) {
      case 0: sc.assertion(); break;
      case 1: sc.declare(sc.a_type(true)); break;
      case 2: sc.define_function(); break;
      case 3: sc.define_constant(); break;
      case 4: sc.push(); break;
      case 5: sc.pop(); break;
      case 6: sc.noise(); break;
      default: {
        static const vector<string> keys = {":polytope", ":produce-models",
                                            ":smtlib2-compliant",
                                            ":worklist-fixpoint",
                                            ":local-optimization",
                                            ":forall-polytope"};
        if (s.chance(1, 3)) {
          static const vector<string> ps = {"0.5", "1e-2", "0.125", ".25"};
          const string v = s.pick(ps);
          precision = std::stod(v);
          sc.emit("(set-option :precision " + v + ")");
        } else {
          const string k = s.pick(keys);
          options[k] = s.chance(1, 2) ? "true" : "false";
          sc.emit("(set-option " + k + " " + options[k] + ")");
        }
        break;
      }
    }
    if (s.chance(1, 6)) snap();
  }
  if (s.chance(3, 4)) sc.assertion();
  if (s.chance(1, 8)) sc.emit("(exit)"), sc.features.insert("exit");
  snap();
  if (s.chance(1, 6)) {
    // the end of the last line
    sc.text += "; no new line";
    snaps.back().text_end = sc.text.size();
    sc.features.insert("comment at the end");
  }
  const bool whole = s.chance(1, 3);
  if (whole) snaps.erase(snaps.begin(), snaps.end() - 1);
  vector<vector<double>> points{sc.p};
  for (int k = 0; k < 6; ++k) {
    vector<double> q = sc.p;
    for (size_t v = 0; v < q.size(); ++v) {
      const Decl& d = sc.nm.decl[v];
      switch (s.draw(4)) {
        case 0: break;
        case 1: if (std::isfinite(d.lb)) q[v] = d.lb; break;
        case 2: if (std::isfinite(d.ub)) q[v] = d.ub; break;
        default: q[v] = s.pick(samples(d.type));
      }
      if (d.type != Type::CONTINUOUS) q[v] = std::floor(q[v]);
      if (d.type == Type::BOOLEAN) q[v] = q[v] > 0;
    }
    points.push_back(q);
  }
  c.describe(sc.text + "at " + show(sc.p));
  for (const string& f : sc.features) c.label(f);
  Smt2Driver driver;
  size_t from = 0;
  int decided = 0, yes = 0;
  for (const Snapshot& sn : snaps) {
    const string part = sc.text.substr(from, sn.text_end - from);
    from = sn.text_end;
    if (part.find("(") == string::npos) continue;
    bool only_comments = true;  // a script has at least one command
    {
      std::istringstream is(part);
      string line;
      while (std::getline(is, line)) {
        const size_t k = line.find_first_not_of(" \t\r");
        if (k != string::npos && line[k] != ';') only_comments = false;
      }
    }
    if (only_comments) continue;
    string err;
    bool ok = false;
    {
      Quiet quiet;
      try {
        ok = driver.parse_string(part);
      } catch (const std::exception& e) {
        err = e.what();
      }
      err += quiet.err.str();
    }
    // A function that is undefined everywhere, such as (/ (- x x) (- x x)).
    if (!ok && err.find("NaN is detected") != string::npos &&
        sc.features.count("define-fun"))
      c.discard();
    c.check(ok, "rejected: " + err);
    Context& x = driver.mutable_context();
    const Config& cf = x.config();
    c.check(cf.precision() == sn.precision,
            cat("precision ", cf.precision(), ", not ", sn.precision));
    for (const auto& o : sn.options) {
      const bool v = o.second == "true";
      const bool got = o.first == ":polytope"            ? cf.use_polytope()
                       : o.first == ":produce-models"    ? cf.produce_models()
                       : o.first == ":smtlib2-compliant" ? cf.smtlib2_compliant()
                       : o.first == ":worklist-fixpoint" ? cf.use_worklist_fixpoint()
                       : o.first == ":local-optimization"
                           ? cf.use_local_optimization()
                           : cf.use_polytope_in_forall();
      c.check(got == v, "option " + o.first);
    }
    for (vector<double> q : points) {
      q.resize(sc.nm.decl.size(), 0);
      const int want = truth(sn, sc.nm, q, sc.dom());
      const int got = truth(x, sn, sc.nm, q, c);
      if (want < 0 || got < 0) continue;
      ++decided;
      yes += want;
      if (want != got) {
        string as;
        for (const Formula& f : x.assertions()) as += f.to_string() + "; ";
        std::ostringstream bs;
        bs << x.box();
        c.fail(cat("at ", show(q), " the script is ", want ? "true" : "false",
                   ", what the context holds is not: ", as, bs.str()));
      }
      c.count();
    }
  }
  if (yes) c.label("true somewhere");
  if (decided && sc.features.size() >= 3) c.nontrivial(c.desc_);
}

// ---- answers ----------------------------------------------------------------
namespace {
// (- n), (/ n d)
struct Sexp {
  const char* q;
  void ws() {
    while (*q == ' ') ++q;
  }
  double num() {
    ws();
    if (*q != '(') {
      char* end;
      const double r = strtod(q, &end);
      if (end == q) throw std::runtime_error("number");
      q = end;
      return r;
    }
    ++q;
    const char op = *q++;
    double r = num();
    if (op == '-')
      r = -r;
    else
      r /= num();
    ws();
    if (*q++ != ')') throw std::runtime_error("parenthesis");
    return r;
  }
};

struct Event {
  enum Kind { Run, Check, Model, Value, Option } kind;
  size_t text_end;
  size_t snap;
  vector<N> terms;      // Value: one of the two
  vector<F> bools;
  vector<string> names;
  string key, value;  // Option
};

// No let, no named constant, no if-then-else: what is asserted has no other
// variables.
bool plain_level(const Level& l) { return l.consts.empty(); }

void check_value(const string& line, const Event& ev, size_t k, const Box& m,
                 const Vars& mv, const std::map<int, int>& where, Ctx& c) {
  // \t(term value)
  c.check(line.size() > 3 && line[0] == '\t' && line[1] == '(' &&
              line.back() == ')',
          "get-value line: " + line);
  if (ev.bools[k]) {
    const int v = where.at(ev.bools[k]->v);
    const string want = m[v].lb() == 1 ? "true" : "false";
    if (m[v].lb() != m[v].ub()) return;
    c.check(line == "\t(" + mv.v[v].get_name() + " " + want + ")",
            "get-value line: " + line + " for " + show_iv(m[v]));
    return;
  }
  // the value is the end of the line
  const size_t at = line.rfind("(interval (closed ");
  double l, u;
  if (at != string::npos) {
    Sexp x{line.c_str() + at + strlen("(interval (closed ")};
    l = x.num();
    const string mid = ") (closed ";
    c.check(string(x.q).substr(0, mid.size()) == mid, "get-value line: " + line);
    x.q += mid.size();
    u = x.num();
    c.check(string(x.q) == ")))", "get-value line: " + line);
  } else {
    // the last balanced item
    int depth = 0;
    size_t i = line.size() - 1;
    while (i-- > 0) {
      if (line[i] == ')') ++depth;
      if (line[i] == '(') --depth;
      if (line[i] == ' ' && depth == 0) break;
    }
    Sexp x{line.c_str() + i + 1};
    l = u = x.num();
    c.check(string(x.q) == ")", "get-value line: " + line);
  }
  for (const vector<double>& q : points_of(m, 4)) {
    vector<double> full(1 + (where.empty() ? 0 : where.rbegin()->first), 0);
    for (const auto& w : where) full[w.first] = q[w.second];
    const Result r = evaluate(ev.terms[k], full);
    if (!r.defined || !r.reliable || var_pow(ev.terms[k])) continue;
    c.check(l - r.tol <= r.value && r.value <= u + r.tol,
            cat("get-value line: ", line, ", but the value is ", r.value,
                " at ", show(full)));
  }
}
}  // namespace

PBT_TARGET("C31", smt2_session, 6000,
           "random scripts as above over bounded variables with check-sat, "
           "get-model, get-value, get-option; the answers are in the documented "
           "format and in order, get-model and produce-models print the model, "
           "get-value encloses the terms at points of the model, get-option "
           "the last value set, no unsat at a planted or sampled solution, the "
           "model satisfies the weakened assertions and the bounds, and the "
           "whole script prints the same at once as in pieces; non-trivial: "
           "at least one check with an assertion in scope and 4 outputs") {
  Script sc{s};
  sc.session = true;
  sc.ites = s.chance(1, 6);
  sc.max_lets = s.chance(1, 2) ? 0 : 2;
  bool printed_let = sc.max_lets > 0;
  vector<Snapshot> snaps;
  vector<Event> events;
  std::map<string, string> options;
  double precision = Config{}.precision();
  auto event = [&](Event::Kind k) -> Event& {
    events.push_back({k, sc.text.size(), snaps.size(), {}, {}, {}, "", ""});
    snaps.push_back(
        {sc.text.size(), sc.levels, sc.templates, options, precision});
    return events.back();
  };
  sc.declare(sc.a_type(false));
  const int len = s.range(1, 12);
  bool fresh_model = false;  // no declaration since the last check
  int outputs = 0;
  for (int i = 0; i < len; ++i) {
    const int what = s.weighted({5, 3, 1, 1, 2, 2, 1, 2, 6, 3, 4, 2});
    if (what == 1 || what == 3 || what == 4 || what == 5) fresh_model = false;
    switch (what) {
      case 0: sc.assertion(); break;
      case 1: sc.declare(sc.a_type(true)); break;
      case 2: sc.define_function(); break;
      case 3: sc.define_constant(); break;
      case 4: sc.push(); break;
      case 5: sc.pop(); break;
      case 6: sc.noise(); break;
      case 7: {
        static const vector<string> keys = {":produce-models", ":polytope",
                                            ":smtlib2-compliant",
                                            ":worklist-fixpoint", ":other"};
        if (s.chance(1, 3)) {
          static const vector<string> ps = {"0.5", "1e-2", "0.125", ".25"};
          const string v = s.pick(ps);
          precision = std::stod(v);
          options[":precision"] = cat(precision);
          sc.emit("(set-option :precision " + v + ")");
        } else {
          const string k = s.pick(keys);
          options[k] = s.chance(1, 2) ? "true" : "false";
          sc.emit("(set-option " + k + " " + options[k] + ")");
        }
        break;
      }
      case 8: {
        event(Event::Run);
        sc.emit("(check-sat)");
        event(Event::Check);
        fresh_model = true;
        ++outputs;
        break;
      }
      case 9: {
        event(Event::Run);
        sc.emit("(get-model)");
        event(Event::Model);
        ++outputs;
        break;
      }
      case 10: {
        if (!fresh_model) break;
        vector<N> ns;
        vector<F> fs;
        const int n = s.range(1, 3);
        Printer pr = sc.printer();
        pr.lets = 0;
        string t;
        for (int k = 0; k < n; ++k) {
          const vector<int> bs = sc.scope(true), rs = sc.scope(false);
          if (!bs.empty() && s.chance(1, 4)) {
            ns.push_back(nullptr);
            fs.push_back(bvar(s.pick(bs)));
            t += (k ? " " : "") + pr.print(fs.back());
          } else {
            N e = sc.small();
            if (!rs.empty() && s.chance(1, 2)) {
              GenOpt o = sc.opt(0);
              std::map<int, N> m;
              for (int v : rs) m[o.nvars++] = var(v);
              o.bool_atoms = false;
              e = sub(gen_expr(s, o), m, {});
              if (!sc.buildable(e)) e = sc.small();
            }
            if (!sc.buildable(e)) e = cst(1);
            ns.push_back(e);
            fs.push_back(nullptr);
            t += (k ? " " : "") + pr.print(e);
          }
        }
        event(Event::Run);
        sc.emit("(get-value (" + t + "))");
        Event& ev = event(Event::Value);
        ev.terms = ns;
        ev.bools = fs;
        ++outputs;
        break;
      }
      default: {
        static const vector<string> keys = {":precision", ":produce-models",
                                            ":polytope", ":other", ":unknown"};
        const string k = s.pick(keys);
        event(Event::Run);
        sc.emit("(get-option " + k + ")");
        Event& ev = event(Event::Option);
        ev.key = k;
        const auto it = options.find(k);
        ev.value = it != options.end()   ? it->second
                   : k == ":precision" ? "0.001"
                                       : "unsupported";
        ++outputs;
        break;
      }
    }
  }
  event(Event::Run);
  vector<vector<double>> points{sc.p};
  for (int k = 0; k < 6; ++k) {
    vector<double> q = sc.p;
    for (size_t v = 0; v < q.size(); ++v) {
      const Decl& d = sc.nm.decl[v];
      switch (s.draw(4)) {
        case 0: break;
        case 1: if (std::isfinite(d.lb)) q[v] = d.lb; break;
        case 2: if (std::isfinite(d.ub)) q[v] = d.ub; break;
        default: q[v] = s.pick(samples(d.type));
      }
      if (d.type != Type::CONTINUOUS) q[v] = std::floor(q[v]);
      if (d.type == Type::BOOLEAN) q[v] = q[v] > 0;
    }
    points.push_back(q);
  }
  c.describe(sc.text + "at " + show(sc.p));
  for (const string& f : sc.features) c.label(f);
  const bool whole = s.chance(1, 2);
  const Domain dom = sc.dom();
  const bool finished = pbt::limited(c, 4.0, [&](Ctx& c) {
    string total;
    auto run = [&](Smt2Driver* d, const string& t, string* out) {
      bool ok = false;
      string err;
      Capture cap;
      try {
        ok = d->parse_string(t);
      } catch (const Budget&) {
        throw;
      } catch (const std::exception& e) {
        err = e.what();
      }
      *out = cap.done();
      err += cap.errs.str();
      return ok ? string() : "rejected: " + err;
    };
    int budget = 300;
    bool stuck = false;
    auto brancher = [&budget, &stuck](const Box& b, const DynamicBitset& a,
                                      Box* l, Box* r) {
      if (--budget < 0) throw Budget{};
      const int d = BranchLargestFirst(b, a, l, r);
      if (d < 0) stuck = true;
      return d;
    };
    Smt2Driver driver;
    driver.mutable_context().mutable_config().mutable_brancher() = brancher;
    size_t from = 0;
    bool have = false, checked = false;
    int checks = 0;
    Box model;
    try {
      for (const Event& ev : events) {
        const string part = sc.text.substr(from, ev.text_end - from);
        from = ev.text_end;
        bool only_comments = true;
        for (const string& line : lines(part)) {
          const size_t k = line.find_first_not_of(" \t\r");
          if (k != string::npos && line[k] != ';') only_comments = false;
        }
        if (only_comments) continue;
        string out;
        budget = 300;
        stuck = false;
        const string err = run(&driver, part, &out);
        if (!err.empty() && err.find("NaN is detected") != string::npos &&
            sc.features.count("define-fun"))
          c.discard();
        c.check(err.empty(), err);
        const bool noise = part.find("get-option") != string::npos;
        if (ev.kind == Event::Run && noise) continue;  // of noise()
        total += out;
        const vector<string> ls = lines(out);
        Context& x = driver.mutable_context();
        const Snapshot& sn = snaps[ev.snap];
        auto opt = [&](const string& k, bool def) {
          const auto it = sn.options.find(k);
          return it == sn.options.end() ? def : it->second == "true";
        };
        switch (ev.kind) {
          case Event::Run: c.check(out.empty(), "output: " + out); break;
          case Event::Check: {
            checked = true;
            c.check(!ls.empty(), "no answer");
            size_t asserted = 0;
            bool plain = !printed_let && !sc.ites && !stuck;
            for (const Level& l : sn.levels) {
              asserted += l.asserts.size();
              plain = plain && plain_level(l);
            }
            if (asserted) ++checks;
            std::ostringstream yes;
            if (opt(":smtlib2-compliant", false))
              yes << "delta-sat";
            else
              yes << "delta-sat with delta = " << sn.precision;
            model = x.get_model();
            have = ls[0] != "unsat";
            c.check(have == !model.empty(), "get_model() after " + ls[0]);
            if (!have) {
              c.check(ls.size() == 1, "output: " + out);
              c.label("unsat");
              for (vector<double> q : points) {
                q.resize(sc.nm.decl.size(), 0);
                c.check(truth(sn, sc.nm, q, dom) != 1,
                        "unsat, but " + show(q) + " is a solution");
              }
              break;
            }
            c.label("delta-sat");
            c.check(ls[0] == yes.str(), "answer: " + out);
            const bool produce = opt(":produce-models", false) &&
                                 !opt(":smtlib2-compliant", false);
            c.check(ls.size() == 1 + (produce ? model.size() : 0),
                    "answer: " + out);
            if (produce)
              for (int i = 0; i < model.size(); ++i) {
                const Variable& v = model.variable(i);
                const string head = v.get_name() + " : ", &l = ls[i + 1];
                c.check(l.substr(0, head.size()) == head, "model line: " + l);
                const string val = l.substr(head.size());
                double lo, hi;
                if (v.get_type() == Type::BOOLEAN) {
                  c.check(val == (model[i].lb() == 1   ? "True"
                                  : model[i].ub() == 0 ? "False"
                                                       : "Unassigned"),
                          "model line: " + l);
                } else {
                  c.check(parse_interval(val, &lo, &hi) && lo == model[i].lb() &&
                              hi == model[i].ub(),
                          "model line: " + l + " for " + show_iv(model[i]));
                }
              }
            // the variables and their bounds
            size_t declared = 0;
            Vars mv;
            for (const Variable& v : model.variables()) mv.v.push_back(v);
            for (const Level& l : sn.levels) {
              declared += l.decls.size() + l.consts.size();
              for (int d : l.decls) {
                const Decl& dc = sc.nm.decl[d];
                int at = -1;
                for (size_t i = 0; i < mv.v.size(); ++i)
                  if (mv.v[i].get_name() == dc.name) at = static_cast<int>(i);
                c.check(at >= 0, "the model misses " + dc.name);
                const Box::Interval& iv = model[at];
                c.check(dc.lb <= iv.lb() && iv.ub() <= dc.ub,
                        "the model has " + dc.name + " in " + show_iv(iv));
                if (dc.type != Type::CONTINUOUS)
                  c.check(iv.lb() == iv.ub() && iv.lb() == std::floor(iv.lb()),
                          "the model has " + dc.name + " in " + show_iv(iv));
              }
            }
            c.check(declared == mv.v.size(),
                    cat("the model has ", mv.v.size(), " variables, not ",
                        declared));
            if (!plain) break;
            c.label("plain");
            for (const Formula& f : x.assertions()) {
              const F r = reflect(f, mv);
              for (const vector<double>& q : points_of(model, 5))
                c.check(weak(r, true, q, sn.precision),
                        "the point " + show(q) + " of the model violates " +
                            show(r) + " even weakened by delta");
            }
            break;
          }
          case Event::Model: {
            if (checked && !have) {
              c.check(out == "(error \"model is not available\")\n",
                      "get-model without a model: " + out);
              break;
            }
            if (!checked) break;
            c.check(static_cast<int>(ls.size()) == model.size() + 2 &&
                        ls[0] == "(model" && ls.back() == ")",
                    "model: " + out);
            for (int i = 0; i < model.size(); ++i) {
              const Variable& v = model.variable(i);
              const string head = "  (define-fun " + v.get_name() + " () " +
                                  sort_name(v.get_type()) + " ";
              const string& l = ls[i + 1];
              c.check(l.substr(0, head.size()) == head && l.back() == ')',
                      "model line: " + l);
              const string val =
                  l.substr(head.size(), l.size() - head.size() - 1);
              double lo, hi;
              if (v.get_type() == Type::BOOLEAN)
                c.check(val == (model[i].lb() == 1 ? "true" : "false") &&
                            model[i].lb() == model[i].ub(),
                        "model line: " + l + " for " + show_iv(model[i]));
              else
                c.check(parse_interval(val, &lo, &hi) && lo == model[i].lb() &&
                            hi == model[i].ub(),
                        "model line: " + l + " for " + show_iv(model[i]));
            }
            break;
          }
          case Event::Value: {
            if (!have) {
              c.check(out == "(error \"model is not available\")\n",
                      "get-value without a model: " + out);
              break;
            }
            c.check(ls.size() == ev.terms.size() + 2 && ls[0] == "(" &&
                        ls.back() == ")",
                    "get-value: " + out);
            Vars mv;
            std::map<int, int> where;
            for (const Variable& v : model.variables()) mv.v.push_back(v);
            for (const Level& l : sn.levels)
              for (int d : l.decls)
                for (size_t i = 0; i < mv.v.size(); ++i)
                  if (mv.v[i].get_name() == sc.nm.decl[d].name)
                    where[d] = static_cast<int>(i);
            for (size_t k = 0; k < ev.terms.size(); ++k)
              check_value(ls[k + 1], ev, k, model, mv, where, c);
            c.label("get-value");
            break;
          }
          case Event::Option: {
            c.check(ls.size() == 1, "get-option: " + out);
            if (ev.key == ":precision")
              c.check(std::stod(ls[0]) == sn.precision, "get-option: " + out);
            else
              c.check(ls[0] == ev.value, "get-option: " + out);
            break;
          }
        }
      }
      if (whole && !sc.text.empty() && !stuck) {
        Smt2Driver d2;
        d2.mutable_context().mutable_config().mutable_brancher() = brancher;
        budget = 2000;
        string out;
        const string err = run(&d2, sc.text, &out);
        c.check(err.empty(), err);
        // noise() asks for an option as well
        auto tidy = [](const string& t) {
          string r;
          for (const string& l : lines(t))
            if (l.find_first_not_of("0123456789.") != string::npos) r += l + "\n";
          return r;
        };
        c.check(tidy(out) == tidy(total),
                "at once: " + out + "in pieces: " + total);
        c.label("at once");
      }
      if (checks && outputs >= 4) c.nontrivial(c.desc_);
    } catch (const Budget&) {
      c.label("budget");
    }
  });
  if (!finished) c.label("time");
}

PBT_TARGET("C31", smt2_reject, 8000,
           "random scripts as above with one error at the end: unknown names "
           "(never declared, out of the scope of a let, forall, define-fun or "
           "pop), unknown functions, commands, sorts or logics, arguments of "
           "the wrong number or sort, unbalanced parentheses, quantifiers or "
           "options that are not supported, pops without a push; the script is rejected "
           "(a false return value or an exception) and nothing is asserted; "
           "non-trivial: at least 3 correct commands before") {
  Script sc{s};
  sc.declare(Type::CONTINUOUS);
  sc.declare(Type::BOOLEAN);
  const int len = s.range(0, 6);
  for (int i = 0; i < len; ++i) {
    switch (s.weighted({4, 2, 2, 2, 2, 2})) {
      case 0: sc.assertion(); break;
      case 1: sc.declare(sc.a_type(true)); break;
      case 2: sc.define_function(); break;
      case 3: sc.define_constant(); break;
      case 4: sc.push(); break;
      default: sc.pop(); break;
    }
  }
  const size_t good = sc.text.size();
  Printer pr = sc.printer();
  // a term or formula with something in its place
  auto real = [&]() { return pr.print(sc.small()); };
  auto boolean = [&]() { return pr.print(sc.small_f()); };
  std::function<string(const string&, int)> around_n, around_f;
  around_n = [&](const string& t, int depth) -> string {
    if (depth == 0) return t;
    switch (s.draw(5)) {
      case 0: return around_n("(+ " + real() + " " + t + ")", depth - 1);
      case 1: return around_n("(* " + t + " " + real() + ")", depth - 1);
      case 2: return around_n("(sin " + t + ")", depth - 1);
      case 3: return around_n("(ite " + boolean() + " " + t + " " + real() + ")", depth - 1);
      default: return around_n("(let ((zz " + t + ")) (- zz))", depth - 1);
    }
  };
  around_f = [&](const string& t, int depth) -> string {
    if (depth == 0) return t;
    switch (s.draw(5)) {
      case 0: return around_f("(and " + boolean() + " " + t + ")", depth - 1);
      case 1: return around_f("(or " + t + " " + boolean() + ")", depth - 1);
      case 2: return around_f("(not " + t + ")", depth - 1);
      case 3: return around_f("(=> " + t + " " + boolean() + ")", depth - 1);
      default: return around_f("(let ((zz " + t + ")) (not zz))", depth - 1);
    }
  };
  auto assertion = [&](const string& f) {
    return "(assert " + around_f(f, s.range(0, 2)) + ")";
  };
  auto on_term = [&](const string& t) {
    return assertion("(<= " + around_n(t, s.range(0, 2)) + " " + real() + ")");
  };
  string bad, kind;
  switch (s.draw(13)) {
    case 0:
      kind = "unknown name";
      bad = s.chance(1, 2) ? on_term("nobody") : assertion("nobody");
      break;
    case 1: {
      kind = "out of scope";
      switch (s.draw(5)) {
        case 0: bad = "(assert (let ((w 1)) true)) " + on_term("w"); break;
        case 1:
          bad = "(assert (forall ((w Real [0, 1])) (<= w 2))) " + on_term("w");
          break;
        case 2:
          bad = "(define-fun g0 ((w Real)) Real (+ w 1)) " + on_term("w");
          break;
        case 3:
          bad = cat("(push 1) (declare-const w Real) (pop 1) ") + on_term("w");
          break;
        default:
          bad = "(push 2) (define-fun g1 ((w Real)) Real (+ w 1)) (pop 1) " +
                string("(pop 1) ") + on_term("(g1 2)");
      }
      if (bad.find("(assert (let") == 0 || bad.find("(assert (forall") == 0) kind += " ";
      break;
    }
    case 2:
      kind = "unknown function";
      bad = on_term("(nothing " + real() + ")");
      break;
    case 3: {
      kind = "number of arguments";
      const string def = "(define-fun g2 ((w Real) (q Real)) Real (+ w q)) ";
      switch (s.draw(6)) {
        case 0: bad = def + on_term("(g2 " + real() + ")"); break;
        case 1:
          bad = def + on_term("(g2 " + real() + " " + real() + " " + real() + ")");
          break;
        case 2: bad = on_term("(sin " + real() + " " + real() + ")"); break;
        case 3: bad = on_term("(pow " + real() + ")"); break;
        case 4: bad = assertion("(< " + real() + ")"); break;
        default: bad = assertion("(not " + boolean() + " " + boolean() + ")");
      }
      break;
    }
    case 4: {
      kind = "sorts";
      const string def = "(define-fun g3 ((w Real) (q Bool)) Real (ite q w 1)) ";
      switch (s.draw(12)) {
        case 0: bad = on_term("(+ " + real() + " " + boolean() + ")"); break;
        case 1: bad = on_term("(+ " + boolean() + " " + real() + ")"); break;
        case 2: bad = on_term("(exp " + boolean() + ")"); break;
        case 3: bad = assertion("(and " + boolean() + " " + real() + ")"); break;
        case 4: bad = assertion("(not " + real() + ")"); break;
        case 5: bad = assertion("(= " + real() + " " + boolean() + ")"); break;
        case 6: bad = assertion("(< " + real() + " " + boolean() + ")"); break;
        case 7: bad = on_term("(ite " + real() + " " + real() + " " + real() + ")"); break;
        case 8:
          bad = s.chance(1, 2)
                    ? on_term("(ite " + boolean() + " " + real() + " " + boolean() + ")")
                    : assertion("(ite " + boolean() + " " + real() + " " + boolean() + ")");
          break;
        case 9: bad = "(assert " + real() + ")"; break;
        case 10: bad = def + on_term("(g3 " + boolean() + " " + boolean() + ")"); break;
        default: bad = def + on_term("(g3 " + real() + " " + real() + ")"); break;
      }
      break;
    }
    case 5:
      kind = "sort of a definition";
      if (s.chance(1, 2))
        bad = "(define-fun g4 ((w Real)) Bool (+ w 1)) " + assertion("(g4 1)");
      else
        bad = "(define-fun g4 ((w Real)) Real (< w 1)) " + on_term("(g4 1)");
      break;
    case 6: {
      kind = "parentheses";
      bad = assertion(boolean());
      // drop or add one
      vector<size_t> at;
      for (size_t i = 0; i < bad.size(); ++i)
        if (bad[i] == '(' || bad[i] == ')') at.push_back(i);
      if (s.chance(1, 2))
        bad.erase(s.pick(at), 1);
      else
        bad.insert(s.pick(at), s.chance(1, 2) ? "(" : ")");
      break;
    }
    case 7:
      kind = "unknown sort";
      bad = "(declare-const w " + string(s.chance(1, 2) ? "Rational" : "real") + ")";
      break;
    case 8:
      kind = "unknown command";
      bad = s.chance(1, 2) ? "(asert " + boolean() + ")"
                           : "(check-satisfiability)";
      break;
    case 9: {
      kind = "pop";
      bad = cat("(pop ", sc.levels.size() - 1 + s.range(1, 2), ")");
      if (s.chance(1, 4)) bad = s.chance(1, 2) ? "(push 0)" : "(pop -1)";
      break;
    }
    case 10: {
      kind = "option";
      static const vector<string> bads = {"(set-option :precision 0.0)",
                                          "(set-option :precision -0.5)",
                                          "(set-option :polytope maybe)",
                                          "(set-option :precision)",
                                          "(set-option :produce-models 1.0.0)"};
      bad = s.pick(bads);
      break;
    }
    case 11:
      kind = "quantifier";
      bad = assertion(s.chance(1, 2) ? "(exists ((w Real [0, 1])) (<= w 2))"
                                     : "(forall (w Real) (<= w 2))");
      break;
    default: {
      kind = "empty";
      static const vector<string> bads = {
          "(assert)", "(assert ())", "(let ((w 1)) w)", "true", "(+)",
          "(assert (and))", "(assert (let (w 1) true))", "(declare-fun w Real)",
          "(declare-const w)", "(set-logic)", "(check-sat", "(get-value ())",
          "(declare-const w Real [0 1])", "(declare-const w Real [0, 1)",
          "(declare-const |a\\b| Real)", "(declare-const |a\\|| Real)",
          "(declare-const |a b Real)"};
      bad = s.pick(bads);
    }
  }
  if (s.chance(1, 2)) {
    sc.text += bad + "\n";
  } else {
    sc.text += bad;
  }
  c.describe(sc.text);
  c.label(kind);
  Smt2Driver driver;
  auto run = [&](const string& t, string* err) {
    bool ok = false;
    Capture cap;
    try {
      ok = driver.parse_string(t);
    } catch (const std::exception& e) {
      *err = e.what();
    }
    return ok;
  };
  string err;
  // one by one, the correct part is accepted
  if (s.chance(1, 2)) {
    const bool ok = run(sc.text.substr(0, good), &err);
    if (!ok && err.find("NaN is detected") != string::npos) c.discard();
    c.check(ok, "rejected: " + err);
    const size_t n = driver.mutable_context().assertions().size();
    c.check(!run(bad, &err), "accepted: " + bad);
    // nothing but what precedes the error in it
    if (bad[0] == '(' && bad.find(") (") == string::npos &&
        bad.find("zz") == string::npos && bad.find("(let") == string::npos)
      c.check(driver.mutable_context().assertions().size() == n ||
                  kind == "parentheses" || kind == "pop",
              "the rejected command has an effect: " + bad);
  } else {
    c.check(!run(sc.text, &err), "accepted");
  }
  c.count();
  if (len >= 3) c.nontrivial(c.desc_);
}

namespace {
// A term of an optimisation problem in SMT-LIB.
string opt_num(double v, Src& s) {
  const string t = v == std::floor(v) && s.chance(1, 2) ? cat(static_cast<int>(std::fabs(v)))
                                                        : cat(std::fabs(v)) + (v == std::floor(v) ? ".0" : "");
  return std::signbit(v) && v != 0 ? "(- " + t + ")" : t;
}
string opt_term(const N& n, Src& s) {
  static const std::map<Op, string> ops = {{Op::Add, "+"}, {Op::Sub, "-"}, {Op::Mul, "*"}, {Op::Pow, "^"}};
  if (n->op == Op::Const) return opt_num(n->c, s);
  if (n->op == Op::Var) return n->v ? "y" : "x";
  string r = "(" + ops.at(n->op);
  for (const N& a : n->a) r += " " + opt_term(a, s);
  return r + ")";
}
}  // namespace

PBT_TARGET("C31", smt2_optimum, 1500,
           "scripts with minimize or maximize of quadratic and linear terms over one "
           "or two variables with linear constraints that hold at a planted point "
           "with a margin: never unsat, the model is in the bounds, violates no "
           "constraint by more than delta, no feasible point of a grid is better "
           "by more than 2 delta; non-trivial: a constraint and an answer") {
  const optimum::Problem r = optimum::gen(s, 1);
  const bool maximize = s.chance(1, 2);
  string t = "(set-logic QF_NRA)\n";
  const bool functions = s.chance(1, 3), bounds = s.chance(1, 2);
  const string names[] = {"x", "y"};
  for (int i = 0; i < r.n; ++i) {
    t += (functions ? "(declare-const " : "(declare-fun ") + names[i] + (functions ? " Real" : " () Real");
    if (!functions && bounds)
      t += " [" + opt_num(r.lb[i], s) + ", " + opt_num(r.ub[i], s) + "])\n";
    else
      t += ")\n(assert (<= " + opt_num(r.lb[i], s) + " " + names[i] + "))\n(assert (>= " +
           opt_num(r.ub[i], s) + " " + names[i] + "))\n";
  }
  for (const auto& l : r.cs)
    t += string("(assert (") + (l.le ? "<= " : ">= ") + opt_term(optimum::term(l), s) + " " + opt_num(l.b, s) + "))\n";
  const string obj = opt_term(optimum::term(r.fs[0]), s);
  if (s.chance(1, 4))
    t += "(define-fun cost ((x Real) (y Real)) Real " + obj + ")\n(" + (maximize ? "maximize" : "minimize") +
         " (cost x " + (r.n > 1 ? "y" : "x") + "))\n";
  else
    t += string("(") + (maximize ? "maximize " : "minimize ") + obj + ")\n";
  t += "(check-sat)\n";
  Config cf;
  cf.mutable_precision() = r.delta;
  cf.mutable_produce_models() = true;
  if (s.chance(1, 3)) cf.mutable_use_local_optimization() = true;
  int budget = 500;
  cf.mutable_brancher() = [&budget](const Box& b, const DynamicBitset& a, Box* l, Box* r) {
    if (--budget < 0) throw Budget{};
    return BranchLargestFirst(b, a, l, r);
  };
  c.describe(t + cat("delta ", r.delta));
  c.label(maximize ? "maximize" : "minimize");
  const bool finished = pbt::limited(c, 3.0, [&](Ctx& c) {
    string out;
    bool ok = false;
    {
      Capture cap;
      try {
        Smt2Driver d{Context{cf}};
        ok = d.parse_string(t);
      } catch (const Budget&) {
        c.label("budget");
        return;
      }
      out = cap.done();
    }
    c.check(ok, "rejected");
    const vector<string> ls = lines(out);
    std::ostringstream yes;
    yes << "delta-sat with delta = " << r.delta;
    c.check(ls.size() == static_cast<size_t>(1 + r.n) && ls[0] == yes.str(), "answer: " + out);
    vector<double> lo(r.n), hi(r.n);
    for (int i = 0; i < r.n; ++i)
      c.check(ls[1 + i].rfind(names[i] + " : ", 0) == 0 &&
                  parse_interval(ls[1 + i].substr(4), &lo[i], &hi[i]),
              "answer: " + out);
    optimum::judge(c, r, lo, hi, maximize ? -1 : 1);
    c.count();
    if (!r.cs.empty()) c.nontrivial(c.desc_);
  });
  if (!finished) c.label("time");
}
