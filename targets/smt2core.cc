// SMT-LIB vocabulary: terms, sorts, logics, commands.
#include <fmt/ostream.h>

#include "ast.h"
#include "dreal/smt2/command.h"
#include "dreal/smt2/command_cell.h"
#include "dreal/smt2/logic.h"
#include "dreal/smt2/sort.h"
#include "dreal/smt2/term.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
const std::vector<std::pair<std::string, Logic>> kLogics{
    {"ALL", Logic::ALL},       {"QF_LIA", Logic::QF_LIA},
    {"QF_LIRA", Logic::QF_LIRA}, {"QF_LRA", Logic::QF_LRA},
    {"QF_NIA", Logic::QF_NIA}, {"QF_NIAT", Logic::QF_NIAT},
    {"QF_NIRA", Logic::QF_NIRA}, {"QF_NIRAT", Logic::QF_NIRAT},
    {"QF_NRA", Logic::QF_NRA}, {"QF_NRAT", Logic::QF_NRAT},
    {"QF_RDL", Logic::QF_RDL}};
const std::vector<std::pair<std::string, Sort>> kSorts{
    {"Real", Sort::Real}, {"Int", Sort::Int}, {"Bool", Sort::Bool},
    {"Binary", Sort::Binary}};
const std::vector<Variable::Type> kTypeOfSort{
    Variable::Type::CONTINUOUS, Variable::Type::INTEGER,
    Variable::Type::BOOLEAN, Variable::Type::BINARY};

// A name of the list, or one edit away from one, or arbitrary text.
template <typename L>
std::string name_near(Src& s, const L& list) {
  std::string n = list[s.draw(list.size())].first;
  const int edits = s.range(0, 2);
  for (int i = 0; i < edits; ++i) {
    const size_t at = s.draw(n.size() + 1);
    static const std::string alpha = "ABLQFNRTIDealnty_ 0)xq";
    const char ch = alpha[s.draw(alpha.size())];
    switch (s.draw(4)) {
      case 0: n.insert(at, 1, ch); break;
      case 1: if (at < n.size()) n.erase(at, 1); break;
      case 2: if (at < n.size()) n[at] = ch; break;
      default: if (at < n.size()) n[at] ^= 0x20;
    }
  }
  return n;
}
template <typename T>
std::string text(const T& t) {
  std::ostringstream os;
  os << t;
  return os.str();
}
template <typename Fn>
bool throws(Fn fn) {
  try {
    fn();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
}  // namespace

PBT_TARGET("C20", sort_logic_names, 100000,
           "names of sorts and logics, exact or 1-2 edits away; parsing must "
           "accept exactly the documented names, give the named object, and "
           "printing must give the name back; non-trivial: an edited name") {
  const std::string l = name_near(s, kLogics);
  const std::string t = name_near(s, kSorts);
  c.describe(cat("'", l, "' '", t, "'"));
  bool known = false;
  for (const auto& p : kLogics)
    if (p.first == l) {
      known = true;
      c.check(parse_logic(l) == p.second, cat("parse_logic(", l, ")"));
      c.check(text(parse_logic(l)) == l, cat("text of logic ", l));
    }
  const bool known_logic = known;
  if (!known)
    c.check(throws([&] { parse_logic(l); }), cat("logic '", l, "' accepted"));
  known = false;
  for (size_t i = 0; i < kSorts.size(); ++i)
    if (kSorts[i].first == t) {
      known = true;
      const Sort r = ParseSort(t);
      c.check(r == kSorts[i].second, cat("ParseSort(", t, ")"));
      c.check(text(r) == t, cat("text of sort ", t));
      c.check(SortToType(r) == kTypeOfSort[i], cat("type of sort ", t));
    }
  if (!known)
    c.check(throws([&] { ParseSort(t); }), cat("sort '", t, "' accepted"));
  if (!known || !known_logic) c.nontrivial(c.desc_);
}

PBT_TARGET("C20", commands, 30000,
           "every command over generated contents; the text must be the "
           "SMT-LIB command with the contents and the accessors must return "
           "them, also through copies; non-trivial: a command with contents") {
  const Vars vs = make_vars2(3, 2);
  GenOpt o;
  o.nvars = 3;
  o.bool_vars = {3, 4};
  o.max_terms = 3;
  const std::string k = ":" + name_near(s, kSorts), v = name_near(s, kLogics);
  const int level = s.range(0, 3) == 0 ? s.range(0, 100000) : s.range(0, 4);
  const Logic lg = kLogics[s.draw(kLogics.size())].second;
  const int which = s.range(0, 8);
  Formula f = Formula::True();
  if (which == 0) {
    try {
      f = build(gen_formula(s, o, 2), vs);
    } catch (const std::exception&) {
      c.discard();
    }
  }
  auto make = [&]() {
    switch (which) {
      case 0: return assert_command(f);
      case 1: return push_command(level);
      case 2: return pop_command(level);
      case 3: return set_info_command(k, v);
      case 4: return set_option_command(k, v);
      case 5: return set_logic_command(lg);
      case 6: return check_sat_command();
      case 7: return exit_command();
      default: return reset_command();
    }
  };
  const std::vector<std::string> want{
      "(assert " + f.to_string() + ")",
      "(push " + std::to_string(level) + ")",
      "(pop " + std::to_string(level) + ")",
      "(set-info " + k + " " + v + ")",
      "(set-option " + k + " " + v + ")",
      "(set-logic " + text(lg) + ")",
      "(check-sat)",
      "(exit)",
      "(reset)"};
  c.describe(want[which]);
  Command a = make();
  Command b{a};
  Command d = check_sat_command();
  d = b;
  c.check(text(a) == want[which], cat("text ", text(a)));
  a = exit_command();
  c.check(text(a) == "(exit)" && text(b) == want[which] &&
              text(d) == want[which],
          "copies of a command");
  // The cells.
  AssertCommand ac{f};
  c.check(ac.get_assertion().EqualTo(f), "get_assertion");
  c.check(PushCommand{level}.get_level() == level &&
              PopCommand{level}.get_level() == level, "get_level");
  SetInfoCommand si{k, v};
  c.check(si.get_key() == k && si.get_value() == v, "set-info contents");
  c.check(SetLogicCommand{lg}.get_logic() == lg, "set-logic contents");
  c.check(EchoCommand{v}.get_message() == v, "echo contents");
  c.check(GetOptionCommand{k}.get_key() == k, "get-option contents");
  auto shown = [](const CommandCell& cell) {
    std::ostringstream os;
    cell.Display(os);
    return os.str();
  };
  c.check(shown(EchoCommand{v}) == "(echo " + v + ")" &&
              shown(GetOptionCommand{k}) == "(get-option " + k + ")" &&
              shown(GetModelCommand{}) == "(get-model)" &&
              shown(GetAssertionsCommand{}) == "(get-assertions)" &&
              shown(GetProofCommand{}) == "(get-proof)" &&
              shown(GetUnsatAssumptionsCommand{}) ==
                  "(get-unsat-assumptions)" &&
              shown(GetUnsatCoreCommand{}) == "(get-unsat-core)" &&
              shown(ResetAssertionsCommand{}) == "(reset-assertions)",
          "text of a command cell");
  if (which <= 5) c.nontrivial(c.desc_);
}

namespace {
// The model of a term: a tree of one of the two kinds.
struct MTerm {
  bool is_expr;
  Expression e;
  Formula f{Formula::False()};
};
void check_term(const Term& t, const MTerm& m, Ctx& c) {
  c.check((t.type() == Term::Type::EXPRESSION) == m.is_expr, "type()");
  if (m.is_expr) {
    c.check(t.expression().EqualTo(m.e),
            cat("expression() is ", t.expression(), " expected ", m.e));
    c.check(throws([&] { t.formula(); }), "formula() of an expression");
    c.check(text(t) == m.e.to_string(), "text of a term");
  } else {
    c.check(t.formula().EqualTo(m.f),
            cat("formula() is ", t.formula(), " expected ", m.f));
    c.check(throws([&] { t.expression(); }), "expression() of a formula");
    c.check(text(t) == m.f.to_string(), "text of a term");
  }
  for (size_t i = 0; i < kSorts.size(); ++i) {
    const bool ok = (kSorts[i].second != Sort::Bool) == m.is_expr;
    c.check(throws([&] { t.Check(kSorts[i].second); }) != ok,
            cat("Check(", kSorts[i].first, ")"));
    c.check(throws([&] { t.Check(kTypeOfSort[i]); }) != ok,
            cat("Check(type of ", kSorts[i].first, ")"));
  }
}
}  // namespace

PBT_TARGET("C20", terms, 40000,
           "histories of up to 8 operations on 3 terms: construction from and "
           "assignment of expressions and formulas, copies, moves, mutation "
           "through the mutable accessors, and substitution of variables of "
           "all four types, compared with substitution in the contents and "
           "its semantics at 3 points; every accessor and sort check is "
           "called after each step; non-trivial: a substitution that changes "
           "a term") {
  Vars vs;
  vs.v = {Variable{"x"}, Variable{"y", Variable::Type::INTEGER},
          Variable{"z", Variable::Type::BINARY},
          Variable{"p", Variable::Type::BOOLEAN},
          Variable{"q", Variable::Type::BOOLEAN}};
  GenOpt o;
  o.nvars = 3;
  o.bool_vars = {3, 4};
  o.max_terms = 4;
  auto ge = [&] {
    try {
      return build(gen_expr(s, o), vs);
    } catch (const std::exception&) {
      c.discard();
    }
  };
  auto gf = [&] {
    try {
      return build(gen_formula(s, o, s.range(0, 2)), vs);
    } catch (const std::exception&) {
      c.discard();
    }
  };
  std::vector<Term> t(3);
  std::vector<MTerm> m(3);
  for (auto& x : m) x.is_expr = false;  // a default term is False
  for (int i = 0; i < 3; ++i) check_term(t[i], m[i], c);
  for (int i = 0; i < 3; ++i) {
    if (s.chance(1, 4)) continue;
    m[i].is_expr = s.chance(1, 2);
    if (m[i].is_expr)
      t[i] = Term{m[i].e = ge()};
    else
      t[i] = Term{m[i].f = gf()};
  }
  bool nt = false;
  const int steps = s.range(1, 8);
  for (int k = 0; k < steps; ++k) {
    const int i = s.range(0, 2), j = s.range(0, 2);
    const int op = s.range(0, 8);
    c.add(cat("op", op, "(", i, ",", j, ") "));
    switch (op) {
      case 0: { const Expression e = ge(); t[i] = Term{e}; m[i].is_expr = true; m[i].e = e; break; }
      case 1: { const Formula f = gf(); t[i] = Term{f}; m[i].is_expr = false; m[i].f = f; break; }
      case 2: { const Expression e = ge(); t[i] = e; m[i].is_expr = true; m[i].e = e; break; }
      case 3: { const Formula f = gf(); t[i] = f; m[i].is_expr = false; m[i].f = f; break; }
      case 4: t[i] = t[j]; m[i] = MTerm(m[j]); break;
      case 5: { Term u{t[i]}; Term w{std::move(u)}; t[i] = std::move(w); break; }
      case 6:
        if (m[i].is_expr) {
          const Expression e = ge();
          t[i].mutable_expression() += e;
          m[i].e = m[i].e + e;
          c.check(throws([&] { t[i].mutable_formula(); }), "mutable_formula");
        } else {
          const Formula f = gf();
          t[i].mutable_formula() = t[i].formula() && f;
          m[i].f = m[i].f && f;
          c.check(throws([&] { t[i].mutable_expression(); }),
                  "mutable_expression");
        }
        break;
      default: {
        int v = s.range(0, 4);
        const Variables fv =
            m[i].is_expr ? m[i].e.GetVariables() : m[i].f.GetFreeVariables();
        if (!fv.empty() && s.chance(3, 4)) {
          auto it = fv.begin();
          std::advance(it, s.draw(fv.size()));
          v = vs.index(*it);
        }
        const bool boolean = v >= 3;
        Term by;
        Expression be;
        Formula bf{Formula::False()};
        if (boolean) { bf = gf(); by = Term{bf}; } else { be = ge(); by = Term{be}; }
        c.add(cat("[", vs.v[v], " := ", by, " in ", t[i], "] "));
        MTerm want = m[i];
        Term got;
        bool refused = false;
        try {
          if (want.is_expr)
            want.e = boolean ? want.e.Substitute({}, {{vs.v[v], bf}})
                             : want.e.Substitute(vs.v[v], be);
          else
            want.f = boolean ? want.f.Substitute(vs.v[v], bf)
                             : want.f.Substitute(vs.v[v], be);
        } catch (const std::exception&) {
          refused = true;  // the result is undefined (e.g. division by zero)
        }
        if (refused) {
          c.check(throws([&] { t[i].Substitute(vs.v[v], by); }),
                  "substitution did not fail");
          break;
        }
        got = t[i].Substitute(vs.v[v], by);
        check_term(t[i], m[i], c);  // unchanged
        check_term(got, want, c);
        if (want.is_expr ? !want.e.EqualTo(m[i].e) : !want.f.EqualTo(m[i].f))
          nt = true;
        // Meaning: t[v := by] at p is t at p[v -> by(p)].
        for (int r = 0; r < 3; ++r) {
          std::vector<double> p(5);
          for (int d = 0; d < 3; ++d) p[d] = gen_value(s);
          p[3] = s.range(0, 1);
          p[4] = s.range(0, 1);
          std::vector<double> p2 = p;
          if (boolean) {
            const BResult b = evaluate(reflect(bf, vs), p);
            if (!b.defined || !b.reliable) continue;
            p2[v] = b.value;
          } else {
            const ast::Result b = evaluate(reflect(be, vs), p);
            if (!b.defined || !b.reliable || b.tol != 0) continue;
            p2[v] = b.value;
          }
          if (want.is_expr) {
            const ast::Result a = evaluate(reflect(m[i].e, vs), p2);
            const ast::Result b = evaluate(reflect(got.expression(), vs), p);
            if (a.defined && a.reliable && b.defined && b.reliable)
              c.check(close(b.value, a),
                      cat("value ", b.value, " expected ", a.value));
          } else {
            const BResult a = evaluate(reflect(m[i].f, vs), p2);
            const BResult b = evaluate(reflect(got.formula(), vs), p);
            if (a.defined && a.reliable && b.defined && b.reliable)
              c.check(b.value == a.value, "truth value after substitution");
          }
        }
        t[j] = got;
        m[j] = want;
      }
    }
    for (int x = 0; x < 3; ++x) check_term(t[x], m[x], c);
  }
  if (nt) c.nontrivial(c.desc_);
}
