// Delta-strengthening and delta-weakening.
#include "ast.h"

using namespace dreal;  // NOLINT
using namespace ast;    // NOLINT
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
constexpr int kReal = 3, kBool = 2;

// The perturbed formula.  A strengthened equality has no canonical form: it is
// `eq_lo` (false) in one model and left alone in the other.
F perturb(const F& f, double d, bool eq_lo) {
  if (f->op == FOp::Not)
    return conn(FOp::Not, {perturb(f->f[0], -d, eq_lo)});
  if (f->op == FOp::And || f->op == FOp::Or) {
    std::vector<F> a;
    for (const F& g : f->f) a.push_back(perturb(g, d, eq_lo));
    return conn(f->op, a);
  }
  if (!is_rel(f->op)) return f;
  const N l = f->e[0], r = f->e[1];
  const N plus = mk(Op::Add, {r, cst(d)});
  const N minus = mk(Op::Sub, {r, cst(d)});
  switch (f->op) {
    case FOp::Gt: return rel(FOp::Gt, l, plus);
    case FOp::Ge: return rel(FOp::Ge, l, plus);
    case FOp::Lt: return rel(FOp::Lt, l, minus);
    case FOp::Le: return rel(FOp::Le, l, minus);
    case FOp::Eq:
      if (d > 0) return eq_lo ? ffalse() : f;
      // |l - r| <= -d
      return conn(FOp::And, {rel(FOp::Ge, l, plus), rel(FOp::Le, l, minus)});
    case FOp::Ne:
      if (d > 0)
        return conn(FOp::Or, {rel(FOp::Gt, l, plus), rel(FOp::Lt, l, minus)});
      return ftrue();
    default: abort();
  }
}
bool has_ite(const F& f) {
  for (const N& a : f->e)
    if (has_op(a, [](const Node& k) { return k.op == Op::Ite; })) return true;
  for (const F& g : f->f)
    if (has_ite(g)) return true;
  return false;
}
int count_rel(const F& f) {
  int n = is_rel(f->op) ? 1 : 0;
  for (const F& g : f->f) n += count_rel(g);
  return n;
}
}  // namespace

PBT_TARGET("C07", delta, 300000,
           "random quantifier-free formula without if-then-else (half of the "
           "relations of the form term-constant or variable-variable), two "
           "perturbations from 2^-20 to 1000; at 8 points (multiples of 1/64, "
           "many on the perturbed bounds) the results are compared with an "
           "independent model of the perturbation, with the formula and with "
           "each other; non-trivial: a negation or equality, 2 relations, and "
           "the perturbation changed the truth value at a point") {
  const Vars vs = s.chance(1, 8) ? make_twins(kReal, kBool)
                                 : make_vars2(kReal, kBool);
  GenOpt o;
  o.nvars = kReal;
  o.bool_vars = {3, 4};
  o.ite = false;
  o.trans = s.chance(1, 3);
  o.division = s.chance(1, 4);
  o.minmax = s.chance(1, 3);
  o.inexact_consts = s.chance(1, 6);
  o.real_consts = s.chance(1, 5);
  o.max_terms = s.chance(1, 2) ? 1 : 5;
  o.max_size = 20;
  static const std::vector<double> deltas = {
      0.5, 0.25, 1, 0.015625, 2, 0.001, 1e-3, 3.5, 0.1, 9.5367431640625e-07,
      1000};
  double d1 = s.pick(deltas), d2 = s.pick(deltas);
  if (d1 > d2) std::swap(d1, d2);
  const F f = gen_formula(s, o, s.range(0, 3));
  c.describe(cat(show(f), "  delta=", d1, ",", d2));
  Formula g = Formula::True();
  try {
    g = build(f, vs);
  } catch (const std::exception&) {
    c.discard();
  }
  c.add(cat("  ~>  ", g));
  const F r = reflect(g, vs);
  if (has_ite(r)) c.discard();
  bool nan = false;
  std::function<void(const F&)> look = [&](const F& h) {
    for (const N& a : h->e)
      nan = nan || has_op(a, [](const Node& k) {
              return k.op == Op::Const && !std::isfinite(k.c);
            });
    for (const F& x : h->f) look(x);
  };
  look(r);
  if (nan) c.discard();
  Formula out[2][2] = {{g, g}, {g, g}};
  F lo[2][2], hi[2][2], back[2][2];
  for (int k = 0; k < 2; ++k) {
    const double d = k ? d2 : d1;
    for (int w = 0; w < 2; ++w) {
      try {
        out[k][w] = w ? DeltaWeaken(g, d) : DeltaStrengthen(g, d);
      } catch (const std::exception& ex) {
        c.fail(cat(w ? "DeltaWeaken" : "DeltaStrengthen", "(", d, ") threw ",
                   ex.what()));
      }
      lo[k][w] = perturb(r, w ? -d : d, true);
      hi[k][w] = perturb(r, w ? -d : d, false);
      back[k][w] = reflect(out[k][w], vs);
    }
  }
  bool changed = false;
  for (int i = 0; i < 8; ++i) {
    std::vector<double> p = gen_point(s, kReal);
    for (int j = 0; j < kBool; ++j) p.push_back(static_cast<double>(s.draw(2)));
    if (s.chance(1, 2)) {
      const int j = static_cast<int>(s.draw(kReal));
      const double d = s.chance(1, 2) ? d1 : d2;
      p[j] += s.chance(1, 2) ? d : -d;
    }
    const BResult v = evaluate(r, p);
    bool got[2][2] = {{false, false}, {false, false}};
    bool have[2][2] = {{false, false}, {false, false}};
    for (int k = 0; k < 2; ++k)
      for (int w = 0; w < 2; ++w) {
        const BResult a = evaluate(lo[k][w], p), b = evaluate(hi[k][w], p);
        const BResult q = evaluate(back[k][w], p);
        if (!a.reliable || !b.reliable || !q.reliable) continue;
        const double d = k ? d2 : d1;
        const char* name = w ? "weakening" : "strengthening";
        const bool low = a.value && b.value, high = a.value || b.value;
        c.check(low <= q.value && q.value <= high,
                cat(name, " of ", g, " by ", d, " is ", out[k][w], ", which is ",
                    q.value, " at ", show(p), "; expected between ", low,
                    " and ", high));
        got[k][w] = q.value;
        have[k][w] = true;
        if (v.reliable) {
          if (w == 0)
            c.check(!q.value || v.value, cat(name, " by ", d, ": ", out[k][w],
                                             " does not imply ", g, " at ", show(p)));
          else
            c.check(q.value || !v.value, cat(name, " by ", d, ": ", out[k][w],
                                             " is not implied by ", g, " at ", show(p)));
          if (q.value != v.value) {
            changed = true;
            c.label(w ? "weakening adds the point" : "strengthening loses the point");
          }
        }
      }
    if (have[0][0] && have[1][0])
      c.check(!got[1][0] || got[0][0], cat("strengthening is not monotone at ", show(p)));
    if (have[0][1] && have[1][1])
      c.check(!got[0][1] || got[1][1], cat("weakening is not monotone at ", show(p)));
  }
  bool special = false;
  std::function<void(const F&)> look2 = [&](const F& h) {
    if (h->op == FOp::Not || h->op == FOp::Eq || h->op == FOp::Ne) special = true;
    for (const F& x : h->f) look2(x);
  };
  look2(r);
  if (special && changed && count_rel(r) >= 2) c.nontrivial(show(f));
}
