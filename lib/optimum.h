// Small optimisation problems for the front ends: the harness knows points that
// are feasible with a margin, and what is the best of their values.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include <string>
#include <vector>

#include "ast.h"
#include "pbt.h"

namespace optimum {
using ast::N;
using ast::Op;
using pbt::cat;

struct Linear {  // a x <= b, or >=
  std::vector<double> a;
  double b;
  bool le;
};
struct Cost {  // sum w (x - c)^2 + v x
  std::vector<double> w, c, v;
  double at(const std::vector<double>& q) const {
    double r = 0;
    for (size_t i = 0; i < q.size(); ++i) r += w[i] * (q[i] - c[i]) * (q[i] - c[i]) + v[i] * q[i];
    return r;
  }
};
struct Problem {
  int n;
  double delta;
  std::vector<double> p, lb, ub;
  std::vector<Linear> cs;
  std::vector<Cost> fs;
};

inline Problem gen(pbt::Src& s, int costs) {
  Problem r;
  r.n = s.weighted({2, 3}) + 1;
  static const std::vector<double> deltas = {0.1, 0.01, 0.03, 0.25};
  r.delta = s.pick(deltas);
  for (int i = 0; i < r.n; ++i) {
    const double p = s.range(-12, 12) / 4.0;
    r.p.push_back(p);
    r.lb.push_back(p - s.range(2, 16) / 4.0);
    r.ub.push_back(p + s.range(2, 16) / 4.0);
  }
  const int k = s.weighted({1, 3, 2});
  for (int j = 0; j < k; ++j) {
    Linear l;
    double at = 0;
    bool zero = true;
    for (int i = 0; i < r.n; ++i) {
      l.a.push_back(s.range(-2, 2));
      zero = zero && l.a[i] == 0;
      at += l.a[i] * r.p[i];
    }
    if (zero) l.a[0] = 1, at = r.p[0];
    l.le = s.chance(1, 2);
    const double gap = s.range(2, 8) / 4.0;
    l.b = l.le ? at + gap : at - gap;
    r.cs.push_back(l);
  }
  static const std::vector<double> ws = {0, 0, 0, 1, 1, 0.5, -1, 2};
  for (int j = 0; j < costs; ++j) {
    Cost f;
    bool zero = true;
    for (int i = 0; i < r.n; ++i) {
      f.w.push_back(s.pick(ws));
      f.c.push_back(s.range(-8, 8) / 4.0);
      f.v.push_back(s.range(-4, 4) / 2.0);
      zero = zero && f.w[i] == 0 && f.v[i] == 0;
    }
    if (zero) f.v[0] = 1;
    r.fs.push_back(f);
  }
  return r;
}

inline double left(const Linear& l, const std::vector<double>& q) {
  double t = 0;
  for (size_t i = 0; i < q.size(); ++i) t += l.a[i] * q[i];
  return t;
}
inline N sum(std::vector<N> ts) {
  N r = ts[0];
  for (size_t i = 1; i < ts.size(); ++i) r = ast::mk(Op::Add, {r, ts[i]});
  return r;
}
inline N times(double a, const N& e) { return a == 1 ? e : ast::mk(Op::Mul, {ast::cst(a), e}); }
inline N term(const Linear& l) {
  std::vector<N> ts;
  for (size_t i = 0; i < l.a.size(); ++i)
    if (l.a[i]) ts.push_back(times(l.a[i], ast::var(static_cast<int>(i))));
  return sum(ts);
}
inline N term(const Cost& f) {
  std::vector<N> ts;
  for (size_t i = 0; i < f.w.size(); ++i) {
    const N x = ast::var(static_cast<int>(i));
    if (f.w[i])
      ts.push_back(times(f.w[i], ast::mk(Op::Pow, {ast::mk(Op::Sub, {x, ast::cst(f.c[i])}), ast::cst(2)})));
    if (f.v[i]) ts.push_back(times(f.v[i], x));
  }
  return sum(ts);
}

// Judges the box [lo, hi]; sign -1: the costs are maximized.
inline void judge(pbt::Ctx& c, const Problem& r, const std::vector<double>& lo,
                  const std::vector<double>& hi, double sign) {
  const double d = r.delta;
  std::vector<std::vector<double>> pts;
  for (int m = 0; m < (1 << r.n); ++m) {
    std::vector<double> q;
    for (int i = 0; i < r.n; ++i) q.push_back(m >> i & 1 ? hi[i] : lo[i]);
    pts.push_back(q);
  }
  std::vector<double> mid;
  for (int i = 0; i < r.n; ++i) {
    c.check(r.lb[i] <= lo[i] && lo[i] <= hi[i] && hi[i] <= r.ub[i],
            cat("the model has x", i, " in [", lo[i], ", ", hi[i], "], outside of its bounds"));
    mid.push_back(lo[i] + (hi[i] - lo[i]) / 2);
  }
  pts.push_back(mid);
  const double eps = 1e-6;
  std::vector<double> got(r.fs.size(), -HUGE_VAL);
  for (const auto& q : pts) {
    for (const Linear& l : r.cs) {
      const double t = left(l, q);
      c.check(l.le ? t <= l.b + d + eps : t >= l.b - d - eps,
              cat("a constraint is violated by more than delta at ", ast::show(q)));
    }
    for (size_t j = 0; j < r.fs.size(); ++j) got[j] = std::max(got[j], sign * r.fs[j].at(q));
  }
  // Feasible points with a margin.
  const int steps = 32;
  std::vector<int> k(r.n, 0);
  for (;;) {
    std::vector<double> q;
    for (int i = 0; i < r.n; ++i) {
      const double a = r.lb[i] + d * 1.001, b = r.ub[i] - d * 1.001;
      q.push_back(a + (b - a) * k[i] / steps);
    }
    bool ok = true;
    for (const Linear& l : r.cs) {
      const double t = left(l, q);
      ok = ok && (l.le ? t <= l.b - d * 1.001 : t >= l.b + d * 1.001);
    }
    if (ok) {
      bool beats = true;
      for (size_t j = 0; j < r.fs.size(); ++j)
        beats = beats && sign * r.fs[j].at(q) < got[j] - 2 * d - eps;
      c.check(!beats, cat("the model ", ast::show(mid), " has the objective ", sign * got[0],
                          ", but the feasible point ", ast::show(q), " has ", r.fs[0].at(q)));
    }
    int i = 0;
    while (i < r.n && ++k[i] > steps) k[i++] = 0;
    if (i == r.n) break;
  }
}
}  // namespace optimum
