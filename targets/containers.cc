// Variables, sets of variables, environments and the scoped containers,
// against models, over histories of operations.
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include <unordered_map>
#include <unordered_set>

#include <fmt/ostream.h>

#include "dreal/symbolic/symbolic.h"
#include "dreal/util/scoped_unordered_map.h"
#include "dreal/util/scoped_unordered_set.h"
#include "dreal/util/scoped_vector.h"
#include "pbt.h"

using dreal::Expression;
using dreal::Formula;
using dreal::ScopedUnorderedMap;
using dreal::ScopedUnorderedSet;
using dreal::ScopedVector;
using dreal::Variable;
using dreal::Variables;
using dreal::drake::symbolic::Environment;
using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
const std::vector<Variable::Type> kTypes{
    Variable::Type::CONTINUOUS, Variable::Type::INTEGER, Variable::Type::BINARY,
    Variable::Type::BOOLEAN};

std::string name_of(Src& s) {
  static const std::vector<std::string> names{"x", "y", "x", "long_variable_name_42",
                                              "", "a b", "|z|"};
  return s.pick(names);
}

struct Pool {
  std::vector<Variable> v;
  std::vector<std::string> name;
  std::vector<Variable::Type> type;
  std::map<Variable::Id, int> index;
  void create(Src& s) {
    name.push_back(name_of(s));
    type.push_back(s.pick(kTypes));
    v.emplace_back(name.back(), type.back());
    index[v.back().get_id()] = static_cast<int>(v.size()) - 1;
  }
  int idx(const Variable& x, Ctx& c) const {
    const auto it = index.find(x.get_id());
    if (it == index.end()) c.fail(cat("unknown variable id ", x.get_id()));
    return it->second;
  }
};

void same_variable(const Variable& x, const Variable& y, const std::string& name,
                   Variable::Type type, Ctx& c) {
  c.check(x.get_id() == y.get_id() && x.equal_to(y) &&
              std::equal_to<Variable>{}(x, y) && !x.less(y) && !y.less(x) &&
              x.get_hash() == y.get_hash() &&
              std::hash<Variable>{}(x) == std::hash<Variable>{}(y),
          "a copy of a variable differs from it");
  c.check(x.get_name() == name && x.to_string() == name &&
              x.get_type() == type && !x.is_dummy(),
          cat("name / type of a variable changed: ", x.get_name(), " ",
              x.get_type(), " expected ", name, " ", type));
}
}  // namespace

PBT_TARGET("C10", variable_identity, 30000,
           "up to 30 variables with repeated names, then copies, moves, "
           "assignments, sorting and hashed containers; identity, name and "
           "type must survive and ids must be distinct and never 0; "
           "non-trivial: 5 variables with a repeated name") {
  Pool p;
  const int n = s.range(1, 30);
  for (int i = 0; i < n; ++i) p.create(s);
  c.describe(cat(n, " variables"));
  c.check(p.index.size() == p.v.size(), "two variables share an id");
  c.check(p.index.begin()->first != 0, "a named variable has id 0");
  const Variable dummy;
  c.check(dummy.is_dummy() && Variable{}.equal_to(dummy), "dummy variables");
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const bool eq = p.v[i].equal_to(p.v[j]);
      c.check(eq == (i == j), "equal_to of different variables");
      c.check(std::equal_to<Variable>{}(p.v[i], p.v[j]) == eq, "std::equal_to");
      c.check(std::less<Variable>{}(p.v[i], p.v[j]) == p.v[i].less(p.v[j]),
              "std::less");
      c.check(i == j ? !p.v[i].less(p.v[j])
                     : p.v[i].less(p.v[j]) != p.v[j].less(p.v[i]),
              "less is not total");
      c.check(!p.v[i].equal_to(dummy), "a variable equals the dummy");
      // The formula x == y is valid exactly when x is y.
      if (p.type[i] != Variable::Type::BOOLEAN &&
          p.type[j] != Variable::Type::BOOLEAN)
        c.check(is_true(p.v[i] == p.v[j]) == (i == j),
                "formula x == y of variables");
    }
  // Movement.
  std::vector<Variable> w;
  std::vector<int> id;
  for (int i = 0; i < n; ++i) {
    const int k = s.range(0, n - 1);
    switch (s.draw(4)) {
      case 0: w.push_back(p.v[k]); break;
      case 1: {
        Variable t{p.v[k]};
        w.push_back(std::move(t));
        break;
      }
      case 2: {
        Variable t;
        t = p.v[k];
        w.insert(w.begin(), t);
        id.insert(id.begin(), k);
        continue;
      }
      default: {
        Variable t{p.v[k]}, u{"other"};
        std::swap(t, u);
        w.push_back(u);
        same_variable(t, t, "other", Variable::Type::CONTINUOUS, c);
      }
    }
    id.push_back(k);
  }
  for (size_t i = 0; i < w.size(); ++i)
    same_variable(w[i], p.v[id[i]], p.name[id[i]], p.type[id[i]], c);
  std::sort(w.begin(), w.end(), std::less<Variable>{});
  const std::unordered_set<Variable> us(w.begin(), w.end());
  const std::set<Variable> ss(w.begin(), w.end());
  const std::set<int> want(id.begin(), id.end());
  c.check(us.size() == want.size() && ss.size() == want.size(),
          "number of distinct variables in a set");
  for (const Variable& x : us) {
    const int k = p.idx(x, c);
    c.check(want.count(k) && ss.count(x), "unexpected element");
    same_variable(x, p.v[k], p.name[k], p.type[k], c);
  }
  // Through expressions and formulas.
  for (int k : id)
    if (p.type[k] == Variable::Type::BOOLEAN) {
      const Formula f{p.v[k]};
      same_variable(get_variable(f), p.v[k], p.name[k], p.type[k], c);
    } else {
      const Expression e{p.v[k]};
      same_variable(get_variable(e), p.v[k], p.name[k], p.type[k], c);
    }
  const std::set<std::string> names(p.name.begin(), p.name.end());
  if (n >= 5 && static_cast<int>(names.size()) < n) {
    std::string key = cat(n, ":");
    for (int k : id) key += cat(k, ",");
    c.nontrivial(key);
  }
}

PBT_TARGET("C10", variable_threads, 300,
           "2-6 threads create 1-200 variables each at the same time; all ids "
           "must be distinct; every case is non-trivial") {
  const int t = s.range(2, 6);
  const int n = s.range(1, 200);
  c.describe(cat(t, " threads x ", n));
  std::vector<std::vector<Variable>> out(t);
  std::vector<std::thread> ts;
  for (int i = 0; i < t; ++i)
    ts.emplace_back([&out, i, n]() {
      for (int k = 0; k < n; ++k)
        out[i].emplace_back("t" + std::to_string(i) + "_" + std::to_string(k));
    });
  for (std::thread& x : ts) x.join();
  std::set<Variable::Id> ids;
  for (int i = 0; i < t; ++i)
    for (int k = 0; k < n; ++k) {
      ids.insert(out[i][k].get_id());
      c.check(out[i][k].get_name() ==
                  "t" + std::to_string(i) + "_" + std::to_string(k),
              "name of a variable made by a thread");
    }
  c.check(static_cast<int>(ids.size()) == t * n && !ids.count(0),
          "two variables created concurrently share an id");
  c.nontrivial(cat(t, ":", n));
}

namespace {
using Set = std::set<int>;
std::string show(const Set& x) {
  std::string r = "{";
  for (int i : x) r += cat(i, " ");
  return r + "}";
}
void check_set(const Variables& vs, const Set& m, const Pool& p, Ctx& c) {
  Set got;
  for (const Variable& x : vs) {
    const int k = p.idx(x, c);
    got.insert(k);
    same_variable(x, p.v[k], p.name[k], p.type[k], c);
  }
  c.check(got == m, cat("the set is ", show(got), " expected ", show(m)));
  c.check(vs.size() == m.size() && vs.empty() == m.empty(), "size / empty");
  std::vector<Variable::Id> fw, bw, cf, cb;
  for (auto it = vs.begin(); it != vs.end(); ++it) fw.push_back(it->get_id());
  for (auto it = vs.rbegin(); it != vs.rend(); ++it) bw.push_back(it->get_id());
  for (auto it = vs.cbegin(); it != vs.cend(); ++it) cf.push_back(it->get_id());
  for (auto it = vs.crbegin(); it != vs.crend(); ++it)
    cb.push_back(it->get_id());
  c.check(fw.size() == m.size() && fw == cf && bw == cb &&
              std::vector<Variable::Id>(fw.rbegin(), fw.rend()) == bw &&
              std::is_sorted(fw.begin(), fw.end()),
          "iteration order");
  std::string text = "{";
  for (auto it = vs.begin(); it != vs.end(); ++it)
    text += (it == vs.begin() ? "" : ", ") + it->get_name();
  c.check(vs.to_string() == text + "}",
          cat("text of a set: ", vs.to_string(), " expected ", text, "}"));
  for (size_t i = 0; i < p.v.size(); ++i) {
    const bool in = m.count(static_cast<int>(i)) > 0;
    c.check(vs.include(p.v[i]) == in, "include");
    c.check((vs.find(p.v[i]) != vs.end()) == in, "find");
    if (in) c.check(vs.find(p.v[i])->equal_to(p.v[i]), "find finds another one");
  }
}
bool subset(const Set& a, const Set& b) {
  return std::includes(b.begin(), b.end(), a.begin(), a.end());
}
// Order of the ids, for the model.
std::vector<Variable::Id> ids(const Set& m, const Pool& p) {
  std::vector<Variable::Id> r;
  for (int i : m) r.push_back(p.v[i].get_id());
  std::sort(r.begin(), r.end());
  return r;
}
}  // namespace

PBT_TARGET("C10", variables_model, 20000,
           "history of up to 40 set operations (also of a set with itself) on "
           "4 sets over a growing pool of variables, compared with std::set "
           "after every step; non-trivial: 8 operations and a set of 3") {
  Pool p;
  const int n0 = s.range(1, 8);
  for (int i = 0; i < n0; ++i) p.create(s);
  std::vector<Variables> a(4);
  std::vector<Set> m(4);
  const int steps = s.range(1, 40);
  size_t big = 0;
  std::string h;
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 3), j = s.range(0, 3), k = s.range(0, 3);
    const int v = s.range(0, static_cast<int>(p.v.size()) - 1);
    const int op = s.range(0, 19);
    c.add(cat("op", op, "(", i, ",", j, ",", k, ",v", v, ") "));
    switch (op) {
      case 0: a[i].insert(p.v[v]); m[i].insert(v); break;
      case 1: a[i].insert(a[j]); m[i].insert(m[j].begin(), m[j].end()); break;
      case 2: {
        a[i].insert(a[j].begin(), a[j].end());
        m[i].insert(m[j].begin(), m[j].end());
        break;
      }
      case 3: {
        const size_t r = a[i].erase(p.v[v]);
        c.check(r == m[i].erase(v), "count returned by erase");
        break;
      }
      case 4: {
        const Set d = m[j];
        size_t want = 0;
        for (int x : d) want += m[i].erase(x);
        const size_t r = a[i].erase(a[j]);
        c.check(r == want, cat("erase of a set returned ", r, " not ", want));
        break;
      }
      case 5: {
        const Variables r = (a[i] += a[j]);
        m[i].insert(m[j].begin(), m[j].end());
        check_set(r, m[i], p, c);
        break;
      }
      case 6: {
        const Variables r = (a[i] += p.v[v]);
        m[i].insert(v);
        check_set(r, m[i], p, c);
        break;
      }
      case 7: {
        const Set d = m[j];
        for (int x : d) m[i].erase(x);
        const Variables r = (a[i] -= a[j]);
        check_set(r, m[i], p, c);
        break;
      }
      case 8: {
        m[i].erase(v);
        const Variables r = (a[i] -= p.v[v]);
        check_set(r, m[i], p, c);
        break;
      }
      case 9: {
        Set r = m[i];
        r.insert(m[j].begin(), m[j].end());
        a[k] = a[i] + a[j];
        m[k] = r;
        break;
      }
      case 10: {
        Set r = m[i];
        r.insert(v);
        a[k] = s.chance(1, 2) ? a[i] + p.v[v] : p.v[v] + a[i];
        m[k] = r;
        break;
      }
      case 11: {
        Set r = m[i];
        for (int x : m[j]) r.erase(x);
        a[k] = a[i] - a[j];
        m[k] = r;
        break;
      }
      case 12: {
        Set r = m[i];
        r.erase(v);
        a[k] = a[i] - p.v[v];
        m[k] = r;
        break;
      }
      case 13: {
        Set r;
        for (int x : m[i])
          if (m[j].count(x)) r.insert(x);
        a[k] = intersect(a[i], a[j]);
        m[k] = r;
        break;
      }
      case 14: a[i] = a[j]; m[i] = m[j]; break;
      case 15: std::swap(a[i], a[j]); std::swap(m[i], m[j]); break;
      case 16: {
        const int v2 = s.range(0, static_cast<int>(p.v.size()) - 1);
        a[i] = Variables{p.v[v], p.v[v2], p.v[v]};
        m[i] = {v, v2};
        break;
      }
      case 17:
        p.create(s);
        break;
      case 18: {
        if (m[i].empty()) break;
        // Erase an element through a reference into the set.
        const int x = p.idx(*a[i].begin(), c);
        a[i].erase(*a[i].begin());
        m[i].erase(x);
        break;
      }
      default: {
        // The free variables of a sum of the variables.
        Expression e{0.0};
        Set r;
        for (const Variable& x : a[i])
          if (x.get_type() != Variable::Type::BOOLEAN) {
            e += x;
            r.insert(p.idx(x, c));
          }
        a[k] = e.GetVariables();
        m[k] = r;
      }
    }
    for (int x = 0; x < 4; ++x) {
      check_set(a[x], m[x], p, c);
      big = std::max(big, m[x].size());
    }
    for (int x = 0; x < 4; ++x)
      for (int y = 0; y < 4; ++y) {
        const bool eq = m[x] == m[y];
        c.check((a[x] == a[y]) == eq, "operator==");
        if (eq)
          c.check(a[x].get_hash() == a[y].get_hash(),
                  "equal sets with different hashes");
        c.check((a[x] < a[y]) == (ids(m[x], p) < ids(m[y], p)), "operator<");
        c.check(a[x].IsSubsetOf(a[y]) == subset(m[x], m[y]), "IsSubsetOf");
        bool common = false;
        for (int k : m[x]) common = common || m[y].count(k) > 0;
        c.check(dreal::HaveIntersection(a[x], a[y]) == common,
                "HaveIntersection");
        c.check(a[x].IsSupersetOf(a[y]) == subset(m[y], m[x]), "IsSupersetOf");
        c.check(a[x].IsStrictSubsetOf(a[y]) == (!eq && subset(m[x], m[y])),
                "IsStrictSubsetOf");
        c.check(a[x].IsStrictSupersetOf(a[y]) == (!eq && subset(m[y], m[x])),
                "IsStrictSupersetOf");
      }
  }
  if (steps >= 8 && big >= 3) c.nontrivial(c.desc_);
}

namespace {
double env_value(Src& s) {
  switch (s.draw(6)) {
    case 0: return s.range(-3, 3);
    case 1: return std::numeric_limits<double>::infinity();
    case 2: return -0.0;
    case 3: return s.range(-1000, 1000) / 7.0;
    case 4: return std::numeric_limits<double>::max();
    default: return -s.range(0, 1000) * 1e-300;
  }
}
template <typename Fn>
bool throws(Fn fn) {
  try {
    fn();
  } catch (const std::runtime_error&) {
    return true;
  }
  return false;
}
bool same_double(double a, double b) {
  return a == b && std::signbit(a) == std::signbit(b);
}
}  // namespace

PBT_TARGET("C10", environment_model, 30000,
           "history of up to 25 operations on 3 environments (insertions of "
           "present keys, dummy variables, NaN, reads of missing keys, list "
           "and map construction, copies), compared with std::map after every "
           "step, then evaluation of expressions and Boolean formulas reading "
           "them; non-trivial: 6 operations and 2 entries") {
  Pool p;
  const int n0 = s.range(1, 8);
  for (int i = 0; i < n0; ++i) p.create(s);
  std::vector<Environment> a(3);
  std::vector<std::map<int, double>> m(3);
  const Variable dummy;
  const double nan = std::numeric_limits<double>::quiet_NaN();
  const int steps = s.range(1, 25);
  size_t big = 0;
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 2), j = s.range(0, 2);
    const int v = s.range(0, n0 - 1), v2 = s.range(0, n0 - 1);
    const double x = env_value(s);
    const int op = s.range(0, 13);
    c.add(cat("op", op, "(", i, ",", j, ",v", v, ",", x, ") "));
    switch (op) {
      case 0: case 1: a[i].insert(p.v[v], x); m[i].emplace(v, x); break;
      case 2: a[i][p.v[v]] = x; m[i][v] = x; break;
      case 3: {
        const double got = a[i][p.v[v]];
        c.check(same_double(got, m[i][v]), "operator[]");
        break;
      }
      case 4: {
        const Environment& ca = a[i];
        if (m[i].count(v))
          c.check(same_double(ca[p.v[v]], m[i][v]), "operator[] const");
        else
          c.check(throws([&] { ca[p.v[v]]; }),
                  "operator[] const of a missing key did not throw");
        break;
      }
      case 5: c.check(throws([&] { a[i].insert(dummy, x); }),
                      "insert of a dummy variable did not throw"); break;
      case 6: c.check(throws([&] { a[i].insert(p.v[v], nan); }),
                      "insert of NaN did not throw"); break;
      case 7: {
        c.check(throws([&] { a[i][dummy] = 1; }), "[dummy] did not throw");
        const Environment& ca = a[i];
        c.check(throws([&] { ca[dummy]; }), "const [dummy] did not throw");
        break;
      }
      case 8: {
        a[i] = Environment{{p.v[v], x}, {p.v[v2], 2.5}};
        m[i].clear();
        m[i].emplace(v, x);
        m[i].emplace(v2, 2.5);
        break;
      }
      case 9: {
        a[i] = Environment{p.v[v], p.v[v2]};
        m[i].clear();
        m[i].emplace(v, 0);
        m[i].emplace(v2, 0);
        break;
      }
      case 10: {
        Environment::map mm;
        for (const auto& kv : m[j]) mm.emplace(p.v[kv.first], kv.second);
        if (s.chance(1, 3)) {
          mm.emplace(s.chance(1, 2) ? dummy : Variable{"w"}, nan);
          c.check(throws([&] { Environment e{mm}; }),
                  "map constructor accepted NaN");
        } else {
          a[i] = Environment{mm};
          m[i] = std::map<int, double>(m[j]);
        }
        break;
      }
      case 11: {
        const int w = s.range(0, 3);
        c.check(throws([&] {
                  if (w == 0) Environment e{{p.v[v], x}, {dummy, 1.0}};
                  if (w == 1) Environment e{{p.v[v], nan}, {p.v[v2], 1.0}};
                  if (w == 2) Environment e{p.v[v], dummy};
                  if (w == 3) Environment e{{dummy, 1.0}};
                }),
                cat("list constructor ", w, " accepted a bad entry"));
        break;
      }
      case 12: a[i] = a[j]; m[i] = std::map<int, double>(m[j]); break;
      default: std::swap(a[i], a[j]); std::swap(m[i], m[j]);
    }
    for (int k = 0; k < 3; ++k) {
      const Environment& e = a[k];
      c.check(e.size() == m[k].size() && e.empty() == m[k].empty(), "size");
      size_t cnt = 0;
      Set dom;
      for (const auto& kv : e) {
        const int id = p.idx(kv.first, c);
        ++cnt;
        dom.insert(id);
        c.check(m[k].count(id) && same_double(m[k][id], kv.second),
                cat("entry of ", p.name[id], " is ", kv.second));
      }
      c.check(cnt == m[k].size(), "iteration");
      check_set(e.domain(), dom, p, c);
      for (int id = 0; id < n0; ++id) {
        const auto it = e.find(p.v[id]);
        c.check((it != e.end()) == (m[k].count(id) > 0), "find");
      }
      big = std::max(big, m[k].size());
      const std::string text = e.to_string();
      c.check(std::count(text.begin(), text.end(), '\n') ==
                  static_cast<long>(m[k].size()),
              "number of lines of the text");
    }
  }
  // Evaluation.
  const int k = s.range(0, 2);
  const Environment& e = a[k];
  for (int id = 0; id < n0; ++id) {
    const bool in = m[k].count(id) > 0;
    if (p.type[id] == Variable::Type::BOOLEAN) {
      const Formula f{p.v[id]};
      if (in)
        c.check(f.Evaluate(e) == (m[k][id] != 0), "value of a Boolean variable");
      else
        c.check(throws([&] { f.Evaluate(e); }),
                "evaluation of a formula without an entry did not throw");
      continue;
    }
    const Expression x{p.v[id]};
    if (in) {
      c.check(same_double(x.Evaluate(e), m[k][id]), "value of a variable");
      const double half = (x / 2).Evaluate(e);
      c.check(same_double(half, m[k][id] / 2), "value of x/2");
      c.check(throws([&] { (x + Variable{"missing"}).Evaluate(e); }),
              "missing variable did not throw");
    } else {
      c.check(throws([&] { x.Evaluate(e); }) &&
                  throws([&] { (x + 1).Evaluate(e); }) &&
                  throws([&] { (x < 1).Evaluate(e); }),
              "evaluation without an entry did not throw");
    }
  }
  if (steps >= 6 && big >= 2) c.nontrivial(c.desc_);
}

// ---- scoped containers -------------------------------------------------------
namespace {
const std::vector<std::string>& keys() {
  static const std::vector<std::string> k{
      "a", "b", "c", "a key which is long enough for the heap", "d", "e"};
  return k;
}
// Many keys fall in one bucket.
struct BadHash {
  size_t operator()(const std::string& k) const { return k.size() % 2; }
};
}  // namespace

PBT_TARGET("C16", scoped_vector, 30000,
           "history of up to 60 push / pop / push_back / write / read / copy "
           "operations on 2 scoped vectors, compared with a stack of "
           "snapshots; non-trivial: a pop that removes something below an "
           "outer scope") {
  struct Model {
    std::vector<std::string> v;
    std::vector<size_t> scopes;
  };
  std::vector<ScopedVector<std::string>> a(2);
  std::vector<Model> m(2);
  bool nt = false;
  const int steps = s.range(1, 60);
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 1);
    const int op = s.weighted({6, 4, 4, 1, 1, 1, 1, 1});
    const std::string x = s.pick(keys());
    c.add(cat("op", op, "(", i, ",", x, ") "));
    switch (op) {
      case 0: {
        m[i].v.push_back(x);
        if (s.chance(1, 2)) {
          std::string y = x;
          a[i].push_back(std::move(y));
        } else {
          a[i].push_back(x);
        }
        break;
      }
      case 1: a[i].push(); m[i].scopes.push_back(m[i].v.size()); break;
      case 2: {
        if (m[i].scopes.empty()) {
          c.check(throws([&] { a[i].pop(); }), "pop without push");
          break;
        }
        const size_t was = m[i].v.size();
        m[i].v.resize(m[i].scopes.back());
        m[i].scopes.pop_back();
        const size_t n = a[i].pop();
        c.check(n == was - m[i].v.size(),
                cat("pop returned ", n, " expected ", was - m[i].v.size()));
        if (n > 0 && !m[i].scopes.empty()) nt = true;
        break;
      }
      case 3: a[i] = a[1 - i]; m[i] = Model(m[1 - i]); break;
      case 4: {
        ScopedVector<std::string> y{a[i]};
        a[i] = std::move(y);
        break;
      }
      case 5:
        if (!m[i].v.empty()) {
          const size_t k = s.draw(m[i].v.size());
          a[i][k] = x;
          m[i].v[k] = x;
        }
        break;
      case 6:
        if (!m[i].v.empty()) {
          a[i].last() = x + "!";
          m[i].v.back() = x + "!";
        }
        break;
      default:
        if (!m[i].v.empty()) {
          a[i].push_back(a[i].first());
          m[i].v.push_back(std::string(m[i].v.front()));
        }
    }
    for (int k = 0; k < 2; ++k) {
      const ScopedVector<std::string>& b = a[k];
      const std::vector<std::string>& w = m[k].v;
      c.check(b.size() == w.size() && b.empty() == w.empty(), "size");
      c.check(b.get_vector() == w, "contents");
      c.check(a[k].get_vector() == w, "contents (copy)");
      c.check(std::vector<std::string>(b.begin(), b.end()) == w &&
                  std::vector<std::string>(a[k].begin(), a[k].end()) == w &&
                  std::vector<std::string>(b.cbegin(), b.cend()) == w,
              "iteration");
      const std::vector<std::string> r(w.rbegin(), w.rend());
      c.check(b.get_reverse() == r &&
                  std::vector<std::string>(b.rbegin(), b.rend()) == r &&
                  std::vector<std::string>(b.crbegin(), b.crend()) == r,
              "reverse");
      for (size_t q = 0; q < w.size(); ++q) c.check(b[q] == w[q], "[]");
      if (!w.empty())
        c.check(b.first() == w.front() && b.last() == w.back() &&
                    a[k].first() == w.front() && a[k].last() == w.back(),
                "first / last");
    }
    c.check((a[0] < a[1]) == (m[0].v < m[1].v) &&
                (a[1] < a[0]) == (m[1].v < m[0].v),
            "operator<");
  }
  // Unwinding every scope.
  for (int i = 0; i < 2; ++i)
    while (!m[i].scopes.empty()) {
      m[i].v.resize(m[i].scopes.back());
      m[i].scopes.pop_back();
      a[i].pop();
      c.check(a[i].get_vector() == m[i].v, "contents after unwinding");
    }
  if (nt) c.nontrivial(c.desc_);
}

namespace {
template <typename Map, typename Key, typename MakeKey>
void map_history(Src& s, Ctx& c, const MakeKey& key, int nkeys) {
  using M = std::map<int, std::string>;
  struct Model {
    M cur;
    std::vector<M> saved;
  };
  std::vector<Map> a(2);
  std::vector<Model> m(2);
  bool nt = false, updated = false;
  const int steps = s.range(1, 60);
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 1);
    const int op = s.weighted({8, 4, 4, 1, 1, 1, 1});
    const int k = s.range(0, nkeys - 1);
    const std::string x = s.pick(keys());
    c.add(cat("op", op, "(", i, ",k", k, ",", x, ") "));
    switch (op) {
      case 0:
        if (m[i].cur.count(k) && !m[i].saved.empty()) updated = true;
        a[i].insert(key(k), x);
        m[i].cur[k] = x;
        break;
      case 1: a[i].push(); m[i].saved.push_back(m[i].cur); break;
      case 2:
        if (m[i].saved.empty()) {
          c.check(throws([&] { a[i].pop(); }), "pop without push");
          break;
        }
        if (updated && m[i].saved.back() != m[i].cur) nt = true;
        m[i].cur = m[i].saved.back();
        m[i].saved.pop_back();
        a[i].pop();
        break;
      case 3: a[i] = a[1 - i]; m[i] = Model(m[1 - i]); break;
      case 4:
        if (s.chance(1, 4)) {
          a[i].clear();
          m[i] = Model();
        }
        break;
      case 5: {
        // Read.
        const Map& b = a[i];
        if (m[i].cur.count(k))
          c.check(b[key(k)] == m[i].cur[k], "[]");
        else
          c.check(throws([&] { b[key(k)]; }), "[] of a missing key");
        break;
      }
      default:
        // Re-insertion of the present value, which aliases the container.
        if (m[i].cur.count(k)) a[i].insert(key(k), a[i][key(k)]);
    }
    for (int q = 0; q < 2; ++q) {
      const Map& b = a[q];
      c.check(b.size() == m[q].cur.size() && b.empty() == m[q].cur.empty(),
              cat("size ", b.size(), " expected ", m[q].cur.size()));
      size_t cnt = 0;
      for (auto it = b.begin(); it != b.end(); ++it) ++cnt;
      c.check(cnt == b.size(), "iteration");
      for (int z = 0; z < nkeys; ++z) {
        const auto it = b.find(key(z));
        const bool in = m[q].cur.count(z) > 0;
        c.check(b.count(key(z)) == (in ? 1u : 0u) && (it != b.end()) == in,
                cat("presence of key ", z));
        if (in)
          c.check(it->second == m[q].cur[z],
                  cat("value of key ", z, " is ", it->second, " expected ",
                      m[q].cur[z]));
      }
    }
  }
  for (int i = 0; i < 2; ++i)
    while (!m[i].saved.empty()) {
      const M w = m[i].saved.back();
      m[i].saved.pop_back();
      a[i].pop();
      M got;
      for (int z = 0; z < nkeys; ++z)
        if (a[i].count(key(z))) got[z] = a[i][key(z)];
      c.check(got == w && a[i].size() == w.size(), "unwinding");
    }
  if (nt) c.nontrivial(c.desc_);
}

template <typename S, typename MakeKey>
void set_history(Src& s, Ctx& c, const MakeKey& key, int nkeys) {
  struct Model {
    Set cur;
    std::vector<Set> saved;
  };
  std::vector<S> a(2);
  std::vector<Model> m(2);
  bool nt = false, again = false;
  const int steps = s.range(1, 60);
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 1);
    const int op = s.weighted({8, 4, 4, 1, 1});
    const int k = s.range(0, nkeys - 1);
    c.add(cat("op", op, "(", i, ",k", k, ") "));
    switch (op) {
      case 0:
        if (m[i].cur.count(k) && !m[i].saved.empty()) again = true;
        a[i].insert(key(k));
        m[i].cur.insert(k);
        break;
      case 1: a[i].push(); m[i].saved.push_back(m[i].cur); break;
      case 2:
        if (m[i].saved.empty()) {
          c.check(throws([&] { a[i].pop(); }), "pop without push");
          break;
        }
        if (again && m[i].saved.back() != m[i].cur) nt = true;
        m[i].cur = m[i].saved.back();
        m[i].saved.pop_back();
        a[i].pop();
        break;
      case 3: a[i] = a[1 - i]; m[i] = Model(m[1 - i]); break;
      default:
        if (s.chance(1, 4)) {
          a[i].clear();
          m[i] = Model();
        }
    }
    for (int q = 0; q < 2; ++q) {
      const S& b = a[q];
      c.check(b.size() == m[q].cur.size() && b.empty() == m[q].cur.empty(),
              cat("size ", b.size(), " expected ", m[q].cur.size()));
      size_t cnt = 0;
      for (auto it = b.begin(); it != b.end(); ++it) ++cnt;
      c.check(cnt == b.size(), "iteration");
      for (int z = 0; z < nkeys; ++z) {
        const bool in = m[q].cur.count(z) > 0;
        c.check(b.count(key(z)) == (in ? 1u : 0u) &&
                    (b.find(key(z)) != b.end()) == in,
                cat("presence of key ", z));
      }
    }
  }
  if (nt) c.nontrivial(c.desc_);
}
std::vector<Variable>& some_variables() {
  static std::vector<Variable> v{Variable{"a"}, Variable{"a"}, Variable{"b"},
                                 Variable{"c"}, Variable{"d"}, Variable{"e"}};
  return v;
}
}  // namespace

PBT_TARGET("C16", scoped_map, 30000,
           "history of up to 60 push / pop / insert / update / read / clear / "
           "copy operations on 2 scoped maps with string keys (normal or "
           "colliding hashes) or variables, compared with a stack of "
           "snapshots; non-trivial: a pop that undoes something after a key "
           "was overwritten inside a scope") {
  switch (s.draw(3)) {
    case 0:
      map_history<ScopedUnorderedMap<std::string, std::string>, std::string>(
          s, c, [](int k) { return keys()[k]; }, 6);
      break;
    case 1:
      map_history<ScopedUnorderedMap<std::string, std::string, BadHash>,
                  std::string>(s, c, [](int k) { return keys()[k]; }, 6);
      break;
    default:
      map_history<ScopedUnorderedMap<Variable, std::string>, Variable>(
          s, c, [](int k) { return some_variables()[k]; }, 6);
  }
}

PBT_TARGET("C16", scoped_set, 30000,
           "history of up to 60 push / pop / insert / clear / copy operations "
           "on 2 scoped sets, compared with a stack of snapshots; non-trivial: "
           "a pop that undoes something after a present key was inserted "
           "again inside a scope") {
  switch (s.draw(3)) {
    case 0:
      set_history<ScopedUnorderedSet<std::string>>(
          s, c, [](int k) { return keys()[k]; }, 6);
      break;
    case 1:
      set_history<ScopedUnorderedSet<std::string, BadHash>>(
          s, c, [](int k) { return keys()[k]; }, 6);
      break;
    default:
      set_history<ScopedUnorderedSet<Variable>>(
          s, c, [](int k) { return some_variables()[k]; }, 6);
  }
}
