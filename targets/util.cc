// Integer conversions, option values, guards and timers.
#include <cfenv>
#include <cmath>
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstring>
#include <functional>
#include <limits>
#include <thread>

#include "dreal/util/math.h"
#include "dreal/util/option_value.h"
#include "dreal/util/precision_guard.h"
#include "dreal/util/rounding_mode_guard.h"
#include "dreal/util/signal_handler_guard.h"
#include "dreal/util/timer.h"
#include "pbt.h"

using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
using i128 = __int128;
const double kInf = std::numeric_limits<double>::infinity();

// A double near the places where the answer changes.
double boundary_double(Src& s) {
  static const std::vector<double> centre{
      0, 1, -1, 2147483647.0, -2147483648.0, 2147483648.0, 4294967296.0,
      4503599627370496.0, 9007199254740992.0, -9007199254740992.0,
      9223372036854775808.0, -9223372036854775808.0, 1e300, 1e-300};
  double d = s.pick(centre);
  switch (s.draw(6)) {
    case 0: break;
    case 1: d += s.range(-3, 3); break;
    case 2: d += s.range(-8, 8) / 4.0; break;
    case 3: {
      const int n = s.range(-3, 3);
      for (int i = 0; i < std::abs(n); ++i)
        d = std::nextafter(d, n > 0 ? kInf : -kInf);
      break;
    }
    case 4: {
      // any bit pattern
      uint64_t b = (s.draw(1u << 16) << 48) | (s.draw(1u << 24) << 24) |
                   s.draw(1u << 24);
      std::memcpy(&d, &b, 8);
      break;
    }
    default:
      d = std::ldexp(static_cast<double>(s.range(-1000000, 1000000)),
                     s.range(-24, 24));
  }
  return s.chance(1, 2) ? -d : d;
}
int64_t boundary_int(Src& s) {
  static const std::vector<int64_t> centre{
      0, 1, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL,
      4503599627370496LL, 9007199254740992LL, -9007199254740992LL,
      18014398509481984LL, std::numeric_limits<int64_t>::max(),
      std::numeric_limits<int64_t>::min()};
  i128 v = s.pick(centre);
  switch (s.draw(3)) {
    case 0: v += s.range(-3, 3); break;
    case 1: v += s.range(-2000, 2000); break;
    default: {
      const int sh = s.range(0, 40);
      v = (static_cast<i128>(s.draw(1u << 24)) << sh) + s.draw(1u << 24);
      if (s.chance(1, 2)) v = -v;
    }
  }
  const i128 lo = std::numeric_limits<int64_t>::min();
  const i128 hi = std::numeric_limits<int64_t>::max();
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return static_cast<int64_t>(v);
}
bool near_boundary(double d) {
  const double a = std::fabs(d);
  return a != 0 && (std::fabs(a - 2147483648.0) < 4 || std::fabs(a) < 1e-290 ||
                    std::fabs(a - 4294967296.0) < 4 ||
                    (a > 4e15 && a < 2e19) || a != std::floor(a));
}
}  // namespace

PBT_TARGET("C17", is_integer, 400000,
           "doubles around the limits of int, of exact integers and of the "
           "format, and random bit patterns; oracle: the bits of the double; "
           "non-trivial: near a limit or not an integer") {
  const double d = boundary_double(s);
  c.describe(cat(d));
  // Exact: decompose the double.
  bool want = false;
  if (std::isfinite(d) && d >= -2147483648.0 && d <= 2147483647.0) {
    const int64_t n = static_cast<int64_t>(d);
    want = static_cast<double>(n) == d;
  }
  c.check(dreal::is_integer(d) == want,
          cat("is_integer(", d, ") expected ", want));
  if (near_boundary(d)) c.nontrivial(cat(d));
}

PBT_TARGET("C17", convert_int64, 400000,
           "64-bit integers around the limits of int and of exactly "
           "representable doubles; oracle: 128-bit arithmetic; non-trivial: "
           "beyond 2^31") {
  const int64_t v = boundary_int(s);
  c.describe(cat(v));
  bool threw = false;
  int i = 0;
  try {
    i = dreal::convert_int64_to_int(v);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  const bool fits = v >= -2147483648LL && v <= 2147483647LL;
  c.check(threw == !fits, cat("convert_int64_to_int(", v, ") threw=", threw));
  if (!threw) c.check(i == v, cat("convert_int64_to_int(", v, ") = ", i));
  threw = false;
  double d = 0;
  try {
    d = dreal::convert_int64_to_double(v);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  const bool exact = v >= -(1LL << 53) && v <= (1LL << 53);
  c.check(threw == !exact, cat("convert_int64_to_double(", v, ") threw=", threw));
  if (!threw)
    c.check(static_cast<i128>(d) == static_cast<i128>(v),
            cat("convert_int64_to_double(", v, ") = ", d));
  if (!fits) c.nontrivial(cat(v));
}

namespace {
template <typename T, typename MakeValue>
void option_history(Src& s, Ctx& c, const MakeValue& value) {
  using O = dreal::OptionValue<T>;
  struct Model {
    T v;
    int prio;  // 0 default, 1 file, 2 command line, 3 code
  };
  std::vector<O> a;
  std::vector<Model> m;
  for (int i = 0; i < 2; ++i) {
    const T x = value(s);
    a.emplace_back(x);
    m.push_back({x, 0});
  }
  std::set<int> sources;
  const int steps = s.range(1, 15);
  for (int t = 0; t < steps; ++t) {
    const int i = s.range(0, 1);
    const T x = value(s);
    const int op = s.range(0, 6);
    c.add(cat("op", op, "(", i, ",", x, ") "));
    switch (op) {
      case 0:
        a[i].set_from_file(x);
        if (m[i].prio <= 1) m[i] = {x, 1};
        sources.insert(1);
        break;
      case 1:
        a[i].set_from_command_line(x);
        if (m[i].prio <= 2) m[i] = {x, 2};
        sources.insert(2);
        break;
      case 2:
        a[i] = x;
        m[i] = {x, 3};
        sources.insert(3);
        break;
      case 3: {
        T y = x;
        a[i] = std::move(y);
        m[i] = {x, 3};
        sources.insert(3);
        break;
      }
      case 4: {
        // The option object itself is copied: value and source.
        const O y{a[i]};
        a[1 - i] = y;
        const Model k = m[i];
        m[1 - i] = k;
        break;
      }
      case 5: {
        O y{a[i]};
        O z{std::move(y)};
        a[i] = std::move(z);
        break;
      }
      default: {
        // set from its own value
        const T y = a[i].get();
        a[i].set_from_file(y);
        if (m[i].prio <= 1) m[i].prio = 1;
      }
    }
    for (int k = 0; k < 2; ++k)
      c.check(a[k].get() == m[k].v, cat("value is ", a[k].get(), " expected ",
                                        m[k].v, " (source ", m[k].prio, ")"));
  }
  if (sources.size() >= 2 && steps >= 4) c.nontrivial(c.desc_);
}
}  // namespace

PBT_TARGET("C18", option_value, 60000,
           "histories of up to 15 updates from file, command line and code "
           "and copies of 2 options of type bool / int / double / string, "
           "compared with the documented priorities; non-trivial: 2 sources "
           "and 4 updates") {
  switch (s.draw(4)) {
    case 0: option_history<bool>(s, c, [](Src& r) { return r.chance(1, 2); }); break;
    case 1: option_history<int>(s, c, [](Src& r) { return r.range(0, 5); }); break;
    case 2:
      option_history<double>(s, c, [](Src& r) { return r.range(0, 9) * 1e-3; });
      break;
    default:
      option_history<std::string>(
          s, c, [](Src& r) { return std::string(r.range(0, 40), 'a'); });
  }
}

namespace {
struct Stop {};
void guards(Src& s, Ctx& c, std::ostream& os, int depth) {
  const std::streamsize before = os.precision();
  const int k = s.range(0, 3);
  c.add(cat("g", k, " "));
  bool thrown = false;
  try {
    if (k == 0) {
      const dreal::PrecisionGuard g(&os);
      c.check(os.precision() == 17, "default precision of the guard");
      if (depth > 0) guards(s, c, os, depth - 1);
      if (s.chance(1, 2)) os.precision(s.range(0, 30));
      if (s.chance(1, 4)) throw Stop{};
    } else {
      const int p = s.range(0, 40);
      const dreal::PrecisionGuard g(&os, p);
      c.check(os.precision() == p, "precision inside the guard");
      if (depth > 0) guards(s, c, os, depth - 1);
      if (depth > 0 && s.chance(1, 2)) guards(s, c, os, depth - 1);
      c.check(os.precision() == p, "precision after an inner guard");
      std::ostringstream ref;
      ref.precision(p);
      ref << 1.0 / 3.0;
      std::ostringstream* text = dynamic_cast<std::ostringstream*>(&os);
      text->str("");
      os << 1.0 / 3.0;
      c.check(text->str() == ref.str(), "text inside the guard");
      if (s.chance(1, 4)) throw Stop{};
    }
  } catch (const Stop&) {
    thrown = true;
  }
  c.check(os.precision() == before,
          cat("precision ", os.precision(), " after the guard, expected ",
              before, thrown ? " (exception)" : ""));
}
volatile std::sig_atomic_t g_outer = 0;
std::atomic_bool g_flag_storage{false};
volatile std::atomic_bool g_flag{false};
void outer_handler(int) { g_outer = g_outer + 1; }
void inner_handler(int) { g_flag = true; }
}  // namespace

PBT_TARGET("C18", precision_guard, 30000,
           "nests of precision guards on a stream of random precision, left "
           "normally or by an exception, with the precision changed inside; "
           "non-trivial: 3 guards") {
  std::ostringstream os;
  os.precision(s.range(0, 40));
  guards(s, c, os, s.range(0, 4));
  if (std::count(c.desc_.begin(), c.desc_.end(), 'g') >= 3)
    c.nontrivial(cat(c.desc_, os.precision()));
}

PBT_TARGET("C18", rounding_and_signal_guards, 20000,
           "nests of rounding mode guards and signal handler guards; the "
           "rounding mode, the previous handler and the flag must be restored, "
           "and a signal inside must reach the handler of the guard; "
           "non-trivial: a signal was raised inside and outside") {
  static const std::vector<int> modes{FE_TONEAREST, FE_UPWARD, FE_DOWNWARD,
                                      FE_TOWARDZERO};
  std::vector<int> stack{std::fegetround()};
  std::function<void(int)> rec = [&](int d) {
    const int m = s.pick(modes);
    {
      const dreal::RoundingModeGuard g(m);
      c.check(std::fegetround() == m, "rounding mode inside the guard");
      stack.push_back(m);
      if (d > 0) rec(d - 1);
      if (s.chance(1, 3)) std::fesetround(s.pick(modes));
      stack.pop_back();
    }
    c.check(std::fegetround() == stack.back(), "rounding mode after the guard");
  };
  rec(s.range(0, 3));
  // Signals (SIGUSR1 of this process only).
  std::signal(SIGUSR1, outer_handler);
  g_outer = 0;
  g_flag = false;
  int raised_out = 0, raised_in = 0;
  const int rounds = s.range(1, 4);
  for (int i = 0; i < rounds; ++i) {
    if (s.chance(1, 2)) {
      std::raise(SIGUSR1);
      ++raised_out;
    }
    c.check(g_outer == raised_out && !g_flag, "handler outside the guard");
    {
      const dreal::SignalHandlerGuard g(SIGUSR1, inner_handler, &g_flag);
      c.check(!g_flag, "flag set without a signal");
      if (s.chance(2, 3)) {
        std::raise(SIGUSR1);
        ++raised_in;
        c.check(g_flag, "signal inside the guard did not set the flag");
        std::raise(SIGUSR1);  // the handler stays installed
        c.check(g_outer == raised_out, "the outer handler ran inside");
      }
    }
    c.check(!g_flag, "flag not reset");
    std::raise(SIGUSR1);
    ++raised_out;
    c.check(g_outer == raised_out && !g_flag, "the outer handler is not restored");
  }
  std::signal(SIGUSR1, SIG_DFL);
  c.describe(cat(rounds, " rounds, ", raised_in, "/", raised_out));
  if (raised_in && raised_out) c.nontrivial(cat(rounds, raised_in, raised_out, s.log().size()));
}

PBT_TARGET("C18", timer, 400,
           "histories of start / pause / resume / guard operations on a timer "
           "with real sleeps of 0-3 ms; the reported time must lie between the "
           "time measured around the running phases and the time measured "
           "outside them, and never move while paused; non-trivial: a pause "
           "followed by a resume") {
  using clock = dreal::Timer::clock;
  using D = clock::duration;
  dreal::Timer t;
  bool running = false;
  D lo{0}, hi{0};  // bounds of the accumulated time before the current phase
  clock::time_point lo_start{}, hi_start{};
  bool paused = false, resumed = false;
  auto begin = [&](bool reset, const std::function<void()>& op) {
    const auto a = clock::now();
    op();
    const auto b = clock::now();
    if (reset) lo = hi = D{0};
    hi_start = a;
    lo_start = b;
    running = true;
  };
  auto stop = [&](const std::function<void()>& op) {
    const auto a = clock::now();
    op();
    const auto b = clock::now();
    if (running) {
      lo += a - lo_start;
      hi += b - hi_start;
    }
    running = false;
  };
  auto check = [&] {
    c.check(t.is_running() == running, "is_running");
    const auto a = clock::now();
    const D e = t.elapsed();
    const auto b = clock::now();
    D l = lo, h = hi;
    if (running) {
      l += a - lo_start;
      h += b - hi_start;
    }
    c.check(l <= e && e <= h,
            cat("elapsed ", e.count(), "ns outside [", l.count(), ", ",
                h.count(), "]"));
    const double sec = t.seconds();
    const D e2 = t.elapsed();
    c.check(sec * 1e9 >= e.count() * (1 - 1e-12) - 1 &&
                sec * 1e9 <= e2.count() * (1 + 1e-12) + 1,
            cat("seconds() = ", sec));
    if (!running) c.check(t.elapsed() == e, "time moves while paused");
  };
  check();
  const int steps = s.range(1, 8);
  for (int i = 0; i < steps; ++i) {
    const int op = s.range(0, 6);
    c.add(cat("op", op, " "));
    switch (op) {
      case 0: begin(true, [&] { t.start(); }); break;
      case 1: paused |= running; stop([&] { t.pause(); }); break;
      case 2:
        if (!running) {
          resumed |= paused;
          begin(false, [&] { t.resume(); });
        } else {
          t.resume();
        }
        break;
      case 3: case 4: {
        const bool enabled = s.chance(3, 4), start = s.chance(1, 2);
        std::unique_ptr<dreal::TimerGuard> g;
        auto make = [&] {
          g.reset(new dreal::TimerGuard(&t, enabled, start));
        };
        if (enabled && start && !running) begin(false, make); else make();
        check();
        if (s.chance(1, 2)) {
          if (enabled) stop([&] { g->pause(); }); else g->pause();
          check();
        }
        if (s.chance(1, 2)) {
          if (enabled && !running) begin(false, [&] { g->resume(); });
          else g->resume();
          check();
        }
        if (enabled) { paused |= running; stop([&] { g.reset(); }); } else g.reset();
        break;
      }
      default:
        std::this_thread::sleep_for(std::chrono::microseconds(s.range(0, 3000)));
    }
    check();
  }
  if (paused && resumed) c.nontrivial(cat(c.desc_));
}
