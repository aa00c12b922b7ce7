#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {
namespace {

constexpr size_t kMaxChoices = 1 << 16;
constexpr size_t kMaxText = 1 << 16;

// Shared between the supervisor and one worker.
struct Shm {
  volatile uint64_t current;   // Index of the case being run.
  volatile uint64_t done;      // Number of finished cases.
  volatile int status;         // See below.
  volatile uint64_t nchoices;  // Choices drawn so far by the current case.
  uint64_t choices[kMaxChoices];
  char desc[kMaxText];
  char msg[kMaxText];
};
enum Status { kRunning = 0, kPass = 1, kFail = 2, kDiscard = 3, kFinished = 4 };
Shm* g_shm = nullptr;

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  return mix(h);
}
double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
void put(char* dst, const std::string& s) {
  const size_t n = std::min(s.size(), kMaxText - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}
}  // namespace

std::vector<Target>& registry() {
  static std::vector<Target> r;
  return r;
}
std::vector<Known>& knowns() {
  static std::vector<Known> r;
  return r;
}

Src::Src(uint64_t seed) : mode_{Mode::Random} {
  s_[0] = mix(seed);
  s_[1] = mix(s_[0] ^ 0x1234567);
}
Src::Src(std::vector<uint64_t> choices)
    : mode_{Mode::Replay}, in_{std::move(choices)} {}
Src::Src(const uint8_t* data, size_t size)
    : mode_{Mode::Bytes}, data_{data}, size_{size} {}

uint64_t Src::next() {
  uint64_t s1 = s_[0];
  const uint64_t s0 = s_[1];
  const uint64_t r = s0 + s1;
  s_[0] = s0;
  s1 ^= s1 << 23;
  s_[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint64_t Src::draw(uint64_t n) {
  if (n == 0) abort();
  uint64_t v = 0;
  switch (mode_) {
    case Mode::Random:
      v = next() % n;
      break;
    case Mode::Replay:
      if (pos_ < in_.size()) v = std::min(in_[pos_++], n - 1);
      break;
    case Mode::Bytes: {
      int bytes = 1;
      while (bytes < 8 && (n - 1) >> (8 * bytes)) ++bytes;
      for (int i = 0; i < bytes && pos_ < size_; ++i) {
        v = (v << 8) | data_[pos_++];
      }
      v %= n;
      break;
    }
  }
  if (log_.size() >= kMaxChoices) throw Discard{};
  if (g_shm) {
    g_shm->choices[log_.size()] = v;
    g_shm->nchoices = log_.size() + 1;
  }
  log_.push_back(v);
  return v;
}
int Src::weighted(const std::vector<int>& w) {
  int total = 0;
  for (int x : w) total += x;
  int r = static_cast<int>(draw(total));
  for (size_t i = 0; i < w.size(); ++i) {
    if (r < w[i]) return static_cast<int>(i);
    r -= w[i];
  }
  return static_cast<int>(w.size()) - 1;
}

void Ctx::publish() {
  if (g_shm) put(g_shm->desc, desc_);
}

namespace {
void on_limit(int) { _exit(98); }
void write_all(int fd, const std::string& s) {
  size_t at = 0;
  while (at < s.size()) {
    const ssize_t n = write(fd, s.data() + at, s.size() - at);
    if (n <= 0) return;
    at += static_cast<size_t>(n);
  }
}
void append(std::string* out, const std::string& s) {
  const uint64_t n = s.size();
  out->append(reinterpret_cast<const char*>(&n), sizeof n);
  out->append(s);
}
}  // namespace

bool limited(Ctx& c, double cpu_seconds,
             const std::function<void(Ctx&)>& body) {
  int fd[2];
  if (pipe(fd) != 0) {
    perror("pipe");
    _exit(3);
  }
  const int err = memfd_create("err", 0);
  fflush(stdout);
  const pid_t parent = getpid();
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent) _exit(99);
    close(fd[0]);
    dup2(err, 1);
    dup2(err, 2);
    signal(SIGPROF, on_limit);
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = static_cast<time_t>(cpu_seconds);
    tv.it_value.tv_usec = static_cast<suseconds_t>(
        (cpu_seconds - static_cast<double>(tv.it_value.tv_sec)) * 1e6);
    setitimer(ITIMER_PROF, &tv, nullptr);
    Ctx cc = c;
    std::string out;
    auto finish = [&](char kind, const std::string& msg) {
      out.push_back(kind);
      append(&out, msg);
      append(&out, cc.desc_);
      append(&out, cc.nontrivial_);
      append(&out, cc.has_nt_ ? "1" : "0");
      append(&out, std::to_string(cc.comparisons_));
      for (const std::string& l : cc.labels_) append(&out, l);
      write_all(fd[1], out);
      _exit(0);
    };
    try {
      body(cc);
    } catch (const Failure& f) {
      finish('F', f.msg);
    } catch (const Discard&) {
      finish('D', "");
    } catch (const std::exception& e) {
      finish('F', std::string("unexpected exception: ") + e.what());
    } catch (...) {
      finish('F', "unexpected exception of unknown type");
    }
    finish('P', "");
  }
  close(fd[1]);
  std::string in;
  const double t0 = now();
  bool stalled = false;
  for (;;) {
    struct pollfd p{fd[0], POLLIN, 0};
    const int r = poll(&p, 1, 1000);
    if (r > 0) {
      char buf[4096];
      const ssize_t n = read(fd[0], buf, sizeof buf);
      if (n <= 0) break;
      in.append(buf, static_cast<size_t>(n));
      continue;
    }
    if (now() - t0 > 60) {
      stalled = true;
      kill(pid, SIGKILL);
      break;
    }
  }
  close(fd[0]);
  int st = 0;
  struct rusage ru;
  memset(&ru, 0, sizeof ru);
  wait4(pid, &st, 0, &ru);
  std::string text(2000, 0);
  const off_t len = lseek(err, 0, SEEK_END);
  const off_t from = len > 2000 ? len - 2000 : 0;
  const ssize_t got = pread(err, &text[0], text.size(), from);
  text.resize(got > 0 ? static_cast<size_t>(got) : 0);
  close(err);
  if (stalled) {
    const double cpu = static_cast<double>(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec);
    // Little time was used: it waits for something.
    if (cpu < cpu_seconds / 2) c.fail("no progress (deadlock)");
    return false;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return false;
  if (WIFSIGNALED(st))
    c.fail(cat("process died with signal ", WTERMSIG(st), ": ", text));
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || in.empty())
    c.fail(cat("process exited with status ",
               WIFEXITED(st) ? WEXITSTATUS(st) : -1, ": ", text));
  std::vector<std::string> parts;
  size_t at = 1;
  while (at + sizeof(uint64_t) <= in.size()) {
    uint64_t n;
    memcpy(&n, in.data() + at, sizeof n);
    at += sizeof n;
    parts.push_back(in.substr(at, n));
    at += n;
  }
  c.desc_ = parts.at(1);
  c.publish();
  c.nontrivial_ = parts.at(2);
  c.has_nt_ = parts.at(3) == "1";
  c.comparisons_ = std::stoull(parts.at(4));
  c.labels_ = {parts.begin() + 5, parts.end()};
  if (in[0] == 'F') c.fail(parts[0]);
  if (in[0] == 'D') c.discard();
  return true;
}

namespace {

struct Stats {
  uint64_t evaluations{0};
  uint64_t discards{0};
  uint64_t nontrivial{0};
  uint64_t comparisons{0};
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

Status run_case(const Target& t, Src& src, Ctx& ctx, std::string* msg) {
  try {
    t.fn(src, ctx);
    return kPass;
  } catch (const Failure& f) {
    *msg = f.msg;
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    *msg = std::string("unexpected exception: ") + e.what();
    return kFail;
  } catch (...) {
    *msg = "unexpected exception of unknown type";
    return kFail;
  }
}

int g_case_cpu_seconds = 40;
double g_case_wall_seconds = 150;

void on_prof(int) {
  if (g_shm) put(g_shm->msg, "case did not terminate (CPU limit)");
  _exit(97);
}
void arm_timer() {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = g_case_cpu_seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
void child_setup(const std::string& errfile) {
  signal(SIGPROF, on_prof);
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

Shm* new_shm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return static_cast<Shm*>(p);
}

uint64_t case_seed(const Target& t, uint64_t seed, uint64_t idx) {
  return mix(hash_str(t.name) ^ mix(seed * 0x10001 + 7) ^ mix(idx * 3 + 1));
}

std::string tail_of(const std::string& file, size_t n = 1500) {
  std::ifstream in(file);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  if (s.size() > n) s = s.substr(s.size() - n);
  return s;
}

struct Outcome {
  bool failed{false};
  bool hang{false};
  std::string msg;
  std::string desc;
  std::vector<uint64_t> choices;
};

std::string g_scratch;

// Waits for pid; kills it when its case counter stands still for too long.
int wait_child(pid_t pid, Shm* shm, bool* killed) {
  *killed = false;
  uint64_t last = ~0ull;
  double t0 = now();
  for (;;) {
    int st = 0;
    const pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (r < 0) return 0;
    if (shm->done != last) {
      last = shm->done;
      t0 = now();
    }
    if (now() - t0 > g_case_wall_seconds) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      *killed = true;
      return st;
    }
    usleep(now() - t0 < 0.05 ? 200 : 5000);
  }
}

// Runs `body` (one or several cases) in a fresh process.
Outcome run_forked(const std::function<Status(Shm*, std::string*)>& body) {
  static Shm* shm = new_shm();
  shm->current = 0;
  shm->done = 0;
  shm->status = kRunning;
  shm->nchoices = 0;
  shm->desc[0] = 0;
  shm->msg[0] = 0;
  const std::string errfile = g_scratch + "/single.err";
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    child_setup(errfile);
    g_shm = shm;
    arm_timer();
    std::string msg;
    const Status st = body(shm, &msg);
    put(shm->msg, msg);
    shm->status = st;
    _exit(0);
  }
  bool killed = false;
  const int st = wait_child(pid, shm, &killed);
  Outcome o;
  o.choices.assign(shm->choices, shm->choices + shm->nchoices);
  o.desc = shm->desc;
  if (killed) {
    o.failed = true;
    o.hang = true;
    o.msg = "case did not terminate (wall clock limit)";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    o.failed = shm->status == kFail;
    o.msg = shm->msg;
  } else {
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
      o.hang = true;
      o.msg = shm->msg;
    } else if (WIFSIGNALED(st)) {
      o.msg = cat("process died with signal ", WTERMSIG(st), ": ",
                  tail_of(errfile));
    } else {
      o.msg = cat("process exited with status ",
                  WIFEXITED(st) ? WEXITSTATUS(st) : -1, ": ",
                  tail_of(errfile, 3000));
    }
  }
  return o;
}

Outcome replay_choices(const Target& t, const std::vector<uint64_t>& ch) {
  return run_forked([&](Shm*, std::string* msg) {
    Src src(ch);
    Ctx ctx;
    return run_case(t, src, ctx, msg);
  });
}
// Runs the cases start, start+stride, ..., last in one process.
Outcome replay_history(const Target& t, uint64_t seed, uint64_t start,
                       uint64_t stride, uint64_t last) {
  return run_forked([&](Shm* shm, std::string* msg) {
    for (uint64_t i = start; i <= last; i += stride) {
      shm->nchoices = 0;
      Src src(case_seed(t, seed, i));
      Ctx ctx;
      arm_timer();
      const Status st = run_case(t, src, ctx, msg);
      ++shm->done;
      if (st == kFail) return kFail;
    }
    return kPass;
  });
}

void write_replay(const std::string& path, const Target& t,
                  const std::vector<uint64_t>& ch, const std::string& desc,
                  const std::string& msg, const std::string& history) {
  std::ofstream out(path);
  out << "target " << t.name << "\n";
  out << "property " << t.property << "\n";
  if (msg.find("depends on the schedule") != std::string::npos) out << "repeat\n";
  if (!history.empty()) {
    out << "history " << history << "\n";
  } else {
    out << "choices";
    for (uint64_t v : ch) out << " " << v;
    out << "\n";
  }
  auto block = [&](const char* name, const std::string& s) {
    std::stringstream ss(s);
    std::string line;
    while (std::getline(ss, line)) out << "# " << name << ": " << line << "\n";
  };
  block("case", desc);
  block("failure", msg);
}

// Integrated shrinking.  `ch` is known to fail.
Outcome shrink(const Target& t, Outcome best, double budget) {
  if (best.hang) return best;
  const double t0 = now();
  int attempts = 0;
  auto better = [](const std::vector<uint64_t>& a,
                   const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now() - t0 > budget || attempts > 4000) return false;
    if (!better(cand, best.choices)) return false;
    ++attempts;
    Outcome o = replay_choices(t, cand);
    if (!o.failed || o.hang) return false;
    if (!better(o.choices, best.choices)) {
      // The run may draw more (zeros) than the candidate has.
      while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
      if (!better(o.choices, best.choices)) return false;
    }
    best = o;
    return true;
  };
  // Trailing zeros are implied.
  while (!best.choices.empty() && best.choices.back() == 0)
    best.choices.pop_back();
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t k : {64, 32, 16, 8, 4, 2, 1}) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size()) continue;
        std::vector<uint64_t> cand = best.choices;
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (attempt(cand)) progress = true;
        if (now() - t0 > budget) return best;
      }
    }
    for (size_t k : {8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= best.choices.size(); ++i) {
        std::vector<uint64_t> cand = best.choices;
        bool nz = false;
        for (size_t j = 0; j < k; ++j) {
          nz = nz || cand[i + j];
          cand[i + j] = 0;
        }
        if (nz && attempt(cand)) progress = true;
      }
    }
    for (size_t i = 0; i < best.choices.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.choices.size() && lo < best.choices[i]) {
        const uint64_t mid = lo + (best.choices[i] - lo) / 2;
        std::vector<uint64_t> cand = best.choices;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
        } else {
          if (i >= best.choices.size()) break;
          if (mid + 1 > best.choices[i]) break;
          lo = mid + 1;
        }
      }
      // delete-and-decrement (lengths of lists)
      if (i < best.choices.size() && best.choices[i] > 0) {
        for (size_t k : {1, 2, 3, 4, 5}) {
          if (i >= best.choices.size() || i + 1 + k > best.choices.size() ||
              best.choices[i] == 0)
            break;
          for (size_t j = i + 1; j + k <= best.choices.size() && j < i + 12;
               ++j) {
            std::vector<uint64_t> cand = best.choices;
            --cand[i];
            cand.erase(cand.begin() + j, cand.begin() + j + k);
            if (attempt(cand)) {
              progress = true;
              break;
            }
          }
        }
      }
    }
  }
  return best;
}

std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r + "\"";
}

struct RunResult {
  Stats st;
  bool failed{false};
  std::string msg, desc, replay;
  bool inconclusive{false};
};

void run_shard(const Target& t, uint64_t seed, uint64_t shard, uint64_t jobs,
               uint64_t cases, double deadline, Shm* shm,
               const std::string& statfile, const std::string& errfile) {
  child_setup(errfile);
  g_shm = shm;
  Stats st;
  for (uint64_t i = shard; i < cases; i += jobs) {
    if (now() > deadline) break;
    shm->current = i;
    shm->nchoices = 0;
    shm->desc[0] = 0;
    Src src(case_seed(t, seed, i));
    Ctx ctx;
    std::string msg;
    arm_timer();
    const Status s = run_case(t, src, ctx, &msg);
    ++shm->done;
    if (s == kFail) {
      put(shm->msg, msg);
      shm->status = kFail;
      _exit(1);
    }
    if (s == kDiscard) {
      ++st.discards;
      continue;
    }
    ++st.evaluations;
    st.comparisons += ctx.comparisons_;
    for (const auto& l : ctx.labels_) ++st.labels[l];
    if (ctx.has_nt_) {
      ++st.nontrivial;
      if (st.hashes.size() < 4000000) st.hashes.insert(hash_str(ctx.nontrivial_));
      if (st.samples.size() < 2 && (i / jobs) % 7 == 3 && !ctx.desc_.empty())
        st.samples.push_back(ctx.desc_.substr(0, 1200));
    }
  }
  // Serialise.
  std::ofstream out(statfile, std::ios::binary);
  out << st.evaluations << " " << st.discards << " " << st.nontrivial << " "
      << st.comparisons << "\n";
  out << st.labels.size() << "\n";
  for (const auto& p : st.labels) out << p.second << " " << p.first << "\n";
  out << st.samples.size() << "\n";
  for (const auto& s : st.samples) {
    out << s.size() << "\n";
    out.write(s.data(), s.size());
    out << "\n";
  }
  out << st.hashes.size() << "\n";
  for (uint64_t h : st.hashes) out.write(reinterpret_cast<char*>(&h), 8);
  out.close();
  shm->status = kFinished;
  _exit(0);
}

void merge(const std::string& file, Stats* st) {
  std::ifstream in(file, std::ios::binary);
  uint64_t a, b, n, cmp;
  if (!(in >> a >> b >> n >> cmp)) return;
  st->evaluations += a;
  st->discards += b;
  st->nontrivial += n;
  st->comparisons += cmp;
  uint64_t k;
  in >> k;
  for (uint64_t i = 0; i < k; ++i) {
    uint64_t v;
    std::string l;
    in >> v;
    in.get();
    std::getline(in, l);
    st->labels[l] += v;
  }
  in >> k;
  for (uint64_t i = 0; i < k; ++i) {
    uint64_t len;
    in >> len;
    in.get();
    std::string s(len, 0);
    in.read(&s[0], len);
    if (st->samples.size() < 6) st->samples.push_back(s);
  }
  in >> k;
  in.get();
  for (uint64_t i = 0; i < k; ++i) {
    uint64_t h;
    in.read(reinterpret_cast<char*>(&h), 8);
    st->hashes.insert(h);
  }
}

RunResult run_target(const Target& t, uint64_t seed, uint64_t cases,
                     uint64_t jobs, double time_limit,
                     const std::string& replaydir, double shrink_budget) {
  RunResult res;
  if (!t.sharded) jobs = 1;
  const double deadline = now() + time_limit;
  struct W {
    pid_t pid;
    Shm* shm;
    std::string stat, err;
    bool alive;
    uint64_t last_done;
    double last_t;
  };
  std::vector<W> ws;
  fflush(stdout);
  for (uint64_t k = 0; k < jobs; ++k) {
    W w;
    w.shm = new_shm();
    w.shm->done = 0;
    w.shm->status = kRunning;
    w.stat = cat(g_scratch, "/", t.name, ".", k, ".stat");
    w.err = cat(g_scratch, "/", t.name, ".", k, ".err");
    w.alive = true;
    w.last_done = 0;
    w.last_t = now();
    w.pid = fork();
    if (w.pid < 0) {
      perror("fork");
      _exit(3);
    }
    if (w.pid == 0)
      run_shard(t, seed, k, jobs, cases, deadline, w.shm, w.stat, w.err);
    ws.push_back(w);
  }
  size_t alive = ws.size();
  int bad = -1;
  std::string bad_msg;
  while (alive > 0 && bad < 0) {
    for (size_t k = 0; k < ws.size(); ++k) {
      W& w = ws[k];
      if (!w.alive) continue;
      int st = 0;
      const pid_t r = waitpid(w.pid, &st, WNOHANG);
      if (r == w.pid) {
        w.alive = false;
        --alive;
        if (w.shm->status == kFinished) continue;
        bad = static_cast<int>(k);
        if (w.shm->status == kFail)
          bad_msg = w.shm->msg;
        else if (WIFSIGNALED(st))
          bad_msg = cat("process died with signal ", WTERMSIG(st), ": ",
                        tail_of(w.err));
        else
          bad_msg = cat("process exited with status ", WEXITSTATUS(st), ": ",
                        w.shm->msg, " ", tail_of(w.err));
        break;
      }
      if (w.shm->done != w.last_done) {
        w.last_done = w.shm->done;
        w.last_t = now();
      } else if (now() - w.last_t > g_case_wall_seconds) {
        kill(w.pid, SIGKILL);
        waitpid(w.pid, &st, 0);
        w.alive = false;
        --alive;
        bad = static_cast<int>(k);
        bad_msg = "case did not terminate (wall clock limit)";
        break;
      }
    }
    usleep(2000);
  }
  for (W& w : ws) {
    if (w.alive) {
      kill(w.pid, SIGKILL);
      int st;
      waitpid(w.pid, &st, 0);
    }
    if (bad < 0) merge(w.stat, &res.st);
  }
  if (bad >= 0) {
    uint64_t total = 0;
    for (W& w : ws) total += w.shm->done;
    res.st.evaluations = total;
    const W& w = ws[bad];
    const uint64_t idx = w.shm->current;
    Outcome first;
    first.choices.assign(w.shm->choices, w.shm->choices + w.shm->nchoices);
    first.desc = w.shm->desc;
    first.msg = bad_msg;
    Outcome o = replay_choices(t, first.choices);
    std::string history;
    if (o.failed) {
      o = shrink(t, o, shrink_budget);
      // Replay three times before reporting.
      for (int k = 0; k < 3; ++k) {
        if (o.hang && k > 0) break;
        Outcome again = replay_choices(t, o.choices);
        if (!again.failed) {
          res.inconclusive = true;
          o.failed = false;
        }
      }
    }
    if (!o.failed) {
      // The failure may depend on earlier cases of the same process.
      Outcome h = replay_history(t, seed, bad, jobs, idx);
      Outcome h2 = h.failed ? replay_history(t, seed, bad, jobs, idx) : h;
      if (h.failed && h2.failed) {
        // Shorten the history.
        uint64_t start = bad;
        const double t0 = now();
        for (uint64_t len = 1; start + len * jobs < idx; len *= 2) {
          if (now() - t0 > 30) break;
          const uint64_t s2 = idx - len * jobs;
          if (replay_history(t, seed, s2, jobs, idx).failed) {
            start = s2;
            break;
          }
        }
        o = h2;
        history = cat(seed, " ", start, " ", jobs, " ", idx);
        res.inconclusive = false;
      } else {
        res.inconclusive = true;
        res.msg = "failure did not reproduce: " + bad_msg;
        // It may depend on the interleaving of threads: try again and again.
        const bool hang = bad_msg.find("did not terminate") != std::string::npos;
        const double t0 = now();
        for (int k = 0; !hang && k < 80 && now() - t0 < 30; ++k) {
          const Outcome again = replay_choices(t, first.choices);
          if (!again.failed || again.hang) continue;
          o = again;
          o.choices = first.choices;
          o.msg += cat(" (depends on the schedule: failed again in repetition ", k + 1, ")");
          break;
        }
      }
      if (!o.failed) {
        res.desc = first.desc;
        write_replay(cat(replaydir, "/", t.property, "-", t.name,
                         "-unreproduced.replay"),
                     t, first.choices, first.desc, bad_msg, "");
      }
    }
    if (o.failed) {
      res.inconclusive = false;
      res.failed = true;
      res.msg = o.msg;
      res.desc = o.desc;
      res.replay = cat(replaydir, "/", t.property, "-", t.name, ".replay");
      write_replay(res.replay, t, o.choices, o.desc, o.msg, history);
    }
  }
  return res;
}

int do_replay(const std::string& file) {
  std::ifstream in(file);
  std::string line, name;
  std::vector<uint64_t> ch;
  std::vector<uint64_t> hist;
  bool is_hist = false, repeat = false;
  while (std::getline(in, line)) {
    std::stringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "target") ss >> name;
    if (k == "repeat") repeat = true;
    uint64_t v;
    if (k == "choices")
      while (ss >> v) ch.push_back(v);
    if (k == "history") {
      is_hist = true;
      while (ss >> v) hist.push_back(v);
    }
  }
  for (const Target& t : registry()) {
    if (t.name != name) continue;
    Outcome o = is_hist ? replay_history(t, hist[0], hist[1], hist[2], hist[3])
                        : replay_choices(t, ch);
    for (int k = 0; repeat && k < 200 && !o.failed; ++k) o = replay_choices(t, ch);
    std::cout << "case:\n" << o.desc << "\n";
    if (o.failed) {
      std::cout << "FAILED: " << o.msg << "\n";
      return 1;
    }
    std::cout << "passed\n";
    return 0;
  }
  std::cerr << "no such target: " << name << "\n";
  return 3;
}

}  // namespace

int main_impl(int argc, char** argv) {
  uint64_t seed = 1, jobs = 8;
  double scale = 1.0, time_limit = 240, shrink_budget = 40;
  std::string out = "-", replaydir = ".", only, replay, property;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") jobs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--time") time_limit = atof(val().c_str());
    else if (a == "--shrink") shrink_budget = atof(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--replaydir") replaydir = val();
    else if (a == "--only") only = val();
    else if (a == "--property") property = val();
    else if (a == "--replay") replay = val();
    else if (a == "--list") list = true;
    else if (a == "--cpu") g_case_cpu_seconds = atoi(val().c_str());
    else {
      std::cerr << "unknown option " << a << "\n";
      return 3;
    }
  }
  if (list) {
    for (const Target& t : registry())
      std::cout << t.property << " " << t.name << " " << t.quick_cases << "\n";
    return 0;
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  g_scratch = mkdtemp(tmpl);
  int rc = 0;
  if (!replay.empty()) {
    rc = do_replay(replay);
  } else {
    std::ostringstream js;
    js << "{\"targets\":[";
    bool first = true;
    for (const Target& t : registry()) {
      if (!only.empty() && t.name != only) continue;
      if (!property.empty() && t.property != property) continue;
      const uint64_t cases = std::max<uint64_t>(
          1, static_cast<uint64_t>(static_cast<double>(t.quick_cases) * scale));
      const double t0 = now();
      RunResult r = run_target(t, seed, cases, jobs, time_limit, replaydir,
                               shrink_budget);
      if (!first) js << ",";
      first = false;
      js << "{\"name\":" << json_str(t.name)
         << ",\"property\":" << json_str(t.property)
         << ",\"rule\":" << json_str(t.rule) << ",\"planned\":" << cases
         << ",\"evaluations\":" << r.st.evaluations
         << ",\"discards\":" << r.st.discards
         << ",\"nontrivial\":" << r.st.nontrivial
         << ",\"distinct_nontrivial\":" << r.st.hashes.size()
         << ",\"comparisons\":" << r.st.comparisons
         << ",\"wall_s\":" << (now() - t0) << ",\"labels\":{";
      bool f2 = true;
      for (const auto& p : r.st.labels) {
        if (!f2) js << ",";
        f2 = false;
        js << json_str(p.first) << ":" << p.second;
      }
      js << "},\"samples\":[";
      f2 = true;
      for (const auto& s : r.st.samples) {
        if (!f2) js << ",";
        f2 = false;
        js << json_str(s);
      }
      js << "],\"failed\":" << (r.failed ? "true" : "false")
         << ",\"inconclusive\":" << (r.inconclusive ? "true" : "false")
         << ",\"msg\":" << json_str(r.msg) << ",\"desc\":" << json_str(r.desc)
         << ",\"replay\":" << json_str(r.replay) << "}";
      if (r.failed) rc = 1;
    }
    js << "],\"known\":[";
    first = true;
    for (const Known& k : knowns()) {
      if (!property.empty() && k.property != property) continue;
      Outcome o = run_forked([&](Shm*, std::string* msg) {
        std::string what;
        const bool bad = k.still_fails(&what);
        *msg = what;
        return bad ? kFail : kPass;
      });
      if (!first) js << ",";
      first = false;
      js << "{\"id\":" << json_str(k.id)
         << ",\"property\":" << json_str(k.property)
         << ",\"fails\":" << (o.failed ? "true" : "false")
         << ",\"msg\":" << json_str(o.msg) << "}";
    }
    js << "]}\n";
    if (out == "-") {
      std::cout << js.str();
    } else {
      std::ofstream f(out);
      f << js.str();
    }
  }
  const std::string rm = "rm -rf " + g_scratch;
  if (system(rm.c_str()) != 0) return rc;
  return rc;
}

}  // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Target* target = [] {
    const char* n = getenv("PBT_TARGET");
    for (const pbt::Target& t : pbt::registry())
      if (n && t.name == n) return &t;
    fprintf(stderr, "PBT_TARGET not set\n");
    _exit(3);
  }();
  pbt::Src src(data, size);
  pbt::Ctx ctx;
  std::string msg;
  auto dump = [&](const std::string& m) {
    const char* r = getenv("PBT_REPLAY_OUT");
    if (r) pbt::write_replay(r, *target, src.log(), ctx.desc_, m, "");
  };
  // Leave a replay file behind in case the process dies inside the case.
  if (pbt::run_case(*target, src, ctx, &msg) == pbt::kFail) {
    dump(msg);
    fprintf(stderr, "PBT FAILURE: %s\n%s\n", msg.c_str(), ctx.desc_.c_str());
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
