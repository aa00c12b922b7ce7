// The thread pool under generated concurrent histories.
#include <algorithm>
#include <atomic>
#include <functional>
#include <chrono>
#include <future>
#include <memory>
#include <string>
#include <thread>

#include "ThreadPool/ThreadPool.h"
#include "pbt.h"

using pbt::cat;
using pbt::Ctx;
using pbt::Src;

namespace {
struct Plan {
  int kind;      // 0 return value, 1 throw, 2 void, 3 spawns children
  int spin;      // work
  int sleep_us;
  std::vector<int> children;
};
struct Boom {
  int id;
};
void work(const Plan& p) {
  volatile int x = 0;
  for (int i = 0; i < p.spin; ++i) x = x + i;
  if (p.sleep_us)
    std::this_thread::sleep_for(std::chrono::microseconds(p.sleep_us));
}
}  // namespace

PBT_TARGET("C19", pool_history, 15000,
           "1-8 workers, 0-60 tasks with generated durations submitted from "
           "the owner, from up to 3 other threads and from inside tasks; tasks "
           "return a value, throw or submit more; some pools are destroyed "
           "while tasks are pending; every task must run exactly once, its "
           "future carry its own result, thread numbers must be distinct "
           "within the pool, and the destructor must wait for all of them; "
           "non-trivial: more tasks than workers and an exception or child") {
  const int workers = s.range(1, 8);
  const int n = s.range(0, 60);
  std::vector<Plan> plan(n);
  std::vector<bool> child(n, false);
  int throwing = 0, kids = 0;
  for (int i = 0; i < n; ++i) {
    plan[i].kind = s.weighted({4, 2, 2, 2});
    plan[i].spin = s.range(0, 2000);
    plan[i].sleep_us = s.chance(1, 5) ? s.range(0, 300) : 0;
  }
  for (int i = 0; i < n; ++i) {
    if (plan[i].kind != 3) continue;
    // later tasks become children
    const int k = s.range(1, 4);
    for (int j = 0; j < k; ++j) {
      const int t = s.range(i, n - 1);
      if (t > i && !child[t]) {
        child[t] = true;
        plan[i].children.push_back(t);
        ++kids;
      }
    }
  }
  const int submitters = s.range(0, 3);
  const bool wait_before = s.chance(1, 2);
  const int rounds = s.range(1, 3);  // pools created one after the other
  c.describe(cat(workers, " workers, ", n, " tasks, ", kids, " children, ",
                 submitters, " submitters, wait=", wait_before, " pools=",
                 rounds));
  for (int r = 0; r < rounds; ++r) {
    std::vector<std::atomic<int>> runs(n);
    std::vector<std::atomic<int>> tid(n);
    for (int i = 0; i < n; ++i) {
      runs[i] = 0;
      tid[i] = -1;
    }
    std::vector<std::future<std::string>> fut(n);
    std::vector<std::future<void>> vfut(n);
    std::atomic<int> max_tid{-1}, neg{0};
    {
      ThreadPool pool(workers);
      c.check(ThreadPool::get_thread_id() == 0, "number of the owner's thread");
      std::function<void(int)> submit = [&](int i) {
        const Plan& p = plan[i];
        auto body = [&runs, &tid, &plan, &submit, i](int id, const std::string& tag) {
          ++runs[i];
          tid[i] = ThreadPool::get_thread_id();
          work(plan[i]);
          for (int k : plan[i].children) submit(k);
          if (plan[i].kind == 1) throw Boom{id};
          return tag + std::to_string(id * 7);
        };
        if (p.kind == 2)
          vfut[i] = pool.enqueue([body, i]() { body(i, "v"); });
        else
          fut[i] = pool.enqueue(body, i, std::string("t"));
      };
      std::vector<std::thread> ts;
      for (int k = 0; k < submitters; ++k)
        ts.emplace_back([&, k] {
          for (int i = k; i < n; i += submitters + 1)
            if (!child[i]) submit(i);
        });
      for (int i = submitters; i < n; i += submitters + 1)
        if (!child[i]) submit(i);
      for (std::thread& t : ts) t.join();
      if (wait_before) {
        for (int i = 0; i < n; ++i) {
          if (child[i]) continue;
          if (plan[i].kind == 2) vfut[i].wait(); else fut[i].wait();
        }
      }
      // Nothing can be submitted once the destructor has begun.
      for (int i = 0; i < n; ++i)
        while (child[i] && runs[i] == 0) std::this_thread::yield();
    }
    // The destructor has returned: every accepted task is complete.
    for (int i = 0; i < n; ++i) {
      c.check(runs[i] == 1, cat("task ", i, " ran ", runs[i].load(), " times"));
      const bool ready =
          plan[i].kind == 2
              ? vfut[i].wait_for(std::chrono::seconds(0)) ==
                    std::future_status::ready
              : fut[i].wait_for(std::chrono::seconds(0)) ==
                    std::future_status::ready;
      c.check(ready, cat("task ", i, " is not complete after the destructor"));
      try {
        if (plan[i].kind == 2) {
          vfut[i].get();
        } else {
          const std::string x = fut[i].get();
          c.check(x == "t" + std::to_string(i * 7),
                  cat("future of task ", i, " holds ", x));
        }
        c.check(plan[i].kind != 1, cat("exception of task ", i, " is lost"));
      } catch (const Boom& b) {
        c.check(plan[i].kind == 1 && b.id == i,
                cat("future of task ", i, " holds the exception of ", b.id));
        ++throwing;
      }
      c.check(tid[i] >= 1 && tid[i] <= workers,
              cat("thread number ", tid[i].load(), " with ", workers,
                  " workers"));
    }
  }
  if (n > workers && (throwing || kids)) c.nontrivial(c.desc_);
}

PBT_TARGET("C19", pool_thread_ids, 4000,
           "1-8 workers held at a barrier so that all of them run: they must "
           "have the numbers 1..n, in every one of a sequence of pools, also "
           "while other pools are alive and used; "
           "non-trivial: 2 workers") {
  const int pools = s.range(1, 4);
  std::vector<std::unique_ptr<ThreadPool>> others;
  for (int r = 0; r < pools; ++r) {
    const int workers = s.range(1, 8);
    c.add(cat(workers, " "));
    if (s.chance(1, 3)) {
      c.add("and another pool, ");
      others.push_back(std::make_unique<ThreadPool>(s.range(1, 3)));
      if (s.chance(1, 2)) others.back()->enqueue([] { ThreadPool::get_thread_id(); }).get();
    }
    std::vector<std::future<int>> f;
    std::atomic<int> in{0};
    std::atomic<bool> calls_stable{true};
    {
      ThreadPool pool(workers);
      for (int i = 0; i < workers; ++i)
        f.push_back(pool.enqueue([&] {
          ++in;
          while (in < workers) std::this_thread::yield();
          const int id = ThreadPool::get_thread_id();
          if (ThreadPool::get_thread_id() != id) calls_stable = false;
          return id;
        }));
    }
    std::set<int> ids;
    for (auto& x : f) ids.insert(x.get());
    c.check(static_cast<int>(ids.size()) == workers && *ids.begin() == 1 &&
                *ids.rbegin() == workers,
            cat("thread numbers of ", workers, " workers: ", ids.size(),
                " distinct, ", *ids.begin(), "..", *ids.rbegin()));
    c.check(calls_stable, "the number of a thread changes");
    if (workers >= 2) c.nontrivial(c.desc_);
  }
}
