// Scenarios on the thread pool.
#include "harness.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

#include "nisaba/port/thread_pool.h"

using nisaba::ThreadPool;

// Gated tasks: each records its start and waits for its own release.
struct Gates {
  std::mutex m;
  std::condition_variable c;
  std::vector<int> started;   // In order of recording.
  std::vector<int> runs;      // Times each task started.
  std::vector<bool> open;
  int finished = 0;

  int Add() {
    std::lock_guard<std::mutex> l(m);
    runs.push_back(0);
    open.push_back(false);
    return runs.size() - 1;
  }
  void Run(int i) {
    std::unique_lock<std::mutex> l(m);
    started.push_back(i);
    ++runs[i];
    c.notify_all();
    c.wait(l, [&] { return static_cast<bool>(open[i]); });
    ++finished;
    c.notify_all();
  }
  void Open(int i) {
    std::lock_guard<std::mutex> l(m);
    open[i] = true;
    c.notify_all();
  }
  // Waits until `n` tasks have started (or, at worst, some seconds), then a
  // little longer for one too many.
  std::string Started(size_t n, int settle_us) {
    std::string r;
    {
      std::unique_lock<std::mutex> l(m);
      c.wait_for(l, std::chrono::seconds(20), [&] { return started.size() >= n; });
    }
    std::this_thread::sleep_for(std::chrono::microseconds(settle_us));
    std::lock_guard<std::mutex> l(m);
    for (int i : started) r += std::to_string(i) + ",";
    return r;
  }
};

static Fields Gated(const Fields &in) {  // threads settle ops...
  Gates g;
  Fields r;
  const int settle = std::stoi(in[2]);
  auto pool = std::make_unique<ThreadPool>(std::stoi(in[1]));
  for (size_t i = 3; i + 1 < in.size(); i += 2) {
    const std::string &op = in[i];
    const int x = std::stoi(in[i + 1]);
    if (op == "schedule") {
      const int t = g.Add();
      pool->Schedule([&g, t] { g.Run(t); });
    } else if (op == "workers") {
      pool->StartWorkers();
    } else if (op == "open") {
      g.Open(x);
    } else if (op == "started") {
      r.push_back(g.Started(x, settle));
    } else if (op == "destroy") {
      // The destructor runs elsewhere; the unfinished tasks keep it waiting.
      std::atomic<bool> gone{false};
      std::thread t([&] { pool.reset(); gone = true; });
      std::string early;
      for (size_t k = 0;; ++k) {
        {
          std::unique_lock<std::mutex> l(g.m);
          if (g.finished == static_cast<int>(g.runs.size())) break;
          if (gone) { early = "early"; break; }
        }
        if (k < g.open.size()) {
          std::this_thread::sleep_for(std::chrono::microseconds(settle));
          if (gone) {
            std::lock_guard<std::mutex> l(g.m);
            if (g.finished != static_cast<int>(g.runs.size())) early = "early";
          }
          g.Open(k);
        } else {
          std::this_thread::sleep_for(std::chrono::microseconds(20));
        }
      }
      t.join();
      r.push_back(early.empty() ? "kept" : early);
      std::lock_guard<std::mutex> l(g.m);
      std::string runs;
      for (int n : g.runs) runs += std::to_string(n) + ",";
      r.push_back(runs);
      r.push_back(std::to_string(g.finished));
    }
  }
  return r;
}

// Producers schedule concurrently, tasks schedule further tasks.
static Fields Crowd(const Fields &in) {  // threads producers tasks busy_us children early
  const int threads = std::stoi(in[1]), producers = std::stoi(in[2]), tasks = std::stoi(in[3]);
  const int busy = std::stoi(in[4]), children = std::stoi(in[5]);
  const int total = producers * tasks * (1 + children);
  std::vector<std::atomic<int>> runs(total);
  for (auto &x : runs) x = 0;
  std::atomic<int> now{0}, most{0}, done{0}, spawned{0};
  std::vector<std::vector<int>> order(producers);
  std::mutex m;
  auto body = [&](int id) {
    const int n = ++now;
    int seen = most.load();
    while (n > seen && !most.compare_exchange_weak(seen, n)) {
    }
    ++runs[id];
    {
      std::lock_guard<std::mutex> l(m);
      if (id < producers * tasks) order[id / tasks].push_back(id % tasks);
    }
    if (busy > 0) std::this_thread::sleep_for(std::chrono::microseconds(id * 7 % (busy + 1)));
    --now;
    ++done;
  };
  {
    ThreadPool pool(threads);
    if (in[6] == "1") pool.StartWorkers();
    std::vector<std::thread> ps;
    for (int p = 0; p < producers; ++p) {
      ps.emplace_back([&, p] {
        for (int t = 0; t < tasks; ++t) {
          const int id = p * tasks + t;
          pool.Schedule([&, id] {
            for (int c = 0; c < children; ++c) {
              const int kid = producers * tasks + id * children + c;
              pool.Schedule([&, kid] { body(kid); });
            }
            ++spawned;
            body(id);
          });
          if (t % 3 == 1) std::this_thread::yield();
        }
      });
    }
    for (auto &t : ps) t.join();
    if (in[6] != "1") pool.StartWorkers();
    // What tasks schedule must precede the destruction too.
    if (children > 0)
      for (int k = 0; k < 2000000 && spawned < producers * tasks; ++k)
        std::this_thread::sleep_for(std::chrono::microseconds(10));
  }
  const int at_end = done;
  std::string all;
  for (auto &x : runs) all += std::to_string(x.load()) + ",";
  Fields r = {std::to_string(at_end), std::to_string(most.load()), all};
  for (const auto &o : order) {
    std::string s;
    for (int t : o) s += std::to_string(t) + ",";
    r.push_back(s);
  }
  return r;
}

Fields Handle(const Fields &in) {
#ifdef VERIF_SHIM_MUTEX_H_
  static uint64_t seed = 1;
  shim::Perturbation() = ++seed * 0x9E3779B97F4A7C15ull;
#endif
  if (in[0] == "gated") return Gated(in);
  if (in[0] == "crowd") return Crowd(in);
  if (in[0] == "ping") return {"pong"};
  throw shim::Fatal("harness: unknown command");
}
