// Included first. Stand-in for Abseil's mutex: the same interface, as far as this
// repository uses it (its Abseil is newer than the installed one), over the
// standard library, so that a thread sanitizer understands it.
// Locking and unlocking perturb the schedule when the harness asks for it.
#ifndef VERIF_SHIM_MUTEX_H_
#define VERIF_SHIM_MUTEX_H_

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <shared_mutex>
#include <thread>

// Headers that mean the real thing.
#include "absl/base/thread_annotations.h"
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/synchronization/mutex.h"
#include "fst/flags.h"
#include "fst/lock.h"
#ifdef VERIF_SYNC_FST
#include "fst/extensions/far/far.h"
#include "fst/fstlib.h"
#endif

namespace shim {
inline std::atomic<uint64_t> &Perturbation() {
  static std::atomic<uint64_t> s{0};
  return s;
}
inline void Perturb() {
  uint64_t s = Perturbation().load(std::memory_order_relaxed);
  if (s == 0) return;
  thread_local uint64_t x =
      s ^ (std::hash<std::thread::id>()(std::this_thread::get_id()) | 1);
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  switch (x % 16) {
    case 0: case 1: case 2:
      std::this_thread::yield();
      break;
    case 3:
      std::this_thread::sleep_for(std::chrono::microseconds(x / 16 % 200));
      break;
    default:
      break;
  }
}
}  // namespace shim

namespace absl {

class VerifCondition {
 public:
  template <class T>
  VerifCondition(const T *t, bool (T::*m)() const) : f_([t, m] { return (t->*m)(); }) {}
  template <class T>
  VerifCondition(T *t, bool (T::*m)()) : f_([t, m] { return (t->*m)(); }) {}
  template <class T>
  VerifCondition(bool (*g)(T *), T *t) : f_([g, t] { return g(t); }) {}
  explicit VerifCondition(const bool *b) : f_([b] { return *b; }) {}
  template <class T>
  explicit VerifCondition(const T *t) : f_([t] { return (*t)(); }) {}
  bool Eval() const { return f_(); }

 private:
  std::function<bool()> f_;
};

class VerifMutex {
 public:
  VerifMutex() = default;
  VerifMutex(const VerifMutex &) = delete;
  void Lock() { shim::Perturb(); m_.lock(); }
  void Unlock() { m_.unlock(); c_.notify_all(); shim::Perturb(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { shim::Perturb(); m_.lock_shared(); }
  void ReaderUnlock() { m_.unlock_shared(); c_.notify_all(); shim::Perturb(); }
  void WriterLock() { Lock(); }
  void WriterUnlock() { Unlock(); }
  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void AssertHeld() const {}
  void AssertReaderHeld() const {}
  void Await(const VerifCondition &cond) {
    while (!cond.Eval()) c_.wait(m_);
  }
  void LockWhen(const VerifCondition &cond) { Lock(); Await(cond); }

 private:
  std::shared_mutex m_;
  std::condition_variable_any c_;
};

class VerifMutexLock {
 public:
  explicit VerifMutexLock(VerifMutex *m) : m_(*m) { m_.Lock(); }
  explicit VerifMutexLock(VerifMutex &m) : m_(m) { m_.Lock(); }
  VerifMutexLock(VerifMutex *m, const VerifCondition &c) : m_(*m) { m_.LockWhen(c); }
  VerifMutexLock(VerifMutex &m, const VerifCondition &c) : m_(m) { m_.LockWhen(c); }
  VerifMutexLock(const VerifMutexLock &) = delete;
  ~VerifMutexLock() { m_.Unlock(); }

 private:
  VerifMutex &m_;
};
using VerifWriterMutexLock = VerifMutexLock;

class VerifReaderMutexLock {
 public:
  explicit VerifReaderMutexLock(VerifMutex *m) : m_(*m) { m_.ReaderLock(); }
  explicit VerifReaderMutexLock(VerifMutex &m) : m_(m) { m_.ReaderLock(); }
  VerifReaderMutexLock(const VerifReaderMutexLock &) = delete;
  ~VerifReaderMutexLock() { m_.ReaderUnlock(); }

 private:
  VerifMutex &m_;
};

class VerifCondVar {
 public:
  void Wait(VerifMutex *m) { c_.wait(*m); }
  void Signal() { c_.notify_one(); }
  void SignalAll() { c_.notify_all(); }

 private:
  std::condition_variable_any c_;
};

}  // namespace absl

#define Mutex VerifMutex
#define MutexLock VerifMutexLock
#define ReaderMutexLock VerifReaderMutexLock
#define WriterMutexLock VerifWriterMutexLock
#define Condition VerifCondition
#define CondVar VerifCondVar

#endif  // VERIF_SHIM_MUTEX_H_
