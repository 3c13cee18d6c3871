// Stand-in for Abseil's logging, which Ubuntu's Abseil lacks. A failed check throws, so that a harness can tell a refusal
// from a crash.
#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_

#include <cstdlib>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/types/span.h"
#include "fst/log.h"

namespace shim {

struct Fatal : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Refused : std::runtime_error {  // QCHECK
  using std::runtime_error::runtime_error;
};

struct Discard {
  std::ostringstream s;
  std::ostream &stream() { return s; }
};

template <class E>
struct Thrower {
  void operator&&(std::ostream &s) const { throw E(static_cast<std::ostringstream &>(s).str()); }
};
// As OpenFst expects, LOG(level) is a stream; at the end of a fatal message it throws.
struct Message {
  explicit Message(const char *level) : level(level) {}
  ~Message() noexcept(false) {
    if (level == "FATAL") throw Fatal(s.str());
    if (level == "QFATAL") throw Refused(s.str());
  }
  std::ostream &stream() { return s; }
  std::string level;
  std::ostringstream s;
};
struct Ignorer {
  void operator&&(std::ostream &) const {}
};

inline const absl::Status &AsStatus(const absl::Status &s) { return s; }
template <class T>
const absl::Status &AsStatus(const absl::StatusOr<T> &s) { return s.status(); }

}  // namespace shim

#undef CHECK
#undef CHECK_EQ
#undef CHECK_NE
#undef CHECK_LT
#undef CHECK_LE
#undef CHECK_GT
#undef CHECK_GE
#undef DCHECK
#undef DCHECK_EQ
#undef DCHECK_NE
#undef DCHECK_LT
#undef DCHECK_LE
#undef DCHECK_GT
#undef DCHECK_GE
#undef LOG
#undef VLOG

#define SHIM_STREAM(x) (::shim::Discard().stream() << x)
#define SHIM_CHECK(type, c, text) \
  (c) ? (void)0 : ::shim::Thrower<::shim::type>() && SHIM_STREAM("check failed: " text " ")

#define CHECK(c) SHIM_CHECK(Fatal, c, #c)
#define CHECK_EQ(a, b) SHIM_CHECK(Fatal, (a) == (b), #a " == " #b)
#define CHECK_NE(a, b) SHIM_CHECK(Fatal, (a) != (b), #a " != " #b)
#define CHECK_LT(a, b) SHIM_CHECK(Fatal, (a) < (b), #a " < " #b)
#define CHECK_LE(a, b) SHIM_CHECK(Fatal, (a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) SHIM_CHECK(Fatal, (a) > (b), #a " > " #b)
#define CHECK_GE(a, b) SHIM_CHECK(Fatal, (a) >= (b), #a " >= " #b)
#define CHECK_OK(a) SHIM_CHECK(Fatal, ::shim::AsStatus(a).ok(), #a)
#define QCHECK(c) SHIM_CHECK(Refused, c, #c)
#define QCHECK_EQ(a, b) SHIM_CHECK(Refused, (a) == (b), #a " == " #b)
#define QCHECK_NE(a, b) SHIM_CHECK(Refused, (a) != (b), #a " != " #b)
#define QCHECK_LT(a, b) SHIM_CHECK(Refused, (a) < (b), #a " < " #b)
#define QCHECK_LE(a, b) SHIM_CHECK(Refused, (a) <= (b), #a " <= " #b)
#define QCHECK_GT(a, b) SHIM_CHECK(Refused, (a) > (b), #a " > " #b)
#define QCHECK_GE(a, b) SHIM_CHECK(Refused, (a) >= (b), #a " >= " #b)
#define QCHECK_OK(a) SHIM_CHECK(Refused, ::shim::AsStatus(a).ok(), #a)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)

#define LOG(level) ::shim::Message(#level).stream()
#define LOG_IF(level, c) !(c) ? (void)0 : ::shim::Ignorer() && LOG(level)
#define VLOG(level) LOG(INFO)

#endif  // VERIF_SHIM_LOG_H_
