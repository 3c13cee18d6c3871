// A line protocol around the code under test. Request: hex fields separated by
// spaces ("-" is the empty field). Answer: "ok", "fatal", "refused" or "throws",
// followed by hex fields. Anything the code prints goes to the error stream.
#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_

#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <string>
#include <vector>

#include "absl/log/log.h"

using Fields = std::vector<std::string>;

Fields Handle(const Fields &in);  // Each harness defines it.

namespace harness {

inline std::string Unhex(const std::string &h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
  return r;
}

inline std::string Hex(const std::string &s) {
  if (s.empty()) return "-";
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r.push_back(d[c >> 4]);
    r.push_back(d[c & 15]);
  }
  return r;
}

// Copies into a buffer of exactly the right size, so that an address sanitizer
// sees a read past the end.
class Exact {
 public:
  explicit Exact(const std::string &s) : n_(s.size()), p_(new char[s.size()]) {
    for (size_t i = 0; i < n_; ++i) p_[i] = s[i];
  }
  ~Exact() { delete[] p_; }
  absl::string_view view() const { return absl::string_view(p_, n_); }

 private:
  size_t n_;
  char *p_;
};

inline int Main() {
  const int out = dup(1);
  dup2(2, 1);
  FILE *f = fdopen(out, "w");
  std::string line;
  while (std::getline(std::cin, line)) {
    Fields in;
    size_t a = 0;
    while (a < line.size()) {
      size_t b = line.find(' ', a);
      if (b == std::string::npos) b = line.size();
      in.push_back(Unhex(line.substr(a, b - a)));
      a = b + 1;
    }
    std::string status = "ok";
    Fields r;
    try {
      r = Handle(in);
    } catch (const shim::Fatal &e) {
      status = "fatal";
      r = {e.what()};
    } catch (const shim::Refused &e) {
      status = "refused";
      r = {e.what()};
    } catch (const std::exception &e) {
      status = "throws";
      r = {e.what()};
    }
    fputs(status.c_str(), f);
    for (const std::string &x : r) fprintf(f, " %s", Hex(x).c_str());
    fputc('\n', f);
    fflush(f);
  }
  return 0;
}

}  // namespace harness

int main() { return harness::Main(); }

#endif  // VERIF_HARNESS_H_
