// Stand-in for Bazel's runfiles library: everything is below $RUNFILES_DIR.
#ifndef VERIF_SHIM_RUNFILES_H_
#define VERIF_SHIM_RUNFILES_H_
#include <cstdlib>
#include <memory>
#include <string>
namespace bazel { namespace tools { namespace cpp { namespace runfiles {
class Runfiles {
 public:
  static Runfiles *Create(const std::string &, std::string *error) {
    if (std::getenv("RUNFILES_DIR") == nullptr) {
      if (error != nullptr) *error = "no RUNFILES_DIR";
      return nullptr;
    }
    return new Runfiles();
  }
  std::string Rlocation(const std::string &path) const {
    if (path.empty()) return "";
    if (path[0] == '/') return path;
    return std::string(std::getenv("RUNFILES_DIR")) + "/" + path;
  }
};
} } } }
#endif
