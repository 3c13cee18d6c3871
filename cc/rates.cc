// The error rate calculator.
#include "harness.h"

#include "nisaba/translit/tools/calculate_error_rate.h"

using nisaba::translit::tools::MultiRefErrorRate;

class Open : public MultiRefErrorRate {
 public:
  using MultiRefErrorRate::GetTokenizedString;
  using MultiRefErrorRate::MultiRefErrorRate;
};

// split pairwise output (reference test)... : the last pair counts.
Fields Handle(const Fields &in) {
  if (in[0] == "rate") {
    Open m(in[1] == "1");
    const bool pairwise = in[2] == "1";
    for (size_t i = 4; i + 1 < in.size(); i += 2)
      m.CalculateErrorRate(in[i], in[i + 1], pairwise);
    m.Write(in[3], pairwise);
    Fields r;
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", pairwise ? 0.0 : m.CalcErrorRate());
    r.push_back(buf);
    return r;
  }
  if (in[0] == "tokens") {  // split reference test idx k is_test
    Open m(in[1] == "1");
    m.CalculateErrorRate(in[2], in[3], false);
    return m.GetTokenizedString(std::stoi(in[4]), std::stoi(in[5]), in[6] == "1");
  }
  throw shim::Fatal("harness: unknown command");
}
