// Stand-in for the part of OpenGrm NGram that nisaba uses: expected unigram counts of an acyclic weighted automaton, as an
// automaton with one state.
#ifndef VERIF_SHIM_NGRAM_COUNT_H_
#define VERIF_SHIM_NGRAM_COUNT_H_
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <vector>
#include "absl/types/span.h"
#include "fst/shortest-distance.h"
#include "fst/topsort.h"
#include "fst/vector-fst.h"
namespace ngram {
template <class Weight>
class NGramCounter {
 public:
  explicit NGramCounter(int order, bool epsilon_as_backoff = false, float = 0) {
    if (order != 1) std::abort();
  }
  template <class Arc>
  bool Count(const fst::Fst<Arc> &in) {
    fst::VectorFst<Arc> f(in);
    if (f.Start() == fst::kNoStateId) return true;
    if (!fst::TopSort(&f)) return false;
    const int n = f.NumStates();
    const double inf = std::numeric_limits<double>::infinity();
    std::vector<double> fwd(n, inf), bwd(n, inf);  // Negative logarithms.
    auto add = [inf](double *a, double b) {
      const double lo = std::min(*a, b), hi = std::max(*a, b);
      *a = hi == inf ? lo : lo - std::log1p(std::exp(lo - hi));
    };
    fwd[f.Start()] = 0;
    for (int s = n - 1; s >= 0; --s) {
      bwd[s] = f.Final(s).Value();
      for (fst::ArcIterator<fst::VectorFst<Arc>> it(f, s); !it.Done(); it.Next())
        add(&bwd[s], it.Value().weight.Value() + bwd[it.Value().nextstate]);
    }
    for (int s = 0; s < n; ++s) {
      for (fst::ArcIterator<fst::VectorFst<Arc>> it(f, s); !it.Done(); it.Next()) {
        const auto &a = it.Value();
        const double w = fwd[s] + a.weight.Value();
        add(&fwd[a.nextstate], w);
        if (a.ilabel) add(&counts_.emplace(a.ilabel, inf).first->second, w + bwd[a.nextstate]);
      }
    }
    total_ = bwd[f.Start()];
    return true;
  }
  template <class Arc>
  void GetFst(fst::VectorFst<Arc> *out) {
    out->DeleteStates();
    out->SetStart(out->AddState());
    out->SetFinal(0, typename Arc::Weight(total_));
    for (const auto &c : counts_)
      out->AddArc(0, Arc(c.first, c.first, typename Arc::Weight(c.second), 0));
  }
 private:
  std::map<int, double> counts_;
  double total_ = 0;
};
}  // namespace ngram
#endif
