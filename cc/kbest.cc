// Extraction, rejoining and ensembling of k-best full string outputs.
#include "harness.h"

#include <map>
#include <memory>

#include "nisaba/translit/tools/kbest-full-string-util.h"

using namespace nisaba::translit::tools;
using List = std::vector<std::pair<std::string, double>>;

static std::string Num(double d) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", d);
  return buf;
}

static void Add(const List &l, Fields *r) {
  r->push_back(std::to_string(l.size()));
  for (const auto &p : l) {
    r->push_back(p.first);
    r->push_back(Num(p.second));
  }
}

static std::vector<std::string> From(const Fields &in, size_t i) {
  return std::vector<std::string>(in.begin() + i, in.end());
}

Fields Handle(const Fields &in) {
  Fields r;
  auto num = [&](size_t i) { return std::stoi(in[i]); };
  if (in[0] == "extract") {  // file-or-empty k lines...
    std::unique_ptr<KbestExtractor> x(
        in[1].empty() ? new KbestExtractor(From(in, 3)) : new KbestExtractor(in[1]));
    for (int again = 0; again < 2; ++again)
      for (const auto &l : x->GetBests(num(2))) Add(l, &r);
    return r;
  }
  if (in[0] == "extractout") {  // file-or-empty k out scores full lines...
    std::unique_ptr<KbestExtractor> x(
        in[1].empty() ? new KbestExtractor(From(in, 6)) : new KbestExtractor(in[1]));
    x->RunExtractorAndOutput(in[3], num(2), in[4] == "1", in[5] == "1");
    return r;
  }
  if (in[0] == "rejoin") {  // k out file split | k out "" indices lines...
    std::unique_ptr<KbestRejoiner> x;
    if (in[3].empty()) {
      std::vector<int> idx;
      std::string cur;
      for (char c : in[4] + ",") {
        if (c != ',') {
          cur.push_back(c);
        } else if (!cur.empty()) {
          idx.push_back(std::stoi(cur));
          cur.clear();
        }
      }
      x.reset(new KbestRejoiner(From(in, 5), idx, num(1)));
    } else {
      x.reset(new KbestRejoiner(absl::string_view(in[3]), absl::string_view(in[4]), num(1)));
    }
    r.push_back(std::to_string(x->NumKbestLists()));
    for (int i = 0; i < x->NumKbestLists(); ++i) Add(x->GetRejoinedList(i), &r);
    Add(x->GetRejoinedList(x->NumKbestLists()), &r);
    x->RunRejoinerAndOutput(in[2]);
    return r;
  }
  if (in[0] == "ensemble") {  // length k (string score)...
    List l;
    for (size_t i = 3; i + 1 < in.size(); i += 2)
      l.push_back({in[i], std::stod(in[i + 1])});
    EnsembleFullString x(l);
    x.RunEnsemble(num(1));
    Add(x.GetOutputs(1), &r);
    Add(x.GetOutputs(num(2)), &r);
    return r;
  }
  if (in[0] == "files") {  // files lengths k out
    EnsembleFiles x(in[1], in[2]);
    x.RunEnsembleAndOutput(num(3), in[4]);
    return r;
  }
  throw shim::Fatal("harness: unknown command");
}
