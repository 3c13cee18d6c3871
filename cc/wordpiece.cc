// The wordpiece segmenter.
#include "harness.h"

#include <fstream>

#include "nisaba/translit/fst/wordpiece-segmenter.h"

using harness::Exact;
using nisaba::translit::fst::WordpieceSegmenter;

// how prefix text nvocab vocab... : how is "vector", "again" or a file to read.
Fields Handle(const Fields &in) {
  const std::string &how = in[1];
  WordpieceSegmenter w(in[2]);
  const int n = std::stoi(in[4]);
  const std::vector<std::string> vocab(in.begin() + 5, in.begin() + 5 + n);
  absl::Status s;
  if (how == "file") {
    s = w.InitWordpieces(vocab.at(0));
  } else {
    if (how == "again") (void)w.InitWordpieces(std::vector<std::string>{"zz", "▁z", "ab", "▁a", "ba"});
    s = w.InitWordpieces(vocab);
  }
  if (!s.ok()) return {"error"};
  if (in[0] == "pieces") {
    const auto a = w.GetWordpieces(in[3]);
    Exact e(in[3]);
    const auto b = w.GetWordpieces(e.view());
    const auto t = w.TokenizeInput(in[3]);
    if (!a.ok() || !b.ok() || !t.ok()) return {"error"};
    Fields r = {*t, *a == *b ? "same" : "different"};
    r.insert(r.end(), a->begin(), a->end());
    return r;
  }
  if (in[0] == "fst") {  // ... nwords (label word used)... unk nsyms (label piece)...
    size_t i = 5 + n;
    ::fst::SymbolTable words("w"), pieces("p");
    words.AddSymbol("<eps>", 0);
    pieces.AddSymbol("<eps>", 0);
    const int nw = std::stoi(in[i++]);
    std::vector<int> use;
    for (int k = 0; k < nw; ++k, i += 3) {
      words.AddSymbol(in[i + 1], std::stoi(in[i]));
      if (in[i + 2] == "1") use.push_back(std::stoi(in[i]));
    }
    const std::string unk = in[i++];
    const int np = std::stoi(in[i++]);
    for (int k = 0; k < np; ++k, i += 2) pieces.AddSymbol(in[i + 1], std::stoi(in[i]));
    const auto f = w.GetWordpieceTransducer(use, words, pieces, unk);
    if (!f.ok()) return {"error"};
    Fields r = {std::to_string(f->Start())};
    for (int q = 0; q < f->NumStates(); ++q) {
      if (f->Final(q) != ::fst::StdArc::Weight::Zero())
        r.push_back("final " + std::to_string(q) + " " + std::to_string(f->Final(q).Value()));
      for (::fst::ArcIterator<::fst::StdVectorFst> a(*f, q); !a.Done(); a.Next()) {
        const auto &x = a.Value();
        r.push_back("arc " + std::to_string(q) + " " + std::to_string(x.ilabel) + " " +
                    std::to_string(x.olabel) + " " + std::to_string(x.nextstate) + " " +
                    std::to_string(x.weight.Value()));
      }
    }
    return r;
  }
  throw shim::Fatal("harness: unknown command");
}
