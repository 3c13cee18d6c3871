// The pair language model decoder and its runner.
#include "harness.h"

#include <atomic>
#include <memory>
#include <thread>

#include "google/protobuf/text_format.h"
#include "fst/arcsort.h"
#include "fst/vector-fst.h"
#include "nisaba/translit/fst/pairlm_decoder.h"
#include "nisaba/translit/fst/pairlm_decoder_runner.h"

using fst::StdArc;
using fst::StdVectorFst;
using nisaba::translit::fst::PairLMDecoder;
using nisaba::translit::fst::PairLMDecoderOptions;

static std::unique_ptr<PairLMDecoder> decoder;

static std::string Num(double d) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", d);
  return buf;
}

static PairLMDecoderOptions Options(const std::string &text) {
  PairLMDecoderOptions o;
  if (!google::protobuf::TextFormat::ParseFromString(text, &o))
    throw shim::Fatal("harness: options");
  return o;
}

// The number of places; each: how many candidates, then input, output and cost
// of each; then the printed form.
static Fields Transliterate(const std::string &line, int k) {
  const harness::Exact e(line);
  const StdVectorFst f = decoder->TransliterateString(e.view(), k);
  Fields r;
  int places = 0, s = f.Start();
  while (s >= 0 && f.NumArcs(s) > 0) {
    if (f.Final(s) != StdArc::Weight::Zero()) throw shim::Fatal("final in the middle");
    r.push_back(std::to_string(f.NumArcs(s)));
    int next = -1;
    for (fst::ArcIterator<StdVectorFst> it(f, s); !it.Done(); it.Next()) {
      const StdArc &a = it.Value();
      r.push_back(f.InputSymbols()->Find(a.ilabel));
      r.push_back(f.OutputSymbols()->Find(a.olabel));
      r.push_back(Num(a.weight.Value()));
      if (next >= 0 && a.nextstate != next) throw shim::Fatal("not a sequence of choices");
      next = a.nextstate;
    }
    s = next;
    ++places;
  }
  if (s >= 0 && f.Final(s) != StdArc::Weight::One()) throw shim::Fatal("final cost");
  r.insert(r.begin(), std::to_string(places));
  r.push_back(s < 0 ? "" : decoder->PrintTransliterations("7", f));
  return r;
}

Fields Handle(const Fields &in) {
  if (in[0] == "ping") return {};
  if (in[0] == "write") {  // path symbols(newlines) start (s d i o w | s w)...
    StdVectorFst f;
    auto state = [&f](int s) {
      while (f.NumStates() <= s) f.AddState();
      return s;
    };
    f.SetStart(state(std::stoi(in[3])));
    for (size_t i = 4; i < in.size(); ++i) {
      int s, d, a, b;
      float w;
      if (sscanf(in[i].c_str(), "%d %d %d %d %f", &s, &d, &a, &b, &w) == 5) {
        state(std::max(s, d));
        f.AddArc(s, StdArc(a, b, w, d));
      } else if (sscanf(in[i].c_str(), "%d %f", &s, &w) == 2) {
        f.SetFinal(state(s), w);
      } else {
        throw shim::Fatal("harness: arc");
      }
    }
    fst::ArcSort(&f, fst::StdILabelCompare());
    if (!in[2].empty()) {
      fst::SymbolTable t;
      std::string cur;
      for (char c : in[2] + "\n") {
        if (c != '\n') {
          cur.push_back(c);
        } else {
          t.AddSymbol(cur);
          cur.clear();
        }
      }
      f.SetInputSymbols(&t);
      f.SetOutputSymbols(&t);
    }
    if (!f.Write(in[1])) throw shim::Fatal("harness: write");
    return {};
  }
  if (in[0] == "new") {  // options
    decoder.reset();
    decoder.reset(new PairLMDecoder(Options(in[1])));
    return {};
  }
  if (in[0] == "line") return Transliterate(in[2], std::stoi(in[1]));  // k line
  if (in[0] == "lines") {  // k threads seed lines...
    const int k = std::stoi(in[1]), n = in.size() - 4;
    std::vector<Fields> got(n);
    std::atomic<int> next{0};
    shim::Perturbation() = std::stoull(in[3]);
    std::vector<std::thread> threads;
    std::atomic<bool> bad{false};
    for (int t = 0; t < std::stoi(in[2]); ++t) {
      threads.emplace_back([&] {
        for (int i; (i = next++) < n;) {
          try {
            got[i] = Transliterate(in[4 + i], k);
          } catch (const std::exception &e) {
            fprintf(stderr, "ERROR: %s\n", e.what());
            bad = true;
          }
        }
      });
    }
    for (auto &t : threads) t.join();
    shim::Perturbation() = 0;
    if (bad) throw shim::Fatal("in a thread");
    Fields r;
    for (const auto &g : got) r.insert(r.end(), g.begin(), g.end());
    return r;
  }
  if (in[0] == "cached") return {decoder->CheckCache(in[1]) ? "1" : "0"};
  if (in[0] == "run") {  // options k workers seed in out
    shim::Perturbation() = std::stoull(in[4]);
    const absl::Status s = nisaba::translit::fst::RunPairLMDecoder(
        Options(in[1]), std::stoi(in[2]), std::stoi(in[3]), in[5], in[6]);
    shim::Perturbation() = 0;
    return {s.ok() ? "1" : "0"};
  }
  throw shim::Fatal("harness: unknown command");
}
