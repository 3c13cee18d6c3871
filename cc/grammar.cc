// The Brahmic grammars: objects are named, and live until they are deleted.
#include "harness.h"

#include <map>
#include <memory>
#include <thread>

#include "nisaba/scripts/brahmic/far.h"
#include "nisaba/scripts/brahmic/grammar.h"

namespace b = nisaba::brahmic;
using harness::Exact;

struct Object {
  std::unique_ptr<b::Grammar> g;
  std::unique_ptr<b::Normalizer> n;
  std::unique_ptr<b::ReadingNorm> r;
  std::unique_ptr<b::Far> f;
  std::unique_ptr<fst::StdFst> kept;
};
static std::map<std::string, Object> objects;
static std::map<std::string, thrax::GrmManager *> managers;

static absl::Status Apply(const Object &o, const std::string &how, absl::string_view text,
                          std::string *out) {
  if (how == "accept") return o.g->Accept(text);
  if (how == "normalize") return o.n->NormalizeOnly(text, out);
  if (o.g != nullptr) return o.g->Rewrite(text, out);
  if (o.n != nullptr) return o.n->Rewrite(text, out);
  return o.r->Rewrite(text, out);
}

static Fields Code(const absl::Status &s) {
  return {s.ok() ? "ok" : std::to_string(static_cast<int>(s.code()))};
}

static std::string Result(const Object &o, const std::string &how, const std::string &text) {
  Exact e(text);
  std::string out = "before";
  const absl::Status s = Apply(o, how, e.view(), &out);
  return s.ok() ? "=" + out : "!" + std::string(s.message());
}

static fst::StdVectorFst Best(const fst::StdFst &rule, const std::string &text, fst::TokenType t) {
  fst::StringCompiler<fst::StdArc> compiler(t);
  fst::StdVectorFst in, out, best;
  compiler(text, &in);
  fst::Compose(in, rule, &out);
  fst::ShortestPath(out, &best);
  fst::Project(&best, fst::ProjectType::OUTPUT);
  fst::RmEpsilon(&best);
  return best;
}

Fields Handle(const Fields &in) {
  const std::string &c = in[0];
  FLAGS_fst_error_fatal = false;  // A missing file is an error that is reported.
  if (c == "ping") return {};
  if (c == "clear") {
    objects.clear();
    managers.clear();
    return {};
  }
  if (c == "path") return {b::MakeFarFilePath(Exact(in[1]).view(), Exact(in[2]).view())};
  if (c == "supports") return {b::Normalizer::SupportsFst(Exact(in[1]).view()) ? "1" : "0"};
  if (c == "manager") {  // name which
    const auto m = in[2] == "visual_norm" ? b::LoadVisualNormManager() : b::LoadWellformedManager();
    if (!m.ok()) return Code(m.status());
    managers[in[1]] = m.value();
    return {"ok"};
  }
  Object &o = objects[in[1]];
  if (c == "grammar") {  // object far fst [manager | path]
    if (in.size() == 5 && in[4][0] == '@')
      o.g = std::make_unique<b::Grammar>(in[2], in[3], managers.at(in[4]));
    else if (in.size() == 5)
      o.g = std::make_unique<b::Grammar>(in[4], in[2], in[3]);
    else
      o.g = std::make_unique<b::Grammar>(in[2], in[3]);
    return {};
  }
  if (c == "normalizer") {  // object fst [manager manager | path]
    if (in.size() == 5)
      o.n = std::make_unique<b::Normalizer>(in[2], managers.at(in[3]), managers.at(in[4]));
    else if (in.size() == 4)
      o.n = std::make_unique<b::Normalizer>(in[3], in[2]);
    else
      o.n = std::make_unique<b::Normalizer>(in[2]);
    return {};
  }
  if (c == "reading") {  // object fst [path]
    if (in.size() == 4)
      o.r = std::make_unique<b::ReadingNorm>(in[3], in[2]);
    else
      o.r = std::make_unique<b::ReadingNorm>(in[2]);
    return {};
  }
  if (c == "far") {
    o.f = std::make_unique<b::Far>(in[2]);
    return {};
  }
  if (c == "load")
    return Code(o.g ? o.g->Load() : o.n ? o.n->Load() : o.r ? o.r->Load() : o.f->Load());
  if (c == "verify") return Code(o.g ? o.g->VerifyLoad() : o.n->VerifyLoad());
  if (c == "delete") {
    objects.erase(in[1]);
    return {};
  }
  if (c == "keep") {  // object fst: the transducer outlives the archive
    o.kept = o.f->Fst(Exact(in[2]).view());
    o.f.reset();
    return {o.kept == nullptr ? "none" : "ok"};
  }
  if (c == "best") {  // object fst type text
    std::unique_ptr<fst::StdFst> own;
    if (o.kept == nullptr) own = o.f->Fst(Exact(in[2]).view());
    const fst::StdFst *rule = o.kept ? o.kept.get() : own.get();
    if (rule == nullptr) return {"none"};
    const auto t = in[3] == "utf8" ? fst::TokenType::UTF8 : fst::TokenType::BYTE;
    const fst::StdVectorFst best = Best(*rule, in[4], t);
    if (best.Start() == fst::kNoStateId) return {"!"};
    std::string s;
    fst::StringPrinter<fst::StdArc> printer(t);
    if (!printer(best, &s)) return {"?"};
    return {"=" + s};
  }
  if (c == "rewrite" || c == "accept" || c == "normalize") {  // object text...
    Fields r;
    for (size_t i = 2; i < in.size(); ++i) r.push_back(Result(o, c, in[i]));
    return r;
  }
  if (c == "threads") {  // object, or "*": all objects; how seed count text...
    const size_t n = std::stoul(in[4]);
    shim::Perturbation() = std::stoul(in[3]);
    Fields r(in.size() - 5);
    std::vector<const Object *> os;
    for (const auto &x : objects)
      if (x.first != "*" && (in[1] == "*" || x.first == in[1])) os.push_back(&x.second);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        for (size_t i = t; i < r.size(); i += n)
          r[i] = Result(*os[i % os.size()], in[2], in[5 + i]);
      });
    for (auto &t : ts) t.join();
    shim::Perturbation() = 0;
    if (in[1] == "*") objects.erase("*");
    return r;
  }
  throw std::runtime_error("unknown command " + c);
}
