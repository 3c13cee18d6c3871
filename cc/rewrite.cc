// Rewriting with archives of rules: every entry point, on one input.
#include "harness.h"

#include <map>
#include <memory>
#include <sstream>
#include <thread>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/strings/str_split.h"
#include "google/protobuf/repeated_ptr_field.h"
#include "nisaba/interim/grm2/paths/paths.h"
#include "nisaba/interim/grm2/rewrite/rewrite.h"
#include "nisaba/interim/grm2/rewrite/rewrite_manager.h"
#include "nisaba/interim/grm2/rewrite/rule_cascade.h"
#include "nisaba/interim/grm2/thrax/grm-manager.h"
#include "nisaba/interim/grm2/thrax/rewrite-tester.h"
#include "nisaba/interim/grm2/thrax/walker/util/function/symbols.h"

ABSL_DECLARE_FLAG(std::string, far);
ABSL_DECLARE_FLAG(std::string, rules);
ABSL_DECLARE_FLAG(std::string, input_mode);
ABSL_DECLARE_FLAG(std::string, output_mode);
ABSL_DECLARE_FLAG(int, noutput);
ABSL_DECLARE_FLAG(bool, show_details);

using fst::StdArc;
using fst::StdVectorFst;
using harness::Exact;
using Strings = std::vector<std::string>;
using Weighted = std::vector<std::pair<std::string, float>>;
using Repeated = google::protobuf::RepeatedPtrField<std::string>;
using Labels = std::vector<int>;

static Fields answer;

static std::string Num(float f) {
  std::ostringstream s;
  s.precision(9);
  s << f;
  return s.str();
}
static std::string Join(const Labels &ls) {
  std::string s;
  for (int l : ls)
    if (l != 0) s += (s.empty() ? "" : ",") + std::to_string(l);
  return s;
}

// An answer: name, 0 or 1, number of items, items.
static void Put(const std::string &name, bool ok, const Strings &items) {
  answer.push_back(name);
  answer.push_back(ok ? "1" : "0");
  answer.push_back(std::to_string(items.size()));
  answer.insert(answer.end(), items.begin(), items.end());
}
static void Put(const std::string &name, bool ok, const std::string &s) { Put(name, ok, Strings{s}); }
static void Put(const std::string &name, bool ok, const std::string &s, float w) {
  Put(name, ok, Strings{s, Num(w)});
}
static void Put(const std::string &name, bool ok, const Repeated &r) {
  Put(name, ok, Strings(r.begin(), r.end()));
}
static void Put(const std::string &name, bool ok, const Weighted &v) {
  Strings s;
  for (const auto &x : v) {
    s.push_back(x.first);
    s.push_back(Num(x.second));
  }
  Put(name, ok, s);
}
static void Put(const std::string &name, bool ok, const std::vector<Labels> &v) {
  Strings s;
  for (const auto &x : v) s.push_back(Join(x));
  Put(name, ok, s);
}
static void Put(const std::string &name, bool ok, const Labels &v) { Put(name, ok, Join(v)); }

// All output strings of an acyclic lattice, with costs (at most a thousand).
static void Put(const std::string &name, bool ok, const StdVectorFst &f, fst::TokenType t) {
  Strings s;
  int n = 0;
  if (ok && !f.Properties(fst::kAcyclic, true)) {
    s.push_back("endless");
  } else if (ok) {
    fst::StringPathIterator<StdArc> it(f, t, nullptr, false);
    for (; !it.Done() && n < 1000; it.Next(), ++n) {
      s.push_back(it.OString());
      s.push_back(Num(it.Weight().Value()));
    }
  }
  Put(name, ok, s);
}

template <class Sum>
static void Cascade(const Sum &c, const std::string &in, int n, const Strings &cand, fst::TokenType t,
                    bool finite) {
  std::string s = "x", d = "x";
  Labels l = {7};
  StdVectorFst f;
  Strings v = {"x"}, dv = {"x"};
  std::vector<Labels> lv = {{7}};
  Repeated r;
  r.Add("x");
  bool ok;
  Exact e(in);
  // The transducer handed in holds another string.
  const fst::StringCompiler<StdArc> compiler(t);
  const auto stale = [&] {
    f.DeleteStates();
    compiler(cand[0], &f);
    return &f;
  };
  ok = c.TopRewrite(e.view(), &s); Put("c.top.string", ok, s);
  ok = c.TopRewrite(e.view(), &s, &d); Put("c.top.debug", ok, Strings{s, d});
  ok = c.TopRewrite(e.view(), &l); Put("c.top.labels", ok, l);
  ok = c.TopRewrite(e.view(), stale()); Put("c.top.fst", ok, f, t);
  s = d = "x"; l = {7};
  ok = c.OneTopRewrite(e.view(), &s); Put("c.one.string", ok, s);
  ok = c.OneTopRewrite(e.view(), &s, &d); Put("c.one.debug", ok, Strings{s, d});
  ok = c.OneTopRewrite(e.view(), &l); Put("c.one.labels", ok, l);
  ok = c.OneTopRewrite(e.view(), stale()); Put("c.one.fst", ok, f, t);
  ok = c.TopRewrites(e.view(), n, &v); Put("c.n.string", ok, v);
  ok = c.TopRewrites(e.view(), n, &v, &dv); Put("c.n.debug", ok, v); Put("c.n.debug2", ok, dv);
  ok = c.TopRewrites(e.view(), n, &lv); Put("c.n.labels", ok, lv);
  ok = c.TopRewrites(e.view(), n, stale()); Put("c.n.fst", ok, f, t);
#ifdef EXTRA
  ok = c.TopRewrites(e.view(), n, &r); Put("c.n.repeated", ok, r);
#endif
  v = {"x"}; dv = {"x"}; lv = {{7}}; r.Clear(); r.Add("x");
  ok = c.TopRewrites(e.view(), &v); Put("c.tops.string", ok, v);
  ok = c.TopRewrites(e.view(), &v, &dv); Put("c.tops.debug", ok, v); Put("c.tops.debug2", ok, dv);
  ok = c.TopRewrites(e.view(), &lv); Put("c.tops.labels", ok, lv);
  ok = c.TopRewrites(e.view(), stale()); Put("c.tops.fst", ok, f, t);
  ok = c.TopRewrites(e.view(), &r); Put("c.tops.repeated", ok, r);
  v = {"x"}; dv = {"x"}; lv = {{7}}; r.Clear(); r.Add("x");
  ok = c.Rewrites(e.view(), &v); Put("c.all.string", ok, v);
  if (finite) {
    ok = c.Rewrites(e.view(), &v, &dv); Put("c.all.debug", ok, v); Put("c.all.debug2", ok, dv);
    ok = c.Rewrites(e.view(), &lv); Put("c.all.labels", ok, lv);
    ok = c.Rewrites(e.view(), stale()); Put("c.all.fst", ok, f, t);
  }
  ok = c.Rewrites(e.view(), &r); Put("c.all.repeated", ok, r);
  for (const std::string &x : cand)
    Put("c.match", c.Matches(e.view(), Exact(x).view()), x);
}

static fst::TokenType Type(const std::string &mode) {
  return mode == "utf8" ? fst::TokenType::UTF8 : fst::TokenType::BYTE;
}

static Strings Split(const std::string &s) {
  return absl::StrSplit(s, ',');
}

Fields Handle(const Fields &in) {
  const std::string &c = in[0];
  FLAGS_fst_error_fatal = false;
  answer.clear();
  if (c == "ping") return {};
  if (c == "all") {  // far mode rules input n finite candidate...
    const std::string &far = in[1], &input = in[4];
    const Strings rules = Split(in[3]);
    const fst::TokenType t = Type(in[2]);
    const int n = std::stoi(in[5]);
    const bool finite = in[6] == "1";
    const Strings cand(in.begin() + 7, in.end());
    Exact e(input);
    bool ok;
    rewrite::StdRuleCascade cascade(t);
    Put("c.load", cascade.Load(far), "");
    Put("c.norules", cascade.SetRules(Strings{}), "");
    Put("c.badrule", cascade.SetRules({"no such rule"}), "");
    ok = cascade.SetRules(rules);
    Put("c.rules", ok, "");
    if (ok) Cascade(cascade, input, n, cand, t, finite);
    Repeated rr(rules.begin(), rules.end());
    ok = cascade.SetRules(rr);
    Put("c.again", ok, "");
    std::string s = "x";
    if (ok) {
      ok = cascade.TopRewrite(e.view(), &s);
      Put("c.top.string", ok, s);
    }

    // The first rule alone.
    const thrax::RuleTriple rt(rules[0]);
    const std::string &r0 = rt.main_rule, &p0 = rt.pdt_parens_rule, &a0 = rt.mpdt_assignments_rule;
    rewrite::StdRewriteManager m(t);
    ok = m.Load(far);
    Put("m.load", ok, "");
    Strings v = {"x"};
    Repeated r;
    r.Add("x");
    ok = m.TopRewrite(r0, e.view(), &s, p0, a0); Put("m.top.string", ok, s);
    ok = m.OneTopRewrite(r0, e.view(), &s, p0, a0); Put("m.one.string", ok, s);
    ok = m.TopRewrites(r0, e.view(), &v, p0, a0); Put("m.tops.string", ok, v);
    ok = m.TopRewrites(r0, e.view(), &r, p0, a0); Put("m.tops.repeated", ok, r);
    ok = m.TopRewrites(r0, e.view(), n, &v, p0, a0); Put("m.n.string", ok, v);
    ok = m.TopRewrites(r0, e.view(), n, &r, p0, a0); Put("m.n.repeated", ok, r);
    ok = m.Rewrites(r0, e.view(), &v, p0, a0); Put("m.all.string", ok, v);
    ok = m.Rewrites(r0, e.view(), &r, p0, a0); Put("m.all.repeated", ok, r);
    for (const std::string &x : cand)
      Put("m.match", m.Matches(r0, e.view(), Exact(x).view(), p0, a0), x);
    StdVectorFst f;
    ok = m.RewriteLattice(r0, e.view(), &f, p0, a0);
    Put("m.lattice", ok, f, t);
    Put("m.badrule", m.TopRewrite("no such rule", e.view(), &s), "");
    Put("m.badrule", m.TopRewrite(r0, e.view(), &s, "no such rule"), "");
    if (!p0.empty()) Put("m.badrule", m.TopRewrite(r0, e.view(), &s, p0, "no such rule"), "");
    const fst::Fst<StdArc> *rule = m.GetFst(r0);
    Put("m.get", rule != nullptr && m.GetFstSafe(r0) != nullptr, "");
    Put("m.getno", m.GetFst("no such rule") != nullptr || m.GetFstSafe("no such rule") != nullptr, "");

    thrax::GrmManager g;
    ok = g.LoadArchive(far);
    Put("g.load", ok, "");
    ok = g.LoadArchive(far);
    Put("g.load", ok, "");
    StdVectorFst lattice;
    StdVectorFst input_fst;
    fst::StringCompiler<StdArc> compiler(t);
    compiler(e.view(), &input_fst);
    ok = g.Rewrite(r0, input_fst, &lattice, p0, a0);
    Put("g.lattice", ok, lattice, t);
    if (t == fst::TokenType::BYTE) {
      ok = g.RewriteBytes(r0, e.view(), &s, p0, a0); Put("g.top.string", ok, s);
      ok = g.RewriteBytes(r0, input_fst, &s, p0, a0); Put("g.top.string", ok, s);
      ok = g.Rewrite(r0, e.view(), &lattice, p0, a0); Put("g.lattice", ok, lattice, t);
      Put("g.badrule", g.RewriteBytes("no such rule", e.view(), &s), "");
      Put("g.badrule", g.RewriteBytes(r0, e.view(), &s, "no such rule"), "");
      thrax::RuleCascade<StdArc> tc;
      Put("t.badrule", tc.InitFromDefs(&g, {"no such rule"}), "");
      thrax::RuleCascade<StdArc> td;
      ok = td.InitFromDefs(&g, rules);
      Put("t.rules", ok, "");
      ok = td.InitFromDefs(&g, rules);
      Put("t.rules", ok, "");
      if (ok) {
        ok = td.RewriteBytes(e.view(), &s); Put("t.top.string", ok, s);
        ok = td.Rewrite(e.view(), &lattice); Put("t.lattice", ok, lattice, t);
        ok = td.Rewrite(input_fst, &lattice); Put("t.lattice", ok, lattice, t);
        std::vector<thrax::RuleTriple> ts;
        for (const auto &x : rules) ts.emplace_back(x);
        ok = td.Init(&g, ts); Put("t.rules", ok, "");
        ok = td.RewriteBytes(e.view(), &s); Put("t.top.string", ok, s);
      }
    }
    // The functions on transducers have no parentheses.
    if (p0.empty()) {
      StdVectorFst sorted(*g.GetFst(r0));
      float w = -1;
      Weighted wv;
      ok = rewrite::TopRewrite(input_fst, sorted, &s, t); Put("f.top.string", ok, s);
      ok = rewrite::TopRewrite(input_fst, sorted, &s, &w, t); Put("f.top.weight", ok, s, w);
      ok = rewrite::OneTopRewrite(input_fst, sorted, &s, t); Put("f.one.string", ok, s);
      ok = rewrite::OneTopRewrite(input_fst, sorted, &s, &w, t); Put("f.one.weight", ok, s, w);
      ok = rewrite::TopRewrites(input_fst, sorted, &v, t); Put("f.tops.string", ok, v);
      ok = rewrite::TopRewrites(input_fst, sorted, &r, t); Put("f.tops.repeated", ok, r);
      ok = rewrite::TopRewrites(input_fst, sorted, &wv, t); Put("f.tops.weight", ok, wv);
      ok = rewrite::TopRewrites(input_fst, sorted, n, &v, t); Put("f.n.string", ok, v);
      ok = rewrite::TopRewrites(input_fst, sorted, n, &wv, t); Put("f.n.weight", ok, wv);
#ifdef EXTRA
      ok = rewrite::TopRewrites(input_fst, sorted, n, &r, t); Put("f.n.repeated", ok, r);
#endif
      ok = rewrite::Rewrites(input_fst, sorted, &v, t); Put("f.all.string", ok, v);
      ok = rewrite::Rewrites(input_fst, sorted, &r, t); Put("f.all.repeated", ok, r);
      ok = rewrite::Rewrites(input_fst, sorted, &wv, t); Put("f.all.weight", ok, wv);
      for (const std::string &x : cand) {
        StdVectorFst o;
        compiler(x, &o);
        Put("f.match", rewrite::Matches(input_fst, o, sorted), x);
      }
    }
    // Rules can be replaced: by one that maps everything it accepts to itself.
    StdVectorFst id;
    compiler(e.view(), &id);
    Put("g.set", g.SetFst(r0, id), "");
    Put("m.set", m.SetFst(r0, id), "");
    Put("g.setno", g.SetFst("no such rule", id), "");
    Put("m.setno", m.SetFst("no such rule", id), "");
    ok = m.TopRewrite(r0, e.view(), &s); Put("m.identity", ok, s);
    if (t == fst::TokenType::BYTE) {
      ok = g.RewriteBytes(r0, e.view(), &s); Put("g.identity", ok, s);
    }
    thrax::GrmManager::FstMap map;
    map["one"] = std::make_unique<StdVectorFst>(id);
    g.LoadFstMap(std::move(map));
    Put("g.gone", g.GetFst(r0) != nullptr || g.GetFstMap()->size() != 1, "");
    if (t == fst::TokenType::BYTE) {
      ok = g.RewriteBytes("one", e.view(), &s); Put("g.identity", ok, s);
    }
    absl::flat_hash_map<std::string, std::unique_ptr<const fst::Fst<StdArc>>> map2;
    map2["two"] = std::make_unique<StdVectorFst>(id);
    m.Load(map2);
    Put("m.gone", m.GetFst(r0) != nullptr || m.GeneratedSymbols() != nullptr, "");
    ok = m.TopRewrite("two", e.view(), &s); Put("m.identity", ok, s);
    return answer;
  }
  if (c == "loads") {  // far...: which can be loaded
    for (size_t i = 1; i < in.size(); ++i) {
      thrax::GrmManager g;
      rewrite::StdRewriteManager m;
      rewrite::StdRuleCascade k;
      answer.push_back(g.LoadArchive(in[i]) ? "1" : "0");
      answer.push_back(m.Load(in[i]) ? "1" : "0");
      answer.push_back(k.Load(in[i]) ? "1" : "0");
    }
    return answer;
  }
  if (c == "defs") {  // far, lists of definitions of rules: which can be used
    thrax::GrmManager g;
    g.LoadArchive(in[1]);
    rewrite::StdRuleCascade k;
    k.Load(in[1]);
    thrax::RuleCascade<fst::StdArc> r;
    for (size_t i = 2; i < in.size(); ++i) {
      const Strings defs = Split(in[i]);
      answer.push_back(k.SetRules(defs) ? "1" : "0");
      answer.push_back(k.SetRules(Repeated(defs.begin(), defs.end())) ? "1" : "0");
      answer.push_back(r.InitFromDefs(&g, defs) ? "1" : "0");
      std::vector<thrax::RuleTriple> ts;
      for (const auto &d : defs) {
        ts.emplace_back(d);
        answer.push_back(ts.back().main_rule);
        answer.push_back(ts.back().pdt_parens_rule);
        answer.push_back(ts.back().mpdt_assignments_rule);
      }
      answer.push_back(r.Init(&g, ts) ? "1" : "0");
    }
    return answer;
  }
  if (c == "tester") {  // far mode rules noutput details prepend input...
    absl::SetFlag(&FLAGS_far, in[1]);
    absl::SetFlag(&FLAGS_input_mode, in[2]);
    absl::SetFlag(&FLAGS_output_mode, in[2]);
    absl::SetFlag(&FLAGS_rules, in[3]);
    absl::SetFlag(&FLAGS_noutput, std::stoi(in[4]));
    absl::SetFlag(&FLAGS_show_details, in[5] == "1");
    thrax::RewriteTester tester;
    tester.Initialize();
    for (size_t i = 7; i < in.size(); ++i)
      answer.push_back(tester.ProcessInput(Exact(in[i]).view(), in[6] == "1"));
    return answer;
  }
  if (c == "assign") {  // states; per arc: from in out to; "-"; per arc of the assignments
    StdVectorFst f[2];
    const int n = std::stoi(in[1]);
    for (auto &x : f) {
      for (int i = 0; i < n; ++i) x.AddState();
      x.SetStart(0);
    }
    int which = 0;
    for (size_t i = 2; i < in.size(); ++i) {
      if (in[i] == "-") {
        which = 1;
        continue;
      }
      std::vector<std::string> x = absl::StrSplit(in[i], ' ');
      f[which].AddArc(std::stoi(x[0]), StdArc(std::stoi(x[1]), std::stoi(x[2]), 0, std::stoi(x[3])));
    }
    std::vector<std::pair<int, int>> parens;
    Labels levels;
    rewrite::MakeParenthesesVector(f[0], &parens);
    for (const auto &p : parens) answer.push_back(std::to_string(p.first) + " " + std::to_string(p.second));
    if (which) {
      rewrite::MakeAssignmentsVector(f[1], parens, &levels);
      for (int l : levels) answer.push_back(std::to_string(l));
    }
    return answer;
  }
  if (c == "paths") {  // states start resets; per arc: from in out cost to; per final: state cost
    StdVectorFst f;
    const int n = std::stoi(in[1]);
    for (int i = 0; i < n; ++i) f.AddState();
    if (n) f.SetStart(0);
    const size_t reset = std::stoul(in[2]);
    for (size_t i = 3; i < in.size(); ++i) {
      std::vector<std::string> x = absl::StrSplit(in[i], ' ');
      if (x.size() == 5)
        f.AddArc(std::stoi(x[0]), StdArc(std::stoi(x[1]), std::stoi(x[2]), std::stof(x[3]), std::stoi(x[4])));
      else
        f.SetFinal(std::stoi(x[0]), std::stof(x[1]));
    }
    fst::PathIterator<StdArc> it(f);
    answer.push_back(it.Error() ? "1" : "0");
    if (it.Error()) return answer;
    for (size_t k = 0; k < reset && !it.Done(); ++k) it.Next();
    if (reset) it.Reset();
    for (int k = 0; !it.Done() && k < 2000; it.Next(), ++k) {
      std::string s;
      for (int l : it.ILabels()) s += std::to_string(l) + ",";
      s += "|";
      for (int l : it.OLabels()) s += std::to_string(l) + ",";
      answer.push_back(s + "|" + Num(it.Weight().Value()));
    }
    return answer;
  }
  if (c == "symbols") {  // seed threads: the tables that several threads get at first
    shim::Perturbation() = std::stoul(in[1]);
    const size_t n = std::stoul(in[2]);
    thrax::function::SymbolTableBuilder b;
    std::vector<const fst::SymbolTable *> got(2 * n);
    std::vector<std::string> found(2 * n);
    std::vector<std::thread> ts;
    for (size_t i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        const fst::SymbolTable *x = b.GetByteSymbolTable();
        found[2 * i] = x->Find(int64_t{65}) + x->Find(int64_t{255}) + x->Name();
        const fst::SymbolTable *y = b.GetUtf8SymbolTable();
        found[2 * i + 1] = y->Find(int64_t{0x915}) + y->Find(int64_t{0x20}) + y->Name();
        got[2 * i] = x;
        got[2 * i + 1] = y;
      });
    for (auto &t : ts) t.join();
    shim::Perturbation() = 0;
    for (size_t i = 0; i < 2 * n; ++i) {
      answer.push_back(got[i] == got[i % 2] ? "same" : "other");
      answer.push_back(found[i]);
    }
    return answer;
  }
  if (c == "table") {  // byte or utf8; labels...
    const fst::SymbolTable *x = in[1] == "byte" ? thrax::function::GetByteSymbolTable()
                                                : thrax::function::GetUtf8SymbolTable();
    answer.push_back(std::to_string(x->NumSymbols()));
    for (size_t i = 2; i < in.size(); ++i) answer.push_back(x->Find(int64_t{std::stol(in[i])}));
    return answer;
  }
  throw std::runtime_error("unknown command " + c);
}
