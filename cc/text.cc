// Delimiters, Unicode properties, and UTF-8 helpers.
#include "harness.h"

#include "absl/strings/str_split.h"
#include "nisaba/port/unicode_properties.h"
#include "nisaba/port/utf8_delimiters.h"
#include "nisaba/port/utf8_util.h"

namespace u = nisaba::utf8;
using harness::Exact;

struct AnyDelimiter : public u::Utf8Delimiter {
  explicit AnyDelimiter(const absl::flat_hash_set<char32_t> &s) : u::Utf8Delimiter(s) {}
};

static Fields Chars(const absl::flat_hash_set<char32_t> &s) {
  Fields r;
  for (char32_t c : s) r.push_back(std::to_string(static_cast<long>(c)));
  return r;
}

Fields Handle(const Fields &in) {
  const std::string &c = in[0];
  if (c == "set") {
    return Chars(in[1] == "breaking"      ? u::GetBreakingWhitespaceChars()
                 : in[1] == "nonbreaking" ? u::GetNonBreakingWhitespaceChars()
                                          : u::GetAllWhitespaceChars());
  }
  if (c == "find") {  // text pos [which]
    Exact t(in[1]);
    absl::string_view r;
    if (in[3] == "space") {
      r = u::Utf8WhitespaceDelimiter().Find(t.view(), std::stoul(in[2]));
    } else {
      absl::flat_hash_set<char32_t> s;
      for (auto x : absl::StrSplit(in[3], ',', absl::SkipEmpty()))
        s.insert(std::stol(std::string(x)));
      r = AnyDelimiter(s).Find(t.view(), std::stoul(in[2]));
    }
    return {std::to_string(r.data() - t.view().data()), std::to_string(r.size())};
  }
  if (c == "split" || c == "splitne") {  // text: by whitespace
    Exact t(in[1]);
    std::vector<std::string> v;
    if (c == "split")
      v = absl::StrSplit(t.view(), u::Utf8WhitespaceDelimiter());
    else
      v = absl::StrSplit(t.view(), u::Utf8WhitespaceDelimiter(), absl::SkipEmpty());
    return v;
  }
  if (c == "splitall") {
    Exact t(in[1]);
    const absl::flat_hash_set<char32_t> all = u::GetAllWhitespaceChars();
    std::vector<std::string> v = absl::StrSplit(t.view(), AnyDelimiter(all));
    return v;
  }
  if (c == "chars") {
    Exact t(in[1]);
    return u::StrSplitByChar(t.view());
  }
  if (c == "codes") {
    Exact t(in[1]);
    Fields r;
    for (int x : u::StrSplitByCharToUnicode(t.view())) r.push_back(std::to_string(x));
    return r;
  }
  if (c == "decode") {
    Exact t(in[1]);
    char32 x = -7;
    const int n = u::DecodeUnicodeChar(t.view(), &x);
    return {std::to_string(n), std::to_string(static_cast<long>(x))};
  }
  if (c == "single") {
    Exact t(in[1]);
    char32 x = -7;
    const bool b = u::DecodeSingleUnicodeChar(t.view(), &x);
    return {b ? "1" : "0", std::to_string(static_cast<long>(x))};
  }
  if (c == "encode") return {u::EncodeUnicodeChar(std::stol(in[1]))};
  throw shim::Fatal("harness: unknown command");
}
