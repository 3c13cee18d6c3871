// File helpers: file_util, file.h and the protocol buffer stream.
#include "harness.h"

#include <google/protobuf/field_mask.pb.h>
#include <google/protobuf/text_format.h>

#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/port/proto_file_stream.h"

namespace nf = nisaba::file;
using harness::Exact;

template <class T>
static Fields Status(const absl::StatusOr<T> &s) {
  return {"error", std::to_string(static_cast<int>(s.status().code()))};
}

static File *OpenExact(const std::string &path, const std::string &mode) {
  Exact p(path);  // Gone once the file is open.
  return File::Open(p.view(), mode.c_str());
}

static Fields WriteOps(const Fields &in) {
  File *f = OpenExact(in[1], in[2]);
  if (f == nullptr) return {"none"};
  Fields r;
  for (size_t i = 3; i + 1 < in.size(); i += 2) {
    const std::string &op = in[i], &x = in[i + 1];
    if (op == "w") {
      Exact e(x);
      r.push_back(std::to_string(f->Write(e.view().data(), x.size())));
    } else if (op == "d") {
      f->WriteOrDie(x.data(), x.size());
      r.push_back("d");
    } else if (op == "s") {
      r.push_back(std::to_string(f->WriteString(x)));
    } else if (op == "l") {
      r.push_back(f->WriteLine(x) ? "1" : "0");
    } else if (op == "f") {
      Exact e(x);
      r.push_back(file::WriteString(f, e.view(), file::Defaults()).ok() ? "1" : "0");
    } else if (op == "size") {
      const bool b = f->Flush();
      r.push_back((b ? "" : "!") + std::to_string(f->Size()));
    } else if (op == "name") {
      r.push_back(std::string(f->filename()));
    } else if (op == "open") {
      r.push_back(f->Open() ? "1" : "0");
    } else if (op == "flags") {
      r.push_back(file::WriteString(f, "x", 1).ok() ? "1" : "0");
    }
  }
  if (in[in.size() - 1] == "status") {
    r.push_back(f->Close(1).ok() ? "1" : "0");
    r.push_back(f->Close(file::Defaults()).ok() ? "1" : "0");
  } else {
    r.push_back("-");
    r.push_back(f->Close() ? "1" : "0");
  }
  r.push_back(f->Open() ? "1" : "0");
  delete f;
  return r;
}

static Fields ReadOps(const Fields &in) {
  File *f;
  if (in[2] == "die") {
    Exact p(in[1]);
    f = file::OpenOrDie(p.view(), "r", file::Defaults());
  } else if (in[2] == "odie") {
    Exact p(in[1]);
    f = File::OpenOrDie(p.view(), "r");
  } else {
    f = OpenExact(in[1], "r");
  }
  if (f == nullptr) return {"none"};
  Fields r;
  bool fatal = false;
  for (size_t i = 3; i + 1 < in.size(); i += 2) {
    const std::string &op = in[i];
    const size_t n = std::stoul(in[i + 1]);
    std::vector<char> buf(n);
    if (op == "r") {
      const size_t got = f->Read(buf.data(), n);
      r.push_back(std::string(buf.data(), got));
    } else if (op == "l") {
      char *p = f->ReadLine(buf.data(), n);
      r.push_back(p == nullptr ? "null" : "=" + std::string(p));
    } else if (op == "s") {
      std::string s = "old";
      const int64_t got = f->ReadToString(&s, n);
      r.push_back(std::to_string(got) + ":" + s);
    } else if (op == "d") {
      try {
        f->ReadOrDie(buf.data(), n);
        r.push_back(std::string(buf.data(), n));
      } catch (const shim::Fatal &) {
        fatal = true;
        r.push_back("fatal");
        break;
      }
    }
  }
  f->Close();
  delete f;
  return r;
}

Fields Handle(const Fields &in) {
  const std::string &c = in[0];
  if (c == "join") {
    Exact a(in[1]), b(in[2]);
    return {nf::JoinPath(a.view(), b.view())};
  }
  if (c == "lines") {
    Exact p(in[1]);
    auto s = in.size() > 2 ? nf::ReadLines(p.view(), std::stoi(in[2])) : nf::ReadLines(p.view());
    if (!s.ok()) return Status(s);
    Fields r = {"lines"};
    r.insert(r.end(), s->begin(), s->end());
    return r;
  }
  if (c == "binary" || c == "text") {
    Exact p(in[1]);
    auto s = c == "binary" ? nf::ReadBinaryFile(p.view()) : nf::ReadTextFile(p.view());
    if (!s.ok()) return Status(s);
    return {"content", *s};
  }
  if (c == "write") {
    Exact p(in[1]), t(in[2]);
    auto s = nf::WriteTextFile(p.view(), t.view());
    return {s.ok() ? "written" : "error"};
  }
  if (c == "temp") {
    Exact p(in[1]), t(in[2]);
    auto s = nf::WriteTempTextFile(p.view(), t.view());
    if (!s.ok()) return Status(s);
    return {"path", *s, nf::TempFilePath(p.view())};
  }
  if (c == "runfile") {
    Exact p(in[1]);
    auto s = nf::GetRunfilesResourcePath(p.view());
    if (!s.ok()) return Status(s);
    return {"path", *s};
  }
  if (c == "fwrite") return WriteOps(in);
  if (c == "fread") return ReadOps(in);
  if (c == "exists") return {File::Exists(in[1].c_str()) ? "1" : "0"};
  if (c == "delete") {
    Exact p(in[1]);
    return {File::Delete(p.view()) ? "1" : "0"};
  }
  if (c == "proto") {  // kind path block values...: writes, then reads back.
    google::protobuf::FieldMask m, got;
    for (size_t i = 4; i < in.size(); ++i) m.add_paths(in[i]);
    File *f = OpenExact(in[2], "w");
    if (f == nullptr) return {"none"};
    Fields r;
    {
      nisaba::proto::ProtoFileOutputStream out(f, std::stoi(in[3]));
      const bool ok = in[1] == "text" ? google::protobuf::TextFormat::Print(m, &out)
                                      : m.SerializeToZeroCopyStream(&out);
      r.push_back(ok ? "1" : "0");
      r.push_back(std::to_string(out.ByteCount()));
      r.push_back(out.Flush() ? "1" : "0");
      r.push_back(out.Close() ? "1" : "0");
    }
    Exact p(in[2]);
    got.add_paths("stale");
    r.push_back(in[3].size() % 2 ? (file::ReadFileToProto(p.view(), &got) ? "1" : "0")
                                 : (file::GetTextProto(p.view(), &got, file::Defaults()).ok() ? "1" : "0"));
    r.push_back(file::GetTextProto(p.view(), &m, 5).ok() ? "1" : "0");
    for (const auto &x : got.paths()) r.push_back(x);
    return r;
  }
  if (c == "protoread") {
    google::protobuf::FieldMask got;
    Exact p(in[1]);
    return {file::ReadFileToProto(p.view(), &got) ? "1" : "0"};
  }
  throw shim::Fatal("harness: unknown command");
}
