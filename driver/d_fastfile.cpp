// Intermediate files of fast-start writers (C18)
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <memory>
#include <set>

#include "common.hpp"
#include "scratch.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"

using namespace shiguredo::mp4;
namespace fs = std::filesystem;

namespace {
struct Slot {
  std::unique_ptr<std::stringstream> os;
  std::unique_ptr<writer::FaststartWriter> w;
  std::string media;
  fs::path path;
};

std::string slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

std::string pattern(std::size_t who, std::size_t seq, std::size_t n) {
  std::string s(n, 0);
  std::uint32_t x = static_cast<std::uint32_t>(who * 7919 + seq * 104729 + 12345);
  for (auto& c : s) {
    x = x * 1664525 + 1013904223;
    c = static_cast<char>(x >> 24);
  }
  return s;
}
}  // namespace

static Register r1("fastfile", [](const object& c, object& res) {
  Scratch scratch;   // becomes the working directory
  fs::create_directory("sub");
  const std::set<std::string> keep = {"keep", "mdatAAAAAA", "sub/aAAAAAA"};
  for (auto& n : keep) std::ofstream(n) << "kept " << n;
  std::map<std::uint64_t, Slot> slots;
  array out;
  for (const auto& v : c.at("steps").as_array()) {
    const auto& s = v.as_object();
    auto op = S(s.at("op"));
    auto& slot = slots[U(s.at("w"))];
    int err = 0, copied = 0;
    array odd;
    std::string tpl;
    try {
      if (op == "create") {
        slot.os.reset(new std::stringstream);
        slot.media.clear();
        tpl = S(s.at("arg"));
        if (tpl.rfind("ABS/", 0) == 0) tpl = scratch.path + tpl.substr(3);
        if (tpl == "default") {
          slot.w.reset(new writer::FaststartWriter(*slot.os, {.duration = 1}));
          tpl = "mdatXXXXXX";
        } else {
          slot.w.reset(new writer::FaststartWriter(*slot.os, {.duration = 1, .mdat_path_templete = tpl}));
        }
        slot.path = slot.w->getIntermediateFilePath();
        auto p = slot.path.string();
        if (p.size() != tpl.size() || p.compare(0, p.size() - 6, tpl, 0, tpl.size() - 6) != 0) odd.push_back(json::string("name " + p + " does not come from the template"));
        if (fs::exists(p) && fs::file_size(p) != 0) odd.push_back("the new file is not empty");
        slot.w->writeFtypBox();
      } else if (op == "add") {
        auto d = pattern(U(s.at("w")), slot.media.size(), U(s.at("arg")));
        slot.media += d;
        if (d.size() % 2) {
          slot.w->addMdatData(reinterpret_cast<const std::uint8_t*>(d.data()), d.size());
        } else {
          static_cast<writer::Writer&>(*slot.w).addMdatData(Bytes(d.begin(), d.end()));
        }
        if (slot.w->tellCurrentMdatOffset() != slot.media.size()) odd.push_back("offset is not the number of bytes added");
      } else if (op == "finish") {
        slot.w->appendTrakAndUdtaBoxInfo({});
        slot.w->writeMoovBox();
        slot.w->writeMdatHeader();
      } else if (op == "copy") {
        auto at = static_cast<std::size_t>(slot.os->tellp());
        slot.w->copyMdatData();
        auto o = slot.os->str();
        copied = o.size() == at + slot.media.size() && o.compare(at, std::string::npos, slot.media) == 0;
      } else if (op == "delete") {
        slot.w->deleteIntermediateFile();
      } else if (op == "vanish") {
        ::unlink(slot.path.c_str());
      } else if (op == "drop") {
        slot = Slot();
      }
    } catch (const std::exception&) {
      err = 1;
      if (op == "create") slot = Slot();
    }
    // what is there now
    std::map<std::string, std::uint64_t> who;
    for (auto& [i, sl] : slots) {
      if (!sl.w) continue;
      auto p = fs::absolute(sl.path).lexically_normal().string();
      struct stat st;
      if (::lstat(p.c_str(), &st) != 0) continue;
      if (who.count(p)) odd.push_back("two writers have the same file");
      who[p] = i;
      if (!S_ISREG(st.st_mode) || (st.st_mode & 077)) odd.push_back("the file is not private");
      auto content = slurp(p);
      if (sl.media.compare(0, content.size(), content) != 0) odd.push_back("the file holds other bytes");
    }
    std::set<std::string> seen;
    array files;
    for (auto& e : fs::recursive_directory_iterator(".")) {
      if (e.is_directory()) continue;
      auto rel = e.path().lexically_normal().string();
      auto p = fs::absolute(e.path()).lexically_normal().string();
      if (keep.count(rel)) {
        seen.insert(rel);
        if (slurp(p) != "kept " + rel) odd.push_back("another file was changed");
      } else if (!who.count(p)) {
        odd.push_back(json::string("file of nobody: " + rel));
      }
    }
    if (seen != keep) odd.push_back("another file was removed");
    std::set<std::uint64_t> ws;
    for (auto& [p, i] : who) ws.insert(i);
    for (auto i : ws) files.push_back(i);
    out.push_back(object{{"err", err}, {"files", files}, {"out", copied}, {"odd", odd}});
  }
  res["steps"] = out;
});
