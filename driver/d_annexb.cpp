// H.264 byte streams (C17)
#include <cstring>
#include <memory>

#include "common.hpp"
#include "shiguredo/mp4/box/boxes.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/writer/writer.hpp"

using namespace shiguredo::mp4;

static Register r1("annexb", [](const object& c, object& res) {
  auto b = H(c.at("hex"));
  // a buffer of exactly that size
  std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[b.size()]);
  std::copy(b.begin(), b.end(), p.get());
  array found;
  res["err"] = 0;
  try {
    std::size_t at = 0;
    do {
      auto n = track::find_next_nal_unit(p.get(), b.size(), at);
      found.push_back(object{{"code", n.start_code_size}, {"start", n.start}, {"stop", n.end}, {"header", n.header}});
      if (n.end <= at) throw std::logic_error("no progress");
      at = n.end;
    } while (at < b.size() && found.size() < 1000);
  } catch (const std::runtime_error&) {
    res["err"] = 1;
  }
  res["found"] = found;
});

namespace {
// Takes the samples instead of writing them.
class Recorder : public writer::Writer {
 public:
  Recorder() {
    m_mvhd_timescale = 1000;
    m_duration = 1;
    m_time_from_epoch = 0;
    m_ftyp_size = 0;
  }
  void writeFtypBox() override {}
  void writeMoovBox() override {}
  void addMdatData(const std::uint8_t* d, const std::size_t n) override { got.emplace_back(d, d + n); total += n; }
  std::uint64_t tellCurrentMdatOffset() override { return total; }
  void appendTrakAndUdtaBoxInfo(const std::vector<track::Track*>&) override {}
  std::vector<Bytes> got;
  std::uint64_t total = 0;

 protected:
  void setOffsetAndSize() override {}
};
}  // namespace

// "  [type] Offset=n Size=n text"
static object box_texts(BoxInfo& moov) {
  object boxes;
  moov.adjustOffsetAndSize(0);
  std::istringstream is(moov.toString());
  std::string line;
  while (std::getline(is, line)) {
    auto p = line.find('['), q = line.find(']'), s = line.find(" Size=");
    if (p == std::string::npos || q == std::string::npos || s == std::string::npos) continue;
    auto t = line.find(' ', s + 1);
    boxes[line.substr(p + 1, q - p - 1)] = t == std::string::npos ? std::string() : escape(line.substr(t + 1));
  }
  return boxes;
}

static Register r2("h264", [](const object& c, object& res) {
  Recorder w;
  const auto& g = c.at("cfg").as_array();
  auto b = [&](int i) { return static_cast<std::uint8_t>(U(g[i])); };
  std::unique_ptr<track::H264Track> t;
  if (c.at("dflt").as_bool()) {
    t.reset(new track::H264Track({.timescale = 1000, .duration = 1, .track_id = 1, .width = 16, .height = 16, .writer = &w}));
  } else {
    t.reset(new track::H264Track({.timescale = 1000, .duration = 1, .track_id = 1, .width = 16, .height = 16,
                                  .configuration_version = b(0), .profile = b(1), .profile_compatibility = b(2), .level = b(3), .writer = &w}));
  }
  array samples, errs;
  for (const auto& v : c.at("adds").as_array()) {
    const auto& a = v.as_object();
    auto data = H(a.at("hex"));
    std::size_t before = w.got.size();
    int err = 0;
    try {
      if (U(a.at("ptr")) == 0) {
        t->addData(U(a.at("ts")), data, a.at("key").as_bool());
      } else {
        std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[data.size()]);
        std::copy(data.begin(), data.end(), p.get());
        t->addData(U(a.at("ts")), p.get(), data.size(), a.at("key").as_bool());
      }
    } catch (const std::runtime_error&) {
      err = 1;
    }
    errs.push_back(err);
    if (!err) {
      for (auto i = before; i < w.got.size(); ++i) {
        samples.push_back(object{{"ts", U(a.at("ts"))}, {"hex", to_hex(w.got[i])}});
      }
    }
  }
  res["errs"] = errs;
  res["samples"] = samples;
  BoxInfo moov({.box = new box::Moov()});
  t->appendTrakBoxInfo(&moov);
  res["boxes"] = box_texts(moov);
});

static array runs_of(const Bytes& b) {
  array out;
  for (std::size_t i = 0; i < b.size();) {
    std::size_t j = i;
    while (j < b.size() && b[j] == b[i]) ++j;
    out.push_back(array{b[i], j - i});
    i = j;
    if (out.size() > 2000) break;
  }
  return out;
}

// Large units: the stream and the samples as runs of equal bytes.
static Register r3("bignal", [](const object& c, object& res) {
  Bytes b;
  for (const auto& r : c.at("runs").as_array()) b.insert(b.end(), U(r.as_array()[1]), static_cast<std::uint8_t>(U(r.as_array()[0])));
  array found;
  std::size_t at = 0;
  do {
    auto n = track::find_next_nal_unit(b.data(), b.size(), at);
    found.push_back(object{{"code", n.start_code_size}, {"start", n.start}, {"stop", n.end}, {"header", n.header}});
    if (n.end <= at) throw std::logic_error("no progress");
    at = n.end;
  } while (at < b.size() && found.size() < 1000);
  res["found"] = found;
  Recorder w;
  track::H264Track t({.timescale = 1000, .duration = 1, .track_id = 1, .width = 16, .height = 16, .writer = &w});
  res["refused"] = 0;
  try {
    t.addData(0, b, true);
  } catch (const std::runtime_error&) {
    res["refused"] = 1;
    return;
  }
  array samples;
  for (const auto& g : w.got) samples.push_back(runs_of(g));
  res["samples"] = samples;
  BoxInfo moov({.box = new box::Moov()});
  t.appendTrakBoxInfo(&moov);
  res["boxes"] = box_texts(moov);
});
