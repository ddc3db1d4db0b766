#include <time.h>

#include "common.hpp"
#include "meter.hpp"
#include "make_box.hpp"

#include "shiguredo/mp4/box/sample_entry.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

using namespace shiguredo::mp4;

namespace {
// std::cout goes into a buffer while this lives
class Capture {
 public:
  Capture() : m_old(std::cout.rdbuf(m_buf.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(m_old); }
  std::string text() const { return m_buf.str(); }

 private:
  std::ostringstream m_buf;
  std::streambuf* m_old;
};

struct Outcome {
  char kind = '?';  // R report, E error, X thrown but not a std::exception
  std::string text, what;
};

Outcome dump(const std::string& file) {
  Outcome o;
  std::istringstream is(file);
  Capture cap;
  try {
    reader::SimpleReader r(is);
    r.read();
    o.kind = 'R';
  } catch (const std::exception& e) {
    o.kind = 'E';
    o.what = e.what();
  } catch (...) {
    o.kind = 'X';
  }
  o.text = cap.text();
  return o;
}

double cpu() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
}  // namespace

static Register r1("read", [](const object& c, object& res) {
  auto file = str_from_hex(S(c.at("hex")));
  auto o = dump(file);
  res["kind"] = std::string(1, o.kind);
  res["text"] = escape(o.text);
  if (o.kind != 'R') res["what"] = escape(o.what);
  auto again = dump(file);
  res["same"] = again.kind == o.kind && again.text == o.text;
  // two readers at the same time, the second one starts and ends within the first one's life
  {
    std::istringstream a(file), b(file);
    std::string ta, tb;
    try {
      reader::SimpleReader ra(a), rb(b);
      {
        Capture cap;
        rb.read();
        tb = cap.text();
      }
      {
        Capture cap;
        ra.read();
        ta = cap.text();
      }
      res["beside"] = ta == o.text && tb == o.text;
    } catch (const std::exception& e) {
      res["beside"] = false;
    }
  }
  if (has(c, "raws")) {
    BoxMap map;
    register_box_map(&map);
    array out;
    for (const auto& v : c.at("raws").as_array()) {
      const auto& raw = v.as_object();
      auto bytes = str_from_hex(S(raw.at("hex")));
      std::unique_ptr<Box> box(map.getBoxInstance(type_of(S(raw.at("code")))));
      object x;
      auto* ase = dynamic_cast<box::AudioSampleEntry*>(box.get());
      if (ase) {
        ase->setUnderWave(true);
        std::istringstream is(bytes);
        x["bits"] = box->readData(is);
        x["size"] = box->getDataSize();
        std::ostringstream os;
        x["wbits"] = box->writeData(os);
        x["hex"] = to_hex(os.str());
      }
      out.push_back(x);
    }
    res["raws"] = out;
  }
});

// Cuts the file at every byte and alters every byte and every four bytes in several ways.
static Register r2("damage", [](const object& c, object& res) {
  const auto file = str_from_hex(S(c.at("hex")));
  const std::uint64_t len = file.size();
  const std::uint64_t room = U(c.at("room"));           // bytes of heap a read may take
  const double slow = static_cast<double>(U(c.at("seconds")));
  array odd;
  std::uint64_t reads = 0, peak = 0, errors = 0, reports = 0;
  double longest = 0;
  auto attempt = [&](const std::string& f, const std::string& what) {
    ++reads;
    auto base = meter::live();
    meter::reset();
    auto t = cpu();
    auto o = dump(f);
    t = cpu() - t;
    auto used = meter::peak() - base;
    peak = std::max(peak, used);
    longest = std::max(longest, t);
    (o.kind == 'R' ? reports : errors)++;
    std::string bad;
    if (o.kind == 'X') bad = "thrown, but not an error";
    if (used > room) bad = "took " + std::to_string(used) + " bytes of heap for a file of " + std::to_string(f.size());
    if (t > slow) bad = "took " + std::to_string(t) + " s";
    if (!bad.empty() && odd.size() < 20) odd.push_back(value(what + ": " + bad));
    return o;
  };
  res["ok"] = escape(attempt(file, "whole").text);
  if (has(c, "only")) {  // one alteration
    auto pos = U(c.at("only").as_object().at("pos"));
    auto b = str_from_hex(S(c.at("only").as_object().at("hex")));
    auto f = file;
    f.replace(pos, b.size(), b);
    attempt(f, "alteration");
  } else {
    std::string cuts;
    array texts;
    std::vector<bool> is_end(len + 1);
    for (const auto& e : c.at("ends").as_array()) is_end[U(e)] = true;
    for (std::uint64_t n = 0; n < len; ++n) {
      auto o = attempt(file.substr(0, n), "cut at " + std::to_string(n));
      cuts += o.kind;
      if (is_end[n]) texts.push_back(value(escape(o.text)));
    }
    res["cuts"] = cuts;
    res["texts"] = texts;
    std::vector<bool> leave(len + 4);
    for (const auto& p : c.at("kf1").as_array())
      for (int i = 0; i < 4; ++i) leave[U(p) + i] = true;
    // four bytes that straddle the flags and the sample count of a run are not one field
    std::vector<bool> straddle(len + 4);
    for (const auto& p : c.at("runs").as_array())
      for (std::uint64_t i = 1; i < 4; ++i) straddle[U(p) - i] = true;
    for (std::uint64_t n = 0; n < len; ++n) {
      auto was = static_cast<unsigned char>(file[n]);
      std::vector<int> vals = {0, 1, 255, was ^ 128, was ^ 1, (was + 1) & 255, (was + 255) & 255, was ^ 64, was ^ 16, was ^ 4, 8, 127};
      if (!leave[n]) {
        for (int v : vals) {
          if (v == was) continue;
          auto f = file;
          f[n] = static_cast<char>(v);
          attempt(f, "byte " + std::to_string(n) + " = " + std::to_string(v));
        }
      }
      if (n + 4 <= len && !straddle[n] && !leave[n] && !leave[n + 1] && !leave[n + 2] && !leave[n + 3]) {
        auto left = static_cast<std::uint32_t>(len - n);
        for (std::uint32_t v : {0u, 1u, 7u, 8u, 16u, 0x7fffffffu, 0x80000000u, 0xffffffffu, left, left + 1, left - 1, 0x10000000u, 0x00ffffffu}) {
          auto f = file;
          for (int i = 0; i < 4; ++i) f[n + static_cast<std::uint64_t>(i)] = static_cast<char>(v >> (24 - 8 * i));
          attempt(f, "bytes from " + std::to_string(n) + " = " + std::to_string(v));
        }
      }
    }
  }
  res["odd"] = odd;
  res["reads"] = reads;
  res["reports"] = reports;
  res["errors"] = errors;
  res["peak"] = peak;
  res["longest"] = longest;
  res["meter"] = meter::on();
});
