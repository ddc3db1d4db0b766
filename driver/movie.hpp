#pragma once
// One movie: a writer, its tracks, and the operations of a generated history.
#include <chrono>
#include <memory>
#include <ostream>

#include "common.hpp"
#include "shiguredo/mp4/track/aac.hpp"
#include "shiguredo/mp4/track/av1.hpp"
#include "shiguredo/mp4/track/h264.hpp"
#include "shiguredo/mp4/track/mp3.hpp"
#include "shiguredo/mp4/track/opus.hpp"
#include "shiguredo/mp4/track/vpx.hpp"
#include "shiguredo/mp4/writer/faststart_writer.hpp"
#include "shiguredo/mp4/writer/simple_writer.hpp"

// A large region of zeros (never touched memory) for huge samples.
struct ZeroRegion {
  static constexpr std::size_t kSize = (1ULL << 31) + 4096;
  static std::uint8_t* get();
  static bool made();
  static bool has(const void* p);
};

class Movie {
 public:
  Movie(const object& c, std::ostream& os) : m_c(c), m_os(os), m_fast(S(c.at("w")) == "fast") {}
  ~Movie() {
    if (m_fw && !m_copied) {
      std::error_code ec;
      std::filesystem::remove(m_fw->getIntermediateFilePath(), ec);
    }
  }
  // executes one operation; exceptions of the library come through
  void step(const object& op);
  // report: times, ids, refusals
  void report(object& res) const;
  shiguredo::mp4::writer::FaststartWriter* fast() { return m_fw.get(); }

 private:
  void make_track(std::size_t i, std::uint32_t id);
  const object& m_c;
  std::ostream& m_os;
  bool m_fast, m_copied = false;
  std::unique_ptr<shiguredo::mp4::writer::SimpleWriter> m_sw;
  std::unique_ptr<shiguredo::mp4::writer::FaststartWriter> m_fw;
  shiguredo::mp4::writer::Writer* m_w = nullptr;
  std::map<std::size_t, std::unique_ptr<shiguredo::mp4::track::Track>> m_tracks;
  std::uint64_t m_t0 = 0, m_t1 = 0;
  array m_ids, m_refused, m_scales;
};

// numbers as big-endian byte arrays
inline std::uint64_t BE(const value& v) {
  std::uint64_t r = 0;
  for (const auto& x : v.as_array()) r = (r << 8) | U(x);
  return r;
}
inline Bytes BA(const value& v) {
  Bytes b;
  for (const auto& x : v.as_array()) b.push_back(static_cast<std::uint8_t>(U(x)));
  return b;
}
inline array AB(std::uint64_t v) {
  array a;
  for (int i = 56; i >= 0; i -= 8) a.push_back((v >> i) & 255);
  return a;
}
