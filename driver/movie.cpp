#include "movie.hpp"

#include <sys/mman.h>

#include <cstring>

#include "clock.hpp"
#include "sparse.hpp"

using namespace shiguredo::mp4;

namespace {
std::uint8_t* g_zero = nullptr;
std::uint64_t now1904() {
  return static_cast<std::uint64_t>(
             std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count()) +
         2082844800ULL;
}
float duration_of(const value& v) {
  const auto& a = v.as_array();
  double d = static_cast<double>(U(a[0]));
  for (auto k = U(a[1]); k > 0; --k) d /= 2;
  return static_cast<float>(d);
}
Brand brand(const value& v) {
  auto b = BA(v);
  return Brand{b[0], b[1], b[2], b[3]};
}
box::FtypParameters ftyp_of(const object& c) {
  std::vector<Brand> l;
  for (const auto& b : c.at("compat").as_array()) l.push_back(brand(b));
  return {.major_brand = brand(c.at("major")), .minor_version = static_cast<std::uint32_t>(BE(c.at("minor"))), .compatible_brands = l};
}
}  // namespace

std::uint8_t* ZeroRegion::get() {
  if (!g_zero) {
    void* p = ::mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::logic_error("mmap");
    g_zero = static_cast<std::uint8_t*>(p);
    SparseBuf::zero_lo() = reinterpret_cast<const char*>(p);
    SparseBuf::zero_hi() = reinterpret_cast<const char*>(p) + kSize;
  }
  return g_zero;
}
bool ZeroRegion::has(const void* p) { return g_zero && p >= g_zero && p < g_zero + kSize; }

#ifdef WRAP_FWRITE
// Long runs of zeros go to files as holes.
extern "C" std::size_t __real_fwrite(const void*, std::size_t, std::size_t, FILE*);
extern "C" std::size_t __wrap_fwrite(const void* p, std::size_t s, std::size_t n, FILE* f) {
  const std::size_t edge = 4096, len = s * n;
  if (ZeroRegion::has(p) && len > 4 * edge) {
    auto b = static_cast<const char*>(p);
    if (__real_fwrite(b, 1, edge, f) != edge) return 0;
    if (std::fseek(f, static_cast<long>(len - 2 * edge), SEEK_CUR) != 0) return 0;
    if (__real_fwrite(b + len - edge, 1, edge, f) != edge) return 0;
    return n;
  }
  return __real_fwrite(p, s, n, f);
}
#endif

void Movie::make_track(std::size_t i, std::uint32_t id) {
  const auto& p = m_c.at("tracks").as_array().at(i - 1).as_object();
  auto kind = S(p.at("kind"));
  bool d = U(p.at("dflt")) != 0;   // optional parameters left out
  auto u32 = [&](const char* n) { return static_cast<std::uint32_t>(BE(p.at(n))); };
  auto u8 = [&](const char* n) { return static_cast<std::uint8_t>(U(p.at(n))); };
  auto dur = duration_of(p.at("dur"));
  auto mt = static_cast<std::int64_t>(BE(p.at("mt")));
  auto& t = m_tracks[i];
  if (kind == "aac") {
    if (d) t.reset(new track::AACTrack({.timescale = u32("ts"), .duration = dur, .track_id = id, .max_bitrate = u32("maxb"), .avg_bitrate = u32("avgb"), .writer = m_w}));
    else t.reset(new track::AACTrack({.timescale = u32("ts"), .duration = dur, .media_time = mt, .track_id = id, .buffer_size_db = u32("buf"), .max_bitrate = u32("maxb"), .avg_bitrate = u32("avgb"), .writer = m_w}));
  } else if (kind == "mp3") {
    if (d) t.reset(new track::MP3Track({.timescale = u32("ts"), .duration = dur, .track_id = id, .max_bitrate = u32("maxb"), .avg_bitrate = u32("avgb"), .writer = m_w}));
    else t.reset(new track::MP3Track({.timescale = u32("ts"), .duration = dur, .media_time = mt, .track_id = id, .buffer_size_db = u32("buf"), .max_bitrate = u32("maxb"), .avg_bitrate = u32("avgb"), .writer = m_w}));
  } else if (kind == "opus") {
    if (d) t.reset(new track::OpusTrack({.pre_skip = U(p.at("pre")), .duration = dur, .track_id = id, .writer = m_w}));
    else t.reset(new track::OpusTrack({.pre_skip = U(p.at("pre")), .duration = dur, .media_time = mt, .roll_distance = static_cast<std::int16_t>(I(p.at("roll"))), .track_id = id, .writer = m_w}));
  } else if (kind == "vp8" || kind == "vp9") {
    auto w = static_cast<std::uint32_t>(U(p.at("width"))), h = static_cast<std::uint32_t>(U(p.at("height")));
    if (d && kind == "vp9") t.reset(new track::VPXTrack({.timescale = u32("ts"), .duration = dur, .track_id = id, .width = w, .height = h, .writer = m_w}));
    else if (d) t.reset(new track::VPXTrack({.codec = track::VPXCodec::VP8, .timescale = u32("ts"), .duration = dur, .track_id = id, .width = w, .height = h, .writer = m_w}));
    else t.reset(new track::VPXTrack({.codec = kind == "vp8" ? track::VPXCodec::VP8 : track::VPXCodec::VP9, .timescale = u32("ts"), .media_time = mt, .duration = dur, .track_id = id, .width = w, .height = h, .max_bitrate = u32("maxb"), .avg_bitrate = u32("avgb"), .writer = m_w}));
  } else if (kind == "av1") {
    auto w = static_cast<std::uint32_t>(U(p.at("width"))), h = static_cast<std::uint32_t>(U(p.at("height")));
    if (d) t.reset(new track::AV1Track({.timescale = u32("ts"), .duration = dur, .track_id = id, .width = w, .height = h, .writer = m_w}));
    else t.reset(new track::AV1Track({.timescale = u32("ts"), .media_time = mt, .duration = dur, .track_id = id, .width = w, .height = h,
        .seq_profile = u8("prof"), .seq_level_idx_0 = u8("level"), .seq_tier_0 = u8("tier"), .chroma_subsampling_x = u8("cx"),
        .chroma_subsampling_y = u8("cy"), .chroma_sample_position = u8("csp"), .config_OBUs = BA(p.at("obus")), .writer = m_w}));
  } else if (kind == "h264") {
    auto w = static_cast<std::uint32_t>(U(p.at("width"))), h = static_cast<std::uint32_t>(U(p.at("height")));
    if (d) t.reset(new track::H264Track({.timescale = u32("ts"), .duration = dur, .track_id = id, .width = w, .height = h, .writer = m_w}));
    else t.reset(new track::H264Track({.timescale = u32("ts"), .media_time = mt, .duration = dur, .track_id = id, .width = w, .height = h,
        .configuration_version = u8("cv"), .profile = u8("prof"), .profile_compatibility = u8("compat"), .level = u8("level"), .writer = m_w}));
  } else {
    throw std::logic_error("kind " + kind);
  }
}

void Movie::step(const object& op) {
  auto o = S(op.at("o"));
  // data of a sample: head, zeros, tail
  auto feed = [&](const object& b, auto&& f) {
    auto n = static_cast<std::size_t>(U(b.at("n")));
    auto head = BA(b.at("b")), tail = BA(b.at("z"));
    if (n < (1u << 24)) {
      std::unique_ptr<std::uint8_t[]> p(new std::uint8_t[n]());
      std::copy(head.begin(), head.end(), p.get());
      std::copy(tail.begin(), tail.end(), p.get() + n - tail.size());
      f(p.get(), n);
      std::fill_n(p.get(), n, 0xee);   // the library must not keep the pointer
    } else {
      auto* p = ZeroRegion::get();
      std::copy(head.begin(), head.end(), p);
      std::copy(tail.begin(), tail.end(), p + n - tail.size());
      try {
        f(p, n);
      } catch (...) {
        std::fill_n(p, head.size(), 0);
        std::fill_n(p + n - tail.size(), tail.size(), 0);
        throw;
      }
      std::fill_n(p, head.size(), 0);
      std::fill_n(p + n - tail.size(), tail.size(), 0);
    }
  };
  if (o == "ctor") {
    FakeClock clock(m_c.if_contains("now") && !m_c.at("now").as_array().empty() ? BE(m_c.at("now")) : 0);
    m_t0 = now1904();
    auto dur = duration_of(m_c.at("dur"));
    auto mts = static_cast<std::uint32_t>(BE(m_c.at("mts")));
    bool d = U(m_c.at("dflt")) != 0;
    if (!m_fast) {
      if (d) m_sw.reset(new writer::SimpleWriter(m_os, {.duration = dur}));
      else m_sw.reset(new writer::SimpleWriter(m_os, {.mvhd_timescale = mts, .duration = dur, .ftyp_params = ftyp_of(m_c)}));
      m_w = m_sw.get();
    } else {
      if (d) m_fw.reset(new writer::FaststartWriter(m_os, {.duration = dur}));
      else m_fw.reset(new writer::FaststartWriter(m_os, {.mvhd_timescale = mts, .duration = dur, .mdat_path_templete = "tmp-XXXXXX", .ftyp_params = ftyp_of(m_c)}));
      m_w = m_fw.get();
    }
    m_t1 = now1904();
  } else if (o == "ftyp") {
    m_w->writeFtypBox();
  } else if (o == "id") {
    m_ids.push_back(m_w->getAndUpdateNextTrackID());
  } else if (o == "track") {
    auto id = static_cast<std::uint32_t>(U(op.at("id")));
    bool next = U(op.at("next")) != 0;
    if (next) {
      id = m_w->getAndUpdateNextTrackID();
      m_ids.push_back(id);
    }
    try {
      make_track(U(op.at("t")), id);
      m_refused.push_back(0);
    } catch (const std::exception&) {
      m_refused.push_back(1);
    }
  } else if (o == "add") {
    auto& t = *m_tracks.at(U(op.at("t")));
    feed(op.at("data").as_object(), [&](const std::uint8_t* p, std::size_t n) {
      if (U(op.at("ptr")) != 0) t.addData(BE(op.at("ts")), p, n, U(op.at("key")) != 0);
      else t.addData(BE(op.at("ts")), Bytes(p, p + n), U(op.at("key")) != 0);
    });
  } else if (o == "rep") {   // a run of samples (LongCore.tla)
    auto i = U(op.at("t"));
    auto& t = *m_tracks.at(i);
    bool h264 = S(m_c.at("tracks").as_array().at(i - 1).as_object().at("kind")) == "h264";
    auto n = U(op.at("n")), sz = U(op.at("sz")), m = U(op.at("m")), ts = U(op.at("ts")), dt = U(op.at("dt")), dd = U(op.at("dd")),
         c = U(op.at("c")), q = U(op.at("q")), x = U(op.at("x"));
    for (std::uint64_t j = 1; j <= n; ++j) {
      Bytes b;
      if (h264) b = {0, 0, 0, 1, 65};
      for (std::uint64_t l = 1; l <= sz + j % m; ++l) b.push_back(static_cast<std::uint8_t>(1 + (x + 31 * (j % 5000) + 17 * (j / 256) + l) % 255));
      t.addData(ts + (j - 1) * dt + dd * (j % 2), b, q > 0 && j % q == 0);
      if (c > 0 && j % c == 0) t.terminateCurrentChunk();
    }
    if (U(op.at("e")) != 0) t.terminateCurrentChunk();
  } else if (o == "end") {
    m_tracks.at(U(op.at("t")))->terminateCurrentChunk();
  } else if (o == "raw") {
    feed(op.at("data").as_object(), [&](const std::uint8_t* p, std::size_t n) { m_w->addMdatData(p, n); });
  } else if (o == "mt") {
    m_tracks.at(U(op.at("t")))->setMediaTime(static_cast<std::int64_t>(BE(op.at("mt"))));
  } else if (o == "append") {
    std::vector<track::Track*> l;
    for (const auto& i : op.at("order").as_array()) {
      l.push_back(m_tracks.at(U(i)).get());
      m_scales.push_back(l.back()->getTimescale());
    }
    m_w->appendTrakAndUdtaBoxInfo(l);
  } else if (o == "free") {
    m_sw->writeFreeBoxAndMdatHeader();
  } else if (o == "mdat") {
    m_fw->writeMdatHeader();
  } else if (o == "moov") {
    m_w->writeMoovBox();
  } else if (o == "copy") {
    m_fw->copyMdatData();
    m_copied = true;
  } else {
    throw std::logic_error("operation " + o);
  }
}

void Movie::report(object& res) const {
  res["t0"] = AB(m_t0);
  res["t1"] = AB(m_t1);
  res["ids"] = m_ids;
  res["refused"] = m_refused;
  res["scales"] = m_scales;
}
