#include "common.hpp"
#include "kinds.hpp"

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/endian/endian.hpp"
#include "shiguredo/mp4/time/time.hpp"
#include "shiguredo/mp4/track/track.hpp"

#include <boost/functional/factory.hpp>

using namespace shiguredo::mp4;

BoxType type_of(const std::string& hex) {
  auto b = from_hex(hex);
  return BoxType(std::array<std::uint8_t, 4>{b.at(0), b.at(1), b.at(2), b.at(3)});
}
std::string type_hex(const BoxType& t) {
  auto d = t.getData();
  return to_hex(Bytes(d.begin(), d.end()));
}

// ---- version and flags -------------------------------------------------------
namespace {
class BareFull : public FullBox {
 public:
  BareFull() { m_type = BoxType("bare"); }
  std::string toStringOnlyData() const override { return getVersionAndFlagsString(); }
  std::uint64_t writeData(std::ostream& os) const override {
    bitio::Writer w(os);
    return writeVersionAndFlag(&w);
  }
  std::uint64_t readData(std::istream& is) override {
    bitio::Reader r(is);
    return readVersionAndFlag(&r);
  }
};
}  // namespace

static Register r1("flags", [](const object& c, object& res) {
  std::unique_ptr<Box> box;
  auto code = S(c.at("code"));
  BoxMap map;
  if (code.empty()) {
    box.reset(new BareFull());
  } else {
    register_box_map(&map);
    box.reset(map.getBoxInstance(type_of(code)));
    box->setFlags(0);  // some kinds start with a flag set
    box->setVersion(0);
  }
  array steps;
  for (const auto& sv : c.at("steps").as_array()) {
    const auto& s = sv.as_object();
    auto op = S(s.at("op"));
    object o;
    if (op == "set") {
      box->setFlags(static_cast<std::uint32_t>(U(s.at("arg"))));
    } else if (op == "add") {
      box->addFlag(static_cast<std::uint32_t>(U(s.at("arg"))));
    } else if (op == "remove") {
      box->removeFlag(static_cast<std::uint32_t>(U(s.at("arg"))));
    } else if (op == "check") {
      o["has"] = box->checkFlag(static_cast<std::uint32_t>(U(s.at("arg")))) ? 1 : 0;
    } else if (op == "ver") {
      box->setVersion(static_cast<std::uint8_t>(U(s.at("arg"))));
    } else if (op == "read") {
      std::istringstream is(str_from_hex(S(s.at("arg"))));
      o["bits"] = box->readData(is);
    }
    o["flags"] = std::to_string(box->getFlags());
    o["ver"] = box->getVersion();
    steps.push_back(o);
  }
  res["steps"] = steps;
  if (auto* full = dynamic_cast<FullBox*>(box.get())) {
    res["full"] = true;
    res["text"] = full->getVersionAndFlagsString();
    std::ostringstream os;
    bitio::Writer w(os);
    res["bits"] = full->writeVersionAndFlag(&w);
    res["wire"] = to_hex(os.str());
    std::istringstream is(os.str());
    bitio::Reader r(is);
    BareFull back;
    back.setFlags(0xffffff);
    res["rbits"] = back.readVersionAndFlag(&r);
    res["back"] = std::to_string(back.getFlags()) + "/" + std::to_string(back.getVersion());
    res["base_size"] = back.getDataSize();
  } else {
    res["full"] = false;
  }
});

// ---- registry -------------------------------------------------------------------
static BoxFactory factory_of(const std::string& kind) {
  if (kind == "Free") return boost::factory<box::Free*>();
  if (kind == "Skip") return boost::factory<box::Skip*>();
  if (kind == "Btrt") return boost::factory<box::Btrt*>();
  if (kind == "IlstMeta") return boost::factory<box::IlstMeta*>();
  if (kind == "Stts") return boost::factory<box::Stts*>();
  if (kind == "PixelAspectRatio") return boost::factory<box::PixelAspectRatio*>();
  if (kind == "VisualSampleEntry") return boost::factory<box::VisualSampleEntry*>();
  return boost::factory<box::Unsupported*>();
}

static array look(BoxMap* map, const array& codes) {
  array res;
  for (const auto& cv : codes) {
    const auto& c = cv.as_object();
    auto type = type_of(S(c.at("code")));
    object o;
    o["code"] = c.at("code");
    std::unique_ptr<Box> box(map->getBoxInstance(type));
    o["kind_ok"] = is_kind(box.get(), S(c.at("kind")));
    o["kind"] = kind_of(box.get());
    o["type"] = type_hex(box->getType());
    // the form that takes a header must give the same box with the header attached
    auto* header = new BoxHeader({.offset = 24, .size = 100, .type = type});
    std::unique_ptr<Box> box2(map->getBoxInstance(header));
    o["kind2_ok"] = is_kind(box2.get(), S(c.at("kind")));
    o["type2"] = type_hex(box2->getType());
    o["size2"] = box2->getSize();
    o["sup"] = map->isSupported(type);
    array vers;
    try {
      for (auto v : map->getSupportedVersions(type)) vers.push_back(v);
    } catch (const std::exception&) {
      vers.push_back(-1);
    }
    o["vers"] = vers;
    array ok;
    for (int v = 0; v < 256; ++v)
      if (map->isSupportedVersion(type, static_cast<std::uint8_t>(v))) ok.push_back(v);
    if (ok.size() == 256) ok = array{value(-1)};
    o["ok"] = ok;
    if (S(c.at("kind")) == "Unsupported") {
      std::string raw("\x00\x01raw\xff\x80", 7);
      std::istringstream is(raw);
      o["rbits"] = box->readData(is);
      std::ostringstream os;
      o["wbits"] = box->writeData(os);
      o["raw"] = to_hex(os.str());
      o["rawsize"] = box->getDataSize();
      o["text"] = box->toStringOnlyData();
    }
    res.push_back(o);
  }
  return res;
}

static Register r2("registry", [](const object& c, object& res) {
  BoxMap map;
  if (c.at("std").as_bool()) register_box_map(&map);
  array steps;
  for (const auto& sv : c.at("steps").as_array()) {
    const auto& s = sv.as_object();
    std::vector<std::uint8_t> vers;
    for (const auto& v : s.at("vers").as_array()) vers.push_back(static_cast<std::uint8_t>(U(v)));
    map.addBoxDef(factory_of(S(s.at("kind"))), type_of(S(s.at("code"))), vers);
    steps.push_back(look(&map, s.at("look").as_array()));
  }
  res["steps"] = steps;
  res["look"] = look(&map, c.at("look").as_array());
});

static Register r3("boxtype", [](const object& c, object& res) {
  auto t = type_of(S(c.at("code")));
  res["text"] = to_hex(t.toString());
  array others;
  for (const auto& ov : c.at("others").as_array()) {
    const auto& o = ov.as_object();
    auto u = type_of(S(o.at("code")));
    BoxType fresh;
    auto d = u.getData();
    fresh.setData(d[0], d[1], d[2], d[3]);
    BoxType fromstr(std::string(d.begin(), d.end()));
    int cmp = t < u ? -1 : t == u ? 0 : 1;
    bool same = u == fresh && u == fromstr && fresh.getData() == d;
    others.push_back(object{{"code", o.at("code")}, {"cmp", cmp}, {"match", t.matchWith(u)}, {"match2", u.matchWith(t)},
                            {"same", same}, {"neq", t != u}});
  }
  res["others"] = others;
  array lens;
  for (std::size_t n = 0; n < c.at("lens").as_array().size(); ++n) {
    bool ok = true;
    try {
      BoxType x(std::string(n, 'q'));
    } catch (const std::exception&) {
      ok = false;
    }
    lens.push_back(ok);
  }
  res["lens"] = lens;
  res["any"] = type_hex(box_type_any());
});

// ---- time and byte order -----------------------------------------------------------
static Register r4("time", [](const object& c, object& res) {
  auto n = U(c.at("n"));
  auto n32 = static_cast<std::uint32_t>(U(c.at("n32")));
  res["text"] = shiguredo::mp4::time::format_epoch_19040101(n);
  res["unix"] = std::to_string(shiguredo::mp4::time::convert_to_epoch_19040101(n));
  auto a = endian::uint64_to_be(n);
  auto b = endian::uint32_to_be(n32);
  res["hex"] = to_hex(Bytes(a.begin(), a.end()));
  res["hex32"] = to_hex(Bytes(b.begin(), b.end()));
  auto h = H(c.at("hex"));
  auto h32 = H(c.at("hex32"));
  std::array<std::uint8_t, 8> x;
  std::array<std::uint8_t, 4> y;
  std::copy(h.begin(), h.end(), x.begin());
  std::copy(h32.begin(), h32.end(), y.begin());
  res["back"] = std::to_string(endian::be_to_uint64(x));
  res["back_b"] = std::to_string(endian::be_to_uint64(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]));
  res["back32"] = std::to_string(endian::be_to_uint32(y));
  res["back32_b"] = std::to_string(endian::be_to_uint32(h32[0], h32[1], h32[2], h32[3]));
});

// ---- tables ----------------------------------------------------------------------------
template <typename B>
static std::string data_hex(const B& b) {
  std::ostringstream os;
  b.writeData(os);
  return to_hex(os.str());
}
static Register r5("tables", [](const object& c, object& res) {
  std::vector<std::uint32_t> values;
  std::vector<track::ChunkInfo> chunks;
  for (const auto& v : c.at("values").as_array()) {
    for (auto n = U(v.at(1)); n > 0; --n) {
      values.push_back(static_cast<std::uint32_t>(U(v.at(0))));
      chunks.push_back({.offset = 8 * values.size(), .number_of_samples = values.back(), .initialized = true});
    }
  }
  std::vector<box::SttsEntry> stts{box::SttsEntry({.sample_count = 9, .sample_duration = 9})};  // must be cleared
  track::make_stts_entries(&stts, values);
  res["stts"] = data_hex(box::Stts({.entries = stts}));
  std::vector<box::StscEntry> stsc{
      box::StscEntry({.first_chunk = 9, .samples_per_chunk = 9, .sample_description_index = 9})};
  track::make_stsc_entries(&stsc, chunks);
  res["stsc"] = data_hex(box::Stsc({.entries = stsc}));
  std::vector<track::ChunkInfo> offs;
  for (const auto& v : c.at("offsets").as_array())
    offs.push_back({.offset = U(v), .number_of_samples = 1, .initialized = true});
  std::unique_ptr<Box> b(track::make_offset_box(offs));
  res["chunkbox"] = b->getType().toString();
  res["chunks"] = data_hex(*b);
});
