#include "make_box.hpp"

#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"

using namespace shiguredo::mp4;

namespace {
object encode(Box* box) {
  object o;
  std::ostringstream os;
  o["size"] = box->getDataSize();
  o["bits"] = box->writeData(os);
  o["hex"] = to_hex(os.str());
  o["good"] = os.good();
  o["text"] = escape(box->toStringOnlyData());
  o["ver"] = box->getVersion();
  o["flags"] = std::to_string(box->getFlags());
  return o;
}

// Decodes the bytes that start at `lead` in a stream, reports how far it read, and encodes again.
object decode(Box* box, const std::string& bytes, const std::string& trail, std::size_t lead) {
  object o;
  std::stringstream is;
  is << std::string(lead, '\xa5') << bytes << trail;
  is.seekg(static_cast<std::streamoff>(lead));
  try {
    o["bits"] = box->readData(is);
  } catch (const std::exception& e) {
    o["error"] = escape(e.what());
    return o;
  }
  is.clear();
  o["consumed"] = static_cast<std::int64_t>(is.tellg()) - static_cast<std::int64_t>(lead);
  o["again"] = encode(box);
  return o;
}
}  // namespace

static Register r1("box", [](const object& c, object& res) {
  BoxMap map;
  register_box_map(&map);
  auto kind = S(c.at("kind"));
  auto code = S(c.at("code"));
  auto type = type_of(code);
  bool wave = has(c, "wave");
  auto trail = str_from_hex(Sd(c, "trail", ""));
  auto set_wave = [&](Box* b) {
    if (!wave) return;
    if (auto* a = dynamic_cast<box::AudioSampleEntry*>(b)) a->setUnderWave(true);
  };
  std::string bytes = str_from_hex(Sd(c, "hex", ""));
  if (has(c, "fields")) {
    auto box = make_box(kind, code, O(c.at("fields")));
    res["made"] = encode(box.get());
    res["made_type"] = type_hex(box->getType());
    res["made_kind"] = is_kind(box.get(), kind);
    // what the real box wrote, into a new box
    std::unique_ptr<Box> own(map.getBoxInstance(type));
    res["own"] = decode(own.get(), str_from_hex(std::string(res["made"].as_object().at("hex").as_string())), trail, 0);
    // the box is not changed by being written
    res["made2"] = encode(box.get());
  }
  {
    std::unique_ptr<Box> fresh(map.getBoxInstance(type));
    set_wave(fresh.get());
    res["fresh"] = decode(fresh.get(), bytes, trail, 0);
    res["fresh_kind"] = is_kind(fresh.get(), kind);
    // decoding again into the same object
    if (!has(res["fresh"].as_object(), "error")) res["twice"] = decode(fresh.get(), bytes, trail, 0);
  }
  {
    std::unique_ptr<Box> fresh(map.getBoxInstance(new BoxHeader({.offset = 17, .size = 1000, .type = type})));
    set_wave(fresh.get());
    res["inside"] = decode(fresh.get(), bytes, trail, 29);
  }
  if (has(c, "prev")) {
    auto dirty = make_box(kind, code, O(c.at("prev")));
    set_wave(dirty.get());
    res["dirty"] = decode(dirty.get(), bytes, trail, 3);
  }
});

static Register r2("boxnul", [](const object& c, object& res) {
  auto box = make_box(S(c.at("kind")), S(c.at("code")), O(c.at("fields")));
  res["made"] = encode(box.get());
});

// a version no format is defined for: it may be refused
static Register r2b("boxodd", [](const object& c, object& res) {
  try {
    auto box = make_box(S(c.at("kind")), S(c.at("code")), O(c.at("fields")));
    res["made"] = encode(box.get());
  } catch (const std::exception& e) {
    res["refused"] = escape(e.what());
  }
});

// a table with very many equal entries
static Register r3("boxbig", [](const object& c, object& res) {
  auto code = S(c.at("code"));
  auto box = make_box(S(c.at("kind")), code, O(c.at("fields")));
  std::stringstream os;
  res["size"] = box->getDataSize();
  res["bits"] = box->writeData(os);
  res["hex"] = to_hex(os.str());
  BoxMap map;
  register_box_map(&map);
  std::unique_ptr<Box> fresh(map.getBoxInstance(type_of(code)));
  try {
    res["rbits"] = fresh->readData(os);
    std::ostringstream again;
    res["wbits"] = fresh->writeData(again);
    res["rsize"] = fresh->getDataSize();
    res["same"] = again.str() == os.str();
  } catch (const std::exception& e) {
    res["failed"] = escape(e.what());
  }
});

static Register r4("boxrefuse", [](const object& c, object& res) {
  auto box = make_box(S(c.at("kind")), S(c.at("code")), O(c.at("fields")));
  std::ostringstream os;
  try {
    box->writeData(os);
    res["refused"] = false;
  } catch (const std::exception&) {
    res["refused"] = true;
  }
});
