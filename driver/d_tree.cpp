#include "kinds.hpp"
#include "common.hpp"
#include "sparse.hpp"

#include "shiguredo/mp4/box_info.hpp"

using namespace shiguredo::mp4;

namespace {
// What stands where after writing: maximal runs of bytes that were written.
class Recorder : public SparseBuf {
 public:
  void forget() { m_bytes.clear(); }
  array runs() const {
    array r;
    std::uint64_t from = 0;
    std::string cur;
    auto close = [&] {
      if (!cur.empty()) r.push_back(array{std::to_string(from), to_hex(cur)});
      cur.clear();
    };
    for (auto [at, c] : m_bytes) {
      if (cur.empty() || at != from + cur.size()) {
        close();
        from = at;
      }
      cur += c;
    }
    close();
    return r;
  }

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; ++i) m_bytes[m_pos + static_cast<std::uint64_t>(i)] = s[i];
    return SparseBuf::xsputn(s, n);
  }

 private:
  std::map<std::uint64_t, char> m_bytes;
};

// A box that claims any data size; when it is written only the first bytes are.
class Fake : public AnyTypeBox {
 public:
  Fake(const BoxType& t, int id) : m_id(id) { setType(t); Box::m_type = t; }
  std::uint64_t own = 0;
  std::string toStringOnlyData() const override { return own == 0 ? "" : "Own=" + std::to_string(own); }
  std::uint64_t writeData(std::ostream& os) const override {
    auto n = std::min<std::uint64_t>(own, 3);
    for (std::uint64_t i = 0; i < n; ++i) os.put(static_cast<char>(0x80 | (m_id & 0x7f)));
    return own * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t getDataSize() const override { return own; }

 private:
  int m_id;
};
}  // namespace

static Register r1("tree", [](const object& c, object& res) {
  const auto& nodes = c.at("nodes").as_array();
  std::vector<Fake*> boxes;
  std::vector<BoxInfo*> infos;
  std::unique_ptr<BoxInfo> root;
  for (std::size_t i = 0; i < nodes.size(); ++i) {
    const auto& n = nodes[i].as_object();
    auto type = type_of(S(n.at("code")));
    auto* b = new Fake(type, static_cast<int>(i + 1));
    if (U(n.at("pre")) == 0) b->setHeader(new BoxHeader({.offset = 77, .size = 100, .header_size = 16, .type = type}));
    boxes.push_back(b);
    auto par = U(n.at("par"));
    infos.push_back(new BoxInfo({.parent = par == 0 ? nullptr : infos[par - 1], .box = b}));
    if (i == 0) root.reset(infos[0]);
  }
  array rounds;
  for (const auto& rv : c.at("rounds").as_array()) {
    const auto& r = rv.as_object();
    const auto& want = r.at("boxes").as_array();
    for (std::size_t i = 0; i < boxes.size(); ++i) boxes[i]->own = U(want[i].as_object().at("own"));
    object o;
    auto start = U(r.at("start"));
    for (int pass = 0; pass < 2; ++pass) {
      o[pass ? "ret2" : "ret"] = std::to_string(root->adjustOffsetAndSize(start));
      o[pass ? "text2" : "text"] = escape(root->toString());
    }
    array bs;
    for (std::size_t i = 0; i < boxes.size(); ++i) {
      object b;
      b["size"] = std::to_string(boxes[i]->getSize());
      b["isize"] = std::to_string(infos[i]->getSize());
      b["hdr"] = boxes[i]->getHeaderSize();
      b["path"] = infos[i]->getPath().size();
      b["last"] = type_hex(infos[i]->getPath().back());
      SparseBuf sb;
      std::istream is(&sb);
      boxes[i]->seekToData(is);
      b["data"] = std::to_string(static_cast<std::uint64_t>(is.tellg()));
      boxes[i]->seekToEnd(is);
      b["end"] = std::to_string(static_cast<std::uint64_t>(is.tellg()));
      bs.push_back(b);
    }
    o["boxes"] = bs;
    Recorder rec;
    std::ostream os(&rec);
    root->write(os);
    o["writes"] = rec.runs();
    rounds.push_back(o);
  }
  res["rounds"] = rounds;
});

// ---- headers ----------------------------------------------------------------------
static object show(BoxHeader* h) {
  object o;
  o["off"] = std::to_string(h->getOffset());
  o["size"] = std::to_string(h->getSize());
  o["hdr"] = h->getHeaderSize();
  o["data"] = std::to_string(h->getDataSize());
  o["type"] = type_hex(h->getType());
  o["text"] = escape(h->toString());
  return o;
}

static Register r2("header", [](const object& c, object& res) {
  auto len = U(c.at("len"));
  auto pos = U(c.at("pos"));
  SparseBuf sb(len);
  auto bytes = str_from_hex(S(c.at("hex")));
  sb.put(pos, bytes.data(), bytes.size());
  if (sb.length() != len) throw std::logic_error("header: length");
  std::iostream ios(&sb);
  ios.seekg(static_cast<std::streamoff>(pos));
  std::unique_ptr<BoxHeader> h;
  try {
    h.reset(read_box_header(ios));
  } catch (const std::exception& e) {
    res["refused"] = true;
    return;
  }
  res["read"] = show(h.get());
  array steps;
  for (const auto& sv : c.at("steps").as_array()) {
    const auto& s = sv.as_object();
    auto op = S(s.at("op"));
    object o;
    if (op == "data") {
      h->seekToData(ios);
      o["at"] = std::to_string(static_cast<std::uint64_t>(ios.tellg()));
    } else if (op == "end") {
      h->seekToEnd(ios);
      o["at"] = std::to_string(static_cast<std::uint64_t>(ios.tellg()));
    } else if (op == "lay") {
      h->setOffsetAndDataSize(U(s.at("off")), U(s.at("size")));
    } else if (op == "write" || op == "laywrite") {
      if (op == "laywrite") h->setOffsetAndDataSize(U(s.at("off")), U(s.at("size")));
      Recorder rec;
      std::ostream os(&rec);
      os << "??";
      rec.forget();
      o["ret"] = std::to_string(h->write(os));
      o["writes"] = rec.runs();
    } else if (op == "again") {
      // written into its own stream, a header reads back as the same header
      h->write(ios);
      ios.clear();
      ios.seekg(static_cast<std::streamoff>(h->getOffset()));
      std::unique_ptr<BoxHeader> g(read_box_header(ios));
      o["back"] = show(g.get());
    }
    o["now"] = show(h.get());
    steps.push_back(o);
  }
  res["steps"] = steps;
});
