// Reading and writing boxes on streams that fail (C26)
#include <set>

#include "faulty.hpp"
#include "make_box.hpp"

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/box_info.hpp"
#include "shiguredo/mp4/box_map.hpp"
#include "shiguredo/mp4/box_types.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

using namespace shiguredo::mp4;

namespace {
class Capture {
 public:
  Capture() : m_old(std::cout.rdbuf(m_buf.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(m_old); }
  std::string text() const { return m_buf.str(); }

 private:
  std::ostringstream m_buf;
  std::streambuf* m_old;
};

// a piece of an item: bytes of the input, or of what is written
struct Part {
  std::uint64_t lo = 0, hi = 0;
};
struct Item {
  Part head, body;
};
struct Outcome {
  bool err = false, right = false;
  std::string what;
  std::uint64_t fired = 0;
};
// One undisturbed run tells how much the job uses of each device.
struct Job {
  std::function<Outcome(Devices&)> run;
  std::vector<Item> items;                             // where the items are, in units of `data`
  std::string data;                                    // "rd" or "ow"
  std::uint64_t length = 0;                            // places of data
  std::map<std::uint64_t, std::uint64_t> positioned;   // byte -> positionings before it
};

void plans(const object& c, Job& job, object& res) {
  Devices none;
  auto ref = job.run(none);
  res["err"] = ref.err ? ref.what : ref.right ? std::string() : std::string("the result is not the specified one");
  res["total"] = object{{job.data, job.length}, {"ok", none.count["ok"]}};
  array groups;
  for (const auto& pv : c.at("plans").as_array()) {
    const auto& p = pv.as_object();
    array runs;   // [how often, fired, err, complete, first place]
    std::vector<std::uint64_t> last;
    auto one = [&](const std::vector<Fault>& fs, std::uint64_t place) {
      Devices d;
      d.faults = fs;
      auto o = job.run(d);
      std::vector<std::uint64_t> t = {o.fired ? 1u : 0u, o.err ? 1u : 0u, o.right ? 1u : 0u};
      if (!runs.empty() && t == last) {
        auto& a = runs.back().as_array();
        a[0] = U(a[0]) + 1;
      } else {
        runs.push_back(array{1u, t[0], t[1], t[2], place});
        last = t;
      }
    };
    if (has(p, "sweep")) {
      Fault f;
      f.dev = S(p.at("sweep"));
      f.how = S(p.at("how"));
      f.perm = U(p.at("perm")) != 0;
      auto n = f.dev == "ok" ? none.count["ok"] : job.length;
      auto max = U(p.at("max"));
      std::set<std::uint64_t> at;
      if (n + 1 <= max) {
        for (std::uint64_t i = 0; i <= n; ++i) at.insert(i);
      } else {
        at = {0, n - 1, n};
        if (f.dev == job.data)
          for (auto& i : job.items)
            for (auto x : {i.head.lo, i.head.hi, i.body.lo, i.body.hi}) at.insert({x, x > 0 ? x - 1 : 0});
        std::uint64_t h = 88172645463325252ULL;
        for (std::uint64_t k = 0; at.size() < max && k < 20 * max; ++k) {
          h ^= h << 13, h ^= h >> 7, h ^= h << 17;
          at.insert((h >> 11) % n);
        }
      }
      for (auto x : at) {
        f.at = x;
        one({f}, x);
      }
    } else {
      std::vector<Fault> fs;
      bool there = !job.items.empty();
      for (const auto& fv : p.at("faults").as_array()) {
        if (!there) break;
        const auto& x = fv.as_object();
        Fault f;
        auto dev = S(x.at("dev"));
        f.how = S(x.at("how"));
        f.perm = U(x.at("perm")) != 0;
        auto i = U(x.at("item"));
        const auto& item = job.items[i == 1 ? 0 : i == 2 ? job.items.size() / 2 : job.items.size() - 1];
        const auto& part = S(x.at("part")) == "head" ? item.head : item.body;
        if (dev == "rd" || dev == "wr") {
          if (part.lo == part.hi) there = false;
          f.dev = job.data;
          auto where = S(x.at("where"));
          f.at = where == "first" ? part.lo : where == "last" ? part.hi - 1 : part.lo + (part.hi - part.lo) / 2;
        } else {
          // the last positionings before the part: moving there comes after asking where one is
          f.dev = "ok";
          auto it = job.positioned.find(part.lo);
          std::uint64_t back = dev == "pos" ? 1 : 2;
          if (it == job.positioned.end() || it->second < back) there = false;
          else f.at = it->second - back;
        }
        fs.push_back(f);
      }
      if (there) one(fs, fs.empty() ? 0 : fs[0].at);
    }
    groups.push_back(runs);
  }
  res["groups"] = groups;
}

template <class F>
Outcome attempt(Devices& d, F f) {
  Outcome o;
  try {
    o.right = f();
  } catch (const std::exception& e) {
    o.err = true;
    o.what = escape(e.what());
  }
  o.fired = d.fired;
  return o;
}

// A box that claims any data size; when it is written only the first bytes are.
class Claim : public AnyTypeBox {
 public:
  Claim(const BoxType& t, int id, std::uint64_t n) : own(n), m_id(id) { setType(t); Box::m_type = t; }
  std::uint64_t own;
  std::string toStringOnlyData() const override { return ""; }
  std::string mark() const { return std::string(std::min<std::uint64_t>(own, 3), static_cast<char>(0x80 | (m_id & 0x7f))); }
  std::uint64_t writeData(std::ostream& os) const override {
    auto m = mark();
    os.write(m.data(), static_cast<std::streamsize>(m.size()));
    if (!os.good()) throw std::runtime_error("not written");
    return own * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t getDataSize() const override { return own; }

 private:
  int m_id;
};
}  // namespace

// reading a file
static Register r1("sfile", [](const object& c, object& res) {
  const auto file = str_from_hex(S(c.at("hex")));
  const auto text = S(c.at("text"));
  Job job;
  job.data = "rd";
  job.length = file.size();
  for (const auto& hv : c.at("heads").as_array()) {
    const auto& h = hv.as_array();
    auto off = U(h[0]), hl = U(h[1]), dl = U(h[2]);
    job.items.push_back({{off, off + hl}, {off + hl, off + hl + dl}});
  }
  job.run = [&](Devices& d) {
    FaultIn in(file, d);
    std::istream is(&in);
    std::string said;
    auto o = attempt(d, [&] {
      Capture cap;
      reader::SimpleReader r(is);
      r.read();
      said = escape(cap.text());
      return said == text;
    });
    if (d.faults.empty()) job.positioned = in.before;
    return o;
  };
  plans(c, job, res);
});

// decoding one box
static Register r2("sdecode", [](const object& c, object& res) {
  BoxMap map;
  register_box_map(&map);
  auto type = type_of(S(c.at("code")));
  const auto lead = std::string(5, '\xa5');
  const auto bytes = str_from_hex(S(c.at("hex")));
  const auto canon = str_from_hex(Sd(c, "canon", S(c.at("hex"))));
  const auto stream = lead + bytes + str_from_hex(Sd(c, "trail", ""));
  Job job;
  job.data = "rd";
  job.length = stream.size();
  job.items.push_back({{}, {lead.size(), lead.size() + bytes.size()}});
  job.run = [&](Devices& d) {
    FaultIn in(stream, d);
    std::istream is(&in);
    // the caller stands at the box
    auto faults = std::move(d.faults);
    d.faults.clear();
    is.seekg(static_cast<std::streamoff>(lead.size()));
    d.faults = std::move(faults);
    d.count.clear();
    std::unique_ptr<Box> box(map.getBoxInstance(type));
    auto o = attempt(d, [&] {
      auto bits = box->readData(is);
      std::ostringstream os;
      box->writeData(os);
      return bits == 8 * bytes.size() && os.str() == canon;
    });
    if (d.faults.empty()) job.positioned = in.before;
    return o;
  };
  plans(c, job, res);
});

// encoding one box
static Register r3("sencode", [](const object& c, object& res) {
  const auto bytes = str_from_hex(S(c.at("hex")));
  auto box = make_box(S(c.at("kind")), S(c.at("code")), O(c.at("fields")));
  Job job;
  job.data = "ow";
  job.length = bytes.size();
  job.items.push_back({{}, {0, bytes.size()}});
  job.run = [&](Devices& d) {
    FaultBuf buf(d);
    std::ostream os(&buf);
    return attempt(d, [&] {
      auto bits = box->writeData(os);
      return bits == 8 * bytes.size() && buf.length() == bytes.size() && buf.get(0, bytes.size()) == bytes;
    });
  };
  plans(c, job, res);
});

// writing a tree of boxes, and finding its boxes
static Register r4("stree", [](const object& c, object& res) {
  bool find = S(c.at("what")) == "find";
  const auto& nodes = c.at("nodes").as_array();
  const auto& r = c.at("rounds").as_array()[0].as_object();
  const auto& want = r.at("boxes").as_array();
  std::vector<Claim*> boxes;
  std::vector<BoxInfo*> infos;
  std::unique_ptr<BoxInfo> root;
  for (std::size_t i = 0; i < nodes.size(); ++i) {
    const auto& n = nodes[i].as_object();
    auto* b = new Claim(type_of(S(n.at("code"))), static_cast<int>(i + 1), U(want[i].as_object().at("own")));
    boxes.push_back(b);
    auto par = U(n.at("par"));
    infos.push_back(new BoxInfo({.parent = par == 0 ? nullptr : infos[par - 1], .box = b}));
    if (i == 0) root.reset(infos[0]);
  }
  root->adjustOffsetAndSize(U(r.at("start")));
  // what must be found where
  std::map<std::uint64_t, std::string> expect;
  Job job;
  job.data = "ow";
  std::vector<std::size_t> order;
  std::function<void(std::size_t)> walk = [&](std::size_t i) {
    order.push_back(i);
    for (std::size_t j = 0; j < nodes.size(); ++j)
      if (U(nodes[j].as_object().at("par")) == i + 1) walk(j);
  };
  walk(0);
  std::uint64_t places = 0;
  for (auto i : order) {
    const auto& b = want[i].as_object();
    auto head = str_from_hex(S(b.at("head")));
    auto mark = boxes[i]->mark();
    expect[U(b.at("off"))] = head + mark;
    job.items.push_back({{places, places + head.size()}, {places + head.size(), places + head.size() + mark.size()}});
    places += head.size() + mark.size();
  }
  job.length = places;
  if (find) {
    const std::string nothing;
    job.length = 0;
    std::uint64_t n = 0;
    for (auto& i : job.items) {   // found through its header and through itself, its data and its end
      i.head.lo = n;
      n += 4;
      job.positioned[i.head.lo] = i.head.lo + 1;
    }
    job.run = [&](Devices& d) {
      FaultIn in(nothing, d);
      std::istream is(&in);
      return attempt(d, [&] {
        for (auto i : order) {
          const auto& b = want[i].as_object();
          auto off = U(b.at("off")), size = U(b.at("size"));
          BoxHeader h({.offset = off, .size = size, .header_size = U(b.at("hdr")), .type = boxes[i]->getType()});
          boxes[i]->seekToData(is);
          if (in.pos() != off + U(b.at("hdr"))) return false;
          boxes[i]->seekToEnd(is);
          if (in.pos() != off + size) return false;
          h.seekToData(is);
          if (in.pos() != off + U(b.at("hdr"))) return false;
          h.seekToEnd(is);
          if (in.pos() != off + size) return false;
        }
        return true;
      });
    };
  } else {
    job.run = [&](Devices& d) {
      FaultBuf buf(d);
      std::ostream os(&buf);
      return attempt(d, [&] {
        root->write(os);
        for (auto& [off, s] : expect)
          if (buf.get(off, s.size()) != s) return false;
        return true;
      });
    };
  }
  plans(c, job, res);
});

// bytes and bits taken and given one after another
static Register r5("sbits", [](const object& c, object& res) {
  bool taking = S(c.at("what")) == "take";
  const auto bytes = str_from_hex(S(c.at("hex")));
  Job job;
  job.data = taking ? "rd" : "ow";
  job.length = bytes.size();
  // [way, first byte, length]: 0 bytes, 1 bits, 2 skipped, 3 numbers
  std::vector<std::array<std::uint64_t, 3>> steps;
  for (std::uint64_t i = U(c.at("from")), at = 0; at < bytes.size(); ++i) {
    std::uint64_t way = i % 4, n = way == 1 ? 2 : way == 3 ? 4 : 1 + (i * 7) % 5;
    if (at + n > bytes.size()) way = 0, n = bytes.size() - at;
    steps.push_back({way, at, n});
    job.items.push_back({{}, {at, at + n}});
    at += n;
  }
  auto at = [&](std::uint64_t i) { return static_cast<std::uint8_t>(bytes[i]); };
  if (taking) {
    job.run = [&](Devices& d) {
      FaultIn in(bytes, d);
      std::istream is(&in);
      auto o = attempt(d, [&] {
        bitio::Reader r(is);
        for (auto& [way, p, n] : steps) {
          if (way == 0) {
            Bytes b(n, 0);
            if (r.read(&b) != static_cast<std::streamsize>(n)) return false;
            if (std::string(b.begin(), b.end()) != bytes.substr(p, n)) return false;
          } else if (way == 1) {
            Bytes a, b;
            r.readBits(&a, 5);
            r.readBits(&b, 11);
            if (a != Bytes{static_cast<std::uint8_t>(at(p) >> 3)} || b != Bytes{static_cast<std::uint8_t>(at(p) & 7), at(p + 1)}) return false;
          } else if (way == 2) {
            r.seek(n, std::ios_base::cur);
          } else {
            std::uint32_t v = 0;
            bitio::read_uint<std::uint32_t>(&r, &v);
            for (int i = 3; i >= 0; --i, v >>= 8)
              if ((v & 255) != at(p + static_cast<std::uint64_t>(i))) return false;
          }
        }
        return in.pos() == bytes.size();
      });
      if (d.faults.empty()) job.positioned = in.before;
      return o;
    };
  } else {
    job.run = [&](Devices& d) {
      FaultBuf buf(d);
      std::ostream os(&buf);
      return attempt(d, [&] {
        bitio::Writer w(os);
        for (auto& [way, p, n] : steps) {
          if (way == 1) {
            w.writeBits({static_cast<std::uint8_t>(at(p) >> 3)}, 5);
            w.writeBits({static_cast<std::uint8_t>(at(p) & 7), at(p + 1)}, 11);
          } else if (way == 3) {
            bitio::write_uint<std::uint32_t>(&w, static_cast<std::uint32_t>(at(p)) << 24 | static_cast<std::uint32_t>(at(p + 1)) << 16 |
                                                     static_cast<std::uint32_t>(at(p + 2)) << 8 | at(p + 3));
          } else if (w.write(Bytes(bytes.begin() + static_cast<std::ptrdiff_t>(p), bytes.begin() + static_cast<std::ptrdiff_t>(p + n))) !=
                     static_cast<std::streamsize>(n)) {
            return false;
          }
        }
        return buf.length() == bytes.size() && buf.get(0, bytes.size()) == bytes;
      });
    };
  }
  plans(c, job, res);
});
