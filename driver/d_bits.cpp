#include "common.hpp"

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/reader.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"

using namespace shiguredo::mp4;

static std::uint64_t write_num(bitio::Writer* w, const std::string& kind, std::uint64_t ty, std::uint64_t width,
                               const value& v) {
  if (kind == "b") return bitio::write_bool(w, U(v) != 0);
  if (kind == "u") {
    auto x = U(v);
    switch (ty) {
      case 8: return bitio::write_uint<std::uint8_t>(w, static_cast<std::uint8_t>(x), width);
      case 16: return bitio::write_uint<std::uint16_t>(w, static_cast<std::uint16_t>(x), width);
      case 32: return bitio::write_uint<std::uint32_t>(w, static_cast<std::uint32_t>(x), width);
      default: return bitio::write_uint<std::uint64_t>(w, x, width);
    }
  }
  auto x = I(v);
  switch (ty) {
    case 8: return bitio::write_int<std::int8_t>(w, static_cast<std::int8_t>(x), width);
    case 16: return bitio::write_int<std::int16_t>(w, static_cast<std::int16_t>(x), width);
    case 32: return bitio::write_int<std::int32_t>(w, static_cast<std::int32_t>(x), width);
    default: return bitio::write_int<std::int64_t>(w, x, width);
  }
}

template <typename T>
static std::string ru(bitio::Reader* r, std::uint64_t w, std::uint64_t* ret) {
  T x = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
  *ret = bitio::read_uint<T>(r, &x, w);
  return std::to_string(static_cast<std::uint64_t>(x));
}
template <typename T>
static std::string ri(bitio::Reader* r, std::uint64_t w, std::uint64_t* ret) {
  T x = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
  *ret = bitio::read_int<T>(r, &x, w);
  return std::to_string(static_cast<std::int64_t>(x));
}

static Register r1("bitio", [](const object& c, object& res) {
  std::stringstream ss;
  bitio::Writer writer(ss);
  array w, r;
  for (const auto& o : c.at("w").as_array()) {
    const auto& a = o.as_array();
    auto kind = S(a[0]);
    std::int64_t ret = -1;
    try {
      if (kind == "y") {
        ret = static_cast<std::int64_t>(writer.write(H(a[3])));
      } else {
        ret = static_cast<std::int64_t>(write_num(&writer, kind, U(a[1]), U(a[2]), a[3]));
      }
    } catch (const std::exception&) {
    }
    w.push_back(ret);
  }
  res["w"] = w;
  res["hex"] = to_hex(ss.str());
  std::istringstream is(str_from_hex(S(c.at("hex"))));
  bitio::Reader reader(is);
  for (const auto& o : c.at("r").as_array()) {
    const auto& a = o.as_array();
    auto kind = S(a[0]);
    auto width = U(a[2]);
    std::string v;
    std::int64_t ret = -1;
    std::uint64_t n = 0;
    try {
      if (kind == "y") {
        Bytes b(width);
        n = static_cast<std::uint64_t>(reader.read(&b));
        v = to_hex(b);
      } else if (kind == "sc" || kind == "sb") {
        n = reader.seek(width, kind == "sc" ? std::ios_base::cur : std::ios_base::beg);
        v = std::to_string(n);
      } else if (kind == "b") {
        bool b = false;
        n = bitio::read_bool(&reader, &b);
        v = b ? "1" : "0";
      } else if (kind == "u") {
        switch (U(a[1])) {
          case 8: v = ru<std::uint8_t>(&reader, width, &n); break;
          case 16: v = ru<std::uint16_t>(&reader, width, &n); break;
          case 32: v = ru<std::uint32_t>(&reader, width, &n); break;
          default: v = ru<std::uint64_t>(&reader, width, &n); break;
        }
      } else {
        switch (U(a[1])) {
          case 8: v = ri<std::int8_t>(&reader, width, &n); break;
          case 16: v = ri<std::int16_t>(&reader, width, &n); break;
          case 32: v = ri<std::int32_t>(&reader, width, &n); break;
          default: v = ri<std::int64_t>(&reader, width, &n); break;
        }
      }
      ret = static_cast<std::int64_t>(n);
    } catch (const std::exception&) {
    }
    r.push_back(array{v, ret});
  }
  res["r"] = r;
});

template <typename T>
static std::vector<T> vec_of(const Bytes& b) {
  std::vector<T> v;
  for (std::size_t i = 0; i < b.size(); i += sizeof(T)) {
    T x = 0;
    for (std::size_t j = 0; j < sizeof(T); ++j) x = static_cast<T>((static_cast<std::uint64_t>(x) << 8) | b[i + j]);
    v.push_back(x);
  }
  return v;
}
template <typename T>
static std::string vec_hex(const std::vector<T>& v) {
  Bytes b;
  for (auto x : v)
    for (std::size_t j = 0; j < sizeof(T); ++j)
      b.push_back(static_cast<std::uint8_t>(static_cast<std::uint64_t>(x) >> (8 * (sizeof(T) - 1 - j))));
  return to_hex(b);
}
template <typename T>
static std::string rv(bitio::Reader* r, std::uint64_t n, std::int64_t* ret) {
  std::vector<T> v{1, 2, 3};
  *ret = static_cast<std::int64_t>(bitio::read_vector_uint<T>(r, n, &v));
  return vec_hex(v);
}
template <typename T>
static std::string ruv(bitio::Reader* r, std::int64_t* ret) {
  T x = 55;
  *ret = static_cast<std::int64_t>(bitio::read_uvarint<T>(r, &x));
  return std::to_string(static_cast<std::uint64_t>(x));
}

static Register r2("strings", [](const object& c, object& res) {
  std::stringstream ss;
  bitio::Writer writer(ss);
  array w, r;
  for (const auto& o : c.at("w").as_array()) {
    const auto& a = o.as_array();
    auto kind = S(a[0]);
    auto width = U(a[1]);
    std::int64_t ret = -1;
    try {
      std::uint64_t n = 0;
      if (kind == "str") {
        n = bitio::write_string(&writer, str_from_hex(S(a[2])));
      } else if (kind == "pas") {
        n = bitio::write_pascal_string(&writer, str_from_hex(S(a[2])));
      } else if (kind == "4cc") {
        auto b = H(a[2]);
        n = bitio::write_array_uint8_4(&writer, {b[0], b[1], b[2], b[3]});
      } else if (kind == "raw") {
        n = bitio::write_vector_uint<std::uint8_t>(&writer, H(a[2]));
      } else if (kind == "vec") {
        auto b = H(a[2]);
        switch (width) {
          case 1: n = bitio::write_vector_uint<std::uint8_t>(&writer, vec_of<std::uint8_t>(b)); break;
          case 2: n = bitio::write_vector_uint<std::uint16_t>(&writer, vec_of<std::uint16_t>(b)); break;
          case 4: n = bitio::write_vector_uint<std::uint32_t>(&writer, vec_of<std::uint32_t>(b)); break;
          default: n = bitio::write_vector_uint<std::uint64_t>(&writer, vec_of<std::uint64_t>(b)); break;
        }
      } else if (kind == "uv") {
        auto x = U(a[2]);
        switch (width) {
          case 1: n = bitio::write_uvarint<std::uint8_t>(&writer, static_cast<std::uint8_t>(x)); break;
          case 2: n = bitio::write_uvarint<std::uint16_t>(&writer, static_cast<std::uint16_t>(x)); break;
          case 4: n = bitio::write_uvarint<std::uint32_t>(&writer, static_cast<std::uint32_t>(x)); break;
          default: n = bitio::write_uvarint<std::uint64_t>(&writer, x); break;
        }
      }
      ret = static_cast<std::int64_t>(n);
    } catch (const std::exception&) {
    }
    w.push_back(ret);
  }
  res["w"] = w;
  res["hex"] = to_hex(ss.str());
  res["uvsize"] = array{bitio::uvarint_size<std::uint8_t>(0), bitio::uvarint_size<std::uint32_t>(0),
                        bitio::uvarint_size<std::uint64_t>(0)};
  std::istringstream is(str_from_hex(S(c.at("hex"))));
  bitio::Reader reader(is);
  for (const auto& o : c.at("r").as_array()) {
    const auto& a = o.as_array();
    auto kind = S(a[0]);
    auto arg = U(a[1]);
    std::string v;
    std::int64_t ret = -1;
    try {
      if (kind == "str" || kind == "pas") {
        std::string s = "before";
        ret = static_cast<std::int64_t>(kind == "str" ? bitio::read_string(&reader, &s, arg * 8)
                                                      : bitio::read_pascal_string(&reader, &s, arg * 8));
        v = to_hex(s);
      } else if (kind == "4cc") {
        std::array<std::uint8_t, 4> x{};
        ret = static_cast<std::int64_t>(bitio::read_array_uint8_4(&reader, &x));
        v = to_hex(Bytes(x.begin(), x.end()));
      } else if (kind == "vec1") {
        v = rv<std::uint8_t>(&reader, arg, &ret);
      } else if (kind == "vec2") {
        v = rv<std::uint16_t>(&reader, arg, &ret);
      } else if (kind == "vec4") {
        v = rv<std::uint32_t>(&reader, arg, &ret);
      } else if (kind == "vec8") {
        v = rv<std::uint64_t>(&reader, arg, &ret);
      } else if (kind == "uv1") {
        v = ruv<std::uint8_t>(&reader, &ret);
      } else if (kind == "uv2") {
        v = ruv<std::uint16_t>(&reader, &ret);
      } else if (kind == "uv4") {
        v = ruv<std::uint32_t>(&reader, &ret);
      } else if (kind == "uv8") {
        v = ruv<std::uint64_t>(&reader, &ret);
      }
    } catch (const std::exception&) {
      ret = -1;
      v = "";
    }
    r.push_back(array{v, ret});
  }
  res["r"] = r;
});
