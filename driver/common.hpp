#pragma once
#include <boost/json.hpp>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace json = boost::json;
using json::array;
using json::object;
using json::value;

using Bytes = std::vector<std::uint8_t>;
using Handler = std::function<void(const object&, object&)>;
std::map<std::string, Handler>& handlers();
struct Register {
  Register(const std::string& n, Handler h) { handlers()[n] = h; }
};

std::string to_hex(const Bytes& b);
inline std::string to_hex(const std::string& s) { return to_hex(Bytes(s.begin(), s.end())); }
Bytes from_hex(const std::string& s);
inline std::string str_from_hex(const std::string& s) {
  auto b = from_hex(s);
  return std::string(b.begin(), b.end());
}
// Printable ASCII stays, every other byte becomes \xNN (and so does the backslash).
std::string escape(const std::string& s);

// Numbers travel as decimal strings or JSON numbers.
inline std::uint64_t U(const value& v) {
  if (v.is_string()) return std::stoull(std::string(v.as_string()));
  if (v.is_uint64()) return v.as_uint64();
  return static_cast<std::uint64_t>(v.as_int64());
}
inline std::int64_t I(const value& v) {
  if (v.is_string()) return std::stoll(std::string(v.as_string()));
  if (v.is_uint64()) return static_cast<std::int64_t>(v.as_uint64());
  return v.as_int64();
}
inline std::string S(const value& v) { return std::string(v.as_string()); }
inline Bytes H(const value& v) { return from_hex(S(v)); }
inline bool has(const object& o, const char* k) { return o.contains(k); }
inline std::uint64_t Ud(const object& o, const char* k, std::uint64_t d) { return has(o, k) ? U(o.at(k)) : d; }
inline std::string Sd(const object& o, const char* k, const std::string& d) { return has(o, k) ? S(o.at(k)) : d; }
// An empty record comes as an empty array.
inline const object& O(const value& v) {
  static const object none;
  return v.is_object() ? v.as_object() : none;
}
