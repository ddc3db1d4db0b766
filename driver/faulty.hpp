#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

#include "sparse.hpp"

// Devices that fail at chosen places.
struct Fault {
  std::string dev, how;   // refuse | short | throw | eof
  std::uint64_t at = 0;
  bool perm = false, fired = false;
};
struct Devices {
  std::vector<Fault> faults;
  std::map<std::string, std::uint64_t> count;
  std::uint64_t fired = 0;
  // n units are wanted from the device; how many are granted, and how it fails
  std::uint64_t ask(const std::string& dev, std::uint64_t n, std::string& how) {
    auto& c = count[dev];
    auto g = reach(dev, c, n, how);
    c += how.empty() ? n : g + 1;   // does not hit again
    return how == "refuse" ? 0 : g;
  }
  // the units from..from+n are wanted
  std::uint64_t reach(const std::string& dev, std::uint64_t from, std::uint64_t n, std::string& how) {
    how.clear();
    for (auto& f : faults) {
      if (f.dev != dev) continue;
      if (f.fired && f.perm) {
        how = f.how == "short" ? "refuse" : f.how;
        return 0;
      }
      if (!f.fired && f.at >= from && f.at < from + n) {
        f.fired = true;
        ++fired;
        how = f.how;
        return f.at - from;
      }
    }
    return n;
  }
};

// an output whose bytes ("ow") and positionings ("ok") may fail
class FaultBuf : public SparseBuf {
 public:
  explicit FaultBuf(Devices& d) : m_d(d) {}

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    std::string how;
    auto g = m_d.ask("ow", static_cast<std::uint64_t>(n), how);
    if (g > 0) SparseBuf::xsputn(s, static_cast<std::streamsize>(g));
    if (how == "throw") throw std::runtime_error("device failed");
    return static_cast<std::streamsize>(g);
  }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    char ch = static_cast<char>(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode m) override {
    std::string how;
    if (m_d.ask("ok", 1, how) == 0) {
      if (how == "throw") throw std::runtime_error("device failed");
      return pos_type(off_type(-1));
    }
    return SparseBuf::seekoff(off, dir, m);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return FaultBuf::seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  Devices& m_d;
};

// an input that fails at chosen bytes ("rd", by their offset) and positionings ("ok", counted)
class FaultIn : public std::streambuf {
 public:
  FaultIn(const std::string& s, Devices& d) : m_s(s), m_d(d) {}
  std::uint64_t pos() const { return m_pos; }
  // how many positionings came before the byte was first asked for
  std::map<std::uint64_t, std::uint64_t> before;

 protected:
  std::uint64_t grant(std::uint64_t n) {
    n = m_pos < m_s.size() ? std::min<std::uint64_t>(n, m_s.size() - m_pos) : 0;
    if (n == 0) return 0;
    if (!before.contains(m_pos)) before[m_pos] = m_d.count["ok"];
    std::string how;
    auto g = m_d.reach("rd", m_pos, n, how);
    if (how == "throw") throw std::runtime_error("device failed");
    return g;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    auto g = grant(static_cast<std::uint64_t>(n));
    m_s.copy(s, g, m_pos);
    m_pos += g;
    return static_cast<std::streamsize>(g);
  }
  int_type underflow() override { return grant(1) ? static_cast<unsigned char>(m_s[m_pos]) : traits_type::eof(); }
  int_type uflow() override {
    auto c = underflow();
    if (c != traits_type::eof()) ++m_pos;
    return c;
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    std::string how;
    if (m_d.ask("ok", 1, how) == 0) return pos_type(off_type(-1));
    std::int64_t base = dir == std::ios_base::beg ? 0 : static_cast<std::int64_t>(dir == std::ios_base::cur ? m_pos : m_s.size());
    if (base + off < 0) return pos_type(off_type(-1));
    m_pos = static_cast<std::uint64_t>(base + off);
    return pos_type(static_cast<off_type>(m_pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return FaultIn::seekoff(off_type(p), std::ios_base::beg, m); }

 private:
  const std::string& m_s;
  Devices& m_d;
  std::uint64_t m_pos = 0;
};
