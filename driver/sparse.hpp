#pragma once
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <streambuf>
#include <string>
#include <vector>
// A stream of any length kept in pages; what was never written reads as zero.
class SparseBuf : public std::streambuf {
 public:
  static constexpr std::uint64_t kPage = 1 << 16;
  explicit SparseBuf(std::uint64_t length = 0) : m_length(length) {}
  std::uint64_t length() const { return m_length; }
  std::string get(std::uint64_t off, std::uint64_t n) const {
    std::string r(n, '\0');
    for (std::uint64_t i = 0; i < n;) {
      auto page = (off + i) / kPage;
      auto in = (off + i) % kPage;
      auto m = std::min(n - i, kPage - in);
      auto it = m_pages.find(page);
      if (it != m_pages.end()) std::memcpy(&r[i], it->second.data() + in, m);
      i += m;
    }
    return r;
  }
  // memory known to be zero but for its edges (see ZeroRegion)
  static const char*& zero_lo() { static const char* p = nullptr; return p; }
  static const char*& zero_hi() { static const char* p = nullptr; return p; }
  void extend(std::uint64_t n) { m_length = std::max(m_length, n); }
  // maximal pieces whose inner runs of zeros are shorter than gap
  std::map<std::uint64_t, std::string> spans(std::size_t gap) const {
    std::map<std::uint64_t, std::string> r;
    std::uint64_t at = 0;  // start of the open piece
    std::string cur;
    std::uint64_t zeros = 0, expect = 0;
    auto close = [&] {
      cur.resize(cur.size() - zeros);
      if (!cur.empty()) r[at] = cur;
      cur.clear();
      zeros = 0;
    };
    for (auto& [k, page] : m_pages) {
      auto base = k * kPage;
      if (base != expect) close();
      auto last = std::min<std::uint64_t>(kPage, m_length > base ? m_length - base : 0);
      for (std::uint64_t i = 0; i < last; ++i) {
        char c = page[i];
        if (cur.empty()) {
          if (c == 0) continue;
          at = base + i;
        }
        cur += c;
        zeros = c == 0 ? zeros + 1 : 0;
        if (zeros > gap) close();
      }
      expect = base + kPage;
    }
    close();
    return r;
  }
  void put(std::uint64_t off, const char* s, std::uint64_t n) {
    if (n > 8 * kPage && s >= zero_lo() && s < zero_hi()) {
      put(off, s, kPage);
      put(off + n - kPage, s + n - kPage, kPage);
      return;
    }
    // zeros that go where nothing is yet need no page
    for (std::uint64_t i = 0; i < n;) {
      auto page = (off + i) / kPage;
      auto in = (off + i) % kPage;
      auto m = std::min(n - i, kPage - in);
      auto it = m_pages.find(page);
      if (it == m_pages.end()) {
        bool zero = s[i] == 0 && std::memcmp(s + i, s + i + 1, m - 1) == 0;
        if (zero) {
          i += m;
          continue;
        }
        it = m_pages.emplace(page, std::vector<char>(kPage, 0)).first;
      }
      std::memcpy(it->second.data() + in, s + i, m);
      i += m;
    }
    m_length = std::max(m_length, off + n);
  }

 protected:
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    put(m_pos, s, static_cast<std::uint64_t>(n));
    m_pos += static_cast<std::uint64_t>(n);
    return n;
  }
  int_type overflow(int_type c) override {
    if (c == traits_type::eof()) return traits_type::not_eof(c);
    char ch = static_cast<char>(c);
    xsputn(&ch, 1);
    return c;
  }
  int_type underflow() override {
    if (m_pos >= m_length) return traits_type::eof();
    return static_cast<unsigned char>(get(m_pos, 1)[0]);
  }
  int_type uflow() override {
    auto c = underflow();
    if (c != traits_type::eof()) ++m_pos;
    return c;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    if (m_pos >= m_length) return 0;
    auto m = std::min(static_cast<std::uint64_t>(n), m_length - m_pos);
    auto r = get(m_pos, m);
    std::memcpy(s, r.data(), m);
    m_pos += m;
    return static_cast<std::streamsize>(m);
  }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    std::int64_t base = dir == std::ios_base::beg ? 0 : static_cast<std::int64_t>(dir == std::ios_base::cur ? m_pos : m_length);
    if (base + off < 0) return pos_type(off_type(-1));
    m_pos = static_cast<std::uint64_t>(base + off);
    return pos_type(static_cast<off_type>(m_pos));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

  std::map<std::uint64_t, std::vector<char>> m_pages;
  std::uint64_t m_length = 0;
  std::uint64_t m_pos = 0;
};
