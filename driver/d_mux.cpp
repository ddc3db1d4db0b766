// Complete movies (C01 - C06)
#include <fstream>

#include "movie.hpp"
#include "scratch.hpp"
#include "sparse.hpp"

using namespace shiguredo::mp4;

// the nonzero parts of a file, as segments
static array segments(const SparseBuf& b) {
  array out;
  for (auto& [o, s] : b.spans(64)) {
    array d;
    for (unsigned char ch : s) d.push_back(ch);
    out.push_back(object{{"o", AB(o)}, {"b", std::move(d)}});
  }
  return out;
}

void put_file(object& res, const SparseBuf& b) {
  res["len"] = AB(b.length());
  res["segs"] = segments(b);
}

static Register r1("mux", [](const object& c, object& res) {
  Scratch scratch;
  auto sink = Sd(c, "sink", "sparse");
  SparseBuf buf;
  std::ostream sparse(&buf);
  std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
  std::ofstream file;
  if (sink == "file") file.open("movie.mp4", std::ios::binary | std::ios::trunc);
  std::ostream& os = sink == "file" ? static_cast<std::ostream&>(file) : sink == "string" ? static_cast<std::ostream&>(ss) : sparse;
  res["err"] = "";
  {
    Movie m(c, os);
    std::size_t n = 0;
    try {
      for (const auto& o : c.at("ops").as_array()) {
        ++n;
        m.step(o.as_object());
      }
    } catch (const std::exception& e) {
      res["err"] = escape(std::string("operation ") + std::to_string(n) + ": " + e.what());
    }
    m.report(res);
  }
  res["left"] = static_cast<std::uint64_t>(std::distance(std::filesystem::directory_iterator("."), {}) - (sink == "file"));
  if (sink == "string") {
    auto s = ss.str();
    buf.put(0, s.data(), s.size());
    buf.extend(s.size());
  } else if (sink == "file") {
    file.close();
    std::ifstream f("movie.mp4", std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    buf.put(0, s.data(), s.size());
    buf.extend(s.size());
  }
  put_file(res, buf);
});
