// Several parts at work at the same time (C25)
#include <atomic>
#include <thread>

#include "movie.hpp"
#include "scratch.hpp"
#include "sparse.hpp"

#include "shiguredo/mp4/bitio/bitio.hpp"
#include "shiguredo/mp4/bitio/writer.hpp"
#include "shiguredo/mp4/reader/reader.hpp"

using namespace shiguredo::mp4;

namespace {
// what a thread prints goes to its own buffer
thread_local std::string* t_out = nullptr;
class PerThread : public std::streambuf {
 protected:
  int_type overflow(int_type c) override {
    if (c != traits_type::eof() && t_out) *t_out += static_cast<char>(c);
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (t_out) t_out->append(s, static_cast<std::size_t>(n));
    return n;
  }
};

struct Part {
  virtual ~Part() = default;
  virtual std::size_t steps() const = 0;
  virtual void step(std::size_t i) = 0;
  virtual std::string result() = 0;
  std::string err;
  void safe(std::size_t i) {
    try {
      step(i);
    } catch (const std::exception& e) {
      err += std::to_string(i) + ": " + e.what() + "; ";
    }
  }
};
struct MoviePart : Part {
  const object& c;
  SparseBuf buf;
  std::ostream os;
  Movie m;
  explicit MoviePart(const object& t_c) : c(t_c), os(&buf), m(c, os) {}
  std::size_t steps() const override { return c.at("ops").as_array().size(); }
  void step(std::size_t i) override { m.step(c.at("ops").as_array()[i].as_object()); }
  std::string result() override {
    object r;
    m.report(r);
    return buf.get(0, buf.length()) + json::serialize(r.at("ids")) + json::serialize(r.at("refused")) + json::serialize(r.at("scales")) + err;
  }
};
struct ReaderPart : Part {
  std::istringstream is;
  std::unique_ptr<reader::SimpleReader> r;
  std::string text;
  explicit ReaderPart(const std::string& file) : is(file) {}
  std::size_t steps() const override { return 2; }
  void step(std::size_t i) override {
    if (i == 0) {
      r.reset(new reader::SimpleReader(is));
    } else {
      t_out = &text;
      try {
        r->read();
      } catch (...) {
        t_out = nullptr;
        throw;
      }
      t_out = nullptr;
    }
  }
  std::string result() override { return text + err; }
};
struct BitsPart : Part {
  const array& ops;
  std::stringstream ss;
  bitio::Writer w{ss};
  std::uint64_t n = 0;
  explicit BitsPart(const array& t_ops) : ops(t_ops) {}
  std::size_t steps() const override { return ops.size(); }
  void step(std::size_t i) override {
    const auto& a = ops[i].as_array();
    n += bitio::write_uint<std::uint16_t>(&w, static_cast<std::uint16_t>(U(a[1])), U(a[0]));
  }
  std::string result() override { return to_hex(ss.str()) + err; }
};

std::uint64_t second() {
  return static_cast<std::uint64_t>(
      std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count());
}
}  // namespace

static Register r1("inter", [](const object& c, object& res) {
  Scratch scratch;
  PerThread per;
  struct Redirect {
    std::streambuf* old;
    explicit Redirect(std::streambuf* n) : old(std::cout.rdbuf(n)) {}
    ~Redirect() { std::cout.rdbuf(old); }
  } redirect(&per);
  const auto& parts = c.at("parts").as_array();
  std::vector<std::string> files(parts.size());   // of movies made alone
  auto make = [&](std::size_t i) -> std::unique_ptr<Part> {
    const auto& p = parts[i].as_object();
    auto kind = S(p.at("kind"));
    if (kind == "movie") return std::make_unique<MoviePart>(p.at("m").as_object());
    if (kind == "reader") return std::make_unique<ReaderPart>(files[U(p.at("of")) - 1]);
    return std::make_unique<BitsPart>(p.at("ops").as_array());
  };
  std::vector<std::string> alone(parts.size());
  std::uint64_t sec = 0;
  auto fresh = [&](bool report) {
    do {
      sec = second();
      for (int round = 0; round < 2; ++round)
        for (std::size_t i = 0; i < parts.size(); ++i) {
          auto kind = S(parts[i].as_object().at("kind"));
          if ((round == 0) != (kind == "movie")) continue;
          auto p = make(i);
          for (std::size_t s = 0; s < p->steps(); ++s) p->safe(s);
          alone[i] = p->result();
          if (auto* m = dynamic_cast<MoviePart*>(p.get())) files[i] = m->buf.get(0, m->buf.length());
        }
    } while (second() != sec);
    (void)report;
  };
  fresh(true);
  // alone, for the predicates of the specification
  auto describe = [&](Part* p, std::size_t i) {
    object o;
    if (auto* m = dynamic_cast<MoviePart*>(p)) {
      o["len"] = AB(m->buf.length());
      array segs;
      for (auto& [at, s] : m->buf.spans(64)) {
        array d;
        for (unsigned char ch : s) d.push_back(ch);
        segs.push_back(object{{"o", AB(at)}, {"b", std::move(d)}});
      }
      o["segs"] = segs;
      m->m.report(o);
      o["err"] = escape(m->err);
    } else {
      o["text"] = escape(p->result());
    }
    o["part"] = i + 1;
    return o;
  };
  array bad, last;
  std::uint64_t n = 0;
  for (const auto& sv : c.at("scheds").as_array()) {
    std::vector<std::unique_ptr<Part>> ps;
    std::vector<std::size_t> wrong;
    for (int attempt = 0;; ++attempt) {
      if (second() != sec) fresh(false);
      ps.clear();
      for (std::size_t i = 0; i < parts.size(); ++i) ps.push_back(make(i));
      std::vector<std::size_t> at(parts.size());
      for (const auto& x : sv.as_array()) {
        auto i = U(x) - 1;
        ps[i]->safe(at[i]++);
      }
      wrong.clear();
      for (std::size_t i = 0; i < parts.size(); ++i)
        if (ps[i]->result() != alone[i]) wrong.push_back(i);
      if (second() == sec) break;
    }
    if (!wrong.empty() && bad.size() < 3) {
      array w;
      for (auto i : wrong) w.push_back(describe(ps[i].get(), i));
      bad.push_back(object{{"sched", n}, {"parts", w}});
    }
    ++n;
    if (n == c.at("scheds").as_array().size())
      for (std::size_t i = 0; i < parts.size(); ++i) last.push_back(describe(ps[i].get(), i));
  }
  res["bad"] = bad;
  res["last"] = last;
  array a;
  for (std::size_t i = 0; i < parts.size(); ++i) a.push_back(json::string(S(parts[i].as_object().at("kind")) == "bits" ? alone[i] : std::string()));
  res["bits"] = a;
  // on threads
  if (auto threads = Ud(c, "threads", 0)) {
    std::vector<std::string> wrong(threads);
    std::atomic<std::uint64_t> done{0};
    for (int attempt = 0; attempt < 5; ++attempt) {
      if (second() != sec) fresh(false);
      std::vector<std::thread> ts;
      for (auto& w : wrong) w.clear();
      for (std::uint64_t t = 0; t < threads; ++t) {
        ts.emplace_back([&, t] {
          for (std::uint64_t rep = 0; rep < U(c.at("repeats")); ++rep)
            for (std::size_t j = 0; j < parts.size(); ++j) {
              auto i = (j + t) % parts.size();
              auto p = make(i);
              for (std::size_t s = 0; s < p->steps(); ++s) p->safe(s);
              if (p->result() != alone[i] && wrong[t].empty()) wrong[t] = "part " + std::to_string(i + 1) + " on thread " + std::to_string(t + 1) + " differs " + escape(p->err);
              ++done;
            }
        });
      }
      for (auto& t : ts) t.join();
      if (second() == sec) break;
      if (attempt == 4) wrong.assign(threads, "");   // too slow to compare times
    }
    array w;
    for (auto& s : wrong)
      if (!s.empty()) w.push_back(json::string(s));
    res["threads_wrong"] = w;
    res["threads_done"] = done.load();
  }
});
