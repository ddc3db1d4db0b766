// Failing devices (C19)
#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <map>
#include <set>

#include "faulty.hpp"
#include "movie.hpp"
#include "scratch.hpp"
#include "sparse.hpp"

namespace {
// Devices: "ow" bytes written to the output, "ok" positionings of the output,
// "fw" bytes written to the intermediate file, "fr" bytes read from it, "fs"
// positionings of it, "fc" closing it, "fo" opening it as a stream.
Devices* g_dev = nullptr;   // set while a movie is made

struct Cookie {
  int fd;
  FILE* self;
};
std::map<FILE*, Cookie*> g_open;
ssize_t ck_read(void* k, char* b, size_t n) {
  std::string how;
  auto g = g_dev ? g_dev->ask("fr", n, how) : n;
  if (how == "eof") return g == 0 ? 0 : ::read(static_cast<Cookie*>(k)->fd, b, g);
  if (!how.empty() && g == 0) {
    errno = EIO;
    return -1;
  }
  return ::read(static_cast<Cookie*>(k)->fd, b, g);
}
ssize_t ck_write(void* k, const char* b, size_t n) {
  std::string how;
  auto g = g_dev ? g_dev->ask("fw", n, how) : n;
  if (!how.empty() && g == 0) {
    errno = ENOSPC;
    return 0;
  }
  auto r = ::write(static_cast<Cookie*>(k)->fd, b, g);
  return r < 0 ? 0 : r;
}
int ck_seek(void* k, off64_t* off, int whence) {
  std::string how;
  if (g_dev && g_dev->ask("fs", 1, how) == 0) {
    errno = EIO;
    return -1;
  }
  auto r = ::lseek64(static_cast<Cookie*>(k)->fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int ck_close(void* k) {
  auto* c = static_cast<Cookie*>(k);
  std::string how;
  bool ok = !g_dev || g_dev->ask("fc", 1, how) != 0;
  int r = ::close(c->fd);
  g_open.erase(c->self);
  delete c;
  return ok ? r : EOF;
}
}  // namespace

extern "C" FILE* __real_fdopen(int, const char*);
extern "C" FILE* __wrap_fdopen(int fd, const char* mode) {
  if (!g_dev) return __real_fdopen(fd, mode);
  std::string how;
  if (g_dev->ask("fo", 1, how) == 0) {
    ::close(fd);
    errno = ENOMEM;
    return nullptr;
  }
  auto* c = new Cookie{fd, nullptr};
  c->self = ::fopencookie(c, mode, {ck_read, ck_write, ck_seek, ck_close});
  g_open.emplace(c->self, c);
  return c->self;
}
// code that goes to the descriptor of the stream reaches the file, past the devices
extern "C" int __real_fileno(FILE*);
extern "C" int __wrap_fileno(FILE* f) {
  auto i = g_open.find(f);
  return i == g_open.end() ? __real_fileno(f) : i->second->fd;
}
extern "C" int __wrap_fileno_unlocked(FILE* f) { return __wrap_fileno(f); }

namespace {
struct Outcome {
  std::uint64_t err = 0, fired = 0;
  std::string what;
  std::uint64_t len = 0;
  std::map<std::uint64_t, std::string> spans;
};

std::uint64_t second() {
  return static_cast<std::uint64_t>(
      std::chrono::duration_cast<std::chrono::seconds>(std::chrono::system_clock::now().time_since_epoch()).count());
}

// disk: file size limit while the operations run (0: none); cut: length the
// intermediate file is cut to before it is copied (-1: not).
Outcome make(const object& c, Devices& d, bool go_on, std::uint64_t disk, std::int64_t cut,
             std::vector<std::map<std::string, std::uint64_t>>* counts = nullptr) {
  Outcome r;
  FaultBuf buf(d);
  std::ostream os(&buf);
  g_dev = &d;
  struct rlimit old;
  ::getrlimit(RLIMIT_FSIZE, &old);
  auto back = [&] { ::setrlimit(RLIMIT_FSIZE, &old); };
  if (disk != 0) {
    struct rlimit rl = old;
    rl.rlim_cur = disk - 1;
    ::setrlimit(RLIMIT_FSIZE, &rl);
  }
  {
    Movie m(c, os);
    std::uint64_t n = 0;
    for (const auto& o : c.at("ops").as_array()) {
      ++n;
      const auto& op = o.as_object();
      if (counts) counts->push_back(d.count);
      if (cut >= 0 && S(op.at("o")) == "copy" && m.fast()) {
        auto p = m.fast()->getIntermediateFilePath();
        for (auto& f : g_open) ::fflush(f.first);
        std::error_code ec;
        if (std::filesystem::file_size(p, ec) > static_cast<std::uint64_t>(cut)) {
          std::filesystem::resize_file(p, static_cast<std::uint64_t>(cut));
          ++d.fired;
        }
      }
      try {
        m.step(op);
      } catch (const std::exception& e) {
        if (r.err == 0) {
          r.err = n;
          r.what = escape(e.what());
        }
        if (!go_on || n <= 2) break;
      }
    }
    if (counts) counts->push_back(d.count);
    back();
    auto fired = d.fired;
    g_dev = nullptr;
    r.fired = fired;
  }
  auto left = g_open;
  for (auto& f : left) ::fclose(f.first);
  g_open.clear();
  r.len = buf.length();
  r.spans = buf.spans(64);
  return r;
}

struct Reference {
  Outcome o;
  std::uint64_t sec = 0;
};
}  // namespace

// plans: groups of runs; each run is compared with the undisturbed one.
//   {faults: [{dev, how, perm, op, where}]}: where the model says it fails
//   {sweep: dev, how, perm, from, to, step}: every place of a device
//   {disk: [..]}, {cut: [..]}
static Register r1("fault", [](const object& c, object& res) {
  Scratch scratch;
  Reference ref;
  std::vector<std::map<std::string, std::uint64_t>> counts;
  auto fresh = [&] {
    do {
      ref.sec = second();
      Devices d;
      counts.clear();
      ref.o = make(c, d, false, 0, -1, &counts);
    } while (second() != ref.sec);
  };
  fresh();
  std::uint64_t given = 0;
  for (const auto& o : c.at("ops").as_array())
    if (o.as_object().if_contains("data")) given += U(o.as_object().at("data").as_object().at("n"));
  res["err"] = ref.o.what;
  object total;
  for (auto& [k, v] : counts.back()) total[k] = v;
  res["total"] = total;
  auto count = [&](std::size_t i, const std::string& dev) {
    i = std::min(i, counts.size() - 1);
    auto it = counts[i].find(dev);
    return it == counts[i].end() ? 0 : it->second;
  };
  array groups;
  for (const auto& pv : c.at("plans").as_array()) {
    const auto& p = pv.as_object();
    bool go_on = Ud(p, "go_on", 0) != 0;
    array runs;   // [how often, fired, err, complete, first place]
    std::vector<std::uint64_t> last;
    auto one = [&](const std::vector<Fault>& fs, std::uint64_t disk, std::int64_t cut, std::uint64_t place) {
      Outcome o;
      for (;;) {
        if (second() != ref.sec) fresh();
        Devices d;
        d.faults = fs;
        o = make(c, d, go_on, disk, cut);
        if (second() == ref.sec) break;
      }
      // bytes the intermediate file has to hold, however they get there
      std::uint64_t held = count(counts.size(), "fw");
      if (S(c.at("w")) == "fast") held = std::max(held, given);
      bool complete = o.len == ref.o.len && o.spans == ref.o.spans;
      std::vector<std::uint64_t> t = {disk ? (disk - 1 < held ? 1u : 0u) : (o.fired ? 1u : 0u), o.err, complete};
      if (!runs.empty() && t == last) {
        auto& a = runs.back().as_array();
        a[0] = U(a[0]) + 1;
      } else {
        runs.push_back(array{1u, t[0], t[1], t[2], place});
        last = t;
      }
    };
    if (has(p, "sweep")) {
      Fault f;
      f.dev = S(p.at("sweep"));
      f.how = S(p.at("how"));
      f.perm = U(p.at("perm")) != 0;
      auto n = count(counts.size(), f.dev);
      // every place if there are few, otherwise the edges of the operations and some between
      auto max = U(p.at("max"));
      std::set<std::uint64_t> at;
      if (n + 1 <= max) {
        for (std::uint64_t i = 0; i <= n; ++i) at.insert(i);
      } else {
        at = {0, n - 1, n};
        for (std::size_t i = 0; i < counts.size(); ++i)
          for (std::uint64_t k = 0; k < 3; ++k)
            if (auto x = count(i, f.dev) + k; x > 0) at.insert(x - 1);
        std::uint64_t h = 88172645463325252ULL;
        for (std::uint64_t k = 0; at.size() < max && k < 20 * max; ++k) {
          h ^= h << 13, h ^= h >> 7, h ^= h << 17;
          at.insert((h >> 11) % n);
        }
      }
      for (auto x : at) {
        f.at = x;
        one({f}, 0, -1, x);
      }
    } else if (has(p, "disk")) {
      for (const auto& x : p.at("disk").as_array()) one({}, U(x) + 1, -1, U(x));
    } else if (has(p, "cut")) {
      auto n = count(counts.size(), "fw");
      for (const auto& x : p.at("cut").as_array()) {
        auto v = I(x);
        one({}, 0, v >= 0 ? v : std::max<std::int64_t>(0, static_cast<std::int64_t>(n) + v), static_cast<std::uint64_t>(std::abs(v)));
      }
    } else {
      std::vector<Fault> fs;
      bool there = true;
      for (const auto& fv : p.at("faults").as_array()) {
        const auto& x = fv.as_object();
        Fault f;
        f.dev = S(x.at("dev"));
        f.how = S(x.at("how"));
        f.perm = U(x.at("perm")) != 0;
        // the which-th operation of that name
        std::size_t i = 0, nth = U(x.at("nth"));
        const auto& ops = c.at("ops").as_array();
        for (; i < ops.size(); ++i)
          if (S(ops[i].as_object().at("o")) == S(x.at("op")) && --nth == 0) break;
        auto lo = count(i, f.dev), hi = count(i + 1, f.dev);
        if (i >= ops.size() || lo == hi) {
          there = false;   // this operation does not use the device
          break;
        }
        auto where = S(x.at("where"));
        f.at = where == "first" ? lo : where == "last" ? hi - 1 : lo + (hi - lo) / 2;
        fs.push_back(f);
      }
      if (there) one(fs, 0, -1, 0);
    }
    groups.push_back(runs);
  }
  res["groups"] = groups;
});
