// Reads one JSON command per line, executes it with /repo's library, writes one JSON line.
#include "common.hpp"

#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

#include <boost/json/src.hpp>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <spdlog/spdlog.h>

std::map<std::string, Handler>& handlers() {
  static std::map<std::string, Handler> h;
  return h;
}

std::string to_hex(const Bytes& b) {
  static const char* d = "0123456789abcdef";
  std::string s;
  s.reserve(b.size() * 2);
  for (auto c : b) {
    s += d[c >> 4];
    s += d[c & 15];
  }
  return s;
}

Bytes from_hex(const std::string& s) {
  Bytes b;
  b.reserve(s.size() / 2);
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) {
    b.push_back(static_cast<std::uint8_t>(v(s[i]) * 16 + v(s[i + 1])));
  }
  return b;
}

std::string escape(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    if (c >= 32 && c <= 126 && c != '\\') {
      r += static_cast<char>(c);
    } else {
      r += "\\x";
      r += d[c >> 4];
      r += d[c & 15];
    }
  }
  return r;
}

int main(int argc, char** argv) {
  // nothing in the library may depend on where it runs
  setenv("TZ", "XYZ-9:37XDT,M3.2.0,M11.1.0", 1);
  tzset();
  spdlog::set_level(spdlog::level::off);
  if (const char* m = std::getenv("DRIVER_AS_MB")) {
    rlim_t n = std::strtoull(m, nullptr, 10) * 1024 * 1024;
    struct rlimit rl {
      n, n
    };
    setrlimit(RLIMIT_AS, &rl);
  }
  signal(SIGXFSZ, SIG_IGN);
  // responses go to the original stdout; std::cout itself is free for the library
  FILE* out = fdopen(dup(1), "w");
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    object res;
    try {
      auto cmd = json::parse(line).as_object();
      res["id"] = cmd.at("id");
      auto op = S(cmd.at("op"));
      auto it = handlers().find(op);
      if (it == handlers().end()) {
        res["driver_error"] = "unknown op " + op;
      } else {
        try {
          it->second(cmd, res);
        } catch (const std::exception& e) {
          res["error"] = escape(e.what());
        } catch (...) {
          res["error"] = "(not a std::exception)";
        }
      }
    } catch (const std::exception& e) {
      res["driver_error"] = e.what();
    }
    auto s = json::serialize(res);
    s += '\n';
    fwrite(s.data(), 1, s.size(), out);
    fflush(out);
  }
  return 0;
}
