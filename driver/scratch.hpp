#pragma once
#include <fcntl.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <stdexcept>
#include <string>

// A directory of its own as working directory, removed at the end.
struct Scratch {
  std::string path;
  int back;
  Scratch() : back(::open(".", O_RDONLY | O_DIRECTORY)) {
    std::string t = std::string(::access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/mp4verif-XXXXXX";
    if (back < 0 || !::mkdtemp(t.data()) || ::chdir(t.c_str()) != 0) throw std::logic_error("no scratch directory");
    path = t;
  }
  ~Scratch() {
    (void)!::fchdir(back);
    ::close(back);
    std::error_code ec;
    std::filesystem::remove_all(path, ec);
  }
};
