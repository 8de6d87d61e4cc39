// A private scratch directory, made the working directory, removed at exit.
#ifndef VERIF_SCRATCH_H
#define VERIF_SCRATCH_H
#include <filesystem>
#include <string>
#include <cstdlib>
#include <stdexcept>
#include <unistd.h>
struct Scratch {
  std::string dir; pid_t owner;
  Scratch() : owner(getpid()) {
    const char *t = getenv("MC_SCRATCH"); std::string base = t ? t : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    std::string p = base + "/mcscratch-XXXXXX"; if (!mkdtemp(p.data())) throw std::runtime_error("mkdtemp");
    dir = p; if (chdir(p.c_str())) throw std::runtime_error("chdir");
  }
  void Clear() { for (auto &e : std::filesystem::directory_iterator(dir)) std::filesystem::remove_all(e.path()); }
  ~Scratch() { if (getpid() != owner) return; if (chdir("/")) {} std::error_code ec; std::filesystem::remove_all(dir, ec); }
};
#endif
