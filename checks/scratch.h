// A directory for the files of one case, removed with everything in it.
#ifndef VERIF_SCRATCH_H_
#define VERIF_SCRATCH_H_

#include <sys/stat.h>
#include <unistd.h>

#include <cstdlib>
#include <fstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Scratch
{
  std::string path;
  std::vector<std::string> files, dirs;
  Scratch()
  {
    char t[] = "/tmp/verif-scratch-XXXXXX";
    const char* p = mkdtemp(t);
    if (!p) throw std::runtime_error("no scratch directory");
    path = p;
  }
  Scratch(const Scratch&) = delete;
  ~Scratch()
  {
    for (auto& f : files) unlink(f.c_str());
    for (auto it = dirs.rbegin(); it != dirs.rend(); ++it) rmdir(it->c_str());
    rmdir(path.c_str());
  }
  // Full name of a file (which may not exist yet) below the directory.
  std::string File(const std::string& n)
  {
    files.push_back(path + "/" + n);
    return files.back();
  }
  std::string Dir(const std::string& n)
  {
    dirs.push_back(path + "/" + n);
    mkdir(dirs.back().c_str(), 0700);
    return dirs.back();
  }
  std::string Write(const std::string& n, const std::string& content)
  {
    const auto f = File(n);
    std::ofstream(f) << content;
    return f;
  }
};
#endif
