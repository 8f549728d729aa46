// System calls on files, recorded while they are made
#ifndef verif_syscalls_declared
#define verif_syscalls_declared

#include <functional>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <limits.h>

namespace verif
{
 struct Syscalls
 {
  static inline std::function<void(const char *call, const std::string &file, const std::string &to)> on;
  static std::string name(int fd)
  {
   char buffer[PATH_MAX];
   const ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), buffer, sizeof(buffer));
   const std::string s(buffer, size_t(n > 0 ? n : 0));
   return s.substr(s.rfind('/') + 1);
  }
 };
}

extern "C"
{
 ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {if (verif::Syscalls::on) verif::Syscalls::on("write", verif::Syscalls::name(fd), ""); return syscall(SYS_pwrite64, fd, p, n, o);}
 int fsync(int fd) {if (verif::Syscalls::on) verif::Syscalls::on("sync", verif::Syscalls::name(fd), ""); return int(syscall(SYS_fsync, fd));}
 int fdatasync(int fd) {if (verif::Syscalls::on) verif::Syscalls::on("sync", verif::Syscalls::name(fd), ""); return int(syscall(SYS_fdatasync, fd));}
 int rename(const char *a, const char *b)
 {
  const auto base = [](const char *s) {const std::string x = s; return x.substr(x.rfind('/') + 1);};
  if (verif::Syscalls::on) verif::Syscalls::on("rename", base(a), base(b));
  return int(syscall(SYS_rename, a, b));
 }
}

#endif
