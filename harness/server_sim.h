// The real joedb::Server, run step by step in virtual time.
//
// The thread of the server is stopped whenever it calls epoll_wait, and waits
// there until the harness lets it go on for one more round.  The clock and the
// timers are those of the harness.  Nothing in the code of the server is changed.
#ifndef verif_server_sim_h
#define verif_server_sim_h

#include "common.h"

#include <chrono>
#include <semaphore>
#include <atomic>
#include <cstring>
#include <thread>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>

namespace verif
{
 struct Sim
 {
  std::atomic<bool> controlled{false};
  std::thread::id main_thread;
  std::binary_semaphore to_main{0}, to_server{0};
  bool idle = false;
  std::atomic<int64_t> now_ns{1000000000000};
  int timer_fd = -1;
  int64_t timer_deadline = INT64_MAX;
  int64_t rounds = 0;
  std::function<void()> on_sleep;

  int64_t ms() const {return (now_ns - 1000000000000) / 1000000;}

  // one round of the event loop; false when there is nothing to do
  bool step()
  {
   rounds++;
   to_server.release();
   to_main.acquire();
   return !idle;
  }

  void run() {int n = 0; while (step()) if (++n > 100000) {fprintf(stderr, "the server does not stop\n"); _exit(4);}}

  void advance(int64_t milliseconds)
  {
   now_ns += milliseconds * 1000000;
   fire();
  }

  void fire()
  {
   if (timer_fd >= 0 && timer_deadline <= now_ns)
   {
    timer_deadline = INT64_MAX;
    itimerspec t{};
    t.it_value.tv_nsec = 1;
    syscall(SYS_timerfd_settime, timer_fd, TFD_TIMER_ABSTIME, &t, nullptr);
    idle = false;
   }
  }
 };

 extern Sim sim;
}

#ifdef verif_server_sim_implementation
verif::Sim verif::sim;

extern "C" int epoll_wait(int fd, struct epoll_event *events, int n, int timeout)
{
 using verif::sim;
 if (sim.controlled && std::this_thread::get_id() != sim.main_thread)
 {
  while (true)
  {
   sim.to_main.release();
   sim.to_server.acquire();
   if (!sim.controlled) break;
   const int r = int(syscall(SYS_epoll_pwait, fd, events, n, 0, nullptr, 8));
   if (r != 0 || timeout == 0) {sim.idle = false; return r;}
   sim.idle = true;
  }
 }
 return int(syscall(SYS_epoll_pwait, fd, events, n, timeout, nullptr, 8));
}

extern "C" int timerfd_settime(int fd, int flags, const struct itimerspec *value, struct itimerspec *old) noexcept
{
 using verif::sim;
 if (!sim.controlled)
  return int(syscall(SYS_timerfd_settime, fd, flags, value, old));
 sim.timer_fd = fd;
 const int64_t ns = int64_t(value->it_value.tv_sec) * 1000000000 + value->it_value.tv_nsec;
 if (flags & TFD_TIMER_ABSTIME) sim.timer_deadline = 0;
 else sim.timer_deadline = ns == 0 ? INT64_MAX : sim.now_ns + ns;
 itimerspec off{};
 syscall(SYS_timerfd_settime, fd, 0, &off, nullptr); // it is not readable any more
 sim.fire();
 return 0;
}

std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
 return time_point(duration(verif::sim.now_ns.load()));
}

// sleeping is instantaneous
extern "C" int nanosleep(const struct timespec *t, struct timespec *)
{
 verif::sim.now_ns += int64_t(t->tv_sec) * 1000000000 + t->tv_nsec;
 verif::sim.fire();
 if (verif::sim.on_sleep && std::this_thread::get_id() == verif::sim.main_thread) verif::sim.on_sleep();
 return 0;
}
#endif

namespace verif
{
 inline int connect_to(const std::string &path)
 {
  const int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, path.c_str(), sizeof(a.sun_path) - 1);
  if (connect(fd, (sockaddr *)&a, sizeof(a))) {close(fd); return -1;}
  fcntl(fd, F_SETFL, O_NONBLOCK);
  return fd;
 }

 // a server that is being simulated
 template<typename Server> struct Sim_Server
 {
  std::unique_ptr<Server> server;

  template<typename... Args> void start(Args &&...args)
  {
   sim.main_thread = std::this_thread::get_id();
   sim.timer_fd = -1;
   sim.timer_deadline = INT64_MAX;
   sim.idle = false;
   sim.controlled = true;
   server.reset(new Server(std::forward<Args>(args)...));
   sim.to_main.acquire(); // the thread is in its first epoll_wait
   sim.run();
  }

  void stop()
  {
   if (!server) return;
   sim.controlled = false;
   sim.timer_fd = -1;
   sim.to_server.release();
   server->stop();
   server.reset();
   while (sim.to_server.try_acquire());
   while (sim.to_main.try_acquire());
  }

  ~Sim_Server() {stop();}
 };
}

#endif
