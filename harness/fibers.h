// Fibers, switched at points chosen by the harness.
#ifndef verif_fibers_h
#define verif_fibers_h

#include "common.h"
#include <ucontext.h>
#include <cxxabi.h>

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif

namespace __cxxabiv1 {struct __cxa_eh_globals {void *caught; unsigned uncaught;};}

namespace verif
{
 struct Fiber
 {
  static constexpr size_t stack_size = 512 * 1024;
  ucontext_t context;
  char *stack = nullptr;
  __cxxabiv1::__cxa_eh_globals eh{};
  std::function<void()> body;
  std::function<bool()> ready; // what a blocked fiber waits for
  bool done = false;
 };

 struct Fibers
 {
  std::vector<std::unique_ptr<Fiber>> fibers;
  ucontext_t main_context;
  __cxxabiv1::__cxa_eh_globals main_eh{};
  int current = -1;
  const void *main_stack = nullptr;
  size_t main_size = 0;

  static std::vector<char *> &pool() {static std::vector<char *> p; return p;}
  static Fibers *&the() {static Fibers *s = nullptr; return s;}
  static __cxxabiv1::__cxa_eh_globals &globals() {return *(__cxxabiv1::__cxa_eh_globals *)abi::__cxa_get_globals();}

  static void trampoline()
  {
   Fibers *s = the();
#ifdef __SANITIZE_ADDRESS__
   __sanitizer_finish_switch_fiber(nullptr, &s->main_stack, &s->main_size);
#endif
   Fiber &f = *s->fibers[size_t(s->current)];
   f.body();
   f.done = true;
   s->to_main(f);
  }

  void to_main(Fiber &f)
  {
   f.eh = globals();
   globals() = main_eh;
   current = -1;
#ifdef __SANITIZE_ADDRESS__
   void *fake;
   __sanitizer_start_switch_fiber(&fake, main_stack, main_size);
#endif
   swapcontext(&f.context, &main_context);
#ifdef __SANITIZE_ADDRESS__
   __sanitizer_finish_switch_fiber(fake, &main_stack, &main_size);
#endif
  }

  void add(std::function<void()> body)
  {
   auto f = std::make_unique<Fiber>();
   if (pool().empty()) f->stack = (char *)malloc(Fiber::stack_size);
   else {f->stack = pool().back(); pool().pop_back();}
   f->body = std::move(body);
   getcontext(&f->context);
   f->context.uc_stack.ss_sp = f->stack;
   f->context.uc_stack.ss_size = Fiber::stack_size;
   f->context.uc_link = nullptr;
   makecontext(&f->context, (void(*)())trampoline, 0);
   fibers.push_back(std::move(f));
  }

  bool inside() const {return current >= 0;}
  void yield() {if (inside()) to_main(*fibers[size_t(current)]);}

  void wait(std::function<bool()> ready)
  {
   Fiber &f = *fibers[size_t(current)];
   f.ready = std::move(ready);
   to_main(f);
   f.ready = nullptr;
  }

  bool runnable(int i) {Fiber &f = *fibers[size_t(i)]; return !f.done && (!f.ready || f.ready());}
  bool all_done() const {for (const auto &f: fibers) if (!f->done) return false; return true;}

  void resume(int i)
  {
   the() = this;
   current = i;
   Fiber &f = *fibers[size_t(i)];
   main_eh = globals();
   globals() = f.eh;
#ifdef __SANITIZE_ADDRESS__
   void *fake;
   __sanitizer_start_switch_fiber(&fake, f.stack, Fiber::stack_size);
#endif
   swapcontext(&main_context, &f.context);
#ifdef __SANITIZE_ADDRESS__
   __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
  }

  ~Fibers() {for (auto &f: fibers) pool().push_back(f->stack);}
 };
}

#endif
