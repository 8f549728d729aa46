// Real clients and readers of one shared file, run as fibers over a simulated
// file with range locks.  Every file operation is a scheduling point, and a
// process may be killed there.
//
// usage: shared_log OUT.json SEED COUNT LEVEL
#include "common.h"

#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Exception.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/Multiplexer.h"

#include <ucontext.h>
#include <cxxabi.h>
#include <cstring>
#include <optional>
#include <unordered_set>

using namespace joedb;
using namespace verif;

namespace __cxxabiv1 {struct __cxa_eh_globals {void *caught; unsigned uncaught;};}

//////////////////////////////////////////////////////////////////////////////
// Scheduler
//////////////////////////////////////////////////////////////////////////////
static constexpr size_t stack_size = 256 * 1024;

struct Fiber
{
 ucontext_t context;
 char *stack = nullptr;
 __cxxabiv1::__cxa_eh_globals eh{};
 std::function<void()> body;
 std::function<bool()> ready; // what a blocked fiber waits for
 bool done = false;
};

struct Switch {int64_t step; int to; bool kill;};

struct Scheduler
{
 std::vector<std::unique_ptr<Fiber>> fibers;
 ucontext_t main_context;
 __cxxabiv1::__cxa_eh_globals main_eh{};
 int current = -1;
 int64_t step = 0;
 std::vector<Switch> plan; // sorted by step
 size_t next_plan = 0;
 int random_percent = 0;
 int kill_permille = 0;
 Rng rng{1};
 std::function<void(int)> on_kill;
 std::vector<std::pair<int64_t, int>> switchable; // (step, other runnable fiber)
 bool record = false;
 bool stuck = false;

 static std::vector<char *> &pool() {static std::vector<char *> p; return p;}

 static Scheduler *&the() {static Scheduler *s; return s;}

 static void trampoline()
 {
  Scheduler *s = the();
  Fiber &f = *s->fibers[s->current];
  f.body();
  f.done = true;
  s->to_main(f);
 }

 void to_main(Fiber &f)
 {
  f.eh = *(__cxxabiv1::__cxa_eh_globals *)abi::__cxa_get_globals();
  *(__cxxabiv1::__cxa_eh_globals *)abi::__cxa_get_globals() = main_eh;
  swapcontext(&f.context, &main_context);
 }

 void add(std::function<void()> body)
 {
  auto f = std::make_unique<Fiber>();
  if (pool().empty())
   f->stack = (char *)malloc(stack_size);
  else
  {
   f->stack = pool().back();
   pool().pop_back();
  }
  f->body = std::move(body);
  getcontext(&f->context);
  f->context.uc_stack.ss_sp = f->stack;
  f->context.uc_stack.ss_size = stack_size;
  f->context.uc_link = nullptr;
  makecontext(&f->context, (void(*)())trampoline, 0);
  fibers.push_back(std::move(f));
 }

 void yield()
 {
  Fiber &f = *fibers[current];
  to_main(f);
 }

 void wait(std::function<bool()> ready)
 {
  Fiber &f = *fibers[current];
  f.ready = std::move(ready);
  to_main(f);
  f.ready = nullptr;
 }

 bool runnable(int i)
 {
  Fiber &f = *fibers[i];
  return !f.done && (!f.ready || f.ready());
 }

 void kill(int i)
 {
  fibers[i]->done = true;
  on_kill(i);
 }

 void run()
 {
  the() = this;
  int last = 0;
  while (true)
  {
   std::vector<int> r;
   bool all_done = true;
   for (int i = 0; i < int(fibers.size()); i++)
   {
    if (!fibers[i]->done) all_done = false;
    if (runnable(i)) r.push_back(i);
   }
   if (all_done) break;

   int choice = -1;
   bool kill_now = false;
   if (next_plan < plan.size() && plan[next_plan].step <= step)
   {
    const Switch &s = plan[next_plan++];
    if (s.kill) {kill_now = true; choice = s.to;}
    else if (runnable(s.to)) last = s.to;
   }
   if (kill_now)
   {
    if (!fibers[choice]->done) kill(choice);
    continue;
   }
   if (r.empty()) {stuck = true; break;}
   if (kill_permille && rng.below(1000) < kill_permille)
   {
    kill(r[rng.below(r.size())]);
    continue;
   }
   if (random_percent && rng.chance(random_percent))
    last = r[rng.below(r.size())];
   choice = runnable(last) ? last : r[0];
   if (record)
    for (const int i: r)
     if (i != choice) switchable.push_back({step, i});
   step++;
   last = current = choice;
   Fiber &f = *fibers[choice];
   main_eh = *(__cxxabiv1::__cxa_eh_globals *)abi::__cxa_get_globals();
   *(__cxxabiv1::__cxa_eh_globals *)abi::__cxa_get_globals() = f.eh;
   swapcontext(&main_context, &f.context);
   if (step > 200000) {stuck = true; break;}
  }
  for (auto &f: fibers) pool().push_back(f->stack);
 }
};

//////////////////////////////////////////////////////////////////////////////
// The shared file
//////////////////////////////////////////////////////////////////////////////
struct Lock {int owner; int process; int64_t start, size; bool exclusive;};

struct Shared
{
 std::string data;
 std::vector<Lock> locks;
 int next_owner = 0;
 Scheduler *sched = nullptr;
 std::function<void(int64_t, int64_t, const std::string &)> written;
};

static bool overlap(const Lock &l, int64_t start, int64_t size)
{
 return l.start <= start + (size - 1) && start <= l.start + (l.size - 1);
}

class Sim_File: public Abstract_File
{
 Shared &s;
 const int process;
 const int owner;

 bool blocked(int64_t start, int64_t size, bool exclusive) const
 {
  for (const Lock &l: s.locks)
   if (l.owner != owner && overlap(l, start, size) && (exclusive || l.exclusive))
    return true;
  return false;
 }

 void lock(int64_t start, int64_t size, bool exclusive)
 {
  s.sched->wait([this, start, size, exclusive]() {return !blocked(start, size, exclusive);});
  drop(start, size);
  s.locks.push_back({owner, process, start, size, exclusive});
 }

 void drop(int64_t start, int64_t size)
 {
  // ranges used by joedb are either equal or disjoint
  s.locks.erase(std::remove_if(s.locks.begin(), s.locks.end(), [&](const Lock &l)
  {
   return l.owner == owner && overlap(l, start, size);
  }), s.locks.end());
 }

public:
 Sim_File(Shared &s, int process, Open_Mode mode): Abstract_File(mode), s(s), process(process), owner(s.next_owner++) {}

 int64_t get_size() const override {s.sched->yield(); return int64_t(s.data.size());}

 size_t pread(char *out, size_t size, int64_t offset) const override
 {
  size_t done = 0;
  while (done < size)
  {
   s.sched->yield();
   const size_t at = size_t(offset) + done;
   if (at >= s.data.size()) break;
   // the header is read piece by piece
   const size_t piece = at < 32 ? 8 - at % 8 : size - done;
   const size_t n = std::min(std::min(piece, size - done), s.data.size() - at);
   memcpy(out + done, s.data.data() + at, n);
   done += n;
  }
  return done;
 }

 void pwrite(const char *in, size_t size, int64_t offset) override
 {
  s.sched->yield();
  const std::string before = s.data;
  if (s.data.size() < size_t(offset) + size) s.data.resize(size_t(offset) + size);
  memcpy(&s.data[offset], in, size);
  s.written(offset, offset + int64_t(size), before);
 }

 void sync() override {s.sched->yield();}
 void datasync() override {s.sched->yield();}
 void shared_lock(int64_t start, int64_t size) override {lock(start, size, false);}
 void exclusive_lock(int64_t start, int64_t size) override {lock(start, size, true);}
 void unlock(int64_t start, int64_t size) noexcept override
 {
  s.sched->yield();
  drop(start, size);
 }
 ~Sim_File() override {drop(0, INT64_MAX);}
};

//////////////////////////////////////////////////////////////////////////////
// What is written: a transaction n of process p, made of k parts, each with a
// token "p n i k" followed by padding
//////////////////////////////////////////////////////////////////////////////
struct Recorder: public Dummy_Writable
{
 std::vector<int> tx; // p * 100 + n; -1 if something is wrong
 int p = 0, n = 0, i = 0, k = 0;
 void token(const std::string &s)
 {
  int a = 0, b = 0, c = 0, d = 0, len = 0;
  if (sscanf(s.c_str(), "%d %d %d %d %d ", &a, &b, &c, &d, &len) != 5 || int(s.size()) != len) {tx.push_back(-1); i = k = 0; return;}
  for (size_t z = s.size(); z-- > 30;)
   if (s[z] != char('a' + a)) {tx.push_back(-1); i = k = 0; return;}
  if (c == 0)
  {
   if (i != k) tx.push_back(-1);
   p = a; n = b; k = d; i = 0;
  }
  if (a != p || b != n || d != k || c != i) {tx.push_back(-1); i = k = 0; return;}
  if (++i == k) tx.push_back(p * 100 + n);
 }
 std::vector<int> seen() const
 {
  std::vector<int> r = tx;
  if (i != k) r.push_back(-1);
  return r;
 }
 void comment(const std::string &s) override {token(s);}
 void update_string(Table_Id t, Record_Id r, Field_Id f, std::string_view s) override {token(std::string(s));}
};

static std::string make_token(int p, int n, int i, int k, size_t size)
{
 char b[64];
 int len = snprintf(b, sizeof(b), "%d %d %d %d %d ", p, n, i, k, int(size));
 std::string s = b;
 const size_t want = std::max<size_t>(size, s.size());
 if (want != size)
 {
  snprintf(b, sizeof(b), "%d %d %d %d %d ", p, n, i, k, int(want));
  s = b;
 }
 (void)len;
 s.resize(std::max(want, s.size()), char('a' + p));
 return s;
}

// a client that keeps the recorder up to date, as database clients do
namespace
{
 struct Client_Data
 {
  Writable_Journal data_journal;
  Recorder rec;
  Multiplexer multiplexer;
  Client_Data(Abstract_File &file, Recovery r): data_journal(Journal_Construction_Lock(file, r)), multiplexer{rec, data_journal} {}
 };

 struct Rec_Client: protected Client_Data, public Writable_Client
 {
  void read_journal() override {data_journal.play_until_checkpoint(rec);}
  Rec_Client(Abstract_File &file, Recovery r): Client_Data(file, r), Writable_Client(data_journal) {read_journal();}
  std::vector<int> seen() const {return rec.seen();}
  template<typename F> auto tx(F f) {return Writable_Client::transaction([&]() {return f((Writable &)multiplexer);});}
  Writable &writable() {return multiplexer;}
 };

 struct Rec_Client_Lock: public Client_Lock
 {
  Rec_Client &c;
  Rec_Client_Lock(Rec_Client &c): Client_Lock(c), c(c) {}
  Writable &writable() {return c.writable();}
 };

 struct Skip_Client: public Writable_Journal_Client
 {
  Skip_Client(Abstract_File &file, Recovery r): Writable_Journal_Client(file, Connection::dummy, Content_Check::fast, r) {}
 };

 struct Db_Client: public Writable_Database_Client
 {
  Db_Client(Abstract_File &file, Recovery r): Writable_Database_Client(file, Connection::dummy, Content_Check::fast, Record_Id::null, r) {}
 };
}

static std::vector<int> seen_db(const Readable &db)
{
 Recorder rec;
 const Table_Id t = db.find_table("t");
 if (t == Table_Id(0)) return {};
 const Field_Id f = db.find_field(t, "f");
 for (Record_Id r = Record_Id(0); r < Record_Id(db.get_size(t)); ++r)
  if (db.is_used(t, r))
   rec.token(db.get_string(t, r, f));
 return rec.seen();
}

//////////////////////////////////////////////////////////////////////////////
struct Scenario
//////////////////////////////////////////////////////////////////////////////
{
 char kind = 'J';
 std::vector<std::string> programs;
 std::string initial; // programs of processes that run before, alone
 std::string id() const
 {
  std::string s(1, kind);
  s += ':' + initial;
  for (const auto &p: programs) s += '|' + p;
  return s;
 }
};

struct Body_Failed {};

struct World
{
 Scenario sc;
 Scheduler sched;
 Shared file;
 Trace trace;
 int64_t committed = 41; // end of the committed part
 std::vector<int> last_content;
 bool had_header = false;
 std::string committed_bytes;

 static int64_t effective(const std::string &d)
 {
  if (d.size() < 41) return 0;
  int64_t s[4];
  memcpy(s, d.data(), 32);
  int64_t r = 41;
  for (int i = 0; i < 2; i++)
   if (s[2 * i] == s[2 * i + 1]) r = std::max(r, s[2 * i]);
  for (int i = 0; i < 4; i++)
   if (-s[i] <= int64_t(d.size())) r = std::max(r, -s[i]);
  return r;
 }

 std::vector<int> parse(const std::string &d, int64_t until)
 {
  if (until > int64_t(d.size())) return {-1};
  Memory_File f(Open_Mode::read_existing);
  f.get_data() = d;
  int64_t s[4] = {until, until, until, until};
  memcpy(f.get_data().data(), s, 32);
  Recorder rec;
  try
  {
   Readonly_Journal j(f);
   j.raw_play_until(rec, until);
   if (j.get_position() != until) return {-1};
  }
  catch (const std::exception &) {rec.tx.push_back(-1);}
  return rec.seen();
 }

 void written(int64_t a, int64_t b, const std::string &before)
 {
  const int p = sched.current + 1;
  if (a < 41)
  {
   const bool header = file.data.size() >= 41 && memcmp(file.data.data() + 36, "joedb", 5) == 0;
   if (header && !had_header)
    trace.add("init", {{"p", p}});
   had_header = header;
   const int64_t e = effective(file.data);
   if (e != committed)
   {
    std::vector<int> content = parse(file.data, e);
    if (content != last_content)
     trace.add("cp", {{"p", p}, {"log", content}});
    else if (e < committed)
     trace.add("cp", {{"p", p}, {"log", std::vector<int>{-2}}});
    last_content = content;
    committed = e;
    committed_bytes = file.data.substr(0, size_t(e));
   }
  }
  // bytes of the committed part never change
  const int64_t lo = std::max<int64_t>(a, 41), hi = std::min(b, committed);
  for (int64_t i = lo; i < hi && i < int64_t(before.size()); i++)
   if (before[i] != file.data[i])
   {
    trace.add("damage", {{"p", p}, {"at", i}});
    break;
   }
 }

 //////////////////////////////////////////////////////////////////////////
 void body_write(Writable &w, int p, int n, bool big, const Readable *db, Record_Id base)
 {
  const int k = 2;
  for (int i = 0; i < k; i++)
  {
   const std::string t = make_token(p, n, i, k, big ? 3000 + 40 * p : 30 + 7 * p + 3 * n);
   if (sc.kind != 'D')
    w.comment(t);
   else
   {
    if (i == 0 && db->find_table("t") == Table_Id(0))
    {
     w.create_table("t");
     w.add_field(Table_Id(1), "f", Type::string());
    }
    Record_Id r = Record_Id(db->get_size(Table_Id(1)));
    w.insert_into(Table_Id(1), r);
    w.update_string(Table_Id(1), r, Field_Id(1), t);
   }
  }
 }

 template<typename C> void writer(int p, const std::string &prog)
 {
  std::unique_ptr<Sim_File> f;
  std::unique_ptr<C> c;
  int n = 0;
  const auto seen = [&]()
  {
   if constexpr (std::is_same<C, Rec_Client>::value) return c->seen();
   else if constexpr (std::is_same<C, Skip_Client>::value) return parse(file.data, c->get_journal_checkpoint());
   else return seen_db(c->get_database());
  };
  // runs F(Writable &, const Readable *) as the body of a transaction
  const auto run_tx = [&](auto F)
  {
   if constexpr (std::is_same<C, Rec_Client>::value)
    c->tx([&](Writable &w) {F(w, (const Readable *)nullptr);});
   else if constexpr (std::is_same<C, Skip_Client>::value)
    c->transaction([&](Writable_Journal &w) {F(w, (const Readable *)nullptr);});
   else
    c->transaction([&](const Readable &r, Writable &w) {F(w, &r);});
  };
  for (const char o: prog) switch (o)
  {
   case 'O': case 'V':
   {
    if (c) trace.add("close", {{"p", p}});
    c.reset();
    f.reset();
    trace.add("open1", {{"p", p}, {"k", "w"}});
    f.reset(new Sim_File(file, p, Open_Mode::shared_write));
    try
    {
     c.reset(new C(*f, o == 'V' ? Recovery::overwrite : Recovery::none));
     trace.add("open2", {{"p", p}, {"ok", true}, {"seen", seen()}});
    }
    catch (const Exception &e)
    {
     f.reset();
     trace.add("open2", {{"p", p}, {"ok", false}, {"seen", std::vector<int>{}}, {"what", e.what()}});
    }
   }
   break;

   case 't': case 'T': case 'x': case 'X': case 'h': case 'v':
   if (c)
   {
    n++;
    const bool big = o == 'T' || o == 'X';
    const bool fail = o == 'x' || o == 'X';
    c->set_hard_checkpoint(o == 'h');
    c->set_valid_data(o == 'v');
    c->set_timestamp(o == 'v');
    trace.add("tx1", {{"p", p}});
    bool started = false;
    try
    {
     run_tx([&](Writable &w, const Readable *r)
     {
      started = true;
      trace.add("body", {{"p", p}, {"seen", seen()}});
      body_write(w, p, n, big, r, Record_Id(0));
      trace.add("bend", {{"p", p}});
      if (fail) throw Body_Failed();
     });
     trace.add("tx2", {{"p", p}, {"k", "ok"}, {"n", 1}});
    }
    catch (const Body_Failed &)
    {
     trace.add("tx2", {{"p", p}, {"k", "abort"}, {"n", 0}});
    }
    catch (const Exception &e)
    {
     if (!started) n--;
     trace.add("tx2", {{"p", p}, {"k", started ? "error" : "refused"}, {"n", 0}, {"what", e.what()}});
    }
   }
   break;

   case 'm': case 'c': case 'd': case 'l':
   if (c)
   {
    // with a lock object: two checkpoints (m), one (l), cancelled explicitly (c) or not (d)
    trace.add("tx1", {{"p", p}});
    bool started = false;
    c->set_hard_checkpoint(false);
    try
    {
     typedef typename std::conditional<std::is_same<C, Rec_Client>::value, Rec_Client_Lock,
      typename std::conditional<std::is_same<C, Skip_Client>::value, Writable_Journal_Client_Lock, Writable_Database_Client_Lock>::type>::type L;
     L lock(*c);
     started = true;
     trace.add("body", {{"p", p}, {"seen", seen()}});
     const auto w = [&]() -> Writable & {if constexpr (std::is_same<C, Rec_Client>::value) return lock.writable(); else if constexpr (std::is_same<C, Skip_Client>::value) return lock.get_journal(); else return lock.get_writable();};
     const auto r = [&]() -> const Readable * {if constexpr (!std::is_same<C, Db_Client>::value) return nullptr; else return &lock.get_readable();};
     if (o == 'm')
     {
      body_write(w(), p, ++n, false, r(), Record_Id(0));
      lock.checkpoint_and_push();
     }
     body_write(w(), p, ++n, false, r(), Record_Id(0));
     trace.add("bend", {{"p", p}});
     if (o == 'm' || o == 'l')
      lock.checkpoint_and_push_unlock();
     else if (o == 'c')
      lock.unlock();
    }
    catch (const Exception &e)
    {
     trace.add("tx2", {{"p", p}, {"k", started ? "error" : "refused"}, {"n", 0}, {"what", e.what()}});
     break;
    }
    trace.add("tx2", {{"p", p}, {"k", o == 'm' || o == 'l' ? "ok" : "abort"}, {"n", o == 'm' ? 2 : o == 'l' ? 1 : 0}});
   }
   break;

   case 'p':
   if (c)
   {
    trace.add("pull1", {{"p", p}});
    try
    {
     c->pull();
     trace.add("pull2", {{"p", p}, {"ok", true}, {"seen", seen()}});
    }
    catch (const Exception &e)
    {
     trace.add("pull2", {{"p", p}, {"ok", false}, {"seen", std::vector<int>{}}});
    }
   }
   break;

   case 'u':
    if (c) c->touch();
   break;

   case 'q':
   if (c)
   {
    c.reset();
    f.reset();
    trace.add("close", {{"p", p}});
   }
   break;
  }
  if (c)
  {
   c.reset();
   f.reset();
   trace.add("close", {{"p", p}});
  }
 }

 struct Recording_Client: public Readonly_Client
 {
  Recorder rec;
  Recording_Client(Abstract_File &f): Readonly_Client(f) {play();}
  void play() {play_until_checkpoint(rec);}
 };

 struct Recording_Db: public Readonly_Client
 {
  Database db;
  Recording_Db(Abstract_File &f): Readonly_Client(f) {play();}
  void play() {play_until_checkpoint(db);}
 };

 template<typename C> void reader(int p, const std::string &prog)
 {
  std::unique_ptr<Sim_File> f;
  std::unique_ptr<C> c;
  const auto seen = [&]()
  {
   if constexpr (std::is_same<C, Recording_Client>::value) return c->rec.seen();
   else return seen_db(c->db);
  };
  for (const char o: prog) switch (o)
  {
   case 'R':
    if (c) trace.add("close", {{"p", p}});
    c.reset();
    f.reset();
    trace.add("open1", {{"p", p}, {"k", "r"}});
    f.reset(new Sim_File(file, p, Open_Mode::read_existing));
    try
    {
     c.reset(new C(*f));
     trace.add("open2", {{"p", p}, {"ok", true}, {"seen", seen()}});
    }
    catch (const Exception &e)
    {
     f.reset();
     trace.add("open2", {{"p", p}, {"ok", false}, {"seen", std::vector<int>{}}, {"what", e.what()}});
    }
   break;
   case 'p':
    if (c)
    {
     trace.add("pull1", {{"p", p}});
     try
     {
      c->pull();
      c->play();
      trace.add("pull2", {{"p", p}, {"ok", true}, {"seen", seen()}});
     }
     catch (const Exception &e)
     {
      trace.add("pull2", {{"p", p}, {"ok", false}, {"seen", std::vector<int>{}}});
     }
    }
   break;
   case 'q':
    if (c)
    {
     c.reset();
     f.reset();
     trace.add("close", {{"p", p}});
    }
   break;
  }
  if (c)
  {
   c.reset();
   f.reset();
   trace.add("close", {{"p", p}});
  }
 }

 void process(int p, const std::string &prog)
 {
  try
  {
   if (prog[0] == 'R')
   {
    if (sc.kind != 'D') reader<Recording_Client>(p, prog); else reader<Recording_Db>(p, prog);
   }
   else
   {
    if (sc.kind == 'J') writer<Rec_Client>(p, prog);
    else if (sc.kind == 'S') writer<Skip_Client>(p, prog); else writer<Db_Client>(p, prog);
   }
  }
  catch (const std::exception &e)
  {
   trace.add("exception", {{"p", p}, {"what", e.what()}});
  }
 }

 void final()
 {
  // a last reader sees everything
  if (file.data.empty()) return;
  trace.add("open1", {{"p", 9}, {"k", "r"}});
  try
  {
   Memory_File f(Open_Mode::read_existing);
   f.get_data() = file.data;
   Readonly_Journal j(f);
   Recorder rec;
   j.replay_log(rec);
   trace.add("open2", {{"p", 9}, {"ok", true}, {"seen", rec.seen()}});
  }
  catch (const std::exception &e)
  {
   trace.add("open2", {{"p", 9}, {"ok", false}, {"seen", std::vector<int>{}}, {"what", e.what()}});
  }
 }

 void run()
 {
  file.sched = &sched;
  file.written = [this](int64_t a, int64_t b, const std::string &before) {written(a, b, before);};
  sched.on_kill = [this](int i)
  {
   file.locks.erase(std::remove_if(file.locks.begin(), file.locks.end(), [&](const Lock &l) {return l.process == i + 1;}), file.locks.end());
   trace.add("kill", {{"p", i + 1}});
  };
  if (!sc.initial.empty())
  {
   // alone, before the others; process 8
   Scheduler first;
   file.sched = &first;
   first.on_kill = sched.on_kill;
   sched.current = 7;
   first.add([this]() {process(8, sc.initial);});
   first.run();
   file.sched = &sched;
  }
  for (int i = 0; i < int(sc.programs.size()); i++)
   sched.add([this, i]() {process(i + 1, sc.programs[i]);});
  sched.run();
  if (sched.stuck)
   trace.add("stuck", {{"p", sched.current + 1}});
  else
   final();
 }
};

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 const uint64_t seed = strtoull(argv[2], nullptr, 10);
 const int64_t count = atoll(argv[3]);
 const int level = atoi(argv[4]);
 Destructor_Logger::set_logger(nullptr);
 Trace_Writer out(argv[1]);
 Rng rng(seed);
 int64_t evaluations = 0, steps = 0;
 std::unordered_set<std::string> known;

 const auto go = [&](const Scenario &sc, const std::vector<Switch> &plan, int random, int kill, bool record)
 {
  World w;
  w.sc = sc;
  w.sched.plan = plan;
  w.sched.random_percent = random;
  w.sched.kill_permille = kill;
  w.sched.record = record;
  w.sched.rng = Rng(seed * 7919 + evaluations);
  evaluations++;
  w.run();
  steps += w.sched.step;
  w.trace.id = sc.id();
  for (const auto &s: plan)
   w.trace.id += (s.kill ? " k" : " ") + std::to_string(s.step) + ">" + std::to_string(s.to + 1);
  if (random) w.trace.id += " random " + std::to_string(evaluations);
  if (known.insert(w.trace.text).second)
   out.write(w.trace);
  return std::move(w.sched.switchable);
 };

 // small scenarios: one preemption everywhere, two or three by sampling
 static const std::vector<Scenario> small =
 {
  {'J', {"O", "O"}, ""},
  {'J', {"Ot", "Ot"}, ""},
  {'J', {"Ott", "Rpp"}, "Ot"},
  {'J', {"Oth", "Rp"}, "Oht"},
  {'J', {"Ohhs", "Rpp"}, "Oth"},
  {'J', {"Ot", "Oxt", "R"}, "Ot"},
  {'J', {"Oc", "Ot"}, "Ot"},
  {'J', {"Od", "Ott"}, "Ot"},
  {'J', {"Oxqp", "OTp"}, "Ot"},
  {'J', {"OXq", "Ott"}, "Ot"},
  {'J', {"Om", "Ot", "Rp"}, "Ot"},
  {'J', {"Vt", "Ot"}, "Ot"},
  {'J', {"Vt", "Ot"}, "OtX"},
  {'J', {"OT", "OT"}, ""},
  {'J', {"Otp", "Opt"}, "Ot"},
  {'J', {"Ouv", "Rp", "Oh"}, "Ot"},
  {'J', {"R", "O"}, ""},
  {'J', {"RqR", "Ot"}, ""},
  {'D', {"Ot", "Ot"}, ""},
  {'D', {"Ott", "Rp"}, "Ot"},
  {'D', {"Oxt", "Otl"}, "Ot"},
  {'D', {"Om", "OT", "Rp"}, "Ot"},
  {'J', {"Oxt", "VTt"}, "Ot"},
  {'J', {"Octp", "VTt"}, "Ot"},
  {'D', {"Oxt", "VTt"}, "Ot"},
  {'S', {"Oxt", "VTt"}, "Ot"},
  {'S', {"OXp", "VTt"}, "Ot"},
  {'S', {"Ott", "Otm", "Rp"}, "Ot"},
  {'S', {"Oxqp", "OTp"}, "Ot"},
  {'J', {"OXqVt", "Rp"}, "Ot"},
  {'J', {"Rpp", "VtT"}, "OtX"},
  {'J', {"OtTp", "Otpt"}, "Ot"},
 };

 for (const auto &sc: small)
 {
  const auto points = go(sc, {}, 0, 0, true);
  const int64_t n = points.size();
  // every single preemption; and it with a kill
  for (const auto &p: points)
   go(sc, {{p.first, p.second, false}}, 0, 0, false);
  int64_t last = 0;
  for (const auto &p: points) last = std::max(last, p.first);
  for (int64_t s = 0; s <= last + 4; s++)
   if (level > 1 || (s + seed) % 2 == 0)
    for (int i = 0; i < int(sc.programs.size()); i++)
     if (sc.programs[i][0] != 'R')
      go(sc, {{s, i, true}}, 0, 0, false);
  for (int64_t k = 0; k < count; k++)
  {
   std::vector<Switch> plan;
   const int m = 2 + rng.below(3);
   for (int i = 0; i < m; i++)
   {
    const auto &p = points[rng.below(n)];
    plan.push_back({p.first + rng.below(3), int(rng.below(sc.programs.size())), rng.chance(8)});
   }
   std::sort(plan.begin(), plan.end(), [](const Switch &a, const Switch &b) {return a.step < b.step;});
   go(sc, plan, 0, 0, false);
  }
 }

 // random programs, random schedules
 for (int64_t k = 0; k < count * 8; k++)
 {
  Scenario sc;
  sc.kind = "JJSSD"[rng.below(5)];
  if (rng.chance(70)) sc.initial = rng.chance(30) ? "OtT" : rng.chance(50) ? "OthX" : "Ot";
  const int np = 2 + rng.below(3);
  for (int i = 0; i < np; i++)
  {
   std::string s;
   if (rng.chance(35))
   {
    s = "R";
    const int n = 1 + rng.below(3);
    for (int j = 0; j < n; j++) s += "ppqR"[rng.below(rng.chance(20) ? 4 : 2)];
   }
   else
   {
    s = rng.chance(20) ? "V" : "O";
    const int n = 1 + rng.below(4);
    for (int j = 0; j < n; j++)
    {
     const char c = "tttTxXmcdlphvuqO"[rng.below(16)];
     s += c;
     if (c == 'q') s += 'O';
    }
   }
   sc.programs.push_back(s);
  }
  go(sc, {}, 10 + rng.below(60), rng.chance(35) ? 2 + rng.below(8) : 0, false);
 }

 out.close();
 printf("{\"evaluations\":%lld,\"traces\":%zu,\"events\":%zu,\"steps\":%lld}\n", (long long)evaluations, out.traces, out.events, (long long)steps);
 return 0;
}
