// Real clients, over channels that break, with the real server, in virtual time.
// usage: replica OUT SEED COUNT LEVEL
#define verif_server_sim_implementation
#include "server_sim.h"
#include "fibers.h"

#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Destructor_Logger.h"

#include <unordered_set>

using namespace verif;
using namespace joedb;

static const int64_t H = 41; // size of the header

struct Data
{
 std::string d;
 bool tail_locked = false;
};

static Fibers *fibers = nullptr;

struct View: public Abstract_File
{
 Data &data;
 View(Data &data, Open_Mode mode): Abstract_File(mode), data(data) {}
 int64_t get_size() const override {return int64_t(data.d.size());}
 size_t pread(char *out, size_t size, int64_t offset) const override
 {
  if (size_t(offset) >= data.d.size()) return 0;
  size = std::min(size, data.d.size() - size_t(offset));
  memcpy(out, data.d.data() + offset, size);
  return size;
 }
 void pwrite(const char *in, size_t size, int64_t offset) override
 {
  if (data.d.size() < size_t(offset) + size) data.d.resize(size_t(offset) + size);
  memcpy(&data.d[offset], in, size);
 }
 void exclusive_lock(int64_t start, int64_t size) override
 {
  if (start <= 0) return;
  if (std::this_thread::get_id() == sim.main_thread)
  {
   if (fibers && fibers->inside()) fibers->wait([this]{return !data.tail_locked;});
  }
  else
   while (data.tail_locked && sim.controlled)
   {
    sim.idle = true;
    sim.to_main.release();
    sim.to_server.acquire();
   }
  data.tail_locked = true;
 }
 void unlock(int64_t start, int64_t size) noexcept override {if (start > 0) data.tail_locked = false;}
};

static std::string block(int id, int64_t L)
{
 Memory_File f;
 {
  Writable_Journal j(f);
  std::string s(size_t(L), 'x');
  for (int64_t i = 0; i < L; i++) s[size_t(i)] = i == 0 ? char('0' + id % 64) : i == 1 ? char('0' + id / 64) : char('a' + (id * 7 + i) % 26);
  j.comment(s);
  j.soft_checkpoint();
 }
 std::string r(size_t(f.get_size() - H), 0);
 f.pread(&r[0], r.size(), H);
 return r;
}

static int64_t effective(const std::string &d)
{
 if (d.size() < size_t(H)) return 0;
 int64_t s[4];
 memcpy(s, d.data(), 32);
 int64_t r = H;
 for (int i = 0; i < 2; i++)
  if (s[2 * i] == s[2 * i + 1]) r = std::max(r, s[2 * i]);
 for (int i = 0; i < 4; i++)
  if (-s[i] <= int64_t(d.size())) r = std::max(r, -s[i]);
 return r;
}

typedef std::vector<int> Ids;
static const int max_clients = 3;

struct World;

struct Sim_Channel: public Channel
{
 World &w;
 const int c;
 int fd;
 int64_t budget; // bytes until the connection breaks

 Sim_Channel(World &w, int c, int64_t budget);
 ~Sim_Channel() override;
 void cut();
 void spend(int64_t n);
 size_t write_some(const char *data, size_t size) override;
 size_t read_some(char *data, size_t size) override;
};

struct Sim_Connector: public Connector
{
 World &w;
 const int c;
 Sim_Connector(World &w, int c): w(w), c(c) {}
 std::unique_ptr<Channel> new_channel() const override;
};

struct User_Error {};

// the objects of a client that is open
struct Opened
{
 std::unique_ptr<Channel> channel;
 std::unique_ptr<View> view;
 std::unique_ptr<Server_File> server_file;
 std::unique_ptr<Connection> connection;
 Server_Connection *raw = nullptr;
 Robust_Connection *robust = nullptr;
 std::unique_ptr<Writable_Journal_Client> j;
 std::unique_ptr<Writable_Database_Client> d;
 std::unique_ptr<Readonly_Client> b;
 Client &client() {return j ? (Client &)*j : d ? (Client &)*d : (Client &)*b;}
 ~Opened() {j.reset(); d.reset(); b.reset(); connection.reset(); server_file.reset(); channel.reset();}
};

struct Person
{
 char kind = 'S'; // S server, R robust, V server file, L file, P pull-only file, B read-only client
 bool db = false;
 std::string prog;
 Data data;
 Ids seen; // the file as it was last observed
 std::unique_ptr<Opened> o;
 Opened *half = nullptr; // being opened
 bool connected = false;
 Sim_Channel *channel = nullptr;
 std::vector<int64_t> budgets; // of the next channels
 int differ = -1, extra = 0; // the initial file: index of a block that differs from the server, blocks more (or less)
 int64_t vbase = 0; // what a server file contains
 Ids vown;
};

struct World
{
 Rng rng;
 Trace trace;
 int64_t L = 0, U = 0, T = 0;
 bool writable = true, shared = false, direct = false;
 Data data;
 std::vector<int> hist;
 Person p[max_clients + 1];
 int clients = 1;
 int next_id = 1;
 std::map<int, std::string> content;
 std::string path;
 bool faults = true; // false during the final phase
 int restarts = 0;
 int chunk = 0;

 std::unique_ptr<View> view;
 std::unique_ptr<Client> server_client;
 std::unique_ptr<Sim_Server<joedb::Server>> server;
 std::unique_ptr<Writable_Journal> direct_journal;

 explicit World(uint64_t seed): rng(seed) {}

 int new_id() {const int id = next_id++; content[id] = block(id, L); return id;}
 int64_t units(int64_t position) const {return position < H || (position - H) % U ? -1 : (position - H) / U;}

 Ids ids(std::string_view d) const
 {
  Ids r;
  for (size_t i = 0; i < d.size(); i += size_t(U))
  {
   int id = -1;
   for (const auto &x: content) if (d.substr(i, size_t(U)) == x.second) id = x.first;
   r.push_back(id);
  }
  return r;
 }

 Ids ids(const Data &x) const {return ids(std::string_view(x.d).substr(std::min(x.d.size(), size_t(H)), size_t(std::max<int64_t>(0, effective(x.d) - H))));}

 void observe_client(int c)
 {
  Person &x = p[c];
  Ids f;
  if (x.kind == 'V')
  {
   if (!x.o && !x.half) return;
   f.assign(hist.begin(), hist.begin() + std::min<int64_t>(x.vbase, int64_t(hist.size())));
   f.insert(f.end(), x.vown.begin(), x.vown.end());
  }
  else f = ids(x.data);
  if (f != x.seen)
  {
   x.seen = f;
   trace.add("file", {{"c", c}, {"f", f}});
  }
 }

 void observe()
 {
  const Ids h = ids(data);
  if (h != hist)
  {
   hist = h;
   trace.add("hist", {{"hist", hist}});
  }
 }

 //////////////////////////////////////////////////////////////////////////
 void fault(int c)
 {
  if (p[c].connected)
  {
   p[c].connected = false;
   trace.add("fault", {{"c", c}});
  }
 }

 void start_server()
 {
  view.reset(new View(data, !writable ? Open_Mode::read_existing : shared ? Open_Mode::shared_write : Open_Mode::write_existing));
  if (writable) server_client.reset(new Writable_Journal_Client(*view, Connection::dummy, Content_Check::fast, Recovery::overwrite));
  else server_client.reset(new Readonly_Client(*view));
  server.reset(new Sim_Server<joedb::Server>());
  server->start(Logger::dummy_logger, 0, 1, path, *server_client, std::chrono::milliseconds(T));
 }

 void stop_server()
 {
  if (!server) return;
  server->stop();
  server.reset();
  server_client.reset();
  view.reset();
  observe();
  for (int c = 1; c <= clients; c++) fault(c);
 }

 //////////////////////////////////////////////////////////////////////////
 void open(int c)
 {
  Person &x = p[c];
  Content_Check check = rng.chance(50) ? Content_Check::full : Content_Check::fast;
  const bool prefix = x.seen.size() <= hist.size() && std::equal(x.seen.begin(), x.seen.end(), hist.begin());
  if (!prefix && U * int64_t(x.seen.size()) > 4000) check = Content_Check::full; // the fast check may miss a difference
  else if (prefix && rng.chance(15)) check = Content_Check::none;
  auto o = std::make_unique<Opened>();
  x.half = o.get();
  struct Reset {Person &x; ~Reset() {x.half = nullptr;}} reset{x};
  try
  {
   Sim_Connector *connector = connectors[c].get();
   if (x.kind == 'V')
   {
    o->server_file.reset(new Server_File(*connector));
    o->robust = o->server_file.get();
    x.vown.clear();
    x.vbase = units(o->server_file->get_size());
    if (x.db) o->d.reset(new Writable_Database_Client(*o->server_file, *o->server_file, check));
    else o->j.reset(new Writable_Journal_Client(*o->server_file, *o->server_file, check));
   }
   else
   {
    if (x.kind == 'S' || x.kind == 'B')
    {
     o->channel = connector->new_channel();
     o->raw = new Server_Connection(*o->channel);
     o->connection.reset(o->raw);
    }
    else if (x.kind == 'R')
    {
     o->robust = new Robust_Connection(*connector, Logger::dummy_logger);
     o->connection.reset(o->robust);
    }
    else if (x.kind == 'L') o->connection.reset(new Journal_Connection(*direct_journal));
    else o->connection.reset(new Pullonly_Journal_Connection(*direct_journal));
    if (x.kind == 'B')
    {
     o->view.reset(new View(x.data, Open_Mode::read_existing));
     o->b.reset(new Readonly_Client(*o->view, *o->connection, check));
    }
    else
    {
     o->view.reset(new View(x.data, Open_Mode::write_existing));
     if (x.db) o->d.reset(new Writable_Database_Client(*o->view, *o->connection, check, Record_Id(1000), Recovery::overwrite));
     else o->j.reset(new Writable_Journal_Client(*o->view, *o->connection, check, Recovery::overwrite));
    }
   }
   x.o = std::move(o);
  }
  catch (...)
  {
   disconnected(c);
   throw;
  }
 }

 void disconnected(int c) {}

 void close(int c)
 {
  Person &x = p[c];
  x.o.reset();
  x.connected = false;
 }

 // bytes read at some position, as the identifiers of the records they belong to
 void emit_read(int c, const char *at, int64_t offset, int64_t size, std::string_view bytes, const Ids &expected)
 {
  Ids r;
  for (size_t i = 0; i < bytes.size();)
  {
   const int64_t position = offset + int64_t(i);
   const size_t k = size_t(position / U), in = size_t(position % U);
   const size_t n = std::min(size_t(U) - in, bytes.size() - i);
   int id = -1;
   for (const auto &y: content) if (bytes.substr(i, n) == std::string_view(y.second).substr(in, n)) id = y.first;
   if (k < expected.size() && bytes.substr(i, n) == std::string_view(content[expected[k]]).substr(in, n)) id = expected[k];
   r.push_back(id);
   i += n;
  }
  trace.add("read", {{"c", c}, {"at", at}, {"o", offset}, {"size", size}, {"n", int64_t(bytes.size())}, {"ids", r}});
 }

 void read(int c)
 {
  Person &x = p[c];
  // the server of a shared file does not know everything
  const int64_t total = (shared ? units(x.o->client().get_connection_checkpoint()) : int64_t(hist.size())) * U;
  const int64_t o = rng.below(total + 1);
  const int64_t size = 1 + rng.below(rng.chance(50) ? U : total + U);
  std::string b(size_t(size), 0);
  if (x.o->server_file)
  {
   const int64_t end = int64_t(x.vbase + int64_t(x.vown.size())) * U;
   const int64_t at = rng.below(end + 1);
   const size_t n = x.o->server_file->pread(&b[0], size_t(size), H + at);
   Ids f(hist.begin(), hist.begin() + std::min<int64_t>(x.vbase, int64_t(hist.size())));
   f.insert(f.end(), x.vown.begin(), x.vown.end());
   emit_read(c, "file", at, size, std::string_view(b).substr(0, n), f);
  }
  else if (x.o->raw || x.o->robust)
  {
   const size_t n = x.o->raw ? x.o->raw->pread(&b[0], size_t(size), H + o) : x.o->robust->pread(&b[0], size_t(size), H + o);
   emit_read(c, "conn", o, size, std::string_view(b).substr(0, n), hist);
  }
 }

 Ids issue(int c)
 {
  Ids r;
  for (int64_t n = 1 + (rng.chance(25) ? 1 : 0); n > 0; n--) r.push_back(new_id());
  observe_client(c);
  trace.add("issue", {{"c", c}, {"ids", r}});
  return r;
 }

 void write(Writable &j, const Ids &r) {for (const int id: r) j.comment(comment(id));}

 std::string comment(int id) const
 {
  const std::string &s = content.at(id);
  return s.substr(s.size() - size_t(L));
 }

 void pause(int c)
 {
  if (!direct) for (int64_t n = rng.below(4); n > 0; n--) fibers->yield();
 }

 template<typename C, typename W> void transaction(int c, C &client, bool fail, W)
 {
  Person &x = p[c];
  client.transaction([&](auto &&...args)
  {
   x.vown.clear();
   x.vbase = units(x.o->client().get_journal_checkpoint());
   pause(c);
   if (x.kind == 'V' && rng.chance(30)) read(c);
   auto &writable = std::get<sizeof...(args) - 1>(std::tie(args...));
   const Ids r = issue(c);
   write(writable, r);
   pause(c);
   if (fail) throw User_Error();
   if (x.kind == 'V') x.vown = r;
  });
 }

 template<typename Lock, typename C> void locked(int c, C &client, std::string script)
 {
  Person &x = p[c];
  Lock lock(client);
  Writable *w;
  if constexpr (std::is_same_v<Lock, Writable_Journal_Client_Lock>) w = &lock.get_journal();
  else w = &lock.get_writable();
  x.vown.clear();
  x.vbase = units(x.o->client().get_journal_checkpoint());
  const auto pushed = [&](bool still)
  {
   if (x.kind == 'V') {x.vbase += int64_t(x.vown.size()); x.vown.clear();}
   observe_client(c);
   observe();
   trace.add("pushed", {{"c", c}});
  };
  bool dirty = false;
  for (const char a: script)
  {
   pause(c);
   if (a == 'w')
   {
    const Ids r = issue(c);
    write(*w, r);
    lock.do_checkpoint();
    if (x.kind == 'V') {x.vown.insert(x.vown.end(), r.begin(), r.end()); observe_client(c); if (rng.chance(70)) read(c);}
    else observe_client(c);
    dirty = true;
   }
   else if (a == 'p')
   {
    if (rng.chance(50)) lock.push_if_ahead();
    else lock.checkpoint_and_push();
    dirty = false;
    pushed(true);
   }
   else if (a == 'u') {lock.unlock(); return;}
  }
  lock.checkpoint_and_push_unlock();
  pushed(false);
 }

 // one call of a client; what it throws is the result
 void perform(int c, char op)
 {
  Person &x = p[c];
  trace.add("call", {{"c", c}, {"op", std::string(1, op)}});
  const char *result = "ok";
  int64_t n = 0;
  bool broken = false;
  try
  {
   switch (op)
   {
    case 'o': open(c); break;
    case 't': case 'e':
     if (x.o->j) transaction(c, *x.o->j, op == 'e', 0);
     else transaction(c, *x.o->d, op == 'e', 0);
     if (x.kind == 'V') {x.vbase += int64_t(x.vown.size()); x.vown.clear();}
     break;
    case 'l': case 'm': case 'k':
    {
     const std::string script = op == 'l' ? (rng.chance(50) ? "wpw" : "wwpw") : op == 'm' ? "wpu" : "wu";
     if (x.o->j) locked<Writable_Journal_Client_Lock>(c, *x.o->j, script);
     else locked<Writable_Database_Client_Lock>(c, *x.o->d, script);
     break;
    }
    case 'p': n = x.o->client().pull(); break;
    case 'w': n = x.o->client().pull(std::chrono::milliseconds(50)); break;
    case 'u':
     if (x.kind == 'B') x.o->client().push_if_ahead(INT64_MAX); // as joedb_push does
     else x.o->client().push_if_ahead();
     break;
    case 'r': read(c); break;
   }
  }
  catch (const User_Error &) {result = "user"; broken = true;}
  catch (const Content_Mismatch &) {result = "mismatch"; broken = true;}
  catch (const std::exception &e)
  {
   result = "err";
   broken = true;
   if (getenv("VERBOSE")) fprintf(stderr, "%d %c: %s\n", c, op, e.what());
  }
  if (op == 'k' && x.kind == 'V') broken = true; // what was not pushed is lost
  if (x.kind == 'V' && x.o && !broken) x.vbase = units(x.o->client().get_journal_checkpoint());
  observe_client(c);
  observe();
  trace.add("ret", {{"c", c}, {"r", result}, {"n", n / U * U == n ? n / U : int64_t(-1)},
   {"cc", x.o ? units(x.o->client().get_connection_checkpoint()) : int64_t(0)}});
  if (broken) close(c);
 }

 // a transaction without connection
 void offline(int c)
 {
  Person &x = p[c];
  trace.add("call", {{"c", c}, {"op", "f"}});
  {
   View v(x.data, Open_Mode::write_existing);
   Writable_Journal_Client client(v, Connection::dummy, Content_Check::fast, Recovery::overwrite);
   client.transaction([&](Writable_Journal &j)
   {
    const Ids r = issue(c);
    write(j, r);
   });
  }
  observe_client(c);
  trace.add("ret", {{"c", c}, {"r", "ok"}, {"n", 0}, {"cc", 0}});
 }

 // another process appends to the file of a read-only client
 void append(int c)
 {
  Person &x = p[c];
  View v(x.data, Open_Mode::shared_write);
  Writable_Journal_Client client(v, Connection::dummy, Content_Check::fast, Recovery::overwrite);
  client.transaction([&](Writable_Journal &j)
  {
   const Ids r{new_id()};
   trace.add("append", {{"c", c}, {"ids", r}});
   write(j, r);
  });
  observe_client(c);
 }

 // another process appends to the file of the server
 void local()
 {
  if (data.tail_locked) return;
  View v(data, Open_Mode::shared_write);
  Writable_Journal_Client client(v, Connection::dummy, Content_Check::fast, Recovery::overwrite);
  client.transaction([&](Writable_Journal &j)
  {
   const Ids r{new_id()};
   trace.add("local", {{"ids", r}});
   write(j, r);
  });
  observe();
 }

 void live(int c)
 {
  Person &x = p[c];
  for (const char op: x.prog)
  {
   pause(c);
   if (op == 'f') {if (!x.o && x.kind != 'V') offline(c);}
   else if (op == 'a') {if (x.kind == 'B') append(c);}
   else if (op == 'x') {if (x.o) {trace.add("close", {{"c", c}}); close(c);}}
   else if (op == 'o') {if (!x.o) perform(c, 'o');}
   else if (!x.o) continue;
   else if (x.kind == 'B' && op != 'p' && op != 'u') continue;
   else perform(c, op);
  }
  if (x.o) {trace.add("close", {{"c", c}}); close(c);}
 }

 //////////////////////////////////////////////////////////////////////////
 // runs the fibers and the server until all is done
 void schedule()
 {
  int64_t down = 0;
  int64_t steps = 0;
  bool active = true;
  while (!fibers->all_done())
  {
   if (++steps > 300000) {trace.add("endless"); return;}
   std::vector<int> run;
   for (size_t i = 0; i < fibers->fibers.size(); i++) if (fibers->runnable(int(i))) run.push_back(int(i));
   if (!direct)
   {
    if (!server)
    {
     if (++down > 10 && (run.empty() || rng.chance(10) || down > 400)) {start_server(); trace.add("up"); down = 0; active = true; continue;}
    }
    else if (faults && restarts > 0 && rng.chance(2))
    {
     restarts--;
     stop_server();
     trace.add("down");
     continue;
    }
    if (shared && faults && rng.chance(3)) local();
   }
   if (server && (run.empty() || rng.chance(40)))
   {
    if (run.empty() && !active)
    {
     bool progress = false;
     if (sim.timer_deadline != INT64_MAX && sim.timer_deadline - sim.now_ns < int64_t(290) * 1000000000)
     {
      sim.advance((sim.timer_deadline - sim.now_ns) / 1000000 + 1);
      progress = true;
     }
     if (!progress) {trace.add("stuck"); return;}
    }
    active = sim.step();
    observe();
    continue;
   }
   if (run.empty()) {if (!server && !direct) continue; trace.add("stuck"); return;}
   const int i = run[size_t(rng.below(int64_t(run.size())))];
   active = true;
   fibers->resume(i);
   for (int c = 1; c <= clients; c++) observe_client(c);
   observe();
  }
 }

 std::unique_ptr<Sim_Connector> connectors[max_clients + 1];

 void init(int initial)
 {
  U = int64_t(block(0, L).size());
  {
   View v(data, Open_Mode::write_existing_or_create_new);
   Writable_Journal j(v);
   for (int i = 0; i < initial; i++) write(j, {new_id()});
   j.soft_checkpoint();
  }
  for (int c = 1; c <= clients; c++)
  {
   connectors[c] = std::make_unique<Sim_Connector>(*this, c);
   if (p[c].differ < 0 && rng.chance(30)) {p[c].data.d = data.d; p[c].data.d.resize(size_t(effective(data.d)));}
   else if (p[c].differ >= 0 || (initial > 0 && rng.chance(20) && p[c].kind != 'V'))
   {
    // a file that differs somewhere from that of the server, and may be longer or shorter
    Ids x = ids(data);
    const int64_t n = p[c].differ >= 0 ? std::max(1, initial + p[c].extra) : 1 + rng.below(initial + 1);
    while (int64_t(x.size()) < n) x.push_back(new_id());
    x.resize(size_t(n));
    x[size_t(p[c].differ >= 0 ? p[c].differ : rng.below(n))] = new_id();
    View v(p[c].data, Open_Mode::write_existing_or_create_new);
    Writable_Journal j(v);
    for (int id: x) write(j, {id});
    j.soft_checkpoint();
   }
   else
   {
    View v(p[c].data, Open_Mode::write_existing_or_create_new);
    Writable_Journal j(v);
   }
   p[c].seen = p[c].kind == 'V' ? Ids() : ids(p[c].data);
  }
  hist = ids(data);
 }

 void run(const std::string &dir, int initial)
 {
  static int number = 0;
  path = dir + "/s" + std::to_string(number++);
  sim.now_ns = 1000000000000;
  init(initial);
  std::string kinds, files;
  for (int c = 1; c <= clients; c++)
  {
   kinds += std::string(c > 1 ? "," : "") + '"' + p[c].kind + '"';
   files += (c > 1 ? "," : "") + J(p[c].seen).t;
  }
  trace.extra = ",\"T\":" + std::to_string(T) + ",\"w\":" + (writable ? "true" : "false") + ",\"shared\":" + (shared ? "true" : "false") +
   ",\"U\":" + std::to_string(U) + ",\"kind\":[" + kinds + "],\"files\":[" + files + "],\"hist\":" + J(hist).t;
  if (direct)
  {
   view.reset(new View(data, Open_Mode::write_existing));
   direct_journal.reset(new Writable_Journal(*view));
  }
  else start_server();
  {
   Fibers f;
   fibers = &f;
   for (int c = 1; c <= clients; c++) f.add([this, c]{live(c);});
   schedule();
   if (f.all_done())
   {
    // faults are over
    if (!direct && !server) {start_server(); trace.add("up");}
    if (server) {sim.run(); observe();}
    faults = false;
    for (int c = 1; c <= clients; c++) p[c].budgets.clear();
    trace.add("final");
    f.add([this]
    {
     for (int c = 1; c <= clients; c++)
     {
      std::string prog = p[c].kind == 'P' ? "op" : p[c].kind == 'B' ? "ou" : "oputp";
      if (!writable) prog = "op";
      p[c].prog = prog;
      live(c);
     }
    });
    schedule();
    if (f.all_done()) trace.add("end");
   }
   if (!f.all_done()) {for (auto &x: f.fibers) (void)x.release();} // the stacks are abandoned
   fibers = nullptr;
   if (!f.all_done()) for (int c = 1; c <= clients; c++) {(void)p[c].o.release();}
  }
  if (server) {server->stop(); server.reset();}
  server_client.reset();
  direct_journal.reset();
  view.reset();
  unlink(path.c_str());
 }
};

Sim_Channel::Sim_Channel(World &w, int c, int64_t budget): w(w), c(c), budget(budget)
{
 fd = w.server ? connect_to(w.path) : -1;
 if (fd < 0)
 {
  w.trace.add("fault", {{"c", c}});
  throw joedb::Exception("cannot connect");
 }
 w.p[c].connected = true;
}

Sim_Channel::~Sim_Channel()
{
 if (fd >= 0) ::close(fd);
}

void Sim_Channel::cut()
{
 if (fd >= 0)
 {
  ::close(fd);
  fd = -1;
  w.fault(c);
 }
}

void Sim_Channel::spend(int64_t n)
{
 if (budget >= 0) budget -= n;
}

size_t Sim_Channel::write_some(const char *data, size_t size)
{
 if (fd >= 0 && budget == 0) cut();
 if (fd < 0) throw joedb::Exception("channel is broken");
 if (w.rng.chance(30)) fibers->yield();
 if (w.chunk && w.rng.chance(50)) size = std::min(size, size_t(1 + w.rng.below(w.chunk)));
 if (budget >= 0) size = std::min(size, size_t(budget));
 while (true)
 {
  if (fd < 0) throw joedb::Exception("channel is broken");
  const ssize_t k = ::send(fd, data, size, MSG_NOSIGNAL | MSG_DONTWAIT);
  if (k > 0) {spend(k); return size_t(k);}
  if (errno == EAGAIN || errno == EWOULDBLOCK)
  {
   fibers->wait([this]{pollfd q{fd, POLLOUT, 0}; return poll(&q, 1, 0) > 0;});
   continue;
  }
  w.fault(c);
  throw joedb::Exception("write error");
 }
}

size_t Sim_Channel::read_some(char *data, size_t size)
{
 if (fd >= 0 && budget == 0) cut();
 if (fd < 0) throw joedb::Exception("channel is broken");
 if (w.chunk && w.rng.chance(50)) size = std::min(size, size_t(1 + w.rng.below(w.chunk)));
 if (budget >= 0) size = std::min(size, size_t(budget));
 while (true)
 {
  const ssize_t k = ::recv(fd, data, size, MSG_DONTWAIT);
  if (k > 0) {spend(k); return size_t(k);}
  if (k < 0 && (errno == EAGAIN || errno == EWOULDBLOCK))
  {
   fibers->wait([this]{pollfd q{fd, POLLIN, 0}; return poll(&q, 1, 0) > 0;});
   continue;
  }
  throw joedb::Exception("connection closed by the server");
 }
}

std::unique_ptr<Channel> Sim_Connector::new_channel() const
{
 Person &x = w.p[c];
 int64_t budget = -1;
 if (w.faults && !x.budgets.empty()) {budget = x.budgets.front(); x.budgets.erase(x.budgets.begin());}
 return std::make_unique<Sim_Channel>(w, c, budget);
}

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 const uint64_t seed = strtoull(argv[2], nullptr, 10);
 const int64_t count = atoll(argv[3]);
 const int level = atoi(argv[4]);
 Destructor_Logger::set_logger(nullptr);
 Trace_Writer out(argv[1]);
 Rng rng(seed);
 std::unordered_set<std::string> known;
 int64_t evaluations = 0;
 char dir[] = "/tmp/rvXXXXXX";
 if (!mkdtemp(dir)) return 3;
 sim.on_sleep = []{if (fibers && fibers->inside()) fibers->yield();};

 const auto finish = [&](World &w, const std::string &name, int initial)
 {
  w.trace.id = name + " " + std::to_string(seed) + "/" + std::to_string(evaluations);
  if (getenv("ONLY") && w.trace.id != getenv("ONLY")) return;
  w.run(dir, initial);
  if (known.insert(w.trace.extra + w.trace.text).second) out.write(w.trace);
 };

 // a connection is cut after each possible number of bytes
 const auto cuts = [&](char kind, const char *prog, const char *other, int64_t L, int64_t from, int64_t until, int64_t step)
 {
  for (int64_t b = from; b < until; b += step)
  {
   evaluations++;
   World w(seed * 1000003 + uint64_t(evaluations));
   w.L = L;
   w.clients = 2;
   w.p[1].kind = kind;
   w.p[1].prog = prog;
   w.p[1].budgets = {b};
   w.p[2].prog = other;
   w.p[2].kind = "SRV"[evaluations % 3];
   w.p[1].db = b % 2;
   finish(w, std::string("cut") + kind + prog, 1);
  }
 };
 const int64_t step = level > 1 ? 1 : 3;
 for (const char kind: {'S', 'R', 'V'})
 {
  cuts(kind, "ottx", "ottx", 12, rng.below(step), 220, step);
  cuts(kind, "otpltx", "ortx", 12, 80 + rng.below(step), 400, 2 * step);
  if (kind != 'V') cuts(kind, "foutx", "ofotx", 12, rng.below(step), 150, step);
  cuts(kind, "ortwx", "ottx", 9000, rng.below(300), 40000, 1200 * step);
 }

 // files that have diverged, at any place
 for (const char kind: {'S', 'R', 'L', 'P', 'B'})
  for (int extra = -2; extra <= 2; extra++)
   for (int differ = 0; differ < 5 + extra; differ++)
   {
    evaluations++;
    World w(seed * 1000003 + uint64_t(evaluations));
    w.L = 1800 + w.rng.below(1000);
    w.direct = kind == 'L' || kind == 'P';
    w.clients = 1;
    w.p[1].kind = kind;
    w.p[1].prog = "opo";
    w.p[1].differ = differ;
    w.p[1].extra = extra;
    finish(w, "diverged", 5);
   }

 for (int64_t i = 0; i < count; i++)
 {
  evaluations++;
  World w(seed * 1000003 + uint64_t(evaluations));
  Rng &r = w.rng;
  w.clients = 1 + int(r.below(3));
  w.L = r.chance(15) ? 9000 : 10 + r.below(30);
  w.direct = r.chance(20);
  w.chunk = r.chance(50) ? 0 : int(1 + r.below(r.chance(50) ? 10 : 500));
  if (!w.direct)
  {
   w.T = r.chance(15) ? 50 : 0;
   w.shared = r.chance(15);
   w.writable = !r.chance(8);
   if (!w.writable) w.shared = false;
   w.restarts = r.chance(25) ? 1 + int(r.below(2)) : 0;
  }
  for (int c = 1; c <= w.clients; c++)
  {
   Person &x = w.p[c];
   x.kind = w.direct ? "LLP"[r.below(3)] : "SSRRVB"[r.below(6)];
   x.db = r.chance(30);
   x.prog = r.chance(20) && x.kind != 'V' ? "f" : "";
   x.prog += "o";
   static const std::string ops = "ttttppwwluuremkxfoaaof";
   for (int64_t n = 2 + r.below(7); n > 0; n--)
   {
    const char op = ops[size_t(r.below(int64_t(ops.size())))];
    x.prog += op;
    if (op == 'x' && r.chance(70)) x.prog += r.chance(40) ? "fo" : "o";
   }
   if (r.chance(35)) for (int64_t n = 1 + r.below(3); n > 0; n--) x.budgets.push_back(r.below(r.chance(50) ? 150 : w.L * 10 + 300));
  }
  finish(w, "random", w.writable ? int(r.below(r.chance(30) ? 6 : 3)) : 3);
 }
 out.close();
 rmdir(dir);
 printf("{\"evaluations\":%lld,\"traces\":%zu,\"events\":%zu,\"rounds\":%lld}\n", (long long)evaluations, out.traces, out.events, (long long)sim.rounds);
 return 0;
}
