// Remote procedure calls: several clients and threads, a server with one or more
// threads, connections that break, bytes that are no calls.  What the clients
// and the service see is recorded in the order in which it happens.
#include "common.h"
#include "rpc_texts.h"

#include "joedb/rpc/Server.h"
#include "joedb/rpc/Client.h"
#include "joedb/concurrency/Local_Channel.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/journal/Memory_File.h"

#include "svc/Client.h"
#include "svc/Memory_Database.h"
#include "svc/Readonly_Database.h"
#include "svc/rpc/small/Memory_Database.h"
#include "svc/rpc/small/Readonly_Database.h"
#include "svc/rpc/big/Memory_Database.h"
#include "svc/rpc/big/Readonly_Database.h"
#include "svc/rpc/Procedures.h"
#include "svc/rpc/Signatures.h"
#include "svc/rpc/Client.h"

#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <sys/socket.h>
#include <poll.h>

using namespace verif;
namespace small = svc::rpc::small;
namespace big = svc::rpc::big;

namespace
{
 struct Log
 {
  Trace &t;
  std::mutex mutex;
  void add(const char *e, const Fields &f = {})
  {
   std::lock_guard<std::mutex> lock(mutex);
   t.add(e, f);
  }
 };

 struct Null_Logger: joedb::Logger
 {
  int64_t slow = 0;
  void log(beman::cstring_view) noexcept override
  {
   if (slow) std::this_thread::sleep_for(std::chrono::milliseconds(slow));
  }
 };

 // a channel that breaks after some bytes, and moves bytes in small pieces
 struct Channel: joedb::Local_Channel
 {
  std::mutex mutex;
  Rng r;
  int64_t piece;
  int64_t left;        // bytes before it breaks
  std::function<void()> cut;
  bool broken = false;

  Channel(const std::string &path, uint64_t seed, int64_t piece, int64_t left, std::function<void()> cut):
   Local_Channel(path), r(seed), piece(piece), left(left), cut(std::move(cut)) {}

  size_t limit(size_t size)
  {
   std::lock_guard<std::mutex> lock(mutex);
   if (broken || left <= 0) {break_it(); throw joedb::Exception("broken");}
   size_t n = size;
   if (piece) {n = std::min(n, size_t(1 + r.below(piece))); if (r.chance(20)) std::this_thread::yield();}
   n = std::min(n, size_t(left));
   left -= int64_t(n);
   return n;
  }
  void break_it()
  {
   if (!broken)
   {
    broken = true;
    cut();
    socket.close();
   }
  }
  size_t write_some(const char *data, size_t size) override
  {
   return Local_Channel::write_some(data, limit(size));
  }
  size_t read_some(char *data, size_t size) override
  {
   const size_t n = limit(size);
   const size_t k = Local_Channel::read_some(data, n);
   std::lock_guard<std::mutex> lock(mutex);
   left += int64_t(n - k);
   return k;
  }
 };

 std::string scratch;

 template<typename R, typename M> std::string stored(M &m)
 {
  joedb::Memory_File copy;
  copy.get_data() = m.get_data();
  R db(copy);
  return text_of(db);
 }

 struct World
 {
  Log log;
  Rng r;
  Null_Logger logger;
  std::string path;
  joedb::Memory_File file;
  svc::Client data;
  svc::rpc::Service service;
  svc::rpc::Procedures procedures;
  std::unique_ptr<joedb::rpc::Server> server;
  std::atomic<int64_t> next_id{1};
  std::atomic<int64_t> next_client{1};
  const bool locking;

  World(Trace &t, Rng &rng, const std::string &path, bool locking):
   log{t}, r(rng), path(path), data(file),
   service(data, svc::rpc::Service::Watch
   {
    [this](int64_t id, const char *p, const std::string &text) {log.add("begin", {{"id", id}, {"proc", p}, {"text", text}, {"alone", true}});},
    [this](int64_t id, int64_t n) {log.add("append", {{"id", id}, {"n", n}});},
    [this](int64_t id, bool ok, const std::string &out) {log.add("end", {{"id", id}, {"ok", ok}, {"out", out}});}
   }, locking),
   procedures(service), locking(locking)
  {
   server = std::make_unique<joedb::rpc::Server>(logger, 0, locking ? 3 : 1, path, svc::rpc::get_signatures(), procedures.procedures);
  }

  // one call of a message; true if there was an answer
  template<typename R, typename M> bool call(int64_t c, svc::rpc::Client &client, const char *name, void (svc::rpc::Client::*f)(M &), M &m, int64_t id, const Channel &channel)
  {
   log.add("ask", {{"c", c}, {"id", id}, {"proc", name}, {"text", text_of(m)}});
   bool answered = true;
   try
   {
    (client.*f)(m);
    log.add("return", {{"id", id}, {"ok", true}, {"out", text_of(m)}});
   }
   catch (const std::exception &e)
   {
    if (channel.broken) {answered = false; log.add("lost", {{"id", id}});}
    else log.add("return", {{"id", id}, {"ok", false}, {"out", e.what()}});
   }
   log.add("kept", {{"id", id}, {"text", text_of(m)}, {"stored", stored<R>(m)}});
   return answered;
  }

  void user(int64_t c, svc::rpc::Client &client, const Channel &channel, Rng r, int calls)
  {
   std::unique_ptr<small::Memory_Database> s;
   std::unique_ptr<big::Memory_Database> b;
   for (int i = 0; i < calls; i++)
   {
    const int64_t id = next_id++;
    const int x = int(r.below(13));
    if (x < 9)
    {
     if (!s || r.chance(40)) s = std::make_unique<small::Memory_Database>();
     s->set_id(id);
     s->set_n(r.chance(85) ? r.below(300) : 4000 + r.below(6000));
     s->set_word(std::string(size_t(r.chance(70) ? r.below(30) : r.chance(70) ? r.below(3000) : r.below(30000)), char('A' + r.below(26))) + std::to_string(id));
     typedef small::Readonly_Database R;
     using svc::rpc::Client;
     if (x < 4) call<R>(c, client, "append", &Client::append, *s, id, channel);
     else if (x < 5) call<R>(c, client, "read", &Client::read, *s, id, channel);
     else if (x < 6) call<R>(c, client, "nothing", &Client::nothing, *s, id, channel);
     else if (x < 8) call<R>(c, client, "fail", &Client::fail, *s, id, channel);
     else call<R>(c, client, "fail_late", &Client::fail_late, *s, id, channel);
    }
    else if (x < 12)
    {
     if (!b || r.chance(40)) b = std::make_unique<big::Memory_Database>();
     b->set_id(id);
     b->set_n(r.chance(70) ? r.below(5) : r.below(120));
     for (int k = int(r.chance(70) ? r.below(4) : r.below(80)); k > 0; k--)
      b->new_row(int32_t(r.below(50)), std::string(size_t(r.below(300)), char('a' + r.below(26))), b->get_row_table().is_empty() ? big::id_of_row() : b->get_row_table().last(), double(r.below(1000)) / 7);
     call<big::Readonly_Database>(c, client, "grow", &svc::rpc::Client::grow, *b, id, channel);
    }
    else
    {
     svc::Memory_Database m;
     m.new_entry(id);
     call<svc::Readonly_Database>(c, client, "content", &svc::rpc::Client::content, m, id, channel);
    }
   }
   // what the connection lost can be asked again
   if (channel.broken)
   {
    Channel again(path, 1, 0, INT64_MAX, []{});
    const int64_t d = next_client++;
    svc::rpc::Client other(again);
    log.add("connect", {{"c", d}, {"match", true}, {"ok", true}});
    if (s)
    {
     const int64_t id = next_id++;
     s->set_id(id);
     call<small::Readonly_Database>(d, other, "append", &svc::rpc::Client::append, *s, id, again);
    }
    if (b)
    {
     const int64_t id = next_id++;
     b->set_id(id);
     b->set_n(3);
     call<big::Readonly_Database>(d, other, "grow", &svc::rpc::Client::grow, *b, id, again);
    }
   }
  }

  // one connection, with one or more threads
  void connection(Rng r)
  {
   const int64_t c = next_client++;
   try
   {
    const int64_t life = r.chance(60) ? INT64_MAX : 41 + r.below(r.chance(50) ? 500 : 20000);
    Channel channel(path, r.next(), r.chance(50) ? 0 : 1 + r.below(r.chance(50) ? 20 : 2000), life,
     [this, c]{log.add("cut", {{"c", c}});});
    const int threads = r.chance(60) ? 1 : int(2 + r.below(2));
    svc::rpc::Client client(channel, std::chrono::milliseconds(r.chance(50) ? 1 : 0));
    log.add("connect", {{"c", c}, {"match", true}, {"ok", true}});
    std::vector<std::thread> users;
    const int calls = int(r.below(threads > 1 ? 5 : 8));
    if (r.chance(20)) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    for (int i = 1; i < threads; i++)
     users.emplace_back([this, c, &client, &channel, calls, s = r.next()]{user(c, client, channel, Rng(s), calls);});
    user(c, client, channel, Rng(r.next()), calls);
    for (auto &u: users) u.join();
   }
   catch (const std::exception &e)
   {
    log.add("connect", {{"c", c}, {"match", true}, {"ok", false}});
   }
  }

  // bytes that are no call
  void noise(Rng r)
  {
   Channel channel(path, 1, 0, INT64_MAX, []{});
   struct Raw: Channel {using Channel::socket;};
   auto &socket = ((Raw &)channel).socket;
   bool closed = true;
   const std::vector<joedb::rpc::Signature> &good = svc::rpc::get_signatures();
   const int x = int(r.below(6));
   if (x <= 2)
  {
   std::vector<joedb::rpc::Signature> mine;
   const size_t k = size_t(r.below(int64_t(good.size())));
   const int how = int(r.below(7));
   const auto last = [](const std::string &s) {return s.substr(s.size() - 1);};
   const auto without = [](const std::string &s) {return s.substr(0, s.size() - 1);};
   for (size_t i = 0; i < good.size(); i++)
   {
    const auto &g = good[i];
    if (i != k) mine.push_back({g.name, g.prolog});
    else if (how == 0) continue;
    else if (how == 1) mine.push_back({g.name + "x", g.prolog});
    else if (how == 2) mine.push_back({g.name, g.prolog + "x"});
    else if (how == 3) mine.push_back({without(g.name), last(g.name) + g.prolog}); // the same letters in the same order
    else if (how == 4) {mine.push_back({g.name, g.prolog}); mine.push_back({g.name, g.prolog});}
    else if (how == 5) {std::string p = g.prolog; p[size_t(r.below(int64_t(p.size())))] ^= char(1 << r.below(8)); mine.push_back({g.name, p});}
    else {auto &h = good[(i + 1) % good.size()]; mine.push_back({h.name, g.prolog});}
   }

    bool ok = true;
    const int64_t c = next_client++;
    try {joedb::rpc::Client client(channel, mine);}
    catch (const std::exception &) {ok = false;}
    log.add("connect", {{"c", c}, {"match", false}, {"ok", ok}});
    return;
   }
   {
    const auto h = joedb::rpc::get_hash(good);
    channel.write((const char *)h.data(), h.size() * sizeof h[0]);
    char reply[9];
    channel.read(reply, 9);
    if (reply[0] != 'H') closed = false;
   }
   small::Memory_Database m;
   m.set_id(1000000 + r.below(100));
   m.set_n(1);
   m.soft_checkpoint();
   const std::string &prolog = good[0].prolog;
   const std::string body = m.get_data().substr(prolog.size());
   auto int64 = [](int64_t i) {return std::string((const char *)&i, 8);};
   std::string bytes;
   if (x == 3) bytes = "C" + int64(int64_t(good.size()) + r.below(3) * 1000) + int64(int64_t(prolog.size() + body.size())) + body;
   else if (x == 4) bytes = std::string(1, "XQcHh"[r.below(5)]) + "C" + int64(0) + int64(int64_t(prolog.size() + body.size())) + body;
   else
   {
    bytes = "C" + int64(0) + int64(int64_t(prolog.size() + body.size())) + body;
    bytes.resize(size_t(r.below(int64_t(bytes.size()))));
   }
   channel.write(bytes.data(), bytes.size());
   socket.shutdown(boost::asio::socket_base::shutdown_send);
   // the server hangs up, without an answer
   pollfd p{socket.native_handle(), POLLIN, 0};
   char c;
   if (poll(&p, 1, 60000) != 1 || recv(socket.native_handle(), &c, 1, 0) > 0) closed = false;
   log.add("noise", {{"closed", closed}});
  }

  void final()
  {
   server->stop();
   std::vector<int64_t> l;
   for (auto e: data.get_database().get_entry_table()) l.push_back(data.get_database().get_call(e));
   log.add("final", {{"list", l}});
  }
 };

 void calls(Trace &t, Rng &r)
 {
  World w(t, r, scratch + "/rpc.sock", r.chance(40));
  std::vector<std::thread> threads;
  for (int i = int(1 + r.below(3)); i > 0; i--)
   threads.emplace_back([&w, s = r.next()]
   {
    Rng q(s);
    for (int k = int(1 + q.below(2)); k > 0; k--)
    {
     if (q.chance(30)) try {w.noise(Rng(q.next()));} catch (const std::exception &) {w.log.add("noise", {{"closed", false}});}
     else w.connection(Rng(q.next()));
    }
   });
  for (auto &x: threads) x.join();
  w.final();
 }

 // connections that are kept alive from the start
 void alive(Trace &t, Rng &r)
 {
  Log log{t};
  const std::string path = scratch + "/alive.sock";
  const bool rpc = r.chance(50);
  Null_Logger logger;
  if (rpc)
  {
   static std::string large(2000000, 'p');
   std::vector<joedb::rpc::Signature> signatures{{"f", large}};
   std::vector<joedb::rpc::Procedure *> procedures;
   joedb::rpc::Server server(logger, 0, 1, path, signatures, procedures);
   for (int64_t c = 1; c <= 2; c++)
   {
    bool ok = true;
    try
    {
     joedb::Local_Channel channel(path);
     joedb::rpc::Client client(channel, signatures, std::chrono::milliseconds(1));
     std::this_thread::sleep_for(std::chrono::milliseconds(r.below(4)));
     client.ping();
    }
    catch (const std::exception &) {ok = false;}
    log.add("connect", {{"c", c}, {"match", true}, {"ok", ok}});
    if (ok) log.add("ping", {{"c", c}});
   }
   server.stop();
  }
  else
  {
   joedb::Memory_File file;
   joedb::Writable_Journal_Client client(file);
   joedb::Server server(logger, 0, 1, path, client, std::chrono::milliseconds(0));
   for (int64_t c = 1; c <= 2; c++)
   {
    bool ok = true;
    try
    {
     joedb::Local_Channel channel(path);
     Null_Logger slow;
     slow.slow = r.below(4);
     joedb::Server_Client s(channel, slow, std::chrono::milliseconds(1));
     std::this_thread::sleep_for(std::chrono::milliseconds(r.below(4)));
     s.ping();
    }
    catch (const std::exception &) {ok = false;}
    log.add("connect", {{"c", c}, {"match", true}, {"ok", ok}});
    if (ok) log.add("ping", {{"c", c}});
   }
   server.stop();
  }
  log.add("final", {{"list", std::vector<int64_t>()}});
 }
}

int main(int argc, char **argv)
{
 if (argc < 6) return 3;
 Trace_Writer out(argv[1]);
 const uint64_t seed = uint64_t(atoll(argv[2]));
 const int count = atoi(argv[3]);
 const std::string part = argv[4];
 scratch = argv[5];
 const char *only = argc > 6 ? argv[6] : nullptr;
 for (const char p: part)
  for (int i = 0; i < count; i++)
  {
   Trace t;
   t.id = std::string(1, p) + "-" + std::to_string(seed) + "-" + std::to_string(i);
   if (only && t.id != only) continue;
   Rng r(seed * 1000003 + uint64_t(i) * 7 + uint64_t(p));
   fprintf(stderr, "%s\n", t.id.c_str());
   try
   {
    if (p == 'c') calls(t, r);
    else alive(t, r);
   }
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}});}
   out.write(t);
  }
 out.close();
 printf("{\"traces\":%zu,\"events\":%zu}\n", out.traces, out.events);
 return 0;
}
