// A real server, driven step by step in virtual time, and raw sessions.
#define verif_server_sim_implementation
#include "server_sim.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/protocol_version.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Logger.h"
#include "shared.h"

struct Peer
{
 int fd = -1;
 std::string rx;
 void send(const std::string &b)
 {
  for (size_t i = 0; i < b.size();)
  {
   const ssize_t k = ::send(fd, b.data() + i, b.size() - i, MSG_NOSIGNAL | MSG_DONTWAIT);
   if (k > 0) i += size_t(k);
   else if (errno == EAGAIN) verif::sim.run();
   else return;
  }
 }
 // what has been received; resets
 std::string get()
 {
  for (int i = 0; i < 3; i++)
  {
   verif::sim.run();
   char b[65536];
   ssize_t k;
   while ((k = ::recv(fd, b, sizeof(b), MSG_DONTWAIT)) > 0) {rx.append(b, size_t(k)); verif::sim.run();}
   if (k == 0) {rx += "<eof>"; break;}
  }
  std::string r = rx;
  rx.clear();
  return r;
 }
 static std::string i64(int64_t x) {return std::string((char *)&x, 8);}
 static int64_t to_i64(const std::string &s, size_t at) {int64_t x = -1; if (s.size() >= at + 8) memcpy(&x, s.data() + at, 8); return x;}
 void connect(const std::string &path)
 {
  fd = verif::connect_to(path);
  send("joedb" + i64(protocol_version));
  get();
 }
 void pull(char code, int64_t wait, int64_t from) {send(std::string(1, code) + i64(wait) + i64(from));}
 void push(char code, int64_t from, int64_t size, const std::string &data) {send(std::string(1, code) + i64(from) + i64(from + size) + data);}
 void leave() {::close(fd); fd = -1;}
};

struct Served
{
 char dir[32] = "/tmp/demoXXXXXX";
 std::string path;

 std::unique_ptr<Writable_Journal_Client> client;
 verif::Sim_Server<Server> server;
 Served(Abstract_File &file, int64_t timeout)
 {
  if (!mkdtemp(dir)) exit(9);
  path = std::string(dir) + "/s";
  client.reset(new Writable_Journal_Client(file));
  server.start(Logger::dummy_logger, 0, 1, path, *client, std::chrono::milliseconds(timeout));
 }
 int64_t cp() const {return client->get_journal_checkpoint();}
 ~Served() {server.stop(); client.reset(); unlink(path.c_str()); rmdir(dir);}
};
