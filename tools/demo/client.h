// A client of a server driven step by step, through a connection that can break.
#include "server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/File_Connection.h"

struct Cuttable: public Channel
{
 int fd;
 long budget; // bytes
 Cuttable(const std::string &path, long budget = 1L << 40): fd(verif::connect_to(path)), budget(budget) {}
 ~Cuttable() override {if (fd >= 0) ::close(fd);}
 void check() {if (budget <= 0 && fd >= 0) {::close(fd); fd = -1; verif::sim.run();} if (fd < 0) throw Exception("broken connection");}
 size_t write_some(const char *data, size_t size) override
 {
  check();
  size = std::min(size, size_t(budget));
  while (true)
  {
   const ssize_t k = ::send(fd, data, size, MSG_NOSIGNAL | MSG_DONTWAIT);
   if (k > 0) {budget -= k; return size_t(k);}
   if (errno != EAGAIN) throw Exception("write error");
   verif::sim.run();
  }
 }
 size_t read_some(char *data, size_t size) override
 {
  check();
  size = std::min(size, size_t(budget));
  for (int i = 0; i < 1000; i++)
  {
   const ssize_t k = ::recv(fd, data, size, MSG_DONTWAIT);
   if (k > 0) {budget -= k; return size_t(k);}
   if (k == 0) throw Exception("end of stream");
   verif::sim.run();
  }
  throw Exception("no reply");
 }
};

struct Cuttable_Connector: public Connector
{
 std::string path;
 mutable std::vector<long> budgets; // of the next connections
 mutable int count = 0;
 std::unique_ptr<Channel> new_channel() const override
 {
  count++;
  long b = 1L << 40;
  if (!budgets.empty()) {b = budgets.front(); budgets.erase(budgets.begin());}
  return std::unique_ptr<Channel>(new Cuttable(path, b));
 }
};
template<typename F> bool throws(const F &f) {try {f(); return false;} catch (const std::exception &e) {printf("%s\n", e.what()); return true;}}
