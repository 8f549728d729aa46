#ifndef svc_rpc_Service_declared
#define svc_rpc_Service_declared

#include "svc/Client.h"
#include "svc/rpc/small/Writable_Database.h"
#include "svc/rpc/big/Writable_Database.h"
#include "rpc_texts.h"

#include <mutex>
#include <functional>
#include <thread>
#include <stdexcept>

namespace svc::rpc
{
 // joedbc looks for the procedures with a regular expression
 class Service
 {
  public:
   struct Watch
   {
    std::function<void(int64_t id, const char *procedure, const std::string &text)> begin;
    std::function<void(int64_t id, int64_t n)> append;
    std::function<void(int64_t id, bool ok, const std::string &out)> end;
   };

  private:
   Client &client;
   Watch watch;
   const bool locking;
   std::mutex mutex;

   int64_t append_call(int64_t id)
   {
    int64_t n = 0;
    client.transaction([&](Writable_Database &db)
    {
     db.new_entry(id);
     n = int64_t(db.get_entry_table().get_size());
    });
    watch.append(id, n);
    return n;
   }

   template<typename M, typename F> void run(const char *name, int64_t id, M &message, F f)
   {
    std::unique_lock<std::mutex> lock(mutex, std::defer_lock);
    if (locking) lock.lock();
    watch.begin(id, name, verif::text_of(message));
    // some take their time
    if (id % 16 == 3) std::this_thread::sleep_for(std::chrono::microseconds(300));
    else if (id % 3 == 0) std::this_thread::yield();
    try {f();}
    catch (const std::exception &e) {watch.end(id, false, e.what()); throw;}
    watch.end(id, true, verif::text_of(message));
   }

  public:
   Service(Client &client, Watch watch, bool locking): client(client), watch(std::move(watch)), locking(locking) {}

   void append(small::Writable_Database &m)
   {
    run("append", m.get_id(), m, [&]{m.set_n(append_call(m.get_id()));});
   }

   void read(small::Writable_Database &m)
   {
    run("read", m.get_id(), m, [&]
    {
     m.set_n(int64_t(client.get_database().get_entry_table().get_size()));
     m.set_word(std::string(m.get_word().rbegin(), m.get_word().rend()));
    });
   }

   void fail(small::Writable_Database &m)
   {
    run("fail", m.get_id(), m, [&]
    {
     const int64_t n = m.get_n();
     m.set_word("changed");
     m.set_n(0);
     throw joedb::Exception("error " + std::string(size_t(n), char('a' + m.get_id() % 26)));
    });
   }

   void fail_late(small::Writable_Database &m)
   {
    run("fail_late", m.get_id(), m, [&]
    {
     append_call(m.get_id());
     m.set_word("late");
     if (m.get_n() % 2) throw std::out_of_range("late " + std::to_string(m.get_id()));
     throw std::runtime_error("");
    });
   }

   void nothing(small::Writable_Database &m)
   {
    run("nothing", m.get_id(), m, []{});
   }

   // the caller asks for n more rows
   void grow(big::Writable_Database &m)
   {
    run("grow", m.get_id(), m, [&]
    {
     const int64_t n = m.get_n();
     for (auto row: m.get_row_table())
      m.set_text(row, m.get_text(row) + "+");
     for (int64_t i = 0; i < n; i++)
      m.new_row(int32_t(m.get_id() * 7 + i), std::string(size_t(i * 37 % 1000), char('a' + i % 26)), m.get_row_table().is_empty() ? big::id_of_row() : m.get_row_table().first(), double(i) / 3);
     if (n % 5 == 0 && m.get_row_table().get_size() > 1) m.delete_row(m.get_row_table().last());
     append_call(m.get_id());
    });
   }

   // a message can have the schema of the main database
   void content(svc::Writable_Database &m)
   {
    int64_t id = 0;
    for (auto e: m.get_entry_table()) id = m.get_call(e);
    run("content", id, m, [&]
    {
     for (auto e: client.get_database().get_entry_table())
      m.new_entry(client.get_database().get_call(e));
    });
   }
 };
}

#endif
