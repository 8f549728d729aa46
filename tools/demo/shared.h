// A file shared by several users of one program; their operations can be nested by hooks.
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/Writable.h"
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <memory>
using namespace joedb;
struct Shared_View: public Abstract_File
{
 std::string &d;
 std::function<void()> before_tail_lock, after_unlock;
 Shared_View(std::string &d, Open_Mode m = Open_Mode::shared_write): Abstract_File(m), d(d) {}
 int64_t get_size() const override {return int64_t(d.size());}
 size_t pread(char *data, size_t size, int64_t offset) const override
 {
  if (size_t(offset) >= d.size()) return 0;
  size = std::min(size, d.size() - size_t(offset));
  memcpy(data, d.data() + offset, size);
  return size;
 }
 void pwrite(const char *data, size_t size, int64_t offset) override
 {
  if (d.size() < offset + size) d.resize(offset + size);
  memcpy(&d[offset], data, size);
 }
 void exclusive_lock(int64_t start, int64_t size) override
 {
  if (start > 0 && before_tail_lock) {auto f = before_tail_lock; before_tail_lock = nullptr; f();}
 }
 void unlock(int64_t start, int64_t size) noexcept override
 {
  if (after_unlock) {auto f = after_unlock; after_unlock = nullptr; f();}
 }
};
struct Collect: public Dummy_Writable
{
 std::vector<std::string> v;
 void comment(const std::string &s) override {v.push_back(s);}
};
// the comments of the committed part of a file
inline std::vector<std::string> comments(std::string d)
{
 Shared_View f(d, Open_Mode::read_existing);
 Readonly_Journal j(f);
 Collect c;
 j.play_until_checkpoint(c);
 return c.v;
}
inline void print(const std::vector<std::string> &v)
{
 for (const auto &s: v) printf("[%s] ", s.substr(0, 20).c_str());
 printf("\n");
}
