// A file that may lose any subset of the writes not yet synchronised.
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Memory_File.h"
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
using namespace joedb;
struct Power_File: public Abstract_File
{
 struct Write {int64_t offset; std::string data;};
 std::string cur, durable;
 std::vector<Write> pending;
 std::function<void()> after;
 Power_File(): Abstract_File(Open_Mode::write_existing_or_create_new) {}
 int64_t get_size() const override {return int64_t(cur.size());}
 size_t pread(char *data, size_t size, int64_t offset) const override
 {
  if (size_t(offset) >= cur.size()) return 0;
  size = std::min(size, cur.size() - size_t(offset));
  memcpy(data, cur.data() + offset, size);
  return size;
 }
 static void apply(std::string &s, const Write &w)
 {
  if (s.size() < w.offset + w.data.size()) s.resize(w.offset + w.data.size());
  memcpy(&s[w.offset], w.data.data(), w.data.size());
 }
 void pwrite(const char *data, size_t size, int64_t offset) override
 {
  pending.push_back({offset, std::string(data, size)});
  apply(cur, pending.back());
  if (after) after();
 }
 void sync() override {durable = cur; pending.clear(); if (after) after();}
 void datasync() override {sync();}
 // every image that a power failure may leave now
 void images(const std::function<void(const std::string &)> &f) const
 {
  for (unsigned mask = 0; mask < (1u << pending.size()); mask++)
  {
   std::string s = durable;
   for (size_t i = 0; i < pending.size(); i++)
    if (mask & (1u << i)) apply(s, pending[i]);
   f(s);
  }
 }
};
