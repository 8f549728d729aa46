// Files of every kind as arrays of bytes; buffers, streams, copies.
// byte_file TRACES SEED COUNT PARTS [only-id]   (PARTS among f: files, e: encoded files, j: journals in encoded files, l: large)
// Runs in a scratch directory.
#include "common.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/File_Buffer.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Brotli_Codec.h"
#include "joedb/journal/iostream.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/db/encoded_file/Readonly_Database.h"
#include "joedb/Writable.h"

#include <sstream>
#include <cstring>
#include <unistd.h>
#include <sys/syscall.h>

// System calls that read or write less than what was asked
static verif::Rng *truncating = nullptr;
static size_t cut(size_t n)
{
 if (!truncating || n < 2 || !truncating->chance(50)) return n;
 return size_t(1 + truncating->below(truncating->chance(50) ? int64_t(n) : std::min<int64_t>(int64_t(n), 7)));
}
extern "C"
{
 ssize_t pread64(int fd, void *p, size_t n, off64_t o) {return syscall(SYS_pread64, fd, p, cut(n), o);}
 ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) {return syscall(SYS_pwrite64, fd, p, cut(n), o);}
}

using namespace verif;
using namespace joedb;

static constexpr int inv101 = 101; // 101 * 101 mod 255 == 1
static_assert(101 * inv101 % 255 == 1);
static char byte_of(int tag, int64_t offset) {return char(1 + (tag * 101 + offset) % 255);}
static int tag_of(char c, int64_t offset)
{
 const int b = uint8_t(c);
 if (b == 0) return 0;
 const int64_t k = (((b - 1 - offset) % 255 + 255) % 255) * inv101 % 255;
 return k == 0 ? 256 : int(k);
}

// Memory whose writes are remembered, to be killed anywhere
struct Tape: public Memory_File
{
 std::vector<std::pair<int64_t, std::string>> log; // writes since the last sync
 std::string base;
 size_t closed = 0;                                // those before the file was last closed
 void pwrite(const char *p, size_t n, int64_t o) override {log.emplace_back(o, std::string(p, n)); Memory_File::pwrite(p, n, o);}
 void mark() {base = data; log.clear(); closed = 0;}
 void sync() override {mark();}
 void datasync() override {mark();}
 // power: everything since the last sync may be lost; otherwise only what the killed process had still to write
 std::string image(Rng &r, bool power) const
 {
  std::string s = base;
  const size_t least = power ? 0 : closed;
  const size_t n = least + size_t(r.below(int64_t(log.size() - least) + 1));
  for (size_t i = 0; i <= n && i < log.size(); i++)
  {
   const auto &[o, d] = log[i];
   const size_t m = i < n ? d.size() : d.size() > 64 && r.chance(50) ? size_t(r.below(int64_t(d.size()) + 1)) : 0;
   if (m == 0) continue;
   if (size_t(o) + m > s.size()) s.resize(size_t(o) + m);
   memcpy(s.data() + o, d.data(), m);
  }
  return s;
 }
};

struct Some_File
{
 std::string name, kind;
 std::unique_ptr<Tape> tape;               // memory, encoded
 std::unique_ptr<std::stringbuf> string;   // stringbuf
 std::unique_ptr<joedb::filebuf> stream;   // filebuf
 std::unique_ptr<Codec> codec;
 std::unique_ptr<db::encoded_file::Writable_Database> db;
 std::unique_ptr<Abstract_File> file;
 bool encoded() const {return kind == "identity" || kind == "brotli";}
 std::string path() const {return name + ".bin";}

 void make_codec() {if (kind == "brotli") codec = std::make_unique<Brotli_Codec>(); else codec = std::make_unique<Identity_Codec>();}
 void open(bool fresh)
 {
  if (fresh) {unlink(path().c_str()); if (encoded() || kind == "memory" || kind == "filebuf") tape = std::make_unique<Tape>(); if (kind == "stringbuf") string = std::make_unique<std::stringbuf>();}
  const Open_Mode mode = fresh ? Open_Mode::create_new : Open_Mode::write_existing;
  if (kind == "posix") file = std::make_unique<File>(path().c_str(), mode);
  else if (kind == "shared") file = std::make_unique<File>(path().c_str(), Open_Mode::shared_write);
  else if (kind == "portable") file = std::make_unique<Portable_File>(path().c_str(), mode);
  else if (kind == "memory")
  {
   auto m = std::make_unique<Memory_File>();
   if (!fresh) m->get_data() = tape->get_data();
   file = std::move(m);
  }
  else if (kind == "stringbuf") file = std::make_unique<Stream_File>(*string, mode);
  else if (kind == "filebuf") {stream = std::make_unique<joedb::filebuf>(*tape); file = std::make_unique<Stream_File>(*stream, mode);}
  else
  {
   make_codec();
   db = std::make_unique<db::encoded_file::Writable_Database>(*tape, Recovery::overwrite);
   file = std::make_unique<Encoded_File>(*codec, *db);
  }
 }
 void close()
 {
  if (kind == "memory") tape->get_data() = static_cast<Memory_File &>(*file).get_data();
  file.reset();
  stream.reset();
  db.reset();
  codec.reset();
  if (tape) tape->closed = tape->log.size();
 }
};

struct World
{
 Trace &t;
 Rng &r;
 bool large;
 std::map<std::string, Some_File> files;
 std::map<std::string, std::vector<int>> lit;        // which number each byte belongs to
 struct Number {std::string file; int64_t at; int n; int type; std::string value;};
 std::map<int, Number> numbers;
 struct Cursor {std::string file; std::unique_ptr<File_Buffer> b; std::unique_ptr<joedb::iostream> s; int mode = 0; bool unget = false;};
 std::map<int, Cursor> curs;
 int tag = 0, number = 300, next_cur = 1;

 World(Trace &t, Rng &r, bool large): t(t), r(r), large(large) {}

 // runs of bytes [start, start + n)
 J runs(const std::string &f, int64_t start, const char *p, size_t n)
 {
  const auto &l = lit[f];
  std::string s = "[";
  int last = -1;
  int64_t from = start;
  const auto put = [&](int64_t to) {if (last >= 0) {if (s.size() > 1) s += ','; s += "[" + std::to_string(from) + "," + std::to_string(to) + "," + std::to_string(last) + "]";}};
  for (size_t i = 0; i < n; i++)
  {
   const int64_t o = start + int64_t(i);
   const int k = o < int64_t(l.size()) && l[size_t(o)] ? 255 : tag_of(p[i], o);
   if (k != last) {put(o); last = k; from = o;}
  }
  put(start + int64_t(n));
  return J::raw(s + "]");
 }
 void mark(const std::string &f, int64_t a, int64_t n, int id)
 {
  auto &l = lit[f];
  if (n > 0 && int64_t(l.size()) < a + n) l.resize(size_t(a + n));
  std::fill(l.begin() + a, l.begin() + a + n, id);
 }
 std::string data(int64_t a, int64_t n)
 {
  tag++;
  std::string s(size_t(n), 0);
  for (int64_t i = 0; i < n; i++) s[size_t(i)] = byte_of(tag, a + i);
  return s;
 }
 int64_t some_size()
 {
  switch (r.below(large ? 9 : 8))
  {
   case 0: case 1: return 1 + r.below(16);
   case 2: case 3: return 1 + r.below(200);
   case 4: return 4090 + r.below(30);
   case 5: return 8180 + r.below(20);
   case 6: return 1 + r.below(4096);
   case 7: return 1 + r.below(r.chance(60) ? 13000 : 40000);
   default: return (1 << 20) - 5 + r.below(10);
  }
 }
 int64_t some_offset(Some_File &f)
 {
  const int64_t size = f.file->get_size();
  switch (r.below(8))
  {
   case 0: return 0;
   case 1: case 2: return size;
   case 3: return size + r.below(20);
   case 4: return size + r.below(6000);
   case 5: return std::max<int64_t>(0, size - r.below(20));
   case 6: return 4096 + r.below(3) - 1;
   default: return r.below(size + 1);
  }
 }
 Some_File &some_file() {return std::next(files.begin(), r.below(int64_t(files.size())))->second;}
 void tell(int k)
 {
  Cursor &c = curs.at(k);
  int64_t p, q;
  if (c.b) p = q = c.b->get_position();
  else {c.s->clear(); p = int64_t(c.s->tellg()); q = int64_t(c.s->tellp());}
  t.add("tell", {{"k", k}, {"p", p}, {"q", q}});
 }
 void flush(int k)
 {
  Cursor &c = curs.at(k);
  if (c.b && c.mode == 3) {seek(k); return;} // after a failed read
  if (c.b) c.b->flush(); else {c.s->clear(); c.s->flush(); c.s->rdbuf()->pubsync();}
  c.mode = 0;
  t.add("flush", {{"k", k}});
 }
 void idle(const std::string &f) {for (auto &[k, c]: curs) if (c.file == f && c.mode == 1) flush(k);}
 void alone(int k) {for (auto &[x, c]: curs) if (x != k && c.file == curs.at(k).file && c.mode) flush(x);}
 void quiet(const std::string &f)
 {
  for (auto i = curs.begin(); i != curs.end();)
   if (i->second.file == f) {const int k = i->first; i = curs.erase(i); t.add("close", {{"k", k}});}
   else ++i;
 }

 void write(Some_File &f)
 {
  idle(f.name);
  for (auto &[k, c]: curs) if (c.file == f.name && c.mode) flush(k); // they may have read it
  if (tag >= 254) return;
  const int64_t a = some_offset(f), n = some_size();
  const std::string s = data(a, n);
  bool ok = true;
  try
  {
   if (n > 1 && r.chance(15))
   {
    Async_Writer w(*f.file, a);
    const size_t h = size_t(1 + r.below(n - 1));
    w.write(s.data(), h);
    mark(f.name, a, int64_t(h), 0);
    t.add("write", {{"f", f.name}, {"a", a}, {"n", h}, {"t", tag}, {"ok", true}});
    w.write(s.data() + h, s.size() - h);
    mark(f.name, a + int64_t(h), n - int64_t(h), 0);
    t.add("write", {{"f", f.name}, {"a", a + int64_t(h)}, {"n", n - int64_t(h)}, {"t", tag}, {"ok", true}});
    if (w.get_position() != a + n) t.add("position");
    return;
   }
   f.file->pwrite(s.data(), s.size(), a);
  }
  catch (const std::exception &) {ok = false;}
  if (ok) mark(f.name, a, n, 0);
  t.add("write", {{"f", f.name}, {"a", a}, {"n", n}, {"t", tag}, {"ok", ok}});
 }
 void read_from(const Abstract_File &file, const std::string &name, int64_t a, int64_t n, bool once)
 {
  std::string s(size_t(n) + 8, '\x5a');
  bool ok = true;
  size_t got = 0;
  try
  {
   if (once) got = file.pread(s.data(), size_t(n), a);
   else if (r.chance(30)) {Async_Reader rd(file, a, a + n); got = rd.read(s.data(), size_t(n));}
   else if (r.chance(50))
   {
    Async_Reader rd(file, a, a + n);
    while (true)
    {
     const size_t x = rd.read(s.data() + got, size_t(std::min<int64_t>(n - int64_t(got), 1 + r.below(5000))));
     if (x == 0) break;
     got += x;
    }
   }
   else while (int64_t(got) < n)
   {
    const size_t x = file.pread(s.data() + got, size_t(n) - got, a + int64_t(got));
    if (x == 0) break;
    got += x;
    if (got > size_t(n)) break;
   }
   if (got > size_t(n)) {t.add("overflow"); got = size_t(n);}
   for (int i = 0; i < 8; i++) if (s[size_t(n) + size_t(i)] != '\x5a') t.add("overwritten");
  }
  catch (const std::exception &) {ok = false;}
  t.add("read", {{"f", name}, {"a", a}, {"n", n}, {"once", once}, {"ok", ok}, {"runs", ok ? runs(name, a, s.data(), got) : J::raw("[]")}});
 }
 void read(Some_File &f, bool all = false)
 {
  idle(f.name);
  if (all) read_from(*f.file, f.name, 0, f.file->get_size() + 10, false);
  else read_from(*f.file, f.name, some_offset(f), some_size(), r.chance(50));
 }
 void size(Some_File &f)
 {
  idle(f.name);
  t.add("size", {{"f", f.name}, {"n", f.file->get_size()}});
 }
 // other ways to read the same bytes
 void view(Some_File &f)
 {
  idle(f.name);
  const int64_t a = some_offset(f), n = some_size();
  if (f.kind == "posix" || f.kind == "shared" || f.kind == "portable")
  {
   const int64_t size = f.file->get_size();
   if (size == 0) return;
   const int fd = ::open(f.path().c_str(), O_RDONLY);
   const int64_t from = r.below(size);
   // a slice of the file: its offsets start at from
   {
    File_Slice slice(fd, size_t(from), size_t(size - from));
    const Abstract_File &v = slice;
    std::string s(size_t(n), 0);
    const size_t got = v.pread(s.data(), s.size(), 0);
    t.add("read", {{"f", f.name}, {"a", from}, {"n", n}, {"once", false}, {"ok", true}, {"runs", runs(f.name, from, s.data(), got)}});
    t.add("size", {{"f", f.name}, {"n", from + v.get_size()}});
   }
   ::close(fd);
   File again(f.path().c_str(), Open_Mode::read_existing);
   read_from(again, f.name, a, n, false);
  }
  else if (f.kind == "stringbuf") {const std::string s = f.string->str(); const Readonly_Memory_File v(s); read_from(v, f.name, a, n, false);}
  else if (f.kind == "filebuf") {const Readonly_Memory_File v(f.tape->get_data()); read_from(v, f.name, a, n, false);}
  else if (f.kind == "memory") {const Readonly_Memory_File v(static_cast<Memory_File &>(*f.file).get_data()); read_from(v, f.name, a, n, false);}
  else
  {
   char c;
   f.file->pread(&c, 1, 0); // writes what is buffered
   Readonly_Memory_File image(f.tape->get_data());
   db::encoded_file::Readonly_Database rdb(image);
   Some_File x;
   x.kind = f.kind;
   x.make_codec();
   const Readonly_Encoded_File v(*x.codec, rdb, image);
   read_from(v, f.name, a, n, false);
   t.add("size", {{"f", f.name}, {"n", v.get_size()}});
  }
 }
 void copy()
 {
  if (files.size() < 2) return;
  Some_File &f = some_file();
  Some_File &g = &f == &files.begin()->second ? files.rbegin()->second : files.begin()->second;
  idle(f.name);
  for (auto &[k, c]: curs) if (c.file == g.name && c.mode) flush(k);
  if (r.chance(50))
  {
   int64_t a = some_offset(f);
   const int64_t n = r.chance(20) ? -1 : r.below(std::max<int64_t>(1, f.file->get_size() - a + (r.chance(20) ? 10 : 1)));
   if (g.kind == "stringbuf" && a > g.file->get_size()) a = g.file->get_size();
   bool ok = true;
   try {f.file->copy_to(*g.file, a, n);}
   catch (const std::exception &) {ok = false;}
   const int64_t b = n < 0 ? f.file->get_size() : std::min(a + n, f.file->get_size());
   auto &lf = lit[f.name];
   auto &lg = lit[g.name];
   for (int64_t i = a; i < b; i++)
   {
    const int id = i < int64_t(lf.size()) ? lf[size_t(i)] : 0;
    if (i >= int64_t(lg.size())) lg.resize(size_t(i) + 1);
    lg[size_t(i)] = id;
   }
   t.add("copy", {{"f", f.name}, {"g", g.name}, {"a", a}, {"n", n}, {"ok", ok}});
  }
  else
  {
   if (tag < 250 && r.chance(50)) // the same, or nearly
   {
    int64_t n = f.file->get_size();
    f.file->copy_to(*g.file, 0, n);
    lit[g.name].resize(std::max(lit[g.name].size(), size_t(n)));
    for (int64_t i = 0; i < n; i++) lit[g.name][size_t(i)] = i < int64_t(lit[f.name].size()) ? lit[f.name][size_t(i)] : 0;
    t.add("copy", {{"f", f.name}, {"g", g.name}, {"a", 0}, {"n", n}, {"ok", true}});
    if (n > 0 && r.chance(60))
    {
     const int64_t p = r.chance(50) ? n - 1 - r.below(std::min<int64_t>(n, 5)) : r.below(n);
     Some_File &h = r.chance(50) ? f : g;
     const std::string s = data(p, 1);
     h.file->pwrite(s.data(), s.size(), p);
     mark(h.name, p, 1, 0);
     t.add("write", {{"f", h.name}, {"a", p}, {"n", 1}, {"t", tag}, {"ok", true}});
    }
   }
   const int64_t a = r.chance(50) ? 0 : some_offset(f);
   const int64_t b = r.chance(50) ? std::min(f.file->get_size(), g.file->get_size()) : a + r.below(10000);
   std::string res;
   try {res = f.file->equal_to(*g.file, a, b) ? "yes" : "no";}
   catch (const std::exception &) {res = "threw";}
   t.add("equal", {{"f", f.name}, {"g", g.name}, {"a", a}, {"b", b}, {"res", res}});
  }
 }
 void sync(Some_File &f)
 {
  idle(f.name);
  if (f.encoded() || r.chance(50)) f.file->sync(); else f.file->datasync();
  t.add("sync", {{"f", f.name}});
 }
 void reopen(Some_File &f)
 {
  idle(f.name);
  quiet(f.name);
  f.close();
  f.open(false);
  t.add("reopen", {{"f", f.name}});
  read(f, true);
 }
 void kill(Some_File &f)
 {
  quiet(f.name);
  const bool power = r.chance(50);
  const std::string s = f.tape->image(r, power);
  f.close();
  f.tape = std::make_unique<Tape>();
  f.tape->get_data() = s;
  f.tape->mark();
  f.open(false);
  std::string all(size_t(f.file->get_size()), 0);
  const size_t got = f.file->pread(all.data(), all.size(), 0);
  t.add("killed", {{"f", f.name}, {"power", power}, {"runs", runs(f.name, 0, all.data(), got)}});
  read(f, true);
 }

 // buffers and streams
 void open_cursor(bool stream)
 {
  Some_File &f = some_file();
  Cursor c;
  c.file = f.name;
  if (stream) c.s = std::make_unique<joedb::iostream>(*f.file);
  else c.b = std::make_unique<File_Buffer>(*f.file);
  const int k = next_cur++;
  curs[k] = std::move(c);
  t.add("cursor", {{"k", k}, {"f", f.name}, {"stream", stream}});
 }
 void seek(int k)
 {
  Cursor &c = curs.at(k);
  Some_File &f = files.at(c.file);
  const int64_t size = f.file->get_size();
  int64_t p = some_offset(f);
  if (f.kind == "stringbuf" && p > size) p = size;
  c.mode = 0;
  if (c.b) {c.b->set_position(p); t.add("seek", {{"k", k}, {"what", "both"}, {"p", p}}); return;}
  c.s->clear();
  const bool get = r.chance(50);
  if (get) c.s->seekg(p); else c.s->seekp(p);
  if (r.chance(30)) // from the end
  {
   p = size - r.below(size + 1);
   if (c.mode == 0) {if (get) c.s->seekg(p - f.file->get_size(), std::ios::end); else c.s->seekp(p - f.file->get_size(), std::ios::end);}
  }
  t.add("seek", {{"k", k}, {"what", get ? "get" : "put"}, {"p", p}});
 }
 int64_t put_position(Cursor &c) {return c.b ? c.b->get_position() : int64_t(c.s->tellp());}

 template<typename T> void number_write(File_Buffer &b, T v, bool compact)
 {
  if (compact) b.compact_write<T>(v); else b.write<T>(v);
 }
 int64_t value(int type) // 0: u8, 1: u16, 2: u32, 3: u64, 4: compact
 {
  const uint64_t x = r.chance(50) ? r.next() : uint64_t(r.below(1 << (1 + r.below(20))));
  switch (type) {case 0: return uint8_t(x); case 1: return uint16_t(x); case 2: return uint32_t(x); case 3: return int64_t(x); default: return int64_t(x >> (4 + r.below(40)));}
 }
 void cursor_write(int k)
 {
  Cursor &c = curs.at(k);
  if (c.mode >= 2) {if (c.b) seek(k); else {flush(k);}}
  alone(k);
  Some_File &f = files.at(c.file);
  if (c.b && c.mode == 0 && f.kind == "stringbuf" && c.b->get_position() > f.file->get_size()) return;
  if (c.b && r.chance(60))
  {
   const int64_t a = c.b->get_position();
   const int type = int(r.below(5));
   const int64_t v = value(type);
   switch (type)
   {
    case 0: c.b->write<uint8_t>(uint8_t(v)); break;
    case 1: c.b->write<uint16_t>(uint16_t(v)); break;
    case 2: c.b->write<uint32_t>(uint32_t(v)); break;
    case 3: c.b->write<int64_t>(v); break;
    case 4: c.b->compact_write<int64_t>(v); break;
   }
   const int64_t n = c.b->get_position() - a;
   const int id = number++;
   mark(c.file, a, n, id);
   numbers[id] = {c.file, a, int(n), type, std::to_string(v)};
   c.mode = 1;
   t.add("number", {{"k", k}, {"n", n}, {"t", id}, {"v", std::to_string(type) + ":" + std::to_string(v)}});
   return;
  }
  if (tag >= 254) return;
  // on a stream, where the position of writes is
  int64_t a;
  if (c.b) a = c.b->get_position();
  else if (c.mode == 1 && puts.count(k)) a = puts[k]; // on top of what it holds
  else
  {
   if (c.mode) flush(k);
   c.s->clear();
   a = int64_t(c.s->tellp());
   if (a < 0) {flush(k); a = int64_t(c.s->tellp());}
  }
  const int64_t n = some_size();
  if (f.kind == "stringbuf" && a > f.file->get_size()) return;
  const std::string s = data(a, n);
  if (c.b) c.b->write_data(s.data(), s.size());
  else
  {
   size_t i = 0;
   while (i < s.size())
   {
    if (s.size() < 100 || r.chance(30)) c.s->put(s[i++]);
    else {const size_t m = std::min<size_t>(s.size() - i, size_t(1 + r.below(int64_t(s.size())))); c.s->write(s.data() + i, std::streamsize(m)); i += m;}
   }
   if (!c.s->good()) t.add("bad_stream");
  }
  c.mode = 1;
  puts[k] = a + n;
  mark(c.file, a, n, 0);
  t.add("cwrite", {{"k", k}, {"n", n}, {"t", tag}});
 }
 void cursor_read(int k)
 {
  Cursor &c = curs.at(k);
  if (c.mode == 1 || c.mode == 3) {if (c.b) seek(k); else {flush(k); if (c.mode == 3) seek(k);}}
  alone(k);
  if (c.b)
  {
   // a number that is intact
   const int64_t p = c.b->get_position();
   const auto &l = lit[c.file];
   const int id = p < int64_t(l.size()) ? l[size_t(p)] : 0;
   if (id)
   {
    const Number &x = numbers.at(id);
    bool whole = x.at == p && p + x.n <= int64_t(l.size()) && p + x.n <= files.at(c.file).file->get_size();
    for (int i = 0; whole && i < x.n; i++) whole = l[size_t(p + i)] == id;
    if (whole)
    {
     int64_t v = 0;
     try
     {
      switch (x.type)
      {
       case 0: v = c.b->read<uint8_t>(); break;
       case 1: v = c.b->read<uint16_t>(); break;
       case 2: v = c.b->read<uint32_t>(); break;
       case 3: v = c.b->read<int64_t>(); break;
       case 4: v = c.b->compact_read<int64_t>(); break;
      }
     }
     catch (const std::exception &) {t.add("threw"); return;}
     c.mode = 2;
     t.add("get", {{"k", k}, {"n", c.b->get_position() - p}, {"v", std::to_string(x.type) + ":" + std::to_string(v)}});
     return;
    }
   }
   if (r.chance(15))
   {
    const int64_t n = some_size();
    c.b->ignore(n);
    c.mode = 2;
    t.add("skip", {{"k", k}, {"n", n}});
    return;
   }
  }
  const int64_t n = r.chance(50) ? some_size() : 1 + r.below(10);
  std::string s(size_t(n), 0);
  bool ok = true;
  size_t got = 0;
  int64_t p;
  if (c.b)
  {
   p = c.b->get_position();
   try {got = c.b->read_data(s.data(), s.size());}
   catch (const std::exception &) {ok = false; got = 0;}
   t.add("cread", {{"k", k}, {"n", n}, {"ok", ok}, {"runs", ok ? runs(c.file, p, s.data(), got) : J::raw("[]")}});
  }
  else
  {
   c.s->clear();
   p = c.mode == 2 && positions.count(k) ? positions[k] : int64_t(c.s->tellg());
   if (r.chance(50)) {c.s->read(s.data(), std::streamsize(n)); got = size_t(c.s->gcount());}
   else {int ch; while (int64_t(got) < n && (ch = c.s->get()) != EOF) s[got++] = char(ch);}
   ok = int64_t(got) == n;
   positions[k] = p + int64_t(got);
   t.add("cread", {{"k", k}, {"n", n}, {"ok", ok}, {"runs", runs(c.file, p, s.data(), got)}});
  }
  c.mode = ok ? 2 : 3;
  if (c.s && c.mode == 2 && r.chance(40))
  {
   int m = 1 + int(r.below(r.chance(80) ? 3 : 10));
   while (m-- > 0 && positions[k] > 0)
   {
    c.s->unget();
    if (!c.s->good()) {t.add("cannot_unget"); c.s->clear();}
    positions[k]--;
    t.add("unget", {{"k", k}});
   }
  }
 }
 std::map<int, int64_t> positions; // of reads of streams
 std::map<int, int64_t> puts;      // of writes of streams that hold some
 void close_cursor(int k) {curs.erase(k); t.add("close", {{"k", k}});}

 void cursor_step()
 {
  const int k = std::next(curs.begin(), r.below(int64_t(curs.size())))->first;
  const int x = int(r.below(100));
  if (x < 15) {seek(k); positions.erase(k);}
  else if (x < 50) {for (int i = int(r.below(6)); i >= 0; i--) cursor_write(k);}
  else if (x < 85) {for (int i = int(r.below(8)); i >= 0; i--) if (curs.at(k).mode != 3) cursor_read(k); else {seek(k); positions.erase(k);}}
  else if (x < 92) {if (!(curs.at(k).mode == 3 && curs.at(k).b)) {flush(k); positions.erase(k);}}
  else if (x < 97) {if (curs.at(k).mode != 3) {tell(k); if (curs.at(k).s) {curs.at(k).mode = 0; positions.erase(k);}}}
  else close_cursor(k);
  if (curs.count(k) && curs.at(k).b && curs.at(k).mode != 3) tell(k);
 }
};

static void run_files(Trace &t, Rng &r, const std::vector<std::string> &kinds, bool large, bool kills)
{
 World w{t, r, large};
 const int n = r.chance(50) ? 2 : 1;
 for (int i = 0; i < n; i++)
 {
  const std::string name(1, char('a' + i));
  Some_File f;
  f.name = name;
  f.kind = kinds[size_t(r.below(int64_t(kinds.size())))];
  w.files[name] = std::move(f);
  w.files[name].open(true);
  t.add("create", {{"f", name}, {"kind", w.files[name].kind}, {"kills", kills}});
  w.lit[name];
 }
 for (int i = 10 + int(r.below(large ? 15 : 40)); i > 0; i--)
 {
  Some_File &f = w.some_file();
  const int x = int(r.below(100));
  if (!w.curs.empty() && r.chance(50)) {w.cursor_step(); continue;}
  if (x < 30) w.write(f);
  else if (x < 55) w.read(f);
  else if (x < 60) w.size(f);
  else if (x < 66) w.view(f);
  else if (x < 74) w.copy();
  else if (x < 78) w.sync(f);
  else if (x < 82) w.reopen(f);
  else if (kills && f.encoded()) {if (x < 90) w.kill(f);}
  else if (w.curs.size() < 2 && !kills) w.open_cursor(r.chance(40));
 }
 for (auto &[name, f]: w.files) {w.quiet(name); w.read(f, true);}
}

// A journal in an encoded file
struct Counter: public Dummy_Writable
{
 std::vector<std::string> comments;
 void comment(const std::string &c) override {comments.push_back(c);}
};
static void journals(Trace &t, Rng &r)
{
 Some_File f;
 f.name = "j";
 f.kind = r.chance(50) ? "brotli" : "identity";
 f.open(true);
 int written = 0;
 const auto text = [](int i, int64_t n) {std::string s = std::to_string(i) + "."; while (int64_t(s.size()) < n) s += char('a' + (i * 7 + int(s.size())) % 26); return s;};
 std::vector<int64_t> sizes;
 const auto check = [&]()
 {
  if (f.file->get_size() == 0) return 0;
  Readonly_Journal j(*f.file);
  Counter c;
  std::string what;
  try {j.replay_log(c);} catch (const std::exception &e) {what = e.what();}
  bool good = what.empty() && c.comments.size() <= sizes.size();
  for (size_t i = 0; good && i < c.comments.size(); i++) good = c.comments[i] == text(int(i) + 1, sizes[i]);
  return good ? int(c.comments.size()) : -1;
 };
 for (int round = 0; round < 4; round++)
 {
  bool killed = false, power = false;
  std::string image;
  {
   std::unique_ptr<Writable_Journal> j;
   try {j = std::make_unique<Writable_Journal>(Journal_Construction_Lock(*f.file, Recovery::overwrite));}
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}}); return;}
   Counter c;
   j->replay_log(c);
   t.add("opened", {{"n", c.comments.size()}});
   written = int(c.comments.size());
   sizes.resize(size_t(written));
   for (int i = int(r.below(20)); i > 0; i--)
   {
    const int x = int(r.below(10));
    if (x < 6)
    {
     const int64_t n = r.chance(70) ? r.below(30) : r.chance(80) ? r.below(10000) : 700000 + r.below(500000);
     sizes.push_back(std::max<int64_t>(n, int64_t(std::to_string(written + 1).size()) + 1));
     written++;
     j->comment(text(written, n));
     t.add("op", {{"i", written}});
    }
    else if (x < 8) {j->soft_checkpoint(); t.add("soft");}
    else if (x < 9) {j->hard_checkpoint(); t.add("hard");}
    else {char c; f.file->pread(&c, 1, 0);}
   }
   killed = r.chance(50);
   power = r.chance(50);
   if (killed) image = f.tape->image(r, power);
   else {j->soft_checkpoint(); t.add("soft");}
  }
  f.close();
  if (killed) {f.tape = std::make_unique<Tape>(); f.tape->get_data() = image; f.tape->mark();}
  f.open(false);
  t.add(killed ? "killed" : "closed", {{"power", power}});
  t.add("shown", {{"n", check()}});
 }
}

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 Trace_Writer out(argv[1]);
 const uint64_t seed = uint64_t(atoll(argv[2]));
 const int count = atoi(argv[3]);
 const std::string part = argv[4];
 const char *only = argc > 5 ? argv[5] : nullptr;
 for (const char p: part)
  for (int i = 0; i < count; i++)
  {
   Trace t;
   t.id = std::string(1, p) + "-" + std::to_string(seed) + "-" + std::to_string(i);
   if (only && t.id != only) continue;
   Rng r(seed * 1000003 + uint64_t(i) * 7 + uint64_t(p));
   Rng rt(seed + uint64_t(i));
   truncating = r.chance(50) ? &rt : nullptr;
   fprintf(stderr, "%s\n", t.id.c_str());
   try
   {
    if (p == 'f') run_files(t, r, {"posix", "shared", "memory", "portable", "stringbuf", "filebuf"}, false, false);
    else if (p == 'e') run_files(t, r, {"identity", "identity", "brotli", "memory"}, r.chance(10), r.chance(50));
    else journals(t, r);
   }
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}});}
   out.write(t);
  }
 out.close();
 printf("{\"traces\":%zu,\"events\":%zu}\n", out.traces, out.events);
 return 0;
}
