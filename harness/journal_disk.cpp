// Drive real journals over a recorded disk; emit every file operation, every
// checkpoint call, and what the real recovery code makes of crash images.
//
// usage: journal_disk OUT.json SEED COUNT LEVEL [posix DIR]
#include "common.h"

#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/error/Destructor_Logger.h"

#include <array>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>

using namespace joedb;
using namespace verif;

typedef std::array<int64_t, 4> Slots;

struct Killed {};

struct Pending {int64_t offset; std::string data;};

struct Disk
{
 std::string cur;
 std::string durable;
 std::vector<Pending> pending;
 bool existsD = false, exists = false;
 Slots slotC{}, slotD{};
 std::array<std::vector<int64_t>, 4> slotP;
 std::vector<Slots> hist{Slots{}};
 bool strict = true;

 Trace *trace = nullptr;
 std::function<void()> after;

 int64_t ops = 0;
 int64_t kill_at = -1;
 int64_t torn = -1; // number of bytes written by the write that is interrupted
 bool dead = false;

 void clear_pending_slots()
 {
  slotD = slotC;
  for (auto &p: slotP) p.clear();
  hist.assign(1, slotC);
  strict = true;
 }

 void kill()
 {
  strict = strict && hist.size() == 1 && hist[0] == slotC;
  trace->add("kill");
  dead = true;
 }

 void apply(const char *data, size_t size, int64_t offset)
 {
  const std::string before = cur;
  const size_t end = size_t(offset) + size;
  if (cur.size() < end) cur.resize(end);
  memcpy(&cur[offset], data, size);
  pending.push_back({offset, std::string(data, size)});

  int64_t chg = -1;
  for (size_t i = std::max<size_t>(41, offset); i < end && i < before.size(); i++)
   if (before[i] != cur[i]) {chg = int64_t(i); break;}

  std::string s = "[";
  for (int k = 0; k < 4; k++)
   if (offset <= 8 * k && int64_t(end) >= 8 * k + 8)
   {
    memcpy(&slotC[k], &cur[8 * k], 8);
    slotP[k].push_back(slotC[k]);
    // positions are small; anything else is given as a bad negative position
    int64_t v = slotC[k];
    if (v > 1000000000 || v < -1000000000) v = 999999999;
    if (s.size() > 1) s += ',';
    s += "[" + std::to_string(k + 1) + "," + std::to_string(v) + "]";
   }
   else if (offset < 8 * k + 8 && int64_t(end) > 8 * k)
   {
    // a checkpoint is written by one write operation
    trace->add("partial_header_write", {{"offset", offset}, {"size", size}});
   }
  if (hist.back() != slotC) hist.push_back(slotC);
  const bool sig = offset <= 32 && end >= 41;
  if (sig) exists = true;
  const int64_t a = std::max<int64_t>(41, offset);
  trace->add("w", {{"s", J::raw(s + "]")}, {"sig", sig}, {"a", a}, {"b", std::max<int64_t>(int64_t(end), a)}, {"chg", chg}});
 }

 void point(const char *data, size_t size, int64_t offset)
 {
  if (ops++ == kill_at)
  {
   if (data && torn > 0 && offset >= 41 && size > 1)
    apply(data, std::min<size_t>(size - 1, torn), offset);
   kill();
   throw Killed();
  }
 }

 void pwrite(const char *data, size_t size, int64_t offset)
 {
  if (dead) return;
  point(data, size, offset);
  if (size == 0) return;
  apply(data, size, offset);
  if (after) after();
 }

 void sync()
 {
  if (dead) return;
  point(nullptr, 0, 0);
  durable = cur;
  pending.clear();
  existsD = exists;
  clear_pending_slots();
  trace->add("sync");
  if (after) after();
 }

 void datasync()
 {
  if (dead) return;
  point(nullptr, 0, 0);
  const size_t n = durable.size();
  durable = cur.substr(0, n);
  std::vector<Pending> p;
  for (auto &x: pending)
   if (x.offset + x.data.size() > n)
   {
    const int64_t skip = std::max<int64_t>(0, int64_t(n) - x.offset);
    p.push_back({x.offset + skip, x.data.substr(skip)});
   }
  pending = std::move(p);
  existsD = existsD || (exists && n >= 41);
  clear_pending_slots();
  trace->add("dsync");
  if (after) after();
 }
};

// A file kept in memory, that records
class Rec_File: public Abstract_File
{
 public:
  Disk &disk;
  Rec_File(Disk &disk): Abstract_File(Open_Mode::write_existing_or_create_new), disk(disk) {}
  int64_t get_size() const override {return int64_t(disk.cur.size());}
  size_t pread(char *data, size_t size, int64_t offset) const override
  {
   if (size_t(offset) >= disk.cur.size()) return 0;
   const size_t n = std::min(size, disk.cur.size() - size_t(offset));
   memcpy(data, disk.cur.data() + offset, n);
   return n;
  }
  void pwrite(const char *data, size_t size, int64_t offset) override {disk.pwrite(data, size, offset);}
  void sync() override {disk.sync();}
  void datasync() override {disk.datasync();}
};

//////////////////////////////////////////////////////////////////////////////
// Interposition of system calls, for real files
//////////////////////////////////////////////////////////////////////////////
static Disk *posix_disk = nullptr;

template<typename F> static F next(const char *name)
{
 return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

static ssize_t do_pwrite(int fd, const void *data, size_t size, off_t offset)
{
 static auto real = next<ssize_t(*)(int, const void *, size_t, off_t)>("pwrite64");
 if (!posix_disk) return real(fd, data, size, offset);
 if (posix_disk->dead) return ssize_t(size);
 // the system may write less than asked
 if (size > 100 && offset >= 41) size = size / 2;
 const bool was_dead = posix_disk->dead;
 const std::string before = posix_disk->cur;
 try {posix_disk->pwrite((const char *)data, size, offset);}
 catch (...)
 {
  if (posix_disk->cur != before)
   (void)!real(fd, posix_disk->cur.data() + offset, posix_disk->cur.size() - offset, offset);
  throw;
 }
 (void)was_dead;
 return real(fd, data, size, offset);
}

extern "C" ssize_t pwrite(int fd, const void *data, size_t size, off_t offset) {return do_pwrite(fd, data, size, offset);}
extern "C" int fsync(int) {if (posix_disk) posix_disk->sync(); return 0;}
extern "C" int fdatasync(int) {if (posix_disk) posix_disk->datasync(); return 0;}

//////////////////////////////////////////////////////////////////////////////
struct Scenario
//////////////////////////////////////////////////////////////////////////////
{
 std::string steps;
 struct Crash {int64_t at; int64_t torn; bool power;};
 std::vector<Crash> crashes;
 bool posix = false;
};

struct Run
{
 Rng rng;
 Trace trace;
 Disk disk;
 std::string posix_name;

 std::unique_ptr<Abstract_File> file;
 std::unique_ptr<Writable_Journal> journal;
 std::unique_ptr<Memory_File> shadow_file;
 std::unique_ptr<Writable_Journal> shadow;
 std::string want; // bytes that were written, from the beginning of the log
 int level = 1;
 bool after_power = false;
 bool ignored = false; // header ignored once: hard checkpoints are abandoned
 bool probing = false;
 int64_t op_counter = 0;
 int64_t hard_ret = 0;
 std::set<std::string> seen_probes;

 Run(uint64_t seed): rng(seed) {}

 static Slots slots_of(const std::string &image)
 {
  Slots s{};
  if (image.size() >= 32) memcpy(s.data(), image.data(), 32);
  return s;
 }

 static J slots_json(const Slots &s)
 {
  std::vector<int64_t> v(s.begin(), s.end());
  return J(v);
 }

 static int64_t hard_of(const Slots &s)
 {
  int64_t r = 41;
  for (int i = 0; i < 2; i++)
   if (s[2 * i] == s[2 * i + 1]) r = std::max(r, s[2 * i]);
  return r;
 }

 bool same(const std::string &image, int64_t until) const
 {
  const size_t n = size_t(until);
  if (n < 41 || image.size() < n || want.size() < n) return n == 41;
  return memcmp(image.data() + 41, want.data() + 41, n - 41) == 0;
 }

 void probe(const char *kind, const std::string &image, const char *mode)
 {
  const Slots h = slots_of(image);
  bool ok = true;
  int64_t cp = 0, again = 0;
  std::string after = image;
  std::string m = mode;
  Memory_File f(m == "ro" ? Open_Mode::read_existing : Open_Mode::create_new);
  f.get_data() = image;
  try
  {
   if (m == "ro")
   {
    Readonly_Journal j(f);
    again = cp = j.get_checkpoint();
    j.pull();
    // pulling does not check the size of the file: it is checked when opening
    if (kind[1] == 'r') again = j.get_checkpoint();
   }
   else
   {
    const Recovery r = m == "none" ? Recovery::none : m == "ignore" ? Recovery::ignore_header : Recovery::overwrite;
    {
     Writable_Journal j(Journal_Construction_Lock(f, r));
     again = cp = j.get_checkpoint();
     if (r == Recovery::overwrite)
     {
      j.pull();
      again = j.get_checkpoint();
      if (again == cp)
      {
       j.skip_directly_to(cp);
       j.comment(std::string(200 + disk.cur.size(), 'x'));
       j.flush();
       after = f.get_data();
      }
     }
    }
    if (r == Recovery::overwrite && again == cp && !image.empty())
    {
     // what was written since then is not checkpointed
     Memory_File g(Open_Mode::read_existing);
     g.get_data() = f.get_data();
     Readonly_Journal j(g);
     if (j.get_checkpoint() != cp) again = j.get_checkpoint();
    }
   }
  }
  catch (const Exception &e)
  {
   ok = false;
   if (cp) {ok = true; again = -1;} // failed after opening
  }
  const bool modified = m == "overwrite" && ok ? true : f.get_data() != image;
  const int64_t sz = int64_t(image.size());
  const int64_t until = kind[1] == 'r' ? cp : hard_of(h);
  const bool eq = same(image, until);
  Fields fields{{"kind", kind}, {"mode", mode}, {"h", slots_json(h)}, {"size", sz}, {"ok", ok}, {"cp", cp}, {"again", again}, {"hard", hard_of(h)}, {"same", eq}, {"modified", modified}};
  std::string key = object(fields) + std::to_string(hard_ret);
  if (seen_probes.insert(key).second)
   trace.add("probe", fields);
 }

 std::string power_image(Rng &r, const Slots *header = nullptr)
 {
  Slots h;
  if (header)
   h = *header;
  else if (!disk.strict)
   h = disk.hist[r.below(disk.hist.size())];
  else
   for (int k = 0; k < 4; k++)
   {
    const int64_t n = r.below(disk.slotP[k].size() + 1);
    h[k] = n == 0 ? disk.slotD[k] : disk.slotP[k][n - 1];
   }
  const int64_t sizeD = disk.durable.size(), sizeC = disk.cur.size();
  const int64_t choice = r.below(3);
  const int64_t size = choice == 0 ? sizeD : choice == 1 ? sizeC : sizeD + r.below(sizeC - sizeD + 1);
  std::string image = disk.durable;
  image.resize(size_t(sizeC));
  for (const auto &p: disk.pending)
   if (r.chance(50))
    memcpy(&image[p.offset], p.data.data(), p.data.size());
  image.resize(size_t(size));
  memcpy(image.data(), h.data(), 32);
  return image;
 }

 void probes()
 {
  if (!probing) return;
  probing = false;
  if (shadow) {shadow->flush(); want = shadow_file->get_data();}
  probe("proc", disk.cur, "ro");
  if (!after_power) probe("proc", disk.cur, "none");
  probe("proc", disk.cur, "overwrite");
  probe("proc", disk.cur, "ignore");
  if (disk.existsD && !ignored)
   for (int i = 0; i < (level > 1 ? 8 : 3); i++)
   {
    const std::string image = power_image(rng);
    probe("power", image, i & 1 ? "overwrite" : "ro");
   }
  probing = true;
 }

 void open_shadow(int64_t cp)
 {
  shadow.reset();
  shadow_file.reset(new Memory_File());
  if (disk.cur.size() >= 41 && cp > 41)
  {
   std::string d = disk.cur.substr(0, size_t(cp));
   Slots s; s.fill(cp);
   memcpy(d.data(), s.data(), 32);
   shadow_file->get_data() = d;
  }
  shadow.reset(new Writable_Journal(*shadow_file));
  shadow->skip_directly_to(cp);
  shadow->flush();
  want = shadow_file->get_data();
 }

 // returns false if the opening was refused
 bool open(const char *mode)
 {
  trace.add("open1", {{"mode", mode}});
  const Recovery r = mode[0] == 'n' ? Recovery::none : mode[0] == 'i' ? Recovery::ignore_header : Recovery::overwrite;
  bool ok = true;
  int64_t cp = 0;
  try
  {
   journal.reset(new Writable_Journal(Journal_Construction_Lock(*file, r)));
   cp = journal->get_checkpoint();
  }
  catch (const Exception &e)
  {
   ok = false;
  }
  trace.add("open2", {{"ok", ok}, {"cp", cp}});
  if (mode[0] == 'i') {hard_ret = 0; ignored = true;}
  if (ok)
  {
   journal->skip_directly_to(cp);
   open_shadow(cp);
   if (mode[0] == 'o') after_power = false;
   probes();
  }
  return ok;
 }

 void write_op(Writable_Journal &j, int64_t kind, int64_t n)
 {
  switch (kind)
  {
   case 0: j.comment(std::string(size_t(n % 50), char('a' + n % 26))); break;
   case 1: j.create_table("t" + std::to_string(n)); break;
   case 2: j.insert_into(Table_Id(uint16_t(n % 3 + 1)), Record_Id(int(n % 100))); break;
   case 3: j.update_string(Table_Id(1), Record_Id(int(n % 7)), Field_Id(1), std::string(size_t(n % 300), 'z')); break;
   case 4: j.comment(std::string(size_t(5000 + n % 5000), char('A' + n % 26))); break;
   case 5: j.write_blob(std::string(size_t(n % 6000), char('0' + n % 10))); break;
   case 6: j.timestamp(n); j.valid_data(); break;
   case 7:
   {
    std::vector<int64_t> v(size_t(n % 700 + 1), n);
    j.update_vector_int64(Table_Id(1), Record_Id(0), Field_Id(2), v.size(), v.data());
   }
   break;
  }
 }

 void checkpoint(bool hard)
 {
  const int64_t p = journal->get_position();
  trace.add("ask", {{"p", p}, {"k", hard ? "h" : "s"}});
  shadow->flush();
  want = shadow_file->get_data();
  if (hard) journal->hard_checkpoint(); else journal->soft_checkpoint();
  trace.add("ret", {{"p", p}, {"k", hard ? "h" : "s"}, {"cp", journal->get_checkpoint()}});
  if (hard) hard_ret = std::max(hard_ret, p);
  shadow->soft_checkpoint();
 }

 void step(char c)
 {
  const int64_t n = ++op_counter * 37 + rng.below(1000);
  switch (c)
  {
   case 'w': {const int64_t k = rng.below(4); write_op(*shadow, k, n); write_op(*journal, k, n);} break;
   case 'W': {const int64_t k = 4 + rng.below(4); write_op(*shadow, k, n); write_op(*journal, k, n);} break;
   case 'f': shadow->flush(); journal->flush(); break;
   case 's': checkpoint(false); break;
   case 'h': checkpoint(true); break;
   case 'p':
    // pull from another journal that is ahead
    if (journal->get_position() == journal->get_checkpoint())
    {
     shadow->flush();
     Memory_File other_file;
     other_file.get_data() = shadow_file->get_data();
     {Slots s; s.fill(journal->get_checkpoint()); memcpy(other_file.get_data().data(), s.data(), 32);}
     Writable_Journal other(other_file);
     other.skip_directly_to(other.get_checkpoint());
     write_op(other, rng.below(8), n);
     write_op(other, rng.below(4), n + 1);
     other.soft_checkpoint();
     const int64_t p = other.get_checkpoint();
     shadow->pull_from(other);
     shadow->skip_directly_to(p);
     want = shadow_file->get_data();
     trace.add("ask", {{"p", p}, {"k", "s"}});
     journal->pull_from(other);
     trace.add("ret", {{"p", p}, {"k", "s"}, {"cp", journal->get_checkpoint()}});
     journal->skip_directly_to(p);
    }
   break;
   case 'a':
   case 'A':
    // a block received from elsewhere, as a server does
    if (journal->get_position() == journal->get_checkpoint())
    {
     const bool hard = c == 'A';
     std::string block(size_t(20 + n % 3000), char(n));
     Async_Writer sw = shadow->get_async_tail_writer();
     sw.write(block.data(), block.size());
     const int64_t p = sw.get_position();
     shadow->soft_checkpoint_at(p);
     shadow->skip_directly_to(p);
     want = shadow_file->get_data();
     Async_Writer w = journal->get_async_tail_writer();
     w.write(block.data(), block.size() / 2);
     w.write(block.data() + block.size() / 2, block.size() - block.size() / 2);
     trace.add("ask", {{"p", p}, {"k", hard ? "h" : "s"}});
     if (hard) journal->hard_checkpoint_at(p); else journal->soft_checkpoint_at(p);
     trace.add("ret", {{"p", p}, {"k", hard ? "h" : "s"}, {"cp", journal->get_checkpoint()}});
     if (hard) hard_ret = std::max(hard_ret, p);
     journal->skip_directly_to(p);
    }
   break;
   case 'r':
    close();
    reopen();
   break;
   case 'i': // reopen, ignoring the header
    close();
    open("ignore");
   break;
  }
  if (c != 'w') probes();
 }

 void close()
 {
  // closing with unflushed data leaves a tail
  journal.reset();
  if (disk.dead) throw Killed(); // killed by a write made when closing
  trace.add("close");
 }

 void reopen()
 {
  if (after_power || !open("none"))
   open("overwrite");
 }

 void make_file(const Scenario &sc, const std::string &dir)
 {
  file.reset();
  if (sc.posix)
  {
   posix_disk = nullptr;
   posix_name = dir + "/journal.joedb";
   unlink(posix_name.c_str());
   FILE *f = fopen(posix_name.c_str(), "wb");
   fwrite(disk.cur.data(), 1, disk.cur.size(), f);
   fclose(f);
   file.reset(new File(posix_name.c_str(), Open_Mode::write_existing_or_create_new));
   posix_disk = &disk;
  }
  else
   file.reset(new Rec_File(disk));
 }

 // returns the number of file operations
 int64_t run(const Scenario &sc, const std::string &dir)
 {
  std::string crash_text;
  for (const auto &c: sc.crashes)
   crash_text += (c.power ? " power@" : " kill@") + std::to_string(c.at) + (c.torn > 0 ? "t" : "");
  trace.id = (sc.posix ? "posix " : "") + sc.steps + crash_text;
  disk.trace = &trace;
  disk.after = [this]() {probes();};
  probing = true;
  make_file(sc, dir);

  size_t next_crash = 0;
  size_t i = 0;
  bool opening = true;

  while (true)
  {
   if (next_crash < sc.crashes.size())
   {
    disk.kill_at = sc.crashes[next_crash].at;
    disk.torn = sc.crashes[next_crash].torn;
   }
   else
    disk.kill_at = -1;

   try
   {
    if (opening)
    {
     reopen();
     opening = false;
    }
    if (i >= sc.steps.size())
     break;
    step(sc.steps[i++]);
   }
   catch (const Killed &)
   {
    const bool power = sc.crashes[next_crash].power;
    next_crash++;
    probing = false;
    journal.reset();
    file.reset();
    posix_disk = nullptr;
    disk.dead = false;
    if (power && disk.existsD)
    {
     const std::string image = power_image(rng);
     disk.cur = image;
     disk.durable = image;
     disk.pending.clear();
     disk.slotC = slots_of(image);
     disk.clear_pending_slots();
     trace.add("power", {{"h", slots_json(disk.slotC)}, {"size", image.size()}});
     after_power = true;
    }
    make_file(sc, dir);
    probing = true;
    opening = true;
   }
  }
  if (journal) {disk.kill_at = -1; close();}
  file.reset();
  posix_disk = nullptr;
  if (sc.posix) unlink(posix_name.c_str());
  return disk.ops;
 }
};

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 const uint64_t seed = strtoull(argv[2], nullptr, 10);
 const int64_t count = atoll(argv[3]);
 const int level = atoi(argv[4]);
 const std::string dir = argc > 5 ? argv[5] : "";

 Destructor_Logger::set_logger(nullptr);

 Trace_Writer out(argv[1]);
 Rng rng(seed);
 int64_t evaluations = 0, ops = 0;

 const auto go = [&](const Scenario &sc, bool write) -> int64_t
 {
  Run run(seed * 1000003 + uint64_t(evaluations));
  run.level = level;
  evaluations++;
  int64_t n;
  try {n = run.run(sc, dir);}
  catch (const std::exception &e)
  {
   run.trace.add("exception", {{"what", e.what()}});
   write = true;
   n = 0;
   posix_disk = nullptr;
  }
  if (write) out.write(run.trace);
  ops += n;
  return n;
 };

 // every sequence of writes and checkpoints up to some length
 std::vector<std::string> all{""};
 for (int len = 0, begin = 0; len < (level > 1 ? 5 : 4); len++)
 {
  const int end = int(all.size());
  for (int i = begin; i < end; i++)
   for (const char c: {'w', 's', 'h'})
    if (!(all[i].empty() && c != 'w') && !(all[i].size() && all[i].back() != 'w' && c == all[i].back()))
     all.push_back(all[i] + c);
  begin = end;
 }

 // each of them, interrupted at every file operation, then resumed
 static const char *resume[] = {"wsws", "wh", "wswh", "whws", "wr", "wWsrwh"};
 int64_t k = 0;
 for (const auto &s: all)
 {
  if (s.empty()) continue;
  Scenario sc;
  sc.steps = s;
  const int64_t n = go(sc, s.size() >= 3);
  if (s.size() == (level > 1 ? 5 : 4) || s.back() == 'h')
   for (int64_t at = 1; at < n; at++)
   {
    // in the quick check, part of them
    if (level <= 1 && (k++ + int64_t(seed)) % 2) continue;
    for (int power = 0; power < 2; power++)
    {
     Scenario c;
     c.steps = s + resume[(k + at + power) % 6];
     c.crashes.push_back({at, (at + k) % 3 == 0 ? 3 : -1, power == 1});
     if (rng.chance(40))
      c.crashes.push_back({at + 1 + rng.below(12), -1, rng.chance(50)});
     go(c, true);
    }
   }
 }

 // random longer histories
 for (int64_t i = 0; i < count; i++)
 {
  Scenario sc;
  const int64_t n = 5 + rng.below(14);
  const char *alphabet = i % 3 == 0 ? "wwsshhWfr" : i % 3 == 1 ? "wWfsshhpaAr" : "wwWshsshrri";
  for (int64_t j = 0; j < n; j++)
   sc.steps += alphabet[rng.below(strlen(alphabet))];
  int64_t at = 0;
  while (rng.chance(75) && sc.crashes.size() < 4)
  {
   at += 1 + rng.below(15);
   sc.crashes.push_back({at, rng.chance(30) ? 5 : -1, rng.chance(50)});
  }
  if (sc.steps.find('i') != std::string::npos)
   for (auto &c: sc.crashes) c.power = false;
  sc.posix = !dir.empty() && i % 4 == 3;
  go(sc, true);
 }

 out.close();
 printf("{\"evaluations\":%lld,\"traces\":%zu,\"events\":%zu,\"file_operations\":%lld}\n", (long long)evaluations, out.traces, out.events, (long long)ops);
 return 0;
}
