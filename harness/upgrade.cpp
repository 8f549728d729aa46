// Generated programs of three versions of a schema open files of any schema: conformance with Upgrade.tla
#include "data_gen.h"
#include "up1/writable.h"
#include "up2/writable.h"
#include "up3/writable.h"
#include "up1/readonly.h"
#include "up2/readonly.h"
#include "up3/readonly.h"
#include "up1/Readable.h"
#include "up2/Readable.h"
#include "up3/Readable.h"
#include "up1/Client.h"
#include "up2/Client.h"
#include "up3/Client.h"
#include "up1/Readonly_Client.h"
#include "up2/Readonly_Client.h"
#include "up3/Readonly_Client.h"
#include "up1/Interpreted_File_Database.h"
#include "up2/Interpreted_File_Database.h"
#include "joedb/journal/Upgradable_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/error/Out_Of_Date.h"

#include <unistd.h>

using namespace verif;

struct Planned {};

// The functions of the upgrades
static std::string calls; // [name, identifiers]
static int fail_in = -1; // how many calls from now
static void call(const char *name, const Val &ids)
{
 calls += std::string(calls.empty() ? "" : ",") + "[\"" + name + "\"," + J(ids).t + ']';
 if (fail_in >= 0 && fail_in-- == 0) throw Planned{};
}
template<typename D> static void set_language(D &db)
{
 const auto l = db.new_language();
 db.set_code(l, 7);
 call("set_language", {l.get_id()});
 for (const auto p: db.get_person_table()) db.set_language(p, l);
}
void up2::Writable_Database::set_language(Writable_Database &db) {::set_language(db);}
void up3::Writable_Database::set_language(Writable_Database &db) {::set_language(db);}
void up3::Writable_Database::count_people(Writable_Database &db)
{
 int n = 0;
 for (const auto p: db.get_person_table()) {n++; if (db.get_language(p).is_null()) n += 100;}
 db.set_level(int16_t(n));
 call("count_people", {});
}
void up3::Writable_Database::add_town(Writable_Database &db)
{
 const auto a = db.new_town();
 const auto b = db.new_vector_of_town(2);
 call("add_town", {a.get_id(), b.get_id()});
 db.delete_town(a);
}

template<typename T> static typename std::decay<decltype(*std::declval<T>().begin())>::type pick(const T &table, Rng &r)
{
 auto it = table.begin();
 for (int64_t i = r.below(int64_t(table.get_size())); i > 0; i--) ++it;
 return *it;
}

struct V1
{
 static const int v = 1;
 typedef up1::Writable_Database W; typedef up1::Readonly_Database R; typedef up1::Client C; typedef up1::Readonly_Client F; typedef up1::Readable RD;
 static void data(W &db, Rng &r)
 {
  switch (r.below(6))
  {
   case 0: db.new_person("p", int32_t(r.below(9))); break;
   case 1: if (!db.get_person_table().is_empty()) db.set_age(pick(db.get_person_table(), r), int32_t(r.below(100))); break;
   case 2: if (!db.get_person_table().is_empty()) db.delete_person(pick(db.get_person_table(), r)); break;
   case 3: db.new_city("c"); break;
   case 4: db.new_old(int64_t(r.next())); break;
   case 5: db.new_vector_of_person(size_t(1 + r.below(3))); break;
  }
 }
};
struct V2
{
 static const int v = 2;
 typedef up2::Writable_Database W; typedef up2::Readonly_Database R; typedef up2::Client C; typedef up2::Readonly_Client F; typedef up2::Readable RD;
 static void data(W &db, Rng &r)
 {
  switch (r.below(6))
  {
   case 0: db.new_person(); break;
   case 1: if (!db.get_person_table().is_empty()) db.set_years(pick(db.get_person_table(), r), int32_t(r.below(100))); break;
   case 2: if (!db.get_person_table().is_empty()) db.delete_person(pick(db.get_person_table(), r)); break;
   case 3: {const auto c = db.new_city("c"); if (!db.get_person_table().is_empty()) db.set_home(pick(db.get_person_table(), r), c); break;}
   case 4: db.new_language(int16_t(r.below(100))); break;
   case 5: db.new_vector_of_city(size_t(1 + r.below(3))); break;
  }
 }
};
struct V3
{
 static const int v = 3;
 typedef up3::Writable_Database W; typedef up3::Readonly_Database R; typedef up3::Client C; typedef up3::Readonly_Client F; typedef up3::Readable RD;
 static void data(W &db, Rng &r)
 {
  switch (r.below(6))
  {
   case 0: db.new_person(); break;
   case 1: if (!db.get_person_table().is_empty()) db.set_years(pick(db.get_person_table(), r), int32_t(r.below(100))); break;
   case 2: if (!db.get_town_table().is_empty()) db.delete_town(pick(db.get_town_table(), r)); break;
   case 3: {const auto c = db.new_town(); db.set_name(c, "x"); db.set_motto(c, "y"); break;}
   case 4: db.set_level(int16_t(r.below(1000))); break;
   case 5: db.new_vector_of_town(size_t(1 + r.below(3))); break;
  }
 }
};

// A file shared by openings in turns, that calls a function before a lock, and records the writes
class Watched_File: public Turn_File
{
 public:
  using Turn_File::Turn_File;
  int depth = 0, hook_at = -1;
  std::function<void()> hook;
  std::vector<std::pair<int64_t, std::string>> writes;
  void lock()
  {
   if (depth == 0 && hook_at >= 0 && hook_at-- == 0 && hook) hook();
   depth++;
  }
  void shared_lock(int64_t, int64_t) override {lock();}
  void exclusive_lock(int64_t, int64_t) override {lock();}
  void unlock(int64_t, int64_t) noexcept override {depth--;}
  void pwrite(const char *p, size_t n, int64_t o) override
  {
   writes.emplace_back(o, std::string(p, n));
   Turn_File::pwrite(p, n, o);
  }
};

static std::vector<Op> committed(const std::string &bytes)
{
 Recorder rec;
 Copy_File f(bytes, Open_Mode::read_existing);
 if (bytes.size() < 41) return {};
 Readonly_Journal j(f);
 j.replay_log(rec);
 return rec.ops;
}
static J ops_json(const std::vector<Op> &ops, size_t from)
{
 Recorder x;
 for (size_t i = from; i < ops.size(); i++) x.ops.push_back(ops[i]);
 return x.json();
}
static J content(const std::string &bytes)
{
 Database db;
 Copy_File f(bytes, Open_Mode::read_existing);
 if (bytes.size() >= 41) {Readonly_Journal j(f); j.replay_log(db);}
 return show(db);
}

// A client that stays open
struct Session
{
 int v = 0;
 bool follower = false;
 virtual ~Session() = default;
 virtual J view() = 0;
 virtual bool transaction(Rng &r, bool &ran) = 0;
 virtual bool pull() = 0;
};
template<typename P> struct Client_Session: public Session
{
 std::unique_ptr<Watched_File> file;
 Shared_Bytes replica;
 std::unique_ptr<Journal_Connection> connection;
 std::unique_ptr<typename P::C> c;
 J view() override {return show(typename P::RD(c->get_database()));}
 bool transaction(Rng &r, bool &ran) override
 {
  try {c->transaction([&](typename P::W &db) {ran = true; for (int i = int(r.below(4)); i >= 0; i--) P::data(db, r);});}
  catch (const std::exception &e) {fprintf(stderr, "%s\n", e.what()); return false;}
  return true;
 }
 bool pull() override
 {
  try {c->pull();}
  catch (const std::exception &e) {return false;}
  return true;
 }
};
template<typename P> struct Follower_Session: public Session
{
 std::unique_ptr<Turn_File> file;
 std::unique_ptr<typename P::F> c;
 Follower_Session() {follower = true;}
 J view() override {return show(typename P::RD(c->get_database()));}
 bool transaction(Rng &r, bool &ran) override {return false;}
 bool pull() override
 {
  try {c->pull();}
  catch (const std::exception &e) {return false;}
  return true;
 }
};

template<typename F> static std::string attempt(const F &f)
{
 try {f();}
 catch (const Planned &) {return "threw";}
 catch (const Out_Of_Date &e) {return "old";}
 catch (const std::exception &e) {return strstr(e.what(), "incompatible schema") ? "foreign" : e.what();}
 return "ok";
}

struct World
{
 Trace &t;
 Rng &r;
 Shared_Bytes bytes;
 size_t known = 0; // operations in the trace
 // when it exists, all the writers are connected to it
 std::unique_ptr<Turn_File> server_file;
 std::unique_ptr<Writable_Journal> server;
 std::map<int, std::unique_ptr<Session>> sess;
 int next_id = 1;

 void serve()
 {
  server_file = std::make_unique<Turn_File>(bytes, Open_Mode::write_existing);
  server = std::make_unique<Writable_Journal>(*server_file);
 }

 J fresh() // what was committed since
 {
  const auto ops = committed(bytes.data);
  const J j = ops_json(ops, std::min(known, ops.size()));
  if (ops.size() < known) t.add("lost");
  known = ops.size();
  return j;
 }
 void written()
 {
  const auto ops = committed(bytes.data);
  for (size_t i = known; i < ops.size(); i++) t.add("op", {{"op", J::raw(ops[i].json())}});
  known = ops.size();
 }
 void event(int id, int v, const char *mode, const std::string &res, const J &w)
 {
  const std::string c = calls;
  calls.clear();
  t.add("open", {{"id", id}, {"v", v}, {"mode", mode}, {"res", res}, {"calls", J::raw('[' + c + ']')}, {"ops", fresh()}, {"w", w}});
  t.add("file", {{"w", content(bytes.data)}});
 }

 template<typename P> void open_once(int kind, bool may_fail)
 {
  J w = J::raw("[]");
  std::string res;
  fail_in = may_fail && r.chance(25) ? int(r.below(3)) : -1;
  calls.clear();
  const char *mode = "write";
  std::string image = bytes.data;
  switch (kind)
  {
   case 0:
   {
    Watched_File f(bytes, Open_Mode::write_existing);
    res = attempt([&]() {typename P::W db(f, Recovery::overwrite); w = show(typename P::RD(db));});
    if (may_fail && r.chance(40) && res == "ok")
    {
     // the process dies at one of these writes
     const size_t n = size_t(r.below(int64_t(f.writes.size()) + 1));
     for (size_t i = 0; i <= n && i < f.writes.size(); i++)
     {
      const auto &[o, d] = f.writes[i];
      const size_t m = i < n ? d.size() : r.chance(50) ? size_t(r.below(int64_t(d.size()) + 1)) : 0;
      if (size_t(o) + m > image.size()) image.resize(size_t(o) + m);
      memcpy(image.data() + o, d.data(), m);
     }
     bytes.data = image;
     const std::string c = calls;
     calls.clear();
     sess.clear();
     t.add("died", {{"v", P::v}, {"calls", J::raw('[' + c + ']')}, {"ops", fresh()}});
     t.add("file", {{"w", content(bytes.data)}});
     return;
    }
    break;
   }
   case 1:
   {
    mode = "view";
    Upgradable_File<Readonly_Memory_File> f(image.data(), image.size());
    res = attempt([&]() {typename P::W db(f); w = show(typename P::RD(db));});
    break;
   }
   case 2:
   {
    mode = "read";
    Turn_File f(bytes, Open_Mode::read_existing);
    res = attempt([&]() {typename P::R db(f); w = show(typename P::RD(db));});
    break;
   }
  }
  if (kind == 1 || kind == 2) if (image != bytes.data) t.add("changed");
  fail_in = -1;
  event(0, P::v, mode, res, w);
 }
 template<typename P> void open_session(int kind, bool nested = false)
 {
  const int id = next_id++;
  J w = J::raw("[]");
  std::string res;
  calls.clear();
  const char *mode = "client";
  if (kind == 2)
  {
   mode = "follow";
   auto s = std::make_unique<Follower_Session<P>>();
   s->file = std::make_unique<Turn_File>(bytes, Open_Mode::read_existing);
   res = attempt([&]() {s->c = std::make_unique<typename P::F>(*s->file); w = s->view();});
   s->v = P::v;
   if (s->c) sess[id] = std::move(s);
  }
  else
  {
   fail_in = !nested && r.chance(20) ? int(r.below(3)) : -1;
   auto s = std::make_unique<Client_Session<P>>();
   if (kind == 1)
   {
    mode = "connected";
    if (r.chance(50)) s->replica.data = bytes.data;
    s->file = std::make_unique<Watched_File>(s->replica, Open_Mode::write_existing_or_create_new);
    s->connection = std::make_unique<Journal_Connection>(*server);
   }
   else
   {
    s->file = std::make_unique<Watched_File>(bytes);
    if (!nested && r.chance(30))
    {
     // somebody else opens the file while this one waits for a lock
     const int other = int(r.below(3)), k = int(r.below(2)) * 2;
     s->file->hook_at = int(r.below(5));
     const int f = fail_in;
     s->file->hook = [this, other, k, f]() {const std::string c = calls; fail_in = -1; some_session(other, k, true); calls = c; fail_in = f;};
    }
   }
   res = attempt([&]()
   {
    if (kind == 1) s->c = std::make_unique<typename P::C>(*s->file, *s->connection, Content_Check::full, Recovery::overwrite);
    else s->c = std::make_unique<typename P::C>(*s->file, Connection::dummy, Content_Check::fast, Recovery::overwrite);
    w = s->view();
   });
   s->file->hook_at = -1;
   s->v = P::v;
   if (s->c) sess[id] = std::move(s);
  }
  fail_in = -1;
  event(id, P::v, mode, res, w);
 }
 void some_session(int v, int kind, bool nested = false)
 {
  if (v == 0) open_session<V1>(kind, nested);
  else if (v == 1) open_session<V2>(kind, nested);
  else open_session<V3>(kind, nested);
 }
 void some_open(int v, int kind)
 {
  if (v == 0) open_once<V1>(kind, true);
  else if (v == 1) open_once<V2>(kind, true);
  else open_once<V3>(kind, true);
 }
 void use(int id)
 {
  Session &s = *sess.at(id);
  bool ran = false;
  const bool tr = !s.follower && r.chance(60);
  const bool ok = tr ? s.transaction(r, ran) : s.pull();
  written();
  J w = J::raw("[]");
  if (ok) w = s.view();
  t.add("use", {{"id", id}, {"how", tr ? "transaction" : "pull"}, {"ok", ok}, {"ran", ran}, {"w", w}});
 }
};

static std::vector<Op> schema3()
{
 Readonly_Memory_File f(up3::detail::schema_string, up3::detail::schema_string_size);
 Readonly_Journal j(f);
 Recorder rec;
 j.replay_log(rec);
 return rec.ops;
}

// A file with some of the statements, perhaps with a difference, and data
static void base(World &x, Rng &r)
{
 auto schema = schema3();
 static const size_t marks[] = {0, 7, 14};
 size_t n = r.chance(60) ? (r.chance(75) ? marks[r.below(3)] : schema.size()) : size_t(r.below(int64_t(schema.size()) + 1));
 schema.resize(n);
 if (r.chance(15))
 {
  const int k = int(r.below(4));
  if (k == 0 || n == 0) schema.insert(schema.begin() + r.below(int64_t(n) + 1), Op{"create_table", {}, "extra"});
  else
  {
   Op &op = schema[size_t(r.below(int64_t(n)))];
   if (k == 1) {if (!op.s.empty()) op.s += "x";}
   else if (k == 2) {if (op.o == "add_field" && op.y != "reference") op.y = op.y == "int16" ? "int8" : "int16";}
   else schema.push_back(Op{"custom", {}, "something_else"});
  }
 }
 Watched_File f(x.bytes, Open_Mode::write_existing_or_create_new);
 Writable_Journal j(f);
 Database db;
 Gen g;
 g.max_id = 8;
 g.max_string = 20;
 const auto write = [&](Op op)
 {
  try {perform(op, db);}
  catch (const std::exception &) {return;}
  perform(op, j);
  g.apply(op);
  x.t.add("op", {{"op", J::raw(op.json())}});
 };
 for (size_t i = 0; i <= schema.size(); i++)
 {
  for (int k = int(r.below(6)) - 1; k > 0 && !g.tabs.empty(); k--)
  {
   const int t = g.some_table(r);
   if (g.tabs.at(t).name == "settings") continue;
   const auto &rows = g.tabs.at(t).rows;
   const int f = g.some_field(r, t);
   switch (r.below(7))
   {
    case 0: case 1: case 2: {int id = int(r.below(6)); while (rows.count(id)) id++; write({"insert", {t, id}}); break;}
    case 3: if (!rows.empty()) write({"delete", {t, Gen::some(r, rows)}}); break;
    case 4: if (!rows.empty() && f) {const auto &field = g.tabs.at(t).fields.at(f); write({"update", {t, Gen::some(r, rows), f}, "", {g.some_value(r, field.type, field.ref)}, field.type});} break;
    case 5:
     if (!rows.empty() && f)
     {
      const auto &field = g.tabs.at(t).fields.at(f);
      const auto [a, m] = g.some_run(r, t);
      Op op{"update_vector", {t, a, f, m}, "", {}, field.type};
      for (int q = 0; q < m; q++) op.v.push_back(g.some_value(r, field.type, field.ref));
      write(op);
     }
     break;
    case 6: write({"comment", {}, "hello"}); break;
   }
  }
  if (i < schema.size())
  {
   write(schema[i]);
   if (schema[i].o == "create_table" && schema[i].s == "settings") write({"insert", {g.nextt, 0}});
  }
 }
 j.soft_checkpoint();
 x.known = committed(x.bytes.data).size();
}

static void files(Trace &t, Rng &r)
{
 World x{t, r};
 base(x, r);
 t.add("file", {{"w", content(x.bytes.data)}});
 if (r.chance(35)) x.serve();
 const int n = 4 + int(r.below(10));
 for (int i = 0; i < n; i++)
 {
  const int k = int(r.below(100));
  if (k < 30) x.some_open(int(r.below(3)), x.server ? 1 + int(r.below(2)) : int(r.below(3)));
  else if (k < 50 && x.sess.size() < 4) x.some_session(int(r.below(3)), (x.server ? 1 : 0) + (r.chance(30) ? x.server ? 1 : 2 : 0));
  else if (k < 95 && !x.sess.empty()) x.use(std::next(x.sess.begin(), r.below(int64_t(x.sess.size())))->first);
  else if (!x.sess.empty())
  {
   const auto it = std::next(x.sess.begin(), r.below(int64_t(x.sess.size())));
   const int id = it->first;
   x.sess.erase(it);
   t.add("close", {{"id", id}});
  }
 }
 while (!x.sess.empty()) {const int id = x.sess.begin()->first; x.use(id); x.sess.erase(id); t.add("close", {{"id", id}});}
}

// Files of text
template<typename I, typename RD, typename V> static void text_open(Trace &t, Rng &r, size_t &known)
{
 const char *name = "t.joedbi";
 calls.clear();
 fail_in = r.chance(15) ? 0 : -1;
 J w = J::raw("[]");
 std::unique_ptr<I> db;
 const auto read = [&]() {Interpreted_File f(name, Open_Mode::read_existing); Readonly_Journal j(f); Recorder rec; j.replay_log(rec); return rec.ops;};
 const std::string res = attempt([&]() {db = std::make_unique<I>(name); w = show(RD(*db));});
 fail_in = -1;
 const auto ops = read();
 t.add("open", {{"id", 0}, {"v", V::v}, {"mode", "text"}, {"res", res}, {"calls", J::raw('[' + calls + ']')}, {"ops", ops_json(ops, std::min(known, ops.size()))}, {"w", w}});
 if (ops.size() < known) t.add("lost");
 known = ops.size();
 if (db)
 {
  for (int i = int(r.below(5)); i > 0; i--) V::data(*db, r);
  db->soft_checkpoint();
  db.reset();
  const auto more = read();
  for (size_t i = known; i < more.size(); i++) t.add("op", {{"op", J::raw(more[i].json())}});
  known = more.size();
 }
 Interpreted_File f(name, Open_Mode::read_existing); Readonly_Journal j(f); Database d; j.replay_log(d);
 t.add("file", {{"w", show(d)}});
}
static void texts(Trace &t, Rng &r)
{
 unlink("t.joedbi");
 size_t known = 0;
 for (int i = 0; i < 5; i++)
  if (r.chance(55)) text_open<up1::Interpreted_File_Database, up1::Readable, V1>(t, r, known);
  else text_open<up2::Interpreted_File_Database, up2::Readable, V2>(t, r, known);
}

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 Trace_Writer out(argv[1]);
 const uint64_t seed = uint64_t(atoll(argv[2]));
 const int count = atoi(argv[3]);
 const std::string part = argv[4];
 const char *only = argc > 5 ? argv[5] : nullptr;
 for (const char p: part)
  for (int i = 0; i < count; i++)
  {
   Trace t;
   t.id = std::string(1, p) + "-" + std::to_string(seed) + "-" + std::to_string(i);
   if (only && t.id != only) continue;
   Rng r(seed * 1000003 + uint64_t(i) * 7 + uint64_t(p));
   fprintf(stderr, "%s\n", t.id.c_str());
   try
   {
    if (p == 'f') files(t, r);
    else texts(t, r);
   }
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}});}
   out.write(t);
  }
 out.close();
 printf("{\"traces\":%zu,\"events\":%zu}\n", out.traces, out.events);
 return 0;
}
