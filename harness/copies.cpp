// Copies of databases: packed, dumped, as text, multiplexed, selected, merged, interpreted files, blobs.
// copies TRACES SEED COUNT PARTS [only-id]   (PARTS among t, m, i, b, p, s; k = known findings)
// Runs in a scratch directory; the tools of joedb are beside this program.
#include "syscalls.h"
#include "data_gen.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Interpreted_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/merge.h"
#include "joedb/ui/inplace_pack.h"
#include "joedb/ui/type_io.h"

#include <sstream>
#include <fstream>
#include <unistd.h>

using namespace verif;

static std::string tools; // directory

static void op_event(Trace &t, const Op &op, bool ok = true) {t.add("op", {{"op", J::raw(op.json())}, {"ok", ok}, {"alloc", false}});}

static std::unique_ptr<Database> replay(const std::string &bytes)
{
 auto db = std::make_unique<Database>();
 Copy_File f(bytes, Open_Mode::read_existing);
 Readonly_Journal(f).replay_log(*db);
 return db;
}

static J log_json(const std::string &bytes)
{
 Copy_File f(bytes, Open_Mode::read_existing);
 Recorder rec;
 Readonly_Journal(f).replay_log(rec);
 return rec.json();
}

static void write_file(const std::string &name, const std::string &s) {std::ofstream(name, std::ios::binary) << s;}
static std::string read_file(const std::string &name)
{
 std::ifstream f(name, std::ios::binary);
 if (!f) throw std::runtime_error("no file " + name);
 std::ostringstream s;
 s << f.rdbuf();
 return s.str();
}
static bool run(const std::string &command) {return system((tools + command + " </dev/null 2>tool.err").c_str()) == 0;}

struct Binary // a memory journal
{
 Memory_File file;
 Writable_Journal journal;
 Binary(): journal(file) {}
 std::string bytes() {journal.soft_checkpoint(); return file.get_data();}
};

static std::string interpret(const std::string &text)
{
 Binary b;
 Database db;
 Multiplexer m{db, b.journal};
 Interpreter interpreter(db, m, Record_Id::null);
 interpreter.set_echo(false);
 interpreter.set_rethrow(true);
 std::istringstream in(text);
 std::ostringstream out;
 interpreter.main_loop(in, out);
 return b.bytes();
}

static std::string again(const std::string &bytes) // the same operations, by one session
{
 Copy_File f(bytes, Open_Mode::read_existing);
 Recorder rec;
 Readonly_Journal(f).replay_log(rec);
 Binary b;
 for (Op &op: rec.ops) perform(op, b.journal);
 return b.bytes();
}

static void replayed(Trace &t, const char *how, const std::string &bytes, const char *what)
{
 t.add("replayed", {{"how", how}, {"w", show(*replay(bytes))}, {"ops", log_json(bytes)}, {"what", what}});
}
static void packed(Trace &t, const std::string &bytes, const char *what)
{
 t.add("packed", {{"ok", true}, {"w", show(*replay(bytes))}, {"ops", log_json(bytes)}, {"what", what}});
}
static void not_packed(Trace &t, const char *what)
{
 t.add("packed", {{"ok", false}, {"w", J::raw("[]")}, {"ops", J::raw("[]")}, {"what", what}});
}

static bool no_reference_to_dropped(const Gen &g)
{
 for (const auto &[i, t]: g.tabs)
  for (const auto &[j, f]: t.fields)
   if (f.type == "reference" && !g.tabs.count(f.ref)) return false;
 return true;
}

struct Source: public Memory_File
{
 Source(const std::string &bytes): Memory_File(Open_Mode::read_existing) {data = bytes;}
};

static void copies(Trace &t, Rng &r, const Gen &g, const std::string &bytes, bool with_tools)
{
 // written by sessions that did not read the log first, it might be longer than what one session writes:
 // a journal then refuses the whole (known finding: journal-sessions)
 const bool plain = again(bytes) == bytes;
 Copy_File src(bytes, Open_Mode::read_existing);
 Readonly_Journal source(src);
 const bool as_text = g.short_floats;
 const bool dumpable = no_reference_to_dropped(g);
 if (with_tools) write_file("a.joedb", bytes);

 if (r.chance(50)) // pack
 {
  Binary b;
  bool ok = true;
  try {pack(source, b.journal);}
  catch (const std::exception &) {ok = false;}
  if (ok) packed(t, b.bytes(), "pack"); else not_packed(t, "pack");
  source.rewind();
 }
 if (with_tools)
 {
  if (run("joedb_pack a.joedb b.joedb")) packed(t, read_file("b.joedb"), "joedb_pack");
  else not_packed(t, "joedb_pack");
  unlink("b.joedb");
  bool ok = true;
  try {inplace_pack("a.joedb");}
  catch (const std::exception &) {ok = false;}
  if (ok)
  {
   packed(t, read_file("a.joedb"), "inplace");
   if (read_file("a.joedb.unpacked") != bytes) t.add("failed", {{"what", "the original was not kept"}});
  }
  else
  {
   not_packed(t, "inplace");
   if (read_file("a.joedb") != bytes) t.add("failed", {{"what", "the original was changed"}});
  }
  unlink("a.joedb.unpacked");
  unlink("a.joedb.packed");
  write_file("a.joedb", bytes);
  if (run("joedb_convert a.joedb b.joedb")) replayed(t, "moved", read_file("b.joedb"), "joedb_convert");
  else if (plain) t.add("failed", {{"what", "joedb_convert"}});
  unlink("b.joedb");
  if (!as_text) ;
  else if (run("joedb_logdump --blob a.joedb >a.joedbi")) replayed(t, "moved", interpret(read_file("a.joedbi")), "joedb_logdump --blob");
  else t.add("failed", {{"what", "joedb_logdump --blob"}});
  if (!as_text) ;
  else if (run("joedb_logdump --load a.joedb >a.joedbi")) replayed(t, "without", interpret(read_file("a.joedbi")), "joedb_logdump --load");
  else t.add("failed", {{"what", "joedb_logdump --load"}});
  if (run("joedb_logdump --schema_only a.joedb >a.joedbi")) t.add("selected", {{"mode", 1}, {"ops", log_json(interpret(read_file("a.joedbi")))}});
  else t.add("failed", {{"what", "joedb_logdump --schema_only"}});
  unlink("a.joedbi");
  unlink("a.joedb");
 }
 if (r.chance(30)) // content
 {
  const auto db = replay(bytes);
  const bool full = r.chance(80);
  Binary b;
  dump(*db, b.journal, !full);
  t.add("dumped", {{"full", full}, {"w", show(*replay(b.bytes()))}});
 }
 if (as_text && dumpable && r.chance(40)) // content as text
 {
  const auto db = replay(bytes);
  const bool full = r.chance(85);
  std::ostringstream out;
  Interpreter_Dump_Writable w(out);
  dump(*db, w, !full);
  t.add("dumped", {{"full", full}, {"w", show(*replay(interpret(out.str())))}, {"text", true}});
 }
 if (as_text && r.chance(70)) // log as text
 {
  const bool blobs = r.chance(70);
  std::ostringstream out;
  Interpreter_Dump_Writable w(out, blobs);
  source.replay_log(w);
  replayed(t, blobs ? "moved" : "without", interpret(out.str()), "text");
  if (r.chance(50))
  {
   // the same text, opened as a file
   Memory_File text;
   text.get_data() = out.str() + "\n";
   Abstract_Interpreted_File f(text);
   Recorder rec;
   Database db;
   Multiplexer m{rec, db};
   Readonly_Journal(f).replay_log(m);
   t.add("replayed", {{"how", blobs ? "moved" : "without"}, {"w", show(db)}, {"ops", rec.json()}, {"what", "interpreted file"}});
  }
 }
 if (r.chance(50)) // replayed into several destinations at once
 {
  Binary a, b;
  b.journal.comment("elsewhere");
  const int64_t skip = b.journal.get_position();
  Database db;
  Database_Schema schema;
  Recorder rec;
  std::ostringstream out;
  Interpreter_Dump_Writable text(out);
  const int order = int(r.below(4));
  const auto play = [&](Writable &m)
  {
   if (order == 1 || !plain) // a journal that is not empty does not accept a log as a whole
   {
    Recorder all;
    Copy_File f(bytes, Open_Mode::read_existing);
    Readonly_Journal(f).replay_log(all);
    for (Op &op: all.ops) perform(op, m);
   }
   else
    source.replay_log(m);
   m.soft_checkpoint();
  };
  if (order == 0) {Multiplexer m{a.journal, db, rec, text}; play(m);}
  else if (order == 1) {Multiplexer m{rec, b.journal, db, a.journal, text}; play(m);}
  else if (order == 2) {Multiplexer inner{db, a.journal}; Multiplexer m{text, inner, rec}; play(m);}
  else {Multiplexer m{db}; Multiplexer n{m, rec, a.journal}; Multiplexer o{n, text}; play(o);}
  const std::string bytes_a = a.bytes();
  t.add("replayed", {{"how", "moved"}, {"w", show(db)}, {"ops", rec.json()}, {"what", "multiplexed"}});
  replayed(t, "moved", bytes_a, "multiplexed journal");
  if (as_text) replayed(t, "moved", interpret(out.str()), "multiplexed text");
  if (order == 1)
  {
   b.journal.soft_checkpoint();
   Readonly_Journal j(b.file);
   Recorder rec2;
   j.one_step(rec2);
   rec2.ops.clear();
   j.play_until_checkpoint(rec2);
   Database db2;
   (void)skip;
   for (Op &op: rec2.ops) perform(op, db2);
   t.add("replayed", {{"how", "moved"}, {"w", show(db2)}, {"ops", rec2.json()}, {"what", "multiplexed journal, later"}});
  }
 }
 if (r.chance(50)) // selected kinds
 {
  const int mode = 1 + int(r.below(7));
  Recorder rec;
  Selective_Writable s(rec, Selective_Writable::Mode(mode));
  source.replay_log(s);
  t.add("selected", {{"mode", mode}, {"ops", rec.json()}});
 }
 if (r.chance(30)) // part of the log
 {
  Copy_File f(bytes, Open_Mode::read_existing);
  Readonly_Journal j(f);
  Recorder rec;
  const int64_t until = 41 + r.below(int64_t(bytes.size()) - 40);
  j.play_until(rec, until);
  t.add("prefix", {{"ops", rec.json()}});
  j.play_until_checkpoint(rec);
  t.add("log", {{"ops", rec.json()}});
 }
}

/////////////////////////////////////////////////////////////////////////////
// A history, and copies at some points
/////////////////////////////////////////////////////////////////////////////
static void text(Trace &t, Rng &r)
{
 Gen g;
 g.max_string = r.chance(10) ? 3000 : 60;
 g.blobs = r.chance(60);
 g.short_floats = r.chance(60); // as text, numbers have 6 digits (known finding: float-digits)
 Memory_File file;
 const int sessions = 1 + int(r.below(4));
 for (int s = 0; s < sessions; s++)
 {
  Writable_Journal journal(file);
  journal.skip_directly_to(journal.get_checkpoint());
  Database db;
  const int n = 5 + int(r.below(30));
  for (int i = 0; i < n; i++)
  {
   Op op = g.valid_op(r, s == 0 && i < 15 ? 80 : 20);
   if (!g.blobs && op.o == "blob") continue;
   perform(op, journal);
   op_event(t, op);
   g.apply(op);
  }
  journal.soft_checkpoint();
  if (s == sessions - 1 || r.chance(20)) copies(t, r, g, file.get_data(), s == sessions - 1 && r.chance(25));
 }
}

/////////////////////////////////////////////////////////////////////////////
// Merging
/////////////////////////////////////////////////////////////////////////////
static void merging(Trace &t, Rng &r)
{
 Gen g;
 g.blobs = false;
 g.max_string = 20;
 std::vector<Op> schema;
 Database none;
 for (int i = 0; i < 12; i++)
 {
  Op op = g.schema_op(r);
  if (op.o == "custom" || op.o == "valid_data") continue;
  schema.push_back(op);
  g.apply(op);
 }
 const int n = 2 + int(r.below(3));
 std::vector<std::string> files;
 for (int i = 0; i < n; i++)
 {
  Binary b;
  Gen h = g;
  h.special_floats = true;
  h.max_id = 12;
  for (Op &op: schema) perform(op, b.journal);
  const int k = int(r.below(r.chance(30) ? 4 : 30));
  for (int j = 0; j < k; j++)
  {
   Op op = h.data_op(r);
   perform(op, b.journal);
   h.apply(op);
  }
  if (r.chance(20)) // everything was deleted
   for (const auto &[ti, tab]: h.tabs)
    for (const int id: tab.rows) if (r.chance(90)) b.journal.delete_from(Table_Id(ti), Record_Id(id));
  files.push_back(b.bytes());
 }
 const bool by_tool = r.chance(20);
 auto merged = replay(files[0]);
 for (int i = 1; i < n; i++)
 {
  const auto db = replay(files[size_t(i)]);
  const J a = show(*merged);
  merge(*merged, *db);
  t.add("merged", {{"a", a}, {"b", show(*db)}, {"c", show(*merged)}});
 }
 if (by_tool)
 {
  std::string command = "joedb_merge";
  for (int i = 0; i < n; i++)
  {
   const std::string name = "m" + std::to_string(i) + ".joedb";
   write_file(name, files[size_t(i)]);
   command += " " + name;
  }
  if (run(command + " out.joedb"))
  {
   // the tool and the function agree on the content
   const auto out = replay(read_file("out.joedb"));
   if (show(*out).t != show(*merged).t) t.add("failed", {{"what", "joedb_merge"}});
  }
  else t.add("failed", {{"what", "joedb_merge failed"}});
  for (int i = 0; i < n; i++) unlink(("m" + std::to_string(i) + ".joedb").c_str());
  unlink("out.joedb");
 }
}

/////////////////////////////////////////////////////////////////////////////
// Files in text form, written to
/////////////////////////////////////////////////////////////////////////////
static void interpreted_file(Trace &t, Rng &r)
{
 Gen g;
 g.max_string = r.chance(10) ? 20000 : 60;
 g.short_floats = true;
 Shared_Bytes bytes;
 const bool shared = r.chance(50);
 struct Session
 {
  std::unique_ptr<Turn_File> file;
  std::unique_ptr<Abstract_Interpreted_File> text;
  std::unique_ptr<Writable_Database_Client> d;
  std::unique_ptr<Writable_Journal_Client> j;
 };
 std::vector<Session> s(shared ? 2 : 1);
 const auto open = [&](Session &x)
 {
  x.d.reset(); x.j.reset(); x.text.reset(); x.file.reset();
  x.file = std::make_unique<Turn_File>(bytes, shared ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new);
  x.text = std::make_unique<Abstract_Interpreted_File>(*x.file);
  if (r.chance(60)) x.d = std::make_unique<Writable_Database_Client>(*x.text);
  else x.j = std::make_unique<Writable_Journal_Client>(*x.text);
 };
 for (auto &x: s) open(x);
 const int n = 2 + int(r.below(8));
 for (int i = 0; i < n; i++)
 {
  Session &x = s[size_t(r.below(int64_t(s.size())))];
  const auto ops = [&](Writable &w)
  {
   const int k = int(r.below(10));
   for (int j = 0; j < k; j++)
   {
    Op op = g.valid_op(r, i < 2 ? 80 : 20);
    perform(op, w);
    op_event(t, op);
    g.apply(op);
   }
  };
  if (x.d) x.d->transaction([&](const Readable &, Writable &w) {ops(w);});
  else x.j->transaction([&](Writable &w) {ops(w);});
  if (x.d && r.chance(30)) t.add("view", {{"w", show(x.d->get_database())}});
  if (r.chance(25)) open(s[size_t(r.below(int64_t(s.size())))]);
  if (r.chance(25) || i == n - 1)
  {
   Copy_File copy(bytes.data);
   Abstract_Interpreted_File f(copy);
   Recorder rec;
   Database db;
   Multiplexer m{rec, db};
   Readonly_Journal(f).replay_log(m);
   t.add("replayed", {{"how", "moved"}, {"w", show(db)}, {"ops", rec.json()}, {"what", "text file"}});
   if (copy.get_data() != bytes.data) t.add("failed", {{"what", "reading an interpreted file changed it"}});
  }
 }
}

/////////////////////////////////////////////////////////////////////////////
// Blobs
/////////////////////////////////////////////////////////////////////////////
static void blobs(Trace &t, Rng &r)
{
 Gen g;
 g.max_string = 40;
 Shared_Bytes bytes;
 std::vector<Val> handles;
 struct Session
 {
  std::unique_ptr<Turn_File> file;
  std::unique_ptr<Writable_Database_Client> d;
  std::unique_ptr<Writable_Journal_Client> j;
  std::unique_ptr<Readonly_Database_Client> v;
 };
 std::vector<Session> s(size_t(1 + r.below(3)));
 const auto open = [&](Session &x)
 {
  x.d.reset(); x.j.reset(); x.v.reset();
  const int kind = int(r.below(10));
  const bool viewer = kind >= 8 && &x != &s[0];
  x.file = std::make_unique<Turn_File>(bytes, viewer ? Open_Mode::read_existing : Open_Mode::shared_write);
  if (viewer) x.v = std::make_unique<Readonly_Database_Client>(*x.file);
  else if (kind < 4) x.d = std::make_unique<Writable_Database_Client>(*x.file);
  else x.j = std::make_unique<Writable_Journal_Client>(*x.file);
 };
 const auto read = [&](const Abstract_File &f, const Val &h)
 {
  t.add("read", {{"n", h}, {"bytes", canon(f.read_blob(from<Blob>(h)))}});
 };
 for (auto &x: s) open(x);
 const int n = 3 + int(r.below(12));
 for (int i = 0; i < n; i++)
 {
  Session &x = s[size_t(r.below(int64_t(s.size())))];
  const bool abort = r.chance(15);
  std::vector<Op> done;
  const auto ops = [&](Writable &w)
  {
   const Gen before = g;
   const int k = 1 + int(r.below(6));
   for (int j = 0; j < k; j++)
   {
    Op op = r.chance(50) ? Op{"blob", {}, "", {canon(g.some_text(r, r.chance(20) ? 30000 : 300))}} : g.valid_op(r, i < 2 ? 80 : 20);
    if (!handles.empty() && op.y == "blob") for (auto &v: op.v) v = handles[size_t(r.below(int64_t(handles.size())))];
    perform(op, w);
    g.apply(op);
    done.push_back(op);
   }
   if (abort) {g = before; throw std::runtime_error("abort");}
   for (const Op &op: done)
   {
    op_event(t, op);
    if (op.o == "blob") handles.push_back(op.n);
   }
  };
  bool failed = false;
  try
  {
   if (x.d) x.d->transaction([&](const Readable &, Writable &w) {ops(w);});
   else if (x.j) x.j->transaction([&](Writable &w) {ops(w);});
  }
  catch (const std::exception &) {failed = true;}
  if (failed)
  {
   if (!abort) {t.add("failed", {{"what", "transaction"}}); return;}
   // what an aborted transaction leaves is not a part of the log; go on from what was committed
   std::string bytes2;
   {
    Copy_File f(bytes.data, Open_Mode::read_existing);
    bytes2 = bytes.data.substr(0, size_t(Readonly_Journal(f).get_checkpoint()));
   }
   for (auto &y: s) {y.d.reset(); y.j.reset(); y.v.reset();}
   bytes.data = bytes2;
   for (auto &y: s) open(y);
  }
  if (!handles.empty()) for (int k = 0; k < 4; k++)
  {
   const Val &h = handles[size_t(r.chance(40) ? int64_t(handles.size()) - 1 : r.below(int64_t(handles.size())))];
   Session &y = s[size_t(r.below(int64_t(s.size())))];
   if (y.d) {y.d->pull(); read(y.d->get_journal().get_file(), h);}
   else if (y.j) {y.j->pull(); read(y.j->get_journal().get_file(), h);}
   else {y.v->pull(); read(*y.file, h);}
  }
  if (r.chance(20)) open(s[size_t(r.below(int64_t(s.size())))]);
 }
 t.add("log", {{"ops", log_json(bytes.data)}});
 t.add("view", {{"w", show(*replay(bytes.data))}});
 // skipping the blobs
 {
  Copy_File f(bytes.data, Open_Mode::read_existing);
  Recorder rec;
  rec.blobs = false;
  Database db;
  Multiplexer m{db, rec};
  Readonly_Journal(f).replay_log(m);
  std::vector<Op> kept;
  for (const Op &op: rec.ops) if (op.o != "blob") kept.push_back(op);
  rec.ops = kept;
  t.add("replayed", {{"how", "without"}, {"w", show(db)}, {"ops", rec.json()}, {"what", "blobs skipped"}});
 }
}

/////////////////////////////////////////////////////////////////////////////
// What packing in place asks the system
/////////////////////////////////////////////////////////////////////////////
static void in_place(Trace &t, Rng &r)
{
 Gen g;
 g.blobs = r.chance(10);
 g.max_string = r.chance(20) ? 30000 : 60;
 Binary b;
 const int n = int(r.below(60));
 for (int i = 0; i < n; i++)
 {
  Op op = g.valid_op(r, 40);
  perform(op, b.journal);
  g.apply(op);
 }
 write_file("x.joedb", b.bytes());
 const auto role = [](const std::string &s) -> const char *
 {
  return s == "x.joedb" ? "name" : s == "x.joedb.packed" ? "packed" : s == "x.joedb.unpacked" ? "unpacked" : "other";
 };
 Syscalls::on = [&](const char *call, const std::string &file, const std::string &to)
 {
  if (call[0] == 'r') t.add("rename", {{"from", role(file)}, {"to", role(to)}});
  else t.add(call, {{"to", role(file)}});
 };
 try {inplace_pack("x.joedb"); t.add("end", {});}
 catch (const std::exception &) {t.add("refused", {});}
 Syscalls::on = nullptr;
 unlink("x.joedb");
 unlink("x.joedb.packed");
 unlink("x.joedb.unpacked");
}

/////////////////////////////////////////////////////////////////////////////
// Strings
/////////////////////////////////////////////////////////////////////////////
static void strings(Trace &t, Rng &r)
{
 static const uint8_t some[] = {0, 9, 10, 13, 32, 34, 39, 47, 48, 55, 57, 63, 63, 65, 92, 92, 97, 102, 110, 120, 127, 128, 159, 160, 191, 194, 195, 224, 226, 237, 240, 244, 248, 255};
 for (int i = 0; i < 20; i++)
 {
  std::string s;
  const int n = int(r.below(7));
  for (int k = 0; k < n; k++) s += r.chance(70) ? char(some[r.below(sizeof(some))]) : char(r.below(256));
  std::ostringstream out;
  write_string(out, s);
  t.add("write", {{"s", canon(s)}, {"t", canon(out.str())}});
  std::istringstream in(out.str());
  t.add("read", {{"t", canon(out.str())}, {"s", canon(read_string(in))}});
  // text written by someone: escapes are complete
  std::string x(size_t(r.below(3)), ' ');
  const bool quoted = r.chance(50);
  if (quoted) x += '"';
  const int m = 1 + int(r.below(5));
  for (int k = 0; k < m; k++)
  {
   const char *hex = "0123456789abcdef";
   const int kind = int(r.below(5));
   if (kind == 0) {x += "\\x"; x += hex[r.below(16)]; x += hex[r.below(16)];}
   else if (kind == 1) {x += "\\"; x += char('0' + r.below(4)); x += char('0' + r.below(8)); x += char('0' + r.below(8));}
   else if (kind == 2) {x += "\\"; x += "\"\\?n aq/"[r.below(8)];}
   else {const char c = char(1 + r.below(255)); if (c != '\\' && c != ' ' && c != '"') x += c;}
  }
  if (quoted) x += '"'; else if (x.find_first_not_of(' ') == std::string::npos) x += "z";
  if (r.chance(50)) x += " more";
  std::istringstream again(x);
  t.add("read", {{"t", canon(x)}, {"s", canon(read_string(again))}});
 }
}

/////////////////////////////////////////////////////////////////////////////
// Known findings: is the outcome still wrong?
/////////////////////////////////////////////////////////////////////////////
static void use_table(Writable &w)
{
 w.create_table("t");
 w.add_field(Table_Id{1}, "s", Type::string());
 w.add_field(Table_Id{1}, "b", Type::blob());
}

// A journal client does not read what it appends to
static bool moved_blob()
{
 Memory_File bytes;
 {
  Abstract_Interpreted_File f(bytes);
  Writable_Journal_Client c(f);
  c.transaction([](Writable &w) {use_table(w); for (int i = 0; i < 3; i++) w.insert_into(Table_Id{1}, Record_Id{i});});
 }
 {
  Abstract_Interpreted_File f(bytes);
  Writable_Journal_Client c(f);
  c.transaction([](Writable &w) {w.insert_into(Table_Id{1}, Record_Id{3}); w.update_blob(Table_Id{1}, Record_Id{3}, Field_Id{2}, w.write_blob("hello"));});
 }
 Abstract_Interpreted_File f(bytes);
 Readonly_Journal j(f);
 Database db;
 j.replay_log(db);
 const Blob b = db.get_blob(Table_Id{1}, Record_Id{3}, Field_Id{2});
 return f.read_blob(b) != "hello";
}

static bool journal_sessions()
{
 Memory_File file;
 {
  Writable_Journal j(file);
  use_table(j);
  j.insert_into(Table_Id{1}, Record_Id{0});
  j.soft_checkpoint();
 }
 {
  Writable_Journal j(file);
  j.skip_directly_to(j.get_checkpoint());
  j.insert_into(Table_Id{1}, Record_Id{1});
  j.soft_checkpoint();
 }
 write_file("k.joedb", file.get_data());
 const bool ok = run("joedb_convert k.joedb l.joedb");
 unlink("k.joedb");
 unlink("l.joedb");
 return !ok;
}

static bool dropped_target()
{
 Database db;
 db.create_table("a");
 db.create_table("b");
 db.add_field(Table_Id{2}, "r", Type::reference(Table_Id{1}));
 db.drop_table(Table_Id{1});
 std::ostringstream out;
 Interpreter_Dump_Writable w(out);
 dump(db, w, false);
 try {interpret(out.str());}
 catch (const std::exception &) {return true;}
 return false;
}

static bool float_digits()
{
 Database db;
 use_table(db);
 db.add_field(Table_Id{1}, "d", Type::float64());
 db.insert_into(Table_Id{1}, Record_Id{0});
 db.update_float64(Table_Id{1}, Record_Id{0}, Field_Id{3}, 3.14159265359);
 std::ostringstream out;
 Interpreter_Dump_Writable w(out);
 dump(db, w, false);
 return replay(interpret(out.str()))->get_float64(Table_Id{1}, Record_Id{0}, Field_Id{3}) != 3.14159265359;
}

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 tools = argv[0];
 tools = tools.find('/') == std::string::npos ? "" : tools.substr(0, tools.rfind('/') + 1);
 Trace_Writer out(argv[1]);
 if (std::string(argv[4]) == "k")
 {
  const bool a = moved_blob(), b = journal_sessions(), c = dropped_target(), d = float_digits();
  printf("{\"moved_blob\":%s,\"journal_sessions\":%s,\"dropped_target\":%s,\"float_digits\":%s}\n", a ? "true" : "false", b ? "true" : "false", c ? "true" : "false", d ? "true" : "false");
  return 0;
 }
 const uint64_t seed = uint64_t(atoll(argv[2]));
 const int count = atoi(argv[3]);
 const std::string part = argv[4];
 const char *only = argc > 5 ? argv[5] : nullptr;
 for (const char p: part)
  for (int i = 0; i < count; i++)
  {
   Trace t;
   t.id = std::string(1, p) + "-" + std::to_string(seed) + "-" + std::to_string(i);
   if (only && t.id != only) continue;
   Rng r(seed * 1000003 + uint64_t(i) * 7 + uint64_t(p));
   fprintf(stderr, "%s\n", t.id.c_str());
   try
   {
    if (p == 't') text(t, r);
    else if (p == 'm') merging(t, r);
    else if (p == 's') strings(t, r);
    else if (p == 'p') in_place(t, r);
    else if (p == 'i') interpreted_file(t, r);
    else blobs(t, r);
   }
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}});}
   out.write(t);
  }
 out.close();
 printf("{\"traces\":%zu,\"events\":%zu}\n", out.traces, out.events);
 return 0;
}
