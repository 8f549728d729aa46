// Databases: random operations on interpreted and generated databases, and what they show.
// data_model TRACES SEED COUNT PART (PART: a = interpreted, b = generated, ab)
#include "data_gen.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/journal/Readonly_Memory_File.h"

#include "model/Writable_Database.h"
#include "model/Readonly_Database.h"
#include "model/Client.h"
#include "model/Readonly_Client.h"
#include "model/Readable.h"

using namespace verif;

static const char *defs_json = R"(,"defs":[{"name":"item_by_name","unique":true,"t":3,"f":[1]},{"name":"item_by_code","unique":false,"t":3,"f":[2]},{"name":"item_by_kind_rank","unique":true,"t":3,"f":[4,5]},{"name":"item_by_home_code","unique":false,"t":3,"f":[6,2]},{"name":"tag_by_label","unique":true,"t":4,"f":[1]},{"name":"tag_by_item","unique":false,"t":4,"f":[2]},{"name":"city_by_name","unique":false,"t":1,"f":[1]}])";

static void op_event(Trace &t, const Op &op, bool ok, bool alloc = false)
{
 t.add("op", {{"op", J::raw(op.json())}, {"ok", ok}, {"alloc", alloc}});
}

static std::unique_ptr<Database> replay(const std::string &bytes)
{
 auto db = std::make_unique<Database>();
 Copy_File f(bytes, Open_Mode::read_existing);
 Readonly_Journal(f).replay_log(*db);
 return db;
}

static std::vector<Op> log_of(const std::string &bytes)
{
 Copy_File f(bytes, Open_Mode::read_existing);
 Recorder rec;
 Readonly_Journal(f).replay_log(rec);
 return rec.ops;
}

static void fresh_views(Trace &t, const std::string &bytes)
{
 const auto db = replay(bytes);
 t.add("view", {{"w", show(*db)}});
 t.add("walk", {{"w", walk(*db)}});
 Copy_File f(bytes, Open_Mode::read_existing);
 Recorder rec;
 Readonly_Journal(f).replay_log(rec);
 t.add("log", {{"ops", rec.json()}});
}

/////////////////////////////////////////////////////////////////////////////
// Interpreted databases
/////////////////////////////////////////////////////////////////////////////
static void interpreted(Trace &t, Rng &r)
{
 t.extra = ",\"defs\":[]";
 Shared_Bytes bytes;
 Gen g;
 g.max_string = r.chance(10) ? 5000 : 200;
 struct Session
 {
  std::unique_ptr<Turn_File> file;
  std::unique_ptr<Writable_Database_Client> d;
  std::unique_ptr<Writable_Journal_Client> j;
  std::unique_ptr<Readonly_Database_Client> v;
 };
 std::vector<Session> s(size_t(1 + r.below(3)));
 const auto open = [&](Session &x)
 {
  x.d.reset(); x.j.reset(); x.v.reset();
  const int kind = int(r.below(10));
  const bool viewer = kind >= 8 && &x != &s[0];
  x.file = std::make_unique<Turn_File>(bytes, viewer ? Open_Mode::read_existing : Open_Mode::shared_write);
  if (viewer) x.v = std::make_unique<Readonly_Database_Client>(*x.file);
  else if (kind < 4) x.d = std::make_unique<Writable_Database_Client>(*x.file);
  else x.j = std::make_unique<Writable_Journal_Client>(*x.file);
 };
 for (auto &x: s) open(x);
 const int transactions = 3 + int(r.below(12));
 const int wild = r.chance(50) ? 25 : 0;
 const int schema = r.chance(30) ? 60 : 15;
 for (int i = 0; i < transactions; i++)
 {
  Session &x = s[size_t(r.below(int64_t(s.size())))];
  const int n = 1 + int(r.below(8));
  const auto run = [&](Writable &w, bool can_refuse)
  {
   for (int k = 0; k < n; k++)
   {
    Op op = can_refuse && r.chance(wild) ? g.wild_op(r) : g.valid_op(r, i < 2 ? 80 : schema);
    bool ok = true;
    if (can_refuse)
    {
     try {perform(op, w);}
     catch (const std::exception &) {ok = false;}
    }
    else
     perform(op, w);
    op_event(t, op, ok);
    if (ok) try {g.apply(op);} catch (...) {}
   }
  };
  if (x.d) x.d->transaction([&](const Readable &db, Writable &w)
  {
   run(w, true);
   if (r.chance(20)) t.add("view", {{"w", show(db)}});
  });
  else if (x.j) x.j->transaction([&](Writable &w) {run(w, false);});
  for (auto &y: s)
   if (r.chance(15))
   {
    if (y.d) {y.d->pull(); t.add("view", {{"w", show(y.d->get_database())}}); t.add("walk", {{"w", walk(y.d->get_database())}});}
    else if (y.v) {y.v->pull(); t.add("view", {{"w", show(y.v->get_database())}}); t.add("walk", {{"w", walk(y.v->get_database())}});}
    else if (r.chance(30)) y.j->pull();
    if (r.chance(15)) open(y);
   }
  if (r.chance(10)) fresh_views(t, bytes.data);
 }
 for (auto &y: s)
 {
  if (y.d) {y.d->pull(); t.add("view", {{"w", show(y.d->get_database())}}); t.add("walk", {{"w", walk(y.d->get_database())}});}
  if (y.v) {y.v->pull(); t.add("view", {{"w", show(y.v->get_database())}}); t.add("walk", {{"w", walk(y.v->get_database())}});}
 }
 fresh_views(t, bytes.data);
}

/////////////////////////////////////////////////////////////////////////////
// Generated databases
/////////////////////////////////////////////////////////////////////////////
namespace gen
{
 typedef model::Writable_Database W;
 typedef model::Database D;
 using model::id_of_city; using model::id_of_item; using model::id_of_tag;

 template<typename I> Val cid(I id) {return {to_underlying(id.get_record_id())};}

 // [name, type, ref]
 static const std::map<int, std::map<int, std::array<std::string, 2>>> &unused();

 static std::string rows_of(const D &db, int t)
 {
  std::string out = "[";
  bool first = true;
  const auto row = [&](int64_t id, std::initializer_list<Val> v)
  {
   out += std::string(first ? "" : ",") + '[' + std::to_string(id) + ',' + J(std::vector<Val>(v)).t + ']';
   first = false;
  };
  #define EACH(T) auto tab = db.get_##T##_table(); std::set<int64_t> ids; for (const auto x: tab) ids.insert(x.get_id()); for (const int64_t i: ids) {const model::id_of_##T x{Record_Id(i)}; if (!tab.is_valid_at(size_t(i))) row(-5, {});
  if (t == 1) {EACH(city) row(i, {canon(db.get_name(x))});}}
  else if (t == 3)
  {
   EACH(item) row(i, {canon(db.get_name(x)), canon(db.get_code(x)), canon(db.get_kind(x)), canon(db.get_rank(x)), cid(db.get_home(x)), cid(db.get_parent(x)),
    canon(db.get_flag(x)), canon(db.get_weight(x)), canon(db.get_big(x)), canon(db.get_ratio(x)), canon(db.get_data(x))});}
  }
  else {EACH(tag) row(i, {canon(db.get_label(x)), cid(db.get_item(x))});}}
  return out + "]";
 }

 static std::string schema_of(const D &db, int t)
 {
  const model::Readable rd(db);
  std::string out = std::to_string(t) + ',' + J(canon(rd.get_table_name(Table_Id(t)))).t + ",[";
  bool first = true;
  for (const auto &[fid, name]: rd.get_fields(Table_Id(t)))
  {
   const Type type = rd.get_field_type(Table_Id(t), fid);
   out += std::string(first ? "" : ",") + '[' + std::to_string(to_underlying(fid)) + ',' + J(canon(name)).t + ',' + quote(type_name(type.get_type_id())) + ',' +
    std::to_string(type.get_type_id() == T::reference ? to_underlying(type.get_table_id()) : 0) + ']';
   first = false;
  }
  return out + ']';
 }

 template<typename C, typename N, typename P> std::string walk_of(int t, C tab, N next, P previous)
 {
  Val a, b, c;
  for (const auto x: tab) if (a.size() < 1000) a.push_back(x.get_id());
  auto it = tab.end();
  for (--it; it != tab.end() && b.size() < 1000; --it) b.push_back((*it).get_id());
  // the same with identifiers
  if (!tab.is_empty())
  {
   for (auto x = tab.first(); x != tab.get_end() && c.size() < 1000; x = next(x)) c.push_back(x.get_id());
   if (c != a) a = {-7};
   c.clear();
   for (auto x = tab.last(); x != tab.get_end() && c.size() < 1000; x = previous(x)) c.push_back(x.get_id());
   if (c != b) b = {-7};
  }
  return '[' + std::to_string(t) + ',' + J(a).t + ',' + J(b).t + ',' + std::to_string(tab.get_size()) + ']';
 }

 static J walks(const D &db)
 {
  #define W_OF(T, t) walk_of(t, db.get_##T##_table(), [&](auto x) {return db.next(x);}, [&](auto x) {return db.previous(x);})
  return J::raw('[' + W_OF(city, 1) + ',' + W_OF(item, 3) + ',' + W_OF(tag, 4) + ']');
 }

 static J content(const D &db)
 {
  std::string out = "[";
  for (int t: {1, 3, 4})
   out += std::string(t > 1 ? "," : "") + '[' + schema_of(db, t) + ',' + rows_of(db, t) + ']';
  return J::raw(out + ']');
 }

 typedef std::vector<Val> Key;
 static Key key(const std::string &s) {return {canon(s)};}
 static Key key(int32_t x) {return {canon(x)};}
 static Key key(id_of_item x) {return {cid(x)};}
 static Key key(std::tuple<int8_t, int16_t> x) {return {canon(std::get<0>(x)), canon(std::get<1>(x))};}
 static Key key(std::tuple<id_of_city, int32_t> x) {return {cid(std::get<0>(x)), canon(std::get<1>(x))};}

 struct Index
 {
  std::string text;
  template<typename M> void start(const char *name, const M &m)
  {
   text += std::string(text.empty() ? "" : ",") + '[' + quote(name) + ",[";
   bool first = true;
   for (const auto &[k, id]: m)
   {
    text += std::string(first ? "" : ",") + '[' + std::to_string(id.get_id()) + ',' + J(key(k)).t + ']';
    first = false;
   }
   text += ']';
  }
  void chain(const Val &v) {text += ',' + J(v).t;}
  bool first_find;
  void finds() {text += ",["; first_find = true;}
  void find(const Key &k, const Val &v) {text += std::string(first_find ? "" : ",") + '[' + J(k).t + ',' + J(v).t + ']'; first_find = false;}
  void end() {text += "]]";}
 };

 // All the indexes.  probes: keys that may be absent
 static J indexes(const D &cdb, Rng &r, Gen &g)
 {
  D &db = const_cast<D &>(cdb);
  Index x;
  const auto chain = [&](const auto &m, auto next, auto previous)
  {
   Val a, b;
   if (!m.empty())
   {
    for (auto id = m.begin()->second; id.is_not_null() && a.size() < 1000; id = next(id)) a.push_back(id.get_id());
    for (auto id = m.rbegin()->second; id.is_not_null() && b.size() < 1000; id = previous(id)) b.push_back(id.get_id());
   }
   x.chain(a); x.chain(b);
   x.finds();
  };
  const auto no_chain = [&]() {x.chain({}); x.chain({}); x.finds();};
  const auto found = [](auto id) {Val v; if (id.is_not_null()) v.push_back(id.get_id()); return v;};
  const auto range = [](auto rg) {Val v; for (const auto id: rg) v.push_back(id.get_id()); if (rg.empty() != v.empty() || rg.size() != v.size()) v.push_back(-9); return v;};
  {
   const auto &m = db.get_index_of_item_by_name();
   x.start("item_by_name", m);
   chain(m, [&](auto i) {return db.next_item_by_name(i);}, [&](auto i) {return db.previous_item_by_name(i);});
   for (const auto &[k, id]: m) x.find(key(k), found(cdb.find_item_by_name(k)));
   const std::string p = g.some_text(r, 20);
   x.find(key(p), found(cdb.find_item_by_name(p)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_item_by_code();
   x.start("item_by_code", m);
   no_chain();
   for (const auto &[k, id]: m) x.find(key(k), range(cdb.find_item_by_code(k)));
   const int32_t p = int32_t(r.below(5));
   x.find(key(p), range(cdb.find_item_by_code(p)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_item_by_kind_rank();
   x.start("item_by_kind_rank", m);
   chain(m, [&](auto i) {return db.next_item_by_kind_rank(i);}, [&](auto i) {return db.previous_item_by_kind_rank(i);});
   for (const auto &[k, id]: m) x.find(key(k), found(cdb.find_item_by_kind_rank(std::get<0>(k), std::get<1>(k))));
   const int8_t a = int8_t(r.below(3)); const int16_t b = int16_t(r.below(3));
   x.find(key(std::make_tuple(a, b)), found(cdb.find_item_by_kind_rank(a, b)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_item_by_home_code();
   x.start("item_by_home_code", m);
   no_chain();
   for (const auto &[k, id]: m) x.find(key(k), range(cdb.find_item_by_home_code(std::get<0>(k), std::get<1>(k))));
   const id_of_city a{Record_Id(r.below(4) - 1)}; const int32_t b = int32_t(r.below(3));
   x.find(key(std::make_tuple(a, b)), range(cdb.find_item_by_home_code(a, b)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_tag_by_label();
   x.start("tag_by_label", m);
   chain(m, [&](auto i) {return db.next_tag_by_label(i);}, [&](auto i) {return db.previous_tag_by_label(i);});
   for (const auto &[k, id]: m) x.find(key(k), found(cdb.find_tag_by_label(k)));
   const std::string p = g.some_text(r, 20);
   x.find(key(p), found(cdb.find_tag_by_label(p)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_tag_by_item();
   x.start("tag_by_item", m);
   no_chain();
   for (const auto &[k, id]: m) x.find(key(k), range(cdb.find_tag_by_item(k)));
   const id_of_item p{Record_Id(r.below(6) - 1)};
   x.find(key(p), range(cdb.find_tag_by_item(p)));
   x.end();
  }
  {
   const auto &m = db.get_index_of_city_by_name();
   x.start("city_by_name", m);
   no_chain();
   for (const auto &[k, id]: m) x.find(key(k), range(cdb.find_city_by_name(k)));
   const std::string p = g.some_text(r, 20);
   x.find(key(p), range(cdb.find_city_by_name(p)));
   x.end();
  }
  return J::raw('[' + x.text + ']');
 }

 static void compiled_view(Trace &t, const D &db, Rng &r, Gen &g)
 {
  t.add("compiled", {{"w", content(db)}, {"walks", walks(db)}, {"ix", indexes(db, r, g)}});
 }

 #define BY_TABLE(t, x)\
  if (t == 1) {typedef id_of_city id; x(city)} else if (t == 3) {typedef id_of_item id; x(item)} else if (t == 4) {typedef id_of_tag id; x(tag)}

 // [table, field, type of the value, name, type of the storage]
 #define FIELDS(X)\
  X(1, city, 1, std::string, name, std::string) X(3, item, 1, std::string, name, std::string) X(3, item, 2, int32_t, code, int32_t) X(3, item, 4, int8_t, kind, int8_t)\
  X(3, item, 5, int16_t, rank, int16_t) X(3, item, 6, id_of_city, home, id_of_city) X(3, item, 7, id_of_item, parent, id_of_item) X(3, item, 8, bool, flag, char)\
  X(3, item, 9, double, weight, double) X(3, item, 10, int64_t, big, int64_t) X(3, item, 11, float, ratio, float) X(3, item, 12, Blob, data, Blob)\
  X(4, tag, 1, std::string, label, std::string) X(4, tag, 2, id_of_item, item, id_of_item)

 template<typename V> struct From {static V get(const Val &v) {return from<V>(v);}};
 template<> struct From<id_of_city> {static id_of_city get(const Val &v) {return id_of_city(Record_Id(v.at(0)));}};
 template<> struct From<id_of_item> {static id_of_item get(const Val &v) {return id_of_item(Record_Id(v.at(0)));}};

 static void perform(Op &op, W &db)
 {
  const int t = op.n.empty() ? 0 : int(op.n[0]);
  const Record_Id rec = op.n.size() > 1 ? Record_Id(op.n[1]) : Record_Id::null;
  const size_t n = op.n.size() > 2 ? size_t(op.n[2]) : 0;
  if (op.o == "insert")
  {
   #define X(T) db.insert_##T(id(rec));
   BY_TABLE(t, X)
   #undef X
  }
  else if (op.o == "new")
  {
   #define X(T) op.n = {t, to_underlying(db.new_##T().get_record_id())};
   BY_TABLE(t, X)
   #undef X
   op.o = "insert";
  }
  else if (op.o == "new_vector")
  {
   #define X(T) op.n = {t, to_underlying(db.new_vector_of_##T(size_t(op.n.at(1))).get_record_id()), op.n.at(1)};
   BY_TABLE(t, X)
   #undef X
   op.o = "insert_vector";
  }
  else if (op.o == "delete")
  {
   #define X(T) db.delete_##T(id(rec));
   BY_TABLE(t, X)
   #undef X
  }
  else if (op.o == "delete_vector")
  {
   #define X(T) db.delete_vector_of_##T(id(rec), n);
   BY_TABLE(t, X)
   #undef X
  }
  else if (op.o == "comment") db.write_comment(op.s);
  else if (op.o == "timestamp") db.write_timestamp(from<int64_t>(op.n));
  else if (op.o == "valid_data") db.write_valid_data();
  else if (op.o == "blob") op.n = canon(db.write_blob(from<std::string>(op.v.at(0))));
  else if (op.o == "update")
  {
   const int f = int(op.n.at(2));
   #define X(tid, T, fid, V, name, S) if (t == tid && f == fid) return db.set_##name(model::id_of_##T(rec), From<V>::get(op.v.at(0)));
   FIELDS(X)
   #undef X
  }
  else if (op.o == "update_vector")
  {
   const int f = int(op.n.at(2));
   #define X(tid, T, fid, V, name, S) if (t == tid && f == fid) return db.update_vector_of_##name(model::id_of_##T(rec), size_t(op.n.at(3)), [&](auto span)\
    {size_t i = 0; for (auto &x: span) x = From<S>::get(op.v.at(i++));});
   FIELDS(X)
   #undef X
  }
 }
}

static const int tables3[] = {1, 3, 4};

// Few distinct values, so that keys collide; no special float
static Val small_value(Rng &r, Gen &g, int t, int f, const std::string &type, int ref)
{
 const bool keyed = (t == 1 && f == 1) || (t == 3 && (f == 1 || f == 2 || f == 4 || f == 5 || f == 6)) || t == 4;
 if (!keyed || r.chance(25)) return g.some_value(r, type, ref);
 if (type == "string") {static const char *v[] = {"", "a", "b", "ab", "\xff", "\xff\x01", "zz", "Z", "\x80"}; return canon(v[r.below(9)]);}
 if (type == "reference") return {r.below(5) - 1};
 return {r.below(5) - 1};
}

static void generated(Trace &t, Rng &r)
{
 t.extra = defs_json;
 Shared_Bytes bytes;
 Gen g;
 g.max_id = 12;
 g.max_string = 60;
 struct Session
 {
  std::unique_ptr<Turn_File> file;
  std::unique_ptr<model::Client> c;
  std::unique_ptr<Turn_File> vfile;
  std::unique_ptr<model::Readonly_Client> v;
 };
 std::vector<Session> s(size_t(1 + r.below(2)));
 const auto open = [&](Session &x)
 {
  x.c.reset(); x.file = std::make_unique<Turn_File>(bytes); x.c = std::make_unique<model::Client>(*x.file);
  x.v.reset(); x.vfile = std::make_unique<Turn_File>(bytes, Open_Mode::read_existing); x.v = std::make_unique<model::Readonly_Client>(*x.vfile);
 };
 open(s[0]);
 for (const auto &op: log_of(bytes.data)) {op_event(t, op, true); g.apply(op);}
 for (size_t i = 1; i < s.size(); i++) open(s[i]);
 const auto fresh = [&]()
 {
  Copy_File f(bytes.data, Open_Mode::read_existing);
  model::Readonly_Database db(f);
  gen::compiled_view(t, db, r, g);
  Copy_File f2(bytes.data);
  model::Writable_Database w(f2);
  gen::compiled_view(t, w, r, g);
  t.add("view", {{"w", show(model::Readable(db))}});
 };
 const auto predict = [&]()
 {
  Copy_File f(bytes.data);
  model::Writable_Database w(f);
  for (int tab: tables3)
  {
   Val ids;
   for (int k = 0; k < 4; k++) {Op op{"new", {tab}}; gen::perform(op, w); ids.push_back(op.n[1]);}
   t.add("predict", {{"t", tab}, {"r", ids}});
  }
 };

 std::map<std::array<int, 3>, Val> values;
 const int transactions = 3 + int(r.below(9));
 const int wild = r.chance(50) ? 15 : 0;
 const int delete_bias = int(r.below(3));
 for (int i = 0; i < transactions; i++)
 {
  Session &x = s[size_t(r.below(int64_t(s.size())))];
  if (r.chance(50)) predict();
  bool abandon = false;
  x.c->transaction([&](model::Writable_Database &db)
  {
   const int n = 1 + int(r.below(12));
   for (int k = 0; k < n && !abandon; k++)
   {
    const int tab = r.chance(55) ? 3 : tables3[r.below(3)];
    auto &rows = g.tabs.at(tab).rows;
    Op op;
    bool alloc = false;
    const auto note = [&](const Op &o)
    {
     if (o.o == "update") values[{int(o.n[0]), int(o.n[1]), int(o.n[2])}] = o.v[0];
     if (o.o == "update_vector") for (size_t j = 0; j < o.v.size(); j++) values[{int(o.n[0]), int(o.n[1]) + int(j), int(o.n[2])}] = o.v[j];
    };
    const auto random_update = [&]()
    {
     const int f = g.some_field(r, tab);
     const auto &field = g.tabs.at(tab).fields.at(f);
     if (r.chance(35))
     {
      const auto [a, m] = g.some_run(r, tab);
      op = {"update_vector", {tab, a, f, m}, "", {}, field.type};
      for (int j = 0; j < m; j++) op.v.push_back(small_value(r, g, tab, f, field.type, field.ref));
      if (m > 1 && r.chance(40)) // the values that they had, in another order
      {
       const int by = 1 + int(r.below(m - 1));
       for (int j = 0; j < m; j++)
       {
        const auto it = values.find({tab, int(a) + (j + by) % m, f});
        if (it != values.end()) op.v[size_t(j)] = it->second;
       }
      }
     }
     else op = {"update", {tab, Gen::some(r, rows), f}, "", {small_value(r, g, tab, f, field.type, field.ref)}, field.type};
    };
    const int kind = int(r.below(100));
    if (r.chance(wild))
    {
     const int id = int(r.below(g.max_id + 6)) - 1, m = 1 + int(r.below(4));
     const int f = g.some_field(r, tab);
     const auto &field = g.tabs.at(tab).fields.at(f);
     switch (r.below(5))
     {
      case 0: op = {"insert", {tab, id}}; break;
      case 1: op = {"delete", {tab, id}}; break;
      case 2: op = {"delete_vector", {tab, id, m}}; break;
      case 3: op = {"update", {tab, id, f}, "", {small_value(r, g, tab, f, field.type, field.ref)}, field.type}; break;
      case 4:
       op = {"update_vector", {tab, id, f, m}, "", {}, field.type};
       for (int j = 0; j < m; j++) op.v.push_back(small_value(r, g, tab, f, field.type, field.ref));
     }
    }
    else if (rows.empty() || (kind < 22 && rows.size() < 14)) {op = {"new", {tab}}; alloc = true;}
    else if (kind < 26 && rows.size() < 14)
    {
     int id = int(r.below(g.max_id + 4));
     while (rows.count(id)) id++;
     op = {"insert", {tab, id}};
    }
    else if (kind < 31 && rows.size() < 14) op = {"new_vector", {tab, 1 + r.below(4)}};
    else if (kind < 36 + 6 * delete_bias) op = {"delete", {tab, Gen::some(r, rows)}};
    else if (kind < 53) {const auto [a, m] = g.some_run(r, tab); op = {"delete_vector", {tab, a, m}}; if (r.chance(40)) random_update();}
    else if (kind < 56) op = {"comment", {}, g.some_text(r, 50)};
    else if (kind < 58) op = op_timestamp(int64_t(r.next()));
    else if (kind < 60) op = {"valid_data"};
    else if (kind < 62) op = {"blob", {}, "", {canon(g.some_text(r, 200))}};
    else if (kind < 64 && r.chance(30))
    {
     // clearing: from the last to the first
     std::vector<int64_t> order;
     #define X(T) {const auto c = db.get_##T##_table(); auto it = c.end(); for (--it; it != c.end(); --it) order.push_back((*it).get_id());} db.clear_##T##_table();
     {
      using namespace gen;
      BY_TABLE(tab, X)
     }
     #undef X
     for (const auto id: order) {const Op d{"delete", {tab, id}}; op_event(t, d, true); g.apply(d);}
     continue;
    }
    else if (kind < 67 && tab == 4)
    {
     // a record with its fields, which may be refused
     const Val label = small_value(r, g, 4, 1, "string", 0), item = {r.below(5) - 1};
     bool ok = true;
     gen::id_of_tag id;
     const auto before = db.get_tag_table().get_size();
     try {id = db.new_tag(from<std::string>(label), gen::id_of_item(Record_Id(item[0])));}
     catch (const std::exception &) {ok = false;}
     if (!ok && db.get_tag_table().get_size() != before + 1) {t.add("strange"); continue;}
     if (!ok) id = db.get_tag_table().last();
     const int64_t rid = id.get_id();
     Op a{"insert", {4, rid}}, b{"update", {4, rid, 1}, "", {label}, "string"}, c{"update", {4, rid, 2}, "", {item}, "reference"};
     op_event(t, a, true, true); g.apply(a);
     op_event(t, b, ok);
     if (ok) {op_event(t, c, true); continue;}
     op = b;
     goto refused;
    }
    else random_update();

    try {gen::perform(op, db);}
    catch (const std::exception &)
    {
     if (op.o == "new") op.o = "insert";
     op_event(t, op, false);
     goto refused;
    }
    op_event(t, op, true, alloc);
    g.apply(op);
    note(op);
    continue;

    refused:
    if (op.o != "update" && op.o != "update_vector") continue;
    t.add("strict", {{"ix", gen::indexes(db, r, g)}});
    // is it wrong, or only refused by a unique index?
    {
     bool valid = true;
     const int64_t m = op.o == "update" ? 1 : op.n.at(3);
     for (int64_t j = 0; j < m; j++) valid = valid && rows.count(int(op.n[1] + j));
     if (!valid) continue;
    }
    if (r.chance(40)) {abandon = true; continue;}
    for (int attempt = 0; attempt < 5; attempt++)
    {
     for (auto &v: op.v) v = op.y == "string" ? canon("unique" + std::to_string(r.below(1000000))) : Val{r.below(attempt == 0 && op.y == "int16" ? 3 : 30000)};
     bool ok = true;
     try {gen::perform(op, db);}
     catch (const std::exception &) {ok = false;}
     op_event(t, op, ok);
     if (ok) note(op);
     if (ok) break;
     if (attempt == 4) abandon = true;
    }
   }
   if (abandon) return;
   if (r.chance(15)) gen::compiled_view(t, db, r, g);
  });
  if (abandon) {open(x); t.add("reopen");}
  for (auto &y: s)
   if (r.chance(30))
   {
    y.c->pull();
    gen::compiled_view(t, y.c->get_database(), r, g);
    if (r.chance(40)) {y.v->pull(); gen::compiled_view(t, y.v->get_database(), r, g);}
    if (r.chance(15)) open(y);
   }
  if (r.chance(15)) fresh();
 }
 for (auto &y: s)
 {
  y.c->pull();
  gen::compiled_view(t, y.c->get_database(), r, g);
  y.v->pull();
  gen::compiled_view(t, y.v->get_database(), r, g);
 }
 fresh();
 predict();
 fresh_views(t, bytes.data);
}

// A vector with more records than the file has bytes
static bool big_vector()
{
 Shared_Bytes bytes;
 {
  Turn_File f(bytes);
  model::Client c(f);
  c.transaction([](model::Writable_Database &db) {db.new_vector_of_city(5000);});
 }
 try
 {
  Copy_File f(bytes.data);
  model::Writable_Database db(f);
  return db.get_city_table().get_size() == 5000;
 }
 catch (const std::exception &) {return false;}
}

int main(int argc, char **argv)
{
 if (argc < 5) return 3;
 if (std::string(argv[4]) == "k")
 {
  printf("{\"big_vector\":%s}\n", big_vector() ? "true" : "false");
  return 0;
 }
 Trace_Writer out(argv[1]);
 const uint64_t seed = uint64_t(atoll(argv[2]));
 const int count = atoi(argv[3]);
 const std::string part = argv[4];
 const char *only = argc > 5 ? argv[5] : nullptr;
 for (const char p: part)
  for (int i = 0; i < count; i++)
  {
   Trace t;
   t.id = std::string(1, p) + "-" + std::to_string(seed) + "-" + std::to_string(i);
   if (only && t.id != only) continue;
   Rng r(seed * 1000003 + uint64_t(i) * 7 + uint64_t(p));
   fprintf(stderr, "%s\n", t.id.c_str());
   try
   {
    if (p == 'a') interpreted(t, r);
    else generated(t, r);
   }
   catch (const std::exception &e) {t.add("failed", {{"what", e.what()}});}
   out.write(t);
  }
 out.close();
 printf("{\"traces\":%zu,\"events\":%zu}\n", out.traces, out.events);
 return 0;
}
