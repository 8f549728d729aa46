// Databases as the traces show them: every value, name and text is a sequence of integers.
#ifndef verif_data_h
#define verif_data_h

#include "common.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"

#include <cstring>

namespace verif
{
 using namespace joedb;
 typedef std::vector<int64_t> Val; // canonical value

 inline Val canon(std::string_view s) {Val r; for (char c: s) r.push_back(uint8_t(c)); return r;}
 inline Val canon(const std::string &s) {return canon(std::string_view(s));}
 inline Val canon(const char *s) {return canon(std::string_view(s));}
 inline Val canon(int32_t x) {return {x};}
 inline Val canon(int16_t x) {return {x};}
 inline Val canon(int8_t x) {return {x};}
 inline Val canon(char x) {return {x ? 1 : 0};} // storage of booleans
 inline Val canon(bool x) {return {x ? 1 : 0};}
 inline Val canon(int64_t x) {return {int32_t(x >> 32), int32_t(uint32_t(x))};}
 inline Val canon(float x) {int32_t i; memcpy(&i, &x, 4); return {i};}
 inline Val canon(double x) {int64_t i; memcpy(&i, &x, 8); return canon(i);}
 inline Val canon(Record_Id x) {return {to_underlying(x)};}
 inline Val canon(Blob b) {return {b.get_position(), b.get_size()};}

 template<typename T> T from(const Val &v);
 template<> inline std::string from(const Val &v) {std::string s; for (auto c: v) s += char(c); return s;}
 template<> inline int32_t from(const Val &v) {return int32_t(v.at(0));}
 template<> inline int16_t from(const Val &v) {return int16_t(v.at(0));}
 template<> inline int8_t from(const Val &v) {return int8_t(v.at(0));}
 template<> inline char from(const Val &v) {return char(v.at(0));}
 template<> inline bool from(const Val &v) {return v.at(0) != 0;}
 template<> inline int64_t from(const Val &v) {return int64_t((uint64_t(v.at(0)) << 32) | uint32_t(v.at(1)));}
 template<> inline float from(const Val &v) {const int32_t i = int32_t(v.at(0)); float x; memcpy(&x, &i, 4); return x;}
 template<> inline double from(const Val &v) {const int64_t i = from<int64_t>(v); double x; memcpy(&x, &i, 8); return x;}
 template<> inline Record_Id from(const Val &v) {return Record_Id(v.at(0));}
 template<> inline Blob from(const Val &v) {return Blob(v.at(0), v.at(1));}

 typedef Type::Type_Id T;

 inline const char *type_name(T t)
 {
  switch (t)
  {
   case T::null: return "null";
   #define TYPE_MACRO(a, b, id, r, w) case T::id: return #id;
   #include "joedb/TYPE_MACRO.h"
  }
  return "?";
 }

 // An operation: kind, numbers, name, values
 struct Op
 {
  std::string o;
  Val n;
  std::string s;
  std::vector<Val> v;
  std::string y; // type of the values
  std::string json() const
  {
   return object({{"o", o}, {"n", n}, {"s", canon(s)}, {"v", v}, {"y", y}});
  }
 };

 inline Op op_update(Table_Id t, Record_Id r, Field_Id f, const char *type, Val v)
 {
  return {"update", {to_underlying(t), to_underlying(r), to_underlying(f)}, "", {v}, type};
 }

 inline Op op_timestamp(int64_t x) {return {"timestamp", canon(x)};}

 // Records the operations it gets
 class Recorder: public Writable
 {
  public:
   std::vector<Op> ops;
   bool blobs = true;
   void create_table(const std::string &name) override {ops.push_back({"create_table", {}, name});}
   void drop_table(Table_Id t) override {ops.push_back({"drop_table", {to_underlying(t)}});}
   void rename_table(Table_Id t, const std::string &name) override {ops.push_back({"rename_table", {to_underlying(t)}, name});}
   void add_field(Table_Id t, const std::string &name, Type type) override
   {
    ops.push_back({"add_field", {to_underlying(t), type.get_type_id() == T::reference ? to_underlying(type.get_table_id()) : 0}, name, {}, type_name(type.get_type_id())});
   }
   void drop_field(Table_Id t, Field_Id f) override {ops.push_back({"drop_field", {to_underlying(t), to_underlying(f)}});}
   void rename_field(Table_Id t, Field_Id f, const std::string &name) override {ops.push_back({"rename_field", {to_underlying(t), to_underlying(f)}, name});}
   void custom(const std::string &name) override {ops.push_back({"custom", {}, name});}
   void comment(const std::string &c) override {ops.push_back({"comment", {}, c});}
   void timestamp(int64_t x) override {ops.push_back(op_timestamp(x));}
   void valid_data() override {ops.push_back({"valid_data"});}
   void insert_into(Table_Id t, Record_Id r) override {ops.push_back({"insert", {to_underlying(t), to_underlying(r)}});}
   void delete_from(Table_Id t, Record_Id r) override {ops.push_back({"delete", {to_underlying(t), to_underlying(r)}});}
   void insert_vector(Table_Id t, Record_Id r, size_t n) override {ops.push_back({"insert_vector", {to_underlying(t), to_underlying(r), int64_t(n)}});}
   void delete_vector(Table_Id t, Record_Id r, size_t n) override {ops.push_back({"delete_vector", {to_underlying(t), to_underlying(r), int64_t(n)}});}
   #define TYPE_MACRO(type, return_type, id, R, W)\
   void update_##id(Table_Id t, Record_Id r, Field_Id f, return_type value) override\
   {\
    ops.push_back(op_update(t, r, f, #id, canon(value)));\
   }\
   void update_vector_##id(Table_Id t, Record_Id r, Field_Id f, size_t n, const type *value) override\
   {\
    Op op{"update_vector", {to_underlying(t), to_underlying(r), to_underlying(f), int64_t(n)}, "", {}, #id};\
    for (size_t i = 0; i < n; i++) op.v.push_back(canon(value[i]));\
    ops.push_back(op);\
   }
   #include "joedb/TYPE_MACRO.h"
   Blob pending;
   void on_blob(Blob b) override
   {
    pending = b;
    if (!blobs) ops.push_back({"blob", canon(b)});
   }
   bool wants_blob_data() const override {return blobs;}
   Blob write_blob(std::string_view s) override
   {
    ops.push_back({"blob", canon(pending), "", {canon(s)}});
    return pending;
   }
   J json() const
   {
    std::string r = "[";
    for (size_t i = 0; i < ops.size(); i++) {if (i) r += ','; r += ops[i].json();}
    return J::raw(r + ']');
   }
 };

 // Give an operation to a writable.  Blobs are written, and get their position.
 inline void perform(Op &op, Writable &w)
 {
  const auto t = [&]() {return Table_Id(op.n.at(0));};
  const auto r = [&]() {return Record_Id(op.n.at(1));};
  if (op.o == "create_table") w.create_table(op.s);
  else if (op.o == "drop_table") w.drop_table(t());
  else if (op.o == "rename_table") w.rename_table(t(), op.s);
  else if (op.o == "add_field")
  {
   Type type;
   if (op.y == "reference") type = Type::reference(Table_Id(op.n.at(1)));
   #define TYPE_MACRO(a, b, id, R, W) else if (op.y == #id) type = Type::id();
   #define TYPE_MACRO_NO_REFERENCE
   #include "joedb/TYPE_MACRO.h"
   w.add_field(t(), op.s, type);
  }
  else if (op.o == "drop_field") w.drop_field(t(), Field_Id(op.n.at(1)));
  else if (op.o == "rename_field") w.rename_field(t(), Field_Id(op.n.at(1)), op.s);
  else if (op.o == "custom") w.custom(op.s);
  else if (op.o == "comment") w.comment(op.s);
  else if (op.o == "timestamp") w.timestamp(from<int64_t>(op.n));
  else if (op.o == "valid_data") w.valid_data();
  else if (op.o == "insert") w.insert_into(t(), r());
  else if (op.o == "delete") w.delete_from(t(), r());
  else if (op.o == "insert_vector") w.insert_vector(t(), r(), size_t(op.n.at(2)));
  else if (op.o == "delete_vector") w.delete_vector(t(), r(), size_t(op.n.at(2)));
  else if (op.o == "update")
  {
   if (false) {}
   #define TYPE_MACRO(type, ret, id, R, W)\
   else if (op.y == #id) w.update_##id(t(), r(), Field_Id(op.n.at(2)), from<type>(op.v.at(0)));
   #include "joedb/TYPE_MACRO.h"
  }
  else if (op.o == "update_vector")
  {
   if (false) {}
   #define TYPE_MACRO(type, ret, id, R, W)\
   else if (op.y == #id)\
   {\
    std::vector<type> x;\
    for (const auto &v: op.v) x.push_back(from<type>(v));\
    w.update_vector_##id(t(), r(), Field_Id(op.n.at(2)), x.size(), x.data());\
   }
   #include "joedb/TYPE_MACRO.h"
  }
  else if (op.o == "blob")
   op.n = canon(w.write_blob(from<std::string>(op.v.at(0))));
 }

 // What a database contains: [[tid, name, [[fid, name, type, ref]...], [[rid, [value...]]...]]...]
 inline J show(const Readable &db)
 {
  std::string out = "[";
  bool first_table = true;
  for (const auto &[tid, tname]: db.get_tables())
  {
   out += std::string(first_table ? "" : ",") + '[' + std::to_string(to_underlying(tid)) + ',' + J(canon(tname)).t + ",[";
   first_table = false;
   bool first = true;
   for (const auto &[fid, fname]: db.get_fields(tid))
   {
    const Type type = db.get_field_type(tid, fid);
    out += std::string(first ? "" : ",") + '[' + std::to_string(to_underlying(fid)) + ',' + J(canon(fname)).t + ',' +
     quote(type_name(type.get_type_id())) + ',' + std::to_string(type.get_type_id() == T::reference ? to_underlying(type.get_table_id()) : 0) + ']';
    first = false;
   }
   out += "],[";
   first = true;
   for (Record_Id r{0}; r < db.get_size(tid); ++r)
    if (db.is_used(tid, r))
    {
     out += std::string(first ? "" : ",") + '[' + std::to_string(to_underlying(r)) + ",[";
     first = false;
     bool ff = true;
     for (const auto &[fid, fname]: db.get_fields(tid))
     {
      if (!ff) out += ',';
      ff = false;
      switch (db.get_field_type(tid, fid).get_type_id())
      {
       case T::null: out += "[]"; break;
       #define TYPE_MACRO(type, ret, id, R, W) case T::id: out += J(canon(db.get_##id(tid, r, fid))).t; break;
       #include "joedb/TYPE_MACRO.h"
      }
     }
     out += "]]";
    }
   out += "]]";
  }
  return J::raw(out + ']');
 }

 // What iterating over the tables of an interpreted database gives:
 // [[tid, forwards, backwards, count, free records forwards, backwards, capacity]...]
 inline J walk(const Readable &db)
 {
  std::string out = "[";
  bool first = true;
  for (const auto &[tid, tname]: db.get_tables())
  {
   const auto &f = db.get_freedom(tid);
   Val a, b, c, d;
   for (auto i = f.get_first_free(); i != Freedom_Keeper::free_list && c.size() < 1000; i = f.get_next(i)) c.push_back(to_underlying(i));
   for (auto i = f.get_last_free(); i != Freedom_Keeper::free_list && d.size() < 1000; i = f.get_previous(i)) d.push_back(to_underlying(i));
   for (auto i = f.get_first_used(); i != Freedom_Keeper::used_list && a.size() < 1000; i = f.get_next(i)) a.push_back(to_underlying(i));
   for (auto i = f.get_last_used(); i != Freedom_Keeper::used_list && b.size() < 1000; i = f.get_previous(i)) b.push_back(to_underlying(i));
   out += std::string(first ? "" : ",") + '[' + std::to_string(to_underlying(tid)) + ',' + J(a).t + ',' + J(b).t + ',' + std::to_string(to_underlying(f.get_used_count())) + ',' + J(c).t + ',' + J(d).t + ',' + std::to_string(f.size()) + ']';
   first = false;
  }
  return J::raw(out + ']');
 }

 // Files opened several times in this process, in turns: all the openings see the same bytes
 struct Shared_Bytes {std::string data;};

 class Turn_File: public Abstract_File
 {
  Shared_Bytes &b;
  public:
   Turn_File(Shared_Bytes &b, Open_Mode mode = Open_Mode::shared_write): Abstract_File(mode), b(b) {}
   int64_t get_size() const override {return int64_t(b.data.size());}
   size_t pread(char *p, size_t n, int64_t o) const override
   {
    if (size_t(o) >= b.data.size()) return 0;
    n = std::min(n, b.data.size() - size_t(o));
    memcpy(p, b.data.data() + o, n);
    return n;
   }
   void pwrite(const char *p, size_t n, int64_t o) override
   {
    if (size_t(o) + n > b.data.size()) b.data.resize(size_t(o) + n);
    memcpy(b.data.data() + o, p, n);
   }
 };

 // The bytes of a file, for a fresh reader
 class Copy_File: public Memory_File
 {
  public:
   Copy_File(const std::string &bytes, Open_Mode mode = Open_Mode::write_existing): Memory_File(mode) {data = bytes;}
 };
}

#endif
