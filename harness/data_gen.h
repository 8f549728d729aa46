// Random operations on databases.  The generator keeps its own picture of the
// database, only to choose: what is right is decided by the specification.
#ifndef verif_data_gen_h
#define verif_data_gen_h

#include "data.h"

namespace verif
{
 struct Gen
 {
  struct F {std::string name, type; int ref;};
  struct Tab {std::string name; int next = 0; std::map<int, F> fields; std::set<int> rows;};
  std::map<int, Tab> tabs;
  int nextt = 0;
  std::vector<std::string> used_strings;
  bool special_floats = true, blobs = true, texts = false, nonempty_vectors = false, dangling = true, short_floats = false;
  int max_tables = 4, max_fields = 6, max_id = 30, max_string = 300;

  void apply(const Op &op)
  {
   const auto &n = op.n;
   const auto &o = op.o;
   const auto at = [&]() -> Tab& {return tabs.at(int(n.at(0)));};
   if (o == "create_table") tabs[++nextt].name = op.s;
   else if (o == "drop_table") tabs.erase(int(n[0]));
   else if (o == "rename_table") at().name = op.s;
   else if (o == "add_field") {auto &t = at(); t.fields[++t.next] = F{op.s, op.y, int(n[1])};}
   else if (o == "drop_field") at().fields.erase(int(n[1]));
   else if (o == "rename_field") at().fields.at(int(n[1])).name = op.s;
   else if (o == "insert") at().rows.insert(int(n[1]));
   else if (o == "delete") at().rows.erase(int(n[1]));
   else if (o == "insert_vector") {auto &t = at(); for (int i = 0; i < int(n[2]); i++) t.rows.insert(int(n[1]) + i);}
   else if (o == "delete_vector") {auto &t = at(); for (int i = 0; i < int(n[2]); i++) t.rows.erase(int(n[1]) + i);}
  }

  int some_table(Rng &r) const
  {
   if (tabs.empty()) return 0;
   return std::next(tabs.begin(), r.below(int64_t(tabs.size())))->first;
  }
  static int some(Rng &r, const std::set<int> &s) {return s.empty() ? -1 : *std::next(s.begin(), r.below(int64_t(s.size())));}
  int some_field(Rng &r, int t) const
  {
   const auto it = tabs.find(t);
   if (it == tabs.end() || it->second.fields.empty()) return 0;
   return std::next(it->second.fields.begin(), r.below(int64_t(it->second.fields.size())))->first;
  }
  // runs of records: first and length
  std::pair<int, int> some_run(Rng &r, int t) const
  {
   const auto &rows = tabs.at(t).rows;
   int a = some(r, rows);
   if (a < 0) return {0, 0};
   int n = 1;
   while (n < 5 && rows.count(a + n) && r.chance(75)) n++;
   return {a, n};
  }
  std::string some_name(Rng &r) const
  {
   static const char *names[] = {"a", "b", "cat", "person", "x9", "Very_long_name_of_something_else", "_u", "a_b_c", "z_", "int32", "table"};
   std::string s = names[size_t(r.below(11))];
   if (r.chance(50)) s += std::to_string(r.below(50));
   return s;
  }
  std::string some_text(Rng &r, int max) const
  {
   std::string s;
   const int k = int(r.below(10));
   if (k == 0) return s;
   const int64_t n = k == 1 ? r.below(max) : 1 + r.below(8);
   for (int64_t i = 0; i < n; i++)
    s += k < 4 ? char(r.below(256)) : k < 7 ? "\n\"\\ \t'\r\0;#"[r.below(10)] : char('a' + r.below(26));
   return s;
  }
  Val some_value(Rng &r, const std::string &type, int ref)
  {
   if (type == "string")
   {
    if (!used_strings.empty() && r.chance(20)) return canon(used_strings[size_t(r.below(int64_t(used_strings.size())))]);
    const std::string s = some_text(r, max_string);
    used_strings.push_back(s);
    return canon(s);
   }
   const int64_t bits = int64_t(r.next());
   static const int64_t edge[] = {0, 1, -1, 127, 128, -128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648ll, 4294967296ll, INT64_MAX, INT64_MIN, 63, 64, 8191, 8192, 536870911, 536870912};
   const int64_t e = r.chance(50) ? edge[r.below(22)] : r.chance(50) ? r.below(100) : bits;
   if (type == "int8") return canon(int8_t(e));
   if (type == "int16") return canon(int16_t(e));
   if (type == "int32") return canon(int32_t(e));
   if (type == "int64") return canon(e);
   if (type == "boolean") return canon(bool(bits & 1));
   if (type == "reference")
   {
    if (r.chance(25)) return canon(Record_Id::null);
    const auto it = tabs.find(ref);
    const int x = it == tabs.end() ? -1 : some(r, it->second.rows);
    if (!dangling) return {x};
    return {x < 0 || r.chance(20) ? r.below(max_id) : x};
   }
   if (type == "float32")
   {
    static const float v[] = {0, -0.0f, 1, -1.5f, 0.1f, 1e-45f, 3.4028235e38f, 1.17549435e-38f, 16777217.f, -1e30f, 123456.789f};
    float x = v[r.below(11)];
    if (special_floats && r.chance(20)) {static const uint32_t b[] = {0x7f800000, 0xff800000, 0x7fc00000}; memcpy(&x, &b[r.below(3)], 4);}
    else if (r.chance(30)) {const uint32_t b = uint32_t(bits); float y; memcpy(&y, &b, 4); if (y == y && y - y == 0) x = y;}
    if (short_floats) {char t[64]; snprintf(t, sizeof(t), "%g", double(x)); x = strtof(t, nullptr);}
    return canon(x);
   }
   if (type == "float64")
   {
    static const double v[] = {0, -0.0, 1, -1.5, 0.1, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, -1e300, 123456.789, 1.0 / 3};
    double x = v[r.below(12)];
    if (special_floats && r.chance(20)) {static const uint64_t b[] = {0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000}; memcpy(&x, &b[r.below(3)], 8);}
    else if (r.chance(30)) {double y; memcpy(&y, &bits, 8); if (y == y && y - y == 0) x = y;}
    if (short_floats) {char t[64]; snprintf(t, sizeof(t), "%g", double(x)); x = strtod(t, nullptr);}
    return canon(x);
   }
   if (type == "blob") return blobs ? Val{r.below(100), r.below(20)} : Val{0, 0};
   return {};
  }

  Op data_op(Rng &r)
  {
   const int t = some_table(r);
   if (!t) return {"comment", {}, some_text(r, 50)};
   auto &tab = tabs.at(t);
   const int k = int(r.below(100));
   if (k < 22 || tab.rows.empty())
   {
    int id = int(r.below(max_id));
    if (r.chance(60)) {id = 0; while (tab.rows.count(id)) id++;}
    if (r.chance(30))
    {
     int n = 1 + int(r.below(5));
     if (r.chance(60)) id = tab.rows.empty() ? 0 : *tab.rows.rbegin() + 1;
     for (int i = 0; i < n; i++) if (tab.rows.count(id + i)) n = i;
     if (n) return {"insert_vector", {t, id, n}};
    }
    if (!tab.rows.count(id)) return {"insert", {t, id}};
    return {"comment", {}, some_text(r, 50)};
   }
   if (k < 30) return {"delete", {t, some(r, tab.rows)}};
   if (k < 34) {const auto [a, n] = some_run(r, t); return {"delete_vector", {t, a, n}};}
   if (k < 38) return {"comment", {}, some_text(r, 200)};
   if (k < 41) return op_timestamp(int64_t(r.next()));
   if (k < 44) return {"valid_data"};
   if (k < 47 && blobs) return {"blob", {}, "", {canon(some_text(r, 3000))}};
   const int f = some_field(r, t);
   if (!f) return {"delete", {t, some(r, tab.rows)}};
   const auto &field = tab.fields.at(f);
   if (k < 60)
   {
    const auto [a, n] = some_run(r, t);
    Op op{"update_vector", {t, a, f, n}, "", {}, field.type};
    for (int i = 0; i < n; i++) op.v.push_back(some_value(r, field.type, field.ref));
    return op;
   }
   Op op{"update", {t, some(r, tab.rows), f}, "", {some_value(r, field.type, field.ref)}, field.type};
   return op;
  }
  bool free_name(const std::string &s) const {for (const auto &[i, t]: tabs) if (t.name == s) return false; return true;}
  bool free_name(int ti, const std::string &s) const {for (const auto &[i, f]: tabs.at(ti).fields) if (f.name == s) return false; return true;}
  Op schema_op(Rng &r)
  {
   const int k = int(r.below(100));
   const std::string s = some_name(r);
   const int t = some_table(r);
   if ((k < 20 || !t) && int(tabs.size()) < max_tables && free_name(s)) return {"create_table", {}, s};
   if (!t) return {"valid_data"};
   if (k < 26) return {"drop_table", {t}};
   if (k < 36 && free_name(s)) return {"rename_table", {t}, s};
   if (k < 78 && free_name(t, s) && int(tabs.at(t).fields.size()) < max_fields)
   {
    static const char *types[] = {"string", "int32", "int64", "reference", "boolean", "float32", "float64", "int8", "int16", "blob"};
    const std::string y = types[r.below(blobs ? 10 : 9)];
    return {"add_field", {t, y == "reference" ? some_table(r) : 0}, s, {}, y};
   }
   if (k < 95)
   {
    const int f = some_field(r, t);
    if (f && k < 86) return {"drop_field", {t, f}};
    if (f && free_name(t, s)) return {"rename_field", {t, f}, s};
   }
   return {"custom", {}, "custom" + std::to_string(r.below(5))};
  }
  Op valid_op(Rng &r, int schema)
  {
   if (r.chance(schema)) return schema_op(r);
   return data_op(r);
  }
  // Something that may be invalid
  Op wild_op(Rng &r)
  {
   const int t = r.chance(80) ? some_table(r) : int(r.below(nextt + 3));
   const int f = r.chance(60) ? some_field(r, t) : int(r.below(9));
   const int id = int(r.below(max_id)) - (r.chance(20) ? 2 : 0);
   static const char *bad[] = {"", "9a", "a b", "a__b", "a-b", "\xc3\xa9", "a\n", "a.b", " a"};
   std::string s = r.chance(50) ? bad[r.below(9)] : some_name(r);
   if (r.chance(40)) {const int u = some_table(r); if (u) {s = tabs.at(u).name; const int g = some_field(r, u); if (g && r.chance(60)) s = tabs.at(u).fields.at(g).name;}}
   static const char *types[] = {"string", "int32", "int64", "reference", "boolean", "float32", "float64", "int8", "int16", "blob"};
   std::string y = types[r.below(10)];
   if (r.chance(60)) {const auto it = tabs.find(t); if (it != tabs.end()) {const auto g = it->second.fields.find(f); if (g != it->second.fields.end()) y = g->second.type;}}
   const int n = int(r.below(6));
   switch (r.below(12))
   {
    case 0: return {"create_table", {}, s};
    case 1: return {"drop_table", {t}};
    case 2: return {"rename_table", {t}, s};
    case 3: return {"add_field", {t, y == "reference" ? some_table(r) : 0}, s, {}, y == "reference" && !some_table(r) ? "int32" : y};
    case 4: return {"drop_field", {t, f}};
    case 5: return {"rename_field", {t, f}, s};
    case 6: return {"insert", {t, id}};
    case 7: return {"delete", {t, id}};
    case 8: return {"insert_vector", {t, id, n}};
    case 9: return {"delete_vector", {t, id, n}};
    case 10: return {"update", {t, id, f}, "", {some_value(r, y, some_table(r))}, y};
    default:
    {
     Op op{"update_vector", {t, id, f, n}, "", {}, y};
     for (int i = 0; i < n; i++) op.v.push_back(some_value(r, y, some_table(r)));
     return op;
    }
   }
  }
 };
}

#endif
