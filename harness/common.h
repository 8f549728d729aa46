// Helpers shared by the harnesses: random numbers, JSON output.
#ifndef verif_common_h
#define verif_common_h

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>
#include <initializer_list>

namespace verif
{
 struct Rng
 {
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next()
  {
   uint64_t z = (s += 0x9e3779b97f4a7c15ull);
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
  }
  // in [0, n)
  int64_t below(int64_t n) {return n <= 0 ? 0 : int64_t(next() % uint64_t(n));}
  bool chance(int percent) {return below(100) < percent;}
 };

 inline std::string quote(std::string_view s)
 {
  std::string r = "\"";
  for (const char c: s)
  {
   if (c == '"' || c == '\\')
    (r += '\\') += c;
   else if (uint8_t(c) < 32 || uint8_t(c) > 126)
   {
    char b[8];
    snprintf(b, sizeof(b), "\\u%04x", uint8_t(c));
    r += b;
   }
   else
    r += c;
  }
  return r + '"';
 }

 // A JSON value, as text
 struct J
 {
  std::string t;
  J(): t("null") {}
  J(const char *s): t(quote(s)) {}
  J(const std::string &s): t(quote(s)) {}
  J(bool b): t(b ? "true" : "false") {}
  J(int i): t(std::to_string(i)) {}
  J(long i): t(std::to_string(i)) {}
  J(long long i): t(std::to_string(i)) {}
  J(unsigned i): t(std::to_string(i)) {}
  J(unsigned long i): t(std::to_string(i)) {}
  template<typename T> J(const std::vector<T> &v): t("[")
  {
   bool first = true;
   for (const auto &x: v)
   {
    if (!first) t += ',';
    first = false;
    t += J(x).t;
   }
   t += ']';
  }
  static J raw(std::string s) {J j; j.t = std::move(s); return j;}
 };

 typedef std::vector<std::pair<const char *, J>> Fields;

 inline std::string object(const Fields &f)
 {
  std::string r = "{";
  for (size_t i = 0; i < f.size(); i++)
  {
   if (i) r += ',';
   r += '"';
   r += f[i].first;
   r += "\":";
   r += f[i].second.t;
  }
  return r + '}';
 }

 // A trace: a sequence of events
 struct Trace
 {
  std::string id;
  std::string text;
  size_t n = 0;
  std::string extra; // additional fields of the trace, as ",\"name\":value"
  void add(const char *e, const Fields &f = {})
  {
   Fields g{{"e", e}};
   for (const auto &x: f) g.push_back(x);
   if (n++) text += ",\n";
   text += object(g);
  }
 };

 struct Trace_Writer
 {
  FILE *f;
  size_t traces = 0, events = 0;
  explicit Trace_Writer(const char *name): f(fopen(name, "w"))
  {
   if (!f) {perror(name); exit(3);}
   fputs("[", f);
  }
  void write(const Trace &t)
  {
   fprintf(f, "%s{\"id\":%s%s,\"ev\":[%s]}", traces ? ",\n" : "", quote(t.id).c_str(), t.extra.c_str(), t.text.c_str());
   traces++;
   events += t.n;
  }
  void close() {if (f) {fputs("]\n", f); fclose(f); f = nullptr;}}
  ~Trace_Writer() {close();}
 };
}

#endif
