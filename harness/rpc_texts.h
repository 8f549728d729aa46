// The content of a message, as text
#ifndef verif_rpc_texts_h
#define verif_rpc_texts_h

#include <string>
#include <cstdint>

namespace verif
{
 inline std::string shortened(const std::string &s)
 {
  if (s.size() < 100) return s;
  uint64_t h = 0xcbf29ce484222325ull;
  for (const char c: s) h = (h ^ uint8_t(c)) * 0x100000001b3ull;
  return s.substr(0, 40) + "..." + std::to_string(s.size()) + "#" + std::to_string(h);
 }

 template<typename M> std::string text_of(M &m)
 {
  std::string s;
  if constexpr (requires {m.get_head_table();})
  {
   for (const auto h: m.get_head_table())
    s += std::to_string(m.get_id(h)) + " " + std::to_string(m.get_n(h));
   if constexpr (requires {m.get_word(*m.get_head_table().begin());})
    for (const auto h: m.get_head_table())
     s += " " + m.get_word(h);
  }
  if constexpr (requires {m.get_row_table();})
  {
   for (const auto r: m.get_row_table())
    s += "; " + std::to_string(int64_t(r.get_id())) + ": " + std::to_string(m.get_number(r)) + " " + m.get_text(r) + " " +
         std::to_string(int64_t(m.get_next(r).get_id())) + " " + std::to_string(m.get_v(r));
   s += "|";
   for (const auto &x: m.get_index_of_row_by_number())
    s += " " + std::to_string(int64_t(x.second.get_id()));
  }
  if constexpr (requires {m.get_entry_table();})
   for (const auto e: m.get_entry_table())
    s += " " + std::to_string(int64_t(e.get_id())) + ":" + std::to_string(m.get_call(e));
  return shortened(s);
 }
}

#endif
