// Canonical text form of values, used on both sides of the harness:
//   n | T | F | i<dec> | l<dec> | d<16 hex digits> | s<hex> | b<hex> | D<text> | [v,v] | {<hex>=v,<hex>=v}
#ifndef VALTEXT_H
#define VALTEXT_H
#include <libiqxmlrpc/libiqxmlrpc.h>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>

namespace vt {

inline std::string hex(const std::string& s)
{
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline int hv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
inline std::string unhex(const std::string& s)
{
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(hv(s[i]) * 16 + hv(s[i + 1]));
  return r;
}

inline std::string dump(const iqxmlrpc::Value& v)
{
  using namespace iqxmlrpc;
  if (v.is_nil()) return "n";
  if (v.is_bool()) return v.get_bool() ? "T" : "F";
  if (v.is_int()) return "i" + std::to_string(v.get_int());
  if (v.is_int64()) return "l" + std::to_string((long long)v.get_int64());
  if (v.is_double()) {
    double d = v.get_double(); uint64_t u; memcpy(&u, &d, 8);
    char b[32]; snprintf(b, sizeof b, "d%016llx", (unsigned long long)u);
    return b;
  }
  if (v.is_string()) return "s" + hex(v.get_string());
  if (v.is_binary()) return "b" + hex(v.get_binary().get_data());
  if (v.is_datetime()) return "D" + v.get_datetime().to_string();
  if (v.is_array()) {
    std::string r = "[";
    bool first = true;
    for (Array::const_iterator i = v.arr_begin(); i != v.arr_end(); ++i) { if (!first) r += ","; first = false; r += dump(*i); }
    return r + "]";
  }
  if (v.is_struct()) {
    std::string r = "{";
    bool first = true;
    const Struct& s = v.the_struct();
    for (Struct::const_iterator i = s.begin(); i != s.end(); ++i) { if (!first) r += ","; first = false; r += hex(i->first) + "=" + dump(*i->second); }
    return r + "}";
  }
  return "?";
}

struct P {
  const std::string& s; size_t i;
  bool stop(char c) { return c == ',' || c == ']' || c == '}' || c == '='; }
  // The same value is made in different ways, by where its text begins.
  static iqxmlrpc::Value text(const std::string& t, size_t form)
  {
    using namespace iqxmlrpc;
    if (form % 3 == 1 && t.find('\0') == std::string::npos) return Value(t.c_str());
    if (form % 3 == 2) return Value(new String(t));
    return Value(t);
  }
  static iqxmlrpc::Value data(const std::string& t, size_t form)
  {
    using namespace iqxmlrpc;
    Binary_data* b = form % 3 == 1 ? Binary_data::from_data(t.data(), t.size()) : Binary_data::from_data(t);
    if (form % 3 != 2) return Value(b);
    Value v(*b);
    delete b;
    return v;
  }
  static iqxmlrpc::Value date(const std::string& t, size_t form)
  {
    using namespace iqxmlrpc;
    Date_time d(t);
    if (form % 3 == 1) return Value(d);
    struct tm m; memset(&m, 0, sizeof m);
    if (form % 3 == 2 && sscanf(t.c_str(), "%4d%2d%2dT%2d:%2d:%2d", &m.tm_year, &m.tm_mon, &m.tm_mday, &m.tm_hour, &m.tm_min, &m.tm_sec) == 6) {
      m.tm_year -= 1900; m.tm_mon -= 1;
      return Value(&m);
    }
    return Value(new Date_time(d));
  }
  std::string word() { size_t b = i; while (i < s.size() && !stop(s[i])) ++i; return s.substr(b, i - b); }
  iqxmlrpc::Value val()
  {
    using namespace iqxmlrpc;
    size_t at = i;
    char c = s.at(i++);
    switch (c) {
      case 'n': return Value(Nil());
      case 'T': return Value(true);
      case 'F': return Value(false);
      case 'i': return Value((int)std::stol(word()));
      case 'l': return Value((int64_t)std::stoll(word()));
      case 'd': { uint64_t u = std::stoull(word(), 0, 16); double d; memcpy(&d, &u, 8); return Value(d); }
      case 's': return text(unhex(word()), at);
      case 'b': return data(unhex(word()), at);
      case 'D': return date(word(), at);
      case '[': {
        Array a;
        if (s.at(i) == ']') { ++i; return Value(a); }
        for (;;) { a.push_back(val()); if (s.at(i++) == ']') break; }
        return Value(a);
      }
      case '{': {
        Struct st;
        if (s.at(i) == '}') { ++i; return Value(st); }
        for (;;) { std::string k = unhex(word()); ++i; st.insert(k, val()); if (s.at(i++) == '}') break; }
        return Value(st);
      }
    }
    throw std::runtime_error("valtext: bad value text");
  }
};
inline iqxmlrpc::Value parse(const std::string& t) { P p{t, 0}; return p.val(); }

} // namespace vt
#endif
