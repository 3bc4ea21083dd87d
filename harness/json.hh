// Minimal JSON value, parser and writer for the conformance drivers.
#ifndef VERIF_JSON_HH
#define VERIF_JSON_HH
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace js {

struct Value;
typedef std::vector<Value> Arr;
typedef std::vector<std::pair<std::string, Value>> Obj;

struct Value {
  enum T { NUL, BOOL, INT, STR, ARR, OBJ } t = NUL;
  bool b = false;
  long i = 0;
  std::string s;
  Arr a;
  Obj o;
  Value() {}
  Value(bool x) : t(BOOL), b(x) {}
  Value(int x) : t(INT), i(x) {}
  Value(unsigned x) : t(INT), i(x) {}
  Value(long x) : t(INT), i(x) {}
  Value(std::size_t x) : t(INT), i((long) x) {}
  Value(const char *x) : t(STR), s(x) {}
  Value(std::string const& x) : t(STR), s(x) {}
  Value(Arr const& x) : t(ARR), a(x) {}
  template<class U> Value(std::vector<U> const& x) : t(ARR) {
    for (auto const& e : x) a.push_back(Value(e));
  }
  Value(std::vector<bool> const& x) : t(ARR) {
    for (bool e : x) a.push_back(Value(e));
  }
  static Value array() { Value v; v.t = ARR; return v; }
  static Value object() { Value v; v.t = OBJ; return v; }
  Value& push(Value v) { t = ARR; a.push_back(std::move(v)); return *this; }
  Value& set(std::string const& k, Value v) {
    t = OBJ;
    for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; }
    o.emplace_back(k, std::move(v));
    return *this;
  }
  bool has(std::string const& k) const {
    for (auto const& p : o) if (p.first == k) return true;
    return false;
  }
  Value const& operator[](std::string const& k) const {
    for (auto const& p : o) if (p.first == k) return p.second;
    throw std::runtime_error("no key " + k);
  }
  Value const& operator[](int n) const { return a.at(n); }
  Value const& operator[](char const *k) const { return (*this)[std::string(k)]; }
  int num() const { if (t == BOOL) return b; if (t != INT) throw std::runtime_error("not int"); return (int) i; }
  bool yes() const { if (t == INT) return i != 0; if (t != BOOL) throw std::runtime_error("not bool"); return b; }
  std::string const& str() const { if (t != STR) throw std::runtime_error("not str"); return s; }
  std::size_t size() const { return t == OBJ ? o.size() : a.size(); }
  std::vector<int> ints() const { std::vector<int> r; for (auto const& e : a) r.push_back(e.num()); return r; }
  std::vector<double> dbls() const { std::vector<double> r; for (auto const& e : a) r.push_back(e.num()); return r; }
  std::vector<std::string> strs() const { std::vector<std::string> r; for (auto const& e : a) r.push_back(e.str()); return r; }
  int num(std::string const& k, int d) const { return has(k) ? (*this)[k].num() : d; }
  bool yes(std::string const& k, bool d) const { return has(k) ? (*this)[k].yes() : d; }
  std::string str(std::string const& k, std::string const& d) const { return has(k) ? (*this)[k].str() : d; }

  void dump(std::string *out) const {
    switch (t) {
      case NUL: *out += "\"null\""; break;
      case BOOL: *out += b ? "true" : "false"; break;
      case INT: *out += std::to_string(i); break;
      case STR:
        *out += '"';
        for (char c : s) {
          if (c == '"' || c == '\\') { *out += '\\'; *out += c; }
          else if ((unsigned char) c < 32 || (unsigned char) c > 126) { char buf[8]; snprintf(buf, 8, "\\u%04x", (unsigned char) c); *out += buf; }
          else *out += c;
        }
        *out += '"';
        break;
      case ARR: {
        *out += '[';
        bool f = true;
        for (auto const& e : a) { if (!f) *out += ','; f = false; e.dump(out); }
        *out += ']';
        break;
      }
      case OBJ: {
        *out += '{';
        bool f = true;
        for (auto const& e : o) { if (!f) *out += ','; f = false; *out += '"' + e.first + "\":"; e.second.dump(out); }
        *out += '}';
        break;
      }
    }
  }
  std::string dump() const { std::string r; dump(&r); return r; }
};

struct Parser {
  const char *p, *e;
  Parser(std::string const& s) : p(s.data()), e(s.data() + s.size()) {}
  void ws() { while (p < e && isspace((unsigned char) *p)) ++p; }
  [[noreturn]] void bad() { throw std::runtime_error("bad json"); }
  Value parse() {
    ws();
    if (p >= e) bad();
    if (*p == '{') {
      ++p; Value v = Value::object(); ws();
      if (*p == '}') { ++p; return v; }
      for (;;) {
        ws(); Value k = parse(); ws();
        if (k.t != Value::STR || *p != ':') bad();
        ++p;
        v.o.push_back(std::make_pair(k.s, parse())); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == '}') { ++p; return v; }
        bad();
      }
    }
    if (*p == '[') {
      ++p; Value v = Value::array(); ws();
      if (*p == ']') { ++p; return v; }
      for (;;) {
        v.a.push_back(parse()); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == ']') { ++p; return v; }
        bad();
      }
    }
    if (*p == '"') {
      ++p; Value v(std::string(""));
      while (p < e && *p != '"') {
        if (*p == '\\') {
          ++p;
          switch (*p) {
            case 'n': v.s += '\n'; break;
            case 't': v.s += '\t'; break;
            case 'u': { v.s += (char) strtol(std::string(p+1, p+5).c_str(), nullptr, 16); p += 4; break; }
            default: v.s += *p;
          }
          ++p;
        } else v.s += *p++;
      }
      if (p >= e) bad();
      ++p; return v;
    }
    if (!strncmp_(p, "true")) { p += 4; return Value(true); }
    if (!strncmp_(p, "false")) { p += 5; return Value(false); }
    if (!strncmp_(p, "null")) { p += 4; return Value(); }
    if (*p == '-' || isdigit((unsigned char) *p)) {
      char *q; long n = strtol(p, &q, 10); p = q;
      return Value(n);
    }
    bad();
  }
  int strncmp_(const char *x, const char *lit) {
    while (*lit) { if (x >= e || *x != *lit) return 1; ++x; ++lit; }
    return 0;
  }
};

inline Value parse(std::string const& s) { Parser p(s); return p.parse(); }

// Fixed point with a sentinel for values no specification value can equal
// (TLC integers are 32 bit).
inline Value fix(double x, double scale = 1000.0) {
  double y = x*scale;
  if (!(y == y) || y > 1.9e9 || y < -1.9e9) return Value(1999999999);
  return Value((long) std::llround(y));
}

}  // namespace js
#endif
