// Minimal stand-in for kazuho/picojson (the submodule is empty in this sandbox): the same value
// model, throwing getters, parser and serializer, restricted to what a client can observe.
#ifndef picojson_h
#define picojson_h
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace picojson
{
  enum { null_type, boolean_type, number_type, string_type, array_type, object_type };
  struct null {};

  class value
  {
  public:
    typedef std::vector<value> array;
    typedef std::map<std::string, value> object;
  private:
    int type_;
    bool b_;
    double n_;
    std::string s_;
    array a_;
    std::map<std::string, value> *o_; // map of incomplete type: keep it behind a pointer
    void dup(const value &x)
    {
      type_ = x.type_; b_ = x.b_; n_ = x.n_; s_ = x.s_; a_ = x.a_;
      o_ = x.o_ ? new object(*x.o_) : nullptr;
    }
  public:
    value() : type_(null_type), b_(false), n_(0), o_(nullptr) {}
    value(int type, bool) : type_(type), b_(false), n_(0), o_(type == object_type ? new object() : nullptr) {}
    explicit value(bool b) : type_(boolean_type), b_(b), n_(0), o_(nullptr) {}
    explicit value(double n) : type_(number_type), b_(false), n_(n), o_(nullptr)
    {
      if (std::isnan(n) || std::isinf(n)) throw std::overflow_error("");
    }
    explicit value(int64_t n) : value((double)n) {}
    explicit value(const std::string &s) : type_(string_type), b_(false), n_(0), s_(s), o_(nullptr) {}
    explicit value(const char *s) : type_(string_type), b_(false), n_(0), s_(s), o_(nullptr) {}
    explicit value(const array &a) : type_(array_type), b_(false), n_(0), a_(a), o_(nullptr) {}
    explicit value(const object &o) : type_(object_type), b_(false), n_(0), o_(new object(o)) {}
    value(const value &x) { dup(x); }
    value &operator=(const value &x)
    {
      if (this != &x) { value t(x); swap(t); }
      return *this;
    }
    ~value() { delete o_; }
    void swap(value &x)
    {
      std::swap(type_, x.type_); std::swap(b_, x.b_); std::swap(n_, x.n_);
      s_.swap(x.s_); a_.swap(x.a_); std::swap(o_, x.o_);
    }
    template <typename T> bool is() const;
    template <typename T> const T &get() const;
    template <typename T> T &get();
    template <typename T> void set(const T &);
    bool evaluate_as_boolean() const
    {
      switch (type_)
      {
      case null_type: return false;
      case boolean_type: return b_;
      case number_type: return n_ != 0;
      case string_type: return !s_.empty();
      default: return true;
      }
    }
    const value &get(size_t i) const { static value n; return i < a_.size() ? a_[i] : n; }
    const value &get(const std::string &k) const
    {
      static value n;
      if (!o_) return n;
      auto it = o_->find(k);
      return it == o_->end() ? n : it->second;
    }
    bool contains(size_t i) const { return i < a_.size(); }
    bool contains(const std::string &k) const { return o_ && o_->count(k) > 0; }
    std::string to_str() const
    {
      switch (type_)
      {
      case null_type: return "null";
      case boolean_type: return b_ ? "true" : "false";
      case number_type:
      {
        char buf[256]; double tmp;
        snprintf(buf, sizeof buf, std::fabs(n_) < (1ULL << 53) && std::modf(n_, &tmp) == 0 ? "%.f" : "%.17g", n_);
        return buf;
      }
      case string_type: return s_;
      case array_type: return "array";
      default: return "object";
      }
    }
    std::string serialize(bool prettify = false) const { std::string out; ser(out, prettify ? 0 : -1); return out; }
  private:
    static void qstr(const std::string &s, std::string &o)
    {
      o += '"';
      for (unsigned char c : s)
        switch (c)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '/': o += "\\/"; break;
        case '\b': o += "\\b"; break;
        case '\f': o += "\\f"; break;
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        default:
          if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
          else o += (char)c;
        }
      o += '"';
    }
    static void ind(std::string &o, int n) { o += '\n'; for (int i = 0; i < n * 2; ++i) o += ' '; }
    void ser(std::string &o, int indent) const
    {
      if (type_ == string_type) qstr(s_, o);
      else if (type_ == array_type)
      {
        o += '['; if (indent != -1) ++indent;
        for (size_t i = 0; i < a_.size(); ++i)
        {
          if (i) o += ',';
          if (indent != -1) ind(o, indent);
          a_[i].ser(o, indent);
        }
        if (indent != -1) { --indent; if (!a_.empty()) ind(o, indent); }
        o += ']';
      }
      else if (type_ == object_type)
      {
        o += '{'; if (indent != -1) ++indent;
        bool first = true;
        for (auto &kv : *o_)
        {
          if (!first) o += ',';
          first = false;
          if (indent != -1) ind(o, indent);
          qstr(kv.first, o); o += ':'; if (indent != -1) o += ' ';
          kv.second.ser(o, indent);
        }
        if (indent != -1) { --indent; if (!o_->empty()) ind(o, indent); }
        o += '}';
      }
      else o += to_str();
    }
    friend struct parser;
  };
  typedef value::array array;
  typedef value::object object;

#define VSHIM_PJ(T, TY) template <> inline bool value::is<T>() const { return type_ == TY; }
  VSHIM_PJ(null, null_type) VSHIM_PJ(bool, boolean_type) VSHIM_PJ(double, number_type)
  VSHIM_PJ(std::string, string_type) VSHIM_PJ(array, array_type) VSHIM_PJ(object, object_type)
#undef VSHIM_PJ
#define VSHIM_PJ(T, EXPR) \
  template <> inline const T &value::get<T>() const { \
    if (!is<T>()) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); \
    return EXPR; } \
  template <> inline T &value::get<T>() { \
    if (!is<T>()) throw std::runtime_error("\"type mismatch! call is<type>() before get<type>()\" && is<" #T ">()"); \
    return EXPR; }
  VSHIM_PJ(bool, b_) VSHIM_PJ(double, n_) VSHIM_PJ(std::string, s_) VSHIM_PJ(array, a_) VSHIM_PJ(object, *o_)
#undef VSHIM_PJ
  template <> inline void value::set<bool>(const bool &x) { *this = value(x); }
  template <> inline void value::set<double>(const double &x) { *this = value(x); }
  template <> inline void value::set<std::string>(const std::string &x) { *this = value(x); }
  template <> inline void value::set<array>(const array &x) { *this = value(x); }
  template <> inline void value::set<object>(const object &x) { *this = value(x); }

  struct parser
  {
    const std::string &s; size_t p; std::string err;
    explicit parser(const std::string &t) : s(t), p(0) {}
    void ws() { while (p < s.size() && (s[p]==' '||s[p]=='\t'||s[p]=='\n'||s[p]=='\r')) ++p; }
    bool fail() { if (err.empty()) { int l = 1 + (int)std::count(s.begin(), s.begin() + std::min(p, s.size()), '\n');
        err = "syntax error at line " + std::to_string(l) + " near: "; } return false; }
    bool lit(const char *t) { size_t n = strlen(t); if (s.compare(p, n, t) == 0) { p += n; return true; } return fail(); }
    bool str(std::string &o)
    {
      if (p >= s.size() || s[p] != '"') return fail();
      ++p;
      while (p < s.size())
      {
        unsigned char c = s[p++];
        if (c < ' ') return fail();
        if (c == '"') return true;
        if (c != '\\') { o += (char)c; continue; }
        if (p >= s.size()) return fail();
        switch (s[p++])
        {
        case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
        case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u':
        {
          if (p + 4 > s.size()) return fail();
          unsigned u = (unsigned)strtoul(s.substr(p, 4).c_str(), nullptr, 16); p += 4;
          if (u < 0x80) o += (char)u;
          else if (u < 0x800) { o += (char)(0xC0 | (u >> 6)); o += (char)(0x80 | (u & 63)); }
          else { o += (char)(0xE0 | (u >> 12)); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
          break;
        }
        default: return fail();
        }
      }
      return fail();
    }
    bool val(value &v, int depth = 0)
    {
      if (depth > 100) return fail();
      ws();
      if (p >= s.size()) return fail();
      char c = s[p];
      if (c == '{')
      {
        ++p; v = value(object_type, false); ws();
        if (p < s.size() && s[p] == '}') { ++p; return true; }
        for (;;)
        {
          ws(); std::string k;
          if (!str(k)) return false;
          ws(); if (p >= s.size() || s[p] != ':') return fail();
          ++p;
          if (!val((*v.o_)[k], depth + 1)) return false;
          ws();
          if (p < s.size() && s[p] == ',') { ++p; continue; }
          if (p < s.size() && s[p] == '}') { ++p; return true; }
          return fail();
        }
      }
      if (c == '[')
      {
        ++p; v = value(array_type, false); ws();
        if (p < s.size() && s[p] == ']') { ++p; return true; }
        for (;;)
        {
          v.a_.push_back(value());
          if (!val(v.a_.back(), depth + 1)) return false;
          ws();
          if (p < s.size() && s[p] == ',') { ++p; continue; }
          if (p < s.size() && s[p] == ']') { ++p; return true; }
          return fail();
        }
      }
      if (c == '"') { v = value(std::string()); return str(v.s_); }
      if (c == 't') { v = value(true); return lit("true"); }
      if (c == 'f') { v = value(false); return lit("false"); }
      if (c == 'n') { v = value(); return lit("null"); }
      if (c == '-' || (c >= '0' && c <= '9'))
      {
        std::string t;
        while (p < s.size() && (isdigit((unsigned char)s[p]) || strchr("+-eE.", s[p]))) t += s[p++];
        char *e; double d = strtod(t.c_str(), &e);
        if (*e || std::isinf(d) || std::isnan(d)) return fail();
        v = value(d); return true;
      }
      return fail();
    }
  };
  inline std::string &last_error_ref() { static std::string e; return e; }
  inline const std::string &get_last_error() { return last_error_ref(); }
  inline void set_last_error(const std::string &e) { last_error_ref() = e; }
  inline std::string parse(value &v, const std::string &t) { parser p(t); p.val(v); return p.err; }
  inline std::string parse(value &v, std::istream &is)
  {
    std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    return parse(v, t);
  }
  inline std::istream &operator>>(std::istream &is, value &x)
  {
    last_error_ref().clear();
    std::string err = parse(x, is);
    if (!err.empty()) { last_error_ref() = err; is.setstate(std::ios::failbit); }
    return is;
  }
  inline std::ostream &operator<<(std::ostream &os, const value &x) { return os << x.serialize(); }
}
#endif
