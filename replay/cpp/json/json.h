// A small JSON library with the interface of JsonCpp (which is not installed).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <iterator>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace Json {
enum ValueType {
  nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue,
  arrayValue, objectValue
};
typedef std::string String;
typedef int64_t Int64;
typedef uint64_t UInt64;
typedef int Int;
typedef unsigned UInt;
typedef Int64 LargestInt;
typedef UInt64 LargestUInt;
typedef unsigned ArrayIndex;

class LogicError : public std::runtime_error {
 public:
  explicit LogicError(const std::string& s) : std::runtime_error(s) {}
};

class Value;

class ValueConstIterator {
 public:
  ValueConstIterator() {}
  ValueConstIterator(const Value* owner, size_t i) : owner_(owner), i_(i) {}
  const Value& operator*() const;
  const Value* operator->() const { return &**this; }
  ValueConstIterator& operator++() {
    ++i_;
    return *this;
  }
  ValueConstIterator operator++(int) {
    ValueConstIterator o = *this;
    ++*this;
    return o;
  }
  bool operator==(const ValueConstIterator& o) const { return i_ == o.i_; }
  bool operator!=(const ValueConstIterator& o) const { return !(*this == o); }
  std::string name() const;
  const char* memberName() const;
  UInt index() const { return static_cast<UInt>(i_); }
  Value key() const;

 private:
  const Value* owner_ = nullptr;
  size_t i_ = 0;
};

class Value {
 public:
  typedef ValueConstIterator const_iterator;
  typedef ValueConstIterator iterator;
  typedef std::vector<std::string> Members;
  typedef unsigned ArrayIndex;
  typedef int64_t Int64;
  typedef uint64_t UInt64;

  Value(ValueType t = nullValue) : t_(t) {}
  Value(int v) : t_(intValue), i_(v) {}
  Value(unsigned v) : t_(uintValue), u_(v) {}
  Value(long v) : t_(intValue), i_(v) {}
  Value(long long v) : t_(intValue), i_(v) {}
  Value(unsigned long v) : t_(uintValue), u_(v) {}
  Value(unsigned long long v) : t_(uintValue), u_(v) {}
  Value(double v) : t_(realValue), d_(v) {}
  Value(const char* v) : t_(stringValue), s_(v) {}
  Value(const std::string& v) : t_(stringValue), s_(v) {}
  Value(bool v) : t_(booleanValue), b_(v) {}

  ValueType type() const { return t_; }
  bool isNull() const { return t_ == nullValue; }
  bool isBool() const { return t_ == booleanValue; }
  bool isString() const { return t_ == stringValue; }
  bool isArray() const { return t_ == arrayValue; }
  bool isObject() const { return t_ == objectValue; }
  bool isInt64() const {
    switch (t_) {
      case intValue: return true;
      case uintValue: return u_ <= UInt64(std::numeric_limits<Int64>::max());
      case realValue:
        return d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0 &&
               whole();
      default: return false;
    }
  }
  bool isUInt64() const {
    switch (t_) {
      case intValue: return i_ >= 0;
      case uintValue: return true;
      case realValue:
        return d_ >= 0 && d_ < 18446744073709551616.0 && whole();
      default: return false;
    }
  }
  bool isInt() const {
    return isInt64() && asInt64() >= std::numeric_limits<int>::min() &&
           asInt64() <= std::numeric_limits<int>::max();
  }
  bool isUInt() const {
    return isUInt64() && asUInt64() <= std::numeric_limits<unsigned>::max();
  }
  bool isIntegral() const { return isInt64() || isUInt64(); }
  bool isDouble() const {
    return t_ == realValue || t_ == intValue || t_ == uintValue;
  }
  bool isNumeric() const { return isDouble(); }
  bool asBool() const {
    switch (t_) {
      case booleanValue: return b_;
      case nullValue: return false;
      case intValue: return i_ != 0;
      case uintValue: return u_ != 0;
      case realValue: return d_ != 0;
      default: throw LogicError("Value is not convertible to bool.");
    }
  }
  Int64 asInt64() const {
    switch (t_) {
      case intValue: return i_;
      case uintValue:
        if (!isInt64()) throw LogicError("LargestUInt out of Int64 range");
        return Int64(u_);
      case realValue:
        if (!(d_ >= -9223372036854775808.0 && d_ < 9223372036854775808.0))
          throw LogicError("double out of Int64 range");
        return Int64(d_);
      case nullValue: return 0;
      case booleanValue: return b_ ? 1 : 0;
      default: throw LogicError("Value is not convertible to Int64.");
    }
  }
  Int64 asLargestInt() const { return asInt64(); }
  UInt64 asUInt64() const {
    switch (t_) {
      case uintValue: return u_;
      case intValue:
        if (i_ < 0) throw LogicError("LargestInt out of UInt64 range");
        return UInt64(i_);
      case realValue:
        if (!(d_ >= 0 && d_ < 18446744073709551616.0))
          throw LogicError("double out of UInt64 range");
        return UInt64(d_);
      case nullValue: return 0;
      case booleanValue: return b_ ? 1 : 0;
      default: throw LogicError("Value is not convertible to UInt64.");
    }
  }
  int asInt() const {
    Int64 v = asInt64();
    if (v < std::numeric_limits<int>::min() ||
        v > std::numeric_limits<int>::max())
      throw LogicError("out of Int range");
    return int(v);
  }
  unsigned asUInt() const {
    UInt64 v = asUInt64();
    if (v > std::numeric_limits<unsigned>::max())
      throw LogicError("out of UInt range");
    return unsigned(v);
  }
  double asDouble() const {
    switch (t_) {
      case realValue: return d_;
      case intValue: return double(i_);
      case uintValue: return double(u_);
      case nullValue: return 0.0;
      case booleanValue: return b_ ? 1.0 : 0.0;
      default: throw LogicError("Value is not convertible to double.");
    }
  }
  float asFloat() const { return float(asDouble()); }
  std::string asString() const {
    switch (t_) {
      case stringValue: return s_;
      case nullValue: return "";
      case booleanValue: return b_ ? "true" : "false";
      case intValue: return std::to_string(i_);
      case uintValue: return std::to_string(u_);
      case realValue: return std::to_string(d_);
      default: throw LogicError("Type is not convertible to string");
    }
  }
  const char* asCString() const {
    if (t_ != stringValue) throw LogicError("asCString");
    return s_.c_str();
  }
  ArrayIndex size() const {
    return ArrayIndex(t_ == arrayValue ? a_.size()
                      : t_ == objectValue ? o_.size() : 0);
  }
  bool empty() const {
    return (isNull() || isArray() || isObject()) && size() == 0;
  }
  explicit operator bool() const { return !isNull(); }
  bool isMember(const std::string& k) const {
    if (t_ == nullValue) return false;
    object("isMember");
    return o_.count(k) != 0;
  }
  bool isMember(const char* k) const { return isMember(std::string(k)); }
  Members getMemberNames() const {
    Members out;
    if (t_ == nullValue) return out;
    object("getMemberNames");
    for (const auto& p : o_) out.push_back(p.first);
    return out;
  }
  const Value& operator[](const std::string& k) const {
    if (t_ == nullValue) return none();
    object("operator[]");
    auto it = o_.find(k);
    return it == o_.end() ? none() : it->second;
  }
  const Value& operator[](const char* k) const {
    return (*this)[std::string(k)];
  }
  Value& operator[](const std::string& k) {
    if (t_ == nullValue) t_ = objectValue;
    object("operator[]");
    return o_[k];
  }
  Value& operator[](const char* k) { return (*this)[std::string(k)]; }
  const Value& operator[](ArrayIndex i) const {
    if (t_ == nullValue) return none();
    array("operator[]");
    return i < a_.size() ? a_[i] : none();
  }
  const Value& operator[](int i) const {
    if (i < 0) throw LogicError("negative index");
    return (*this)[ArrayIndex(i)];
  }
  Value& operator[](ArrayIndex i) {
    if (t_ == nullValue) t_ = arrayValue;
    array("operator[]");
    if (i >= a_.size()) a_.resize(i + 1);
    return a_[i];
  }
  Value& operator[](int i) {
    if (i < 0) throw LogicError("negative index");
    return (*this)[ArrayIndex(i)];
  }
  Value get(const std::string& k, const Value& d) const {
    return isMember(k) ? (*this)[k] : d;
  }
  Value& append(const Value& v) {
    if (t_ == nullValue) t_ = arrayValue;
    array("append");
    a_.push_back(v);
    return a_.back();
  }
  void resize(ArrayIndex n) {
    if (t_ == nullValue) t_ = arrayValue;
    array("resize");
    a_.resize(n);
  }
  void clear() {
    a_.clear();
    o_.clear();
  }
  void removeMember(const std::string& k) { o_.erase(k); }
  void swap(Value& o) { std::swap(*this, o); }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }

  std::string dump() const {
    switch (t_) {
      case nullValue: return "null";
      case booleanValue: return b_ ? "true" : "false";
      case intValue: return std::to_string(i_);
      case uintValue: return std::to_string(u_);
      case realValue: {
        char buf[64];
        snprintf(buf, sizeof(buf), "%.17g", d_);
        if (!strpbrk(buf, ".en")) strcat(buf, ".0");
        return buf;
      }
      case stringValue: return quoted(s_);
      case arrayValue: {
        std::string out = "[";
        for (size_t i = 0; i < a_.size(); ++i)
          out += (i ? "," : "") + a_[i].dump();
        return out + "]";
      }
      default: {
        std::string out = "{";
        for (const auto& p : o_)
          out += (out.size() > 1 ? "," : "") + quoted(p.first) + ":" +
                 p.second.dump();
        return out + "}";
      }
    }
  }

  static Value parse(const std::string& s) {
    const char* p = s.c_str();
    return parse(p);
  }

 private:
  friend class ValueConstIterator;
  ValueType t_;
  Int64 i_ = 0;
  UInt64 u_ = 0;
  double d_ = 0;
  bool b_ = false;
  std::string s_;
  std::vector<Value> a_;
  std::map<std::string, Value> o_;

  bool whole() const {
    double x;
    return std::modf(d_, &x) == 0.0;
  }
  static const Value& none() {
    static const Value v;
    return v;
  }
  void object(const char* what) const {
    if (t_ != objectValue)
      throw LogicError(std::string(what) + " requires objectValue");
  }
  void array(const char* what) const {
    if (t_ != arrayValue)
      throw LogicError(std::string(what) + " requires arrayValue");
  }
  static std::string quoted(const std::string& s) {
    std::string out = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\' || c < 32) {
        char buf[8];
        snprintf(buf, sizeof(buf), "\\u%04x", c);
        out += buf;
      } else {
        out += char(c);
      }
    }
    return out + "\"";
  }
  static void skip(const char*& p) {
    while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p;
  }
  static std::string text(const char*& p) {
    std::string out;
    for (++p; *p != '"'; ++p) {
      if (*p != '\\') {
        out += *p;
        continue;
      }
      ++p;
      if (*p == 'u') {
        unsigned c = unsigned(strtoul(std::string(p + 1, 4).c_str(), nullptr,
                                      16));
        p += 4;
        out += char(c);
      } else {
        out += *p == 'n' ? '\n' : *p == 't' ? '\t' : *p == 'r' ? '\r'
             : *p == 'b' ? '\b' : *p == 'f' ? '\f' : *p;
      }
    }
    ++p;
    return out;
  }
  static Value parse(const char*& p) {
    skip(p);
    if (*p == '{') {
      Value v(objectValue);
      ++p;
      skip(p);
      while (*p != '}') {
        skip(p);
        std::string k = text(p);
        skip(p);
        ++p;
        v.o_[k] = parse(p);
        skip(p);
        if (*p == ',') ++p;
        skip(p);
      }
      ++p;
      return v;
    }
    if (*p == '[') {
      Value v(arrayValue);
      ++p;
      skip(p);
      while (*p != ']') {
        v.a_.push_back(parse(p));
        skip(p);
        if (*p == ',') ++p;
        skip(p);
      }
      ++p;
      return v;
    }
    if (*p == '"') return Value(text(p));
    if (!strncmp(p, "true", 4)) {
      p += 4;
      return Value(true);
    }
    if (!strncmp(p, "false", 5)) {
      p += 5;
      return Value(false);
    }
    if (!strncmp(p, "null", 4)) {
      p += 4;
      return Value();
    }
    const char* q = p;
    while (*q && strchr("+-0123456789.eE", *q)) ++q;
    std::string s(p, q);
    p = q;
    if (s.find_first_of(".eE") == std::string::npos) {
      errno = 0;
      if (s[0] == '-') {
        long long v = strtoll(s.c_str(), nullptr, 10);
        if (!errno) return Value(v);
      } else {
        unsigned long long v = strtoull(s.c_str(), nullptr, 10);
        if (!errno)
          return v <= 9223372036854775807ULL ? Value((long long)v) : Value(v);
      }
    }
    return Value(strtod(s.c_str(), nullptr));
  }
};

inline const Value& ValueConstIterator::operator*() const {
  return owner_->isArray() ? owner_->a_[i_]
                           : std::next(owner_->o_.begin(), i_)->second;
}
inline const char* ValueConstIterator::memberName() const {
  return owner_->isArray() ? ""
                           : std::next(owner_->o_.begin(), i_)->first.c_str();
}
inline std::string ValueConstIterator::name() const {
  return owner_->isArray() ? std::string()
                           : std::next(owner_->o_.begin(), i_)->first;
}
inline Value ValueConstIterator::key() const {
  return owner_->isArray() ? Value(UInt(i_)) : Value(name());
}
}  // namespace Json
