// Declarations of the libraries which the generated C++ code uses, for the
// syntax tree only: what the functions do is modelled in sx/cpprt.py.
#pragma once

typedef unsigned long size_t;
typedef long int64_t;
typedef int int32_t;
typedef unsigned long uint64_t;
typedef unsigned int uint32_t;

struct tm {
  int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday,
      tm_isdst;
  long tm_gmtoff;
  const char* tm_zone;
};
typedef long time_t;
size_t strlen(const char*);
char* strptime(const char*, const char*, tm*);
size_t strftime(char*, size_t, const char*, const tm*);

namespace std {
using ::size_t;
using ::int64_t;
using ::strlen;
using ::strftime;
using ::tm;
typedef decltype(nullptr) nullptr_t;

template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T&> { typedef T type; };
template <class T> struct remove_reference<T&&> { typedef T type; };
template <class T> typename remove_reference<T>::type&& move(T&& t) {
  return static_cast<typename remove_reference<T>::type&&>(t);
}
template <class T> T&& forward(typename remove_reference<T>::type& t) {
  return static_cast<T&&>(t);
}

template <class T> class initializer_list {
 public:
  const T* b;
  size_t n;
  size_t size() const;
  const T* begin() const;
  const T* end() const;
};

class string {
 public:
  static const size_t npos = -1;
  string();
  string(const string&);
  string(string&&);
  string(const char*);
  string(const char*, size_t);
  string(size_t, char);
  ~string();
  string& operator=(const string&);
  string& operator=(string&&);
  string& operator=(const char*);
  string& append(const string&);
  string& append(const char*);
  string& append(const char*, size_t);
  string& append(size_t, char);
  string& operator+=(const string&);
  string& operator+=(const char*);
  string& operator+=(char);
  void push_back(char);
  void reserve(size_t);
  void resize(size_t);
  void resize(size_t, char);
  void clear();
  size_t size() const;
  size_t length() const;
  bool empty() const;
  const char* c_str() const;
  const char* data() const;
  char& operator[](size_t);
  const char& operator[](size_t) const;
  char& at(size_t);
  const char& at(size_t) const;
  char& back();
  char& front();
  void pop_back();
  string substr(size_t = 0, size_t = npos) const;
  size_t find(const string&, size_t = 0) const;
  size_t find(const char*, size_t = 0) const;
  size_t find(char, size_t = 0) const;
  int compare(const string&) const;
  char* begin();
  char* end();
  const char* begin() const;
  const char* end() const;
};
string operator+(const string&, const string&);
string operator+(const string&, const char*);
string operator+(const char*, const string&);
string operator+(const string&, char);
bool operator==(const string&, const string&);
bool operator==(const string&, const char*);
bool operator==(const char*, const string&);
bool operator!=(const string&, const string&);
bool operator!=(const string&, const char*);
bool operator!=(const char*, const string&);
bool operator<(const string&, const string&);
string to_string(int);
string to_string(unsigned);
string to_string(long);
string to_string(unsigned long);
string to_string(long long);
string to_string(double);
double stod(const string&);
long stol(const string&);
long long stoll(const string&);
int stoi(const string&);
long atol(const char*);

template <class A, class B> struct pair {
  A first;
  B second;
  pair();
  pair(const A&, const B&);
  pair(A&&, B&&);
  pair(const pair&);
  pair(pair&&);
};
template <class A, class B> pair<A, B> make_pair(A, B);

template <class T> class vector {
 public:
  vector();
  vector(size_t);
  vector(size_t, const T&);
  vector(const vector&);
  vector(vector&&);
  vector(initializer_list<T>);
  ~vector();
  vector& operator=(const vector&);
  vector& operator=(vector&&);
  void resize(size_t);
  void resize(size_t, const T&);
  void reserve(size_t);
  void clear();
  size_t size() const;
  bool empty() const;
  T& at(size_t);
  const T& at(size_t) const;
  T& operator[](size_t);
  const T& operator[](size_t) const;
  T& back();
  const T& back() const;
  T& front();
  const T& front() const;
  void push_back(const T&);
  void push_back(T&&);
  void pop_back();
  template <class... A> T& emplace_back(A&&...);
  T* begin();
  T* end();
  const T* begin() const;
  const T* end() const;
  const T* cbegin() const;
  const T* cend() const;
};

template <class K, class V> class map {
 public:
  typedef pair<const K, V> value_type;
  class iterator {
   public:
    value_type& operator*() const;
    value_type* operator->() const;
    iterator& operator++();
    iterator operator++(int);
    bool operator==(const iterator&) const;
    bool operator!=(const iterator&) const;
  };
  class const_iterator {
   public:
    const_iterator();
    const_iterator(const iterator&);
    const_iterator(const const_iterator&);
    const value_type& operator*() const;
    const value_type* operator->() const;
    const_iterator& operator++();
    const_iterator operator++(int);
    bool operator==(const const_iterator&) const;
    bool operator!=(const const_iterator&) const;
  };
  map();
  map(const map&);
  map(map&&);
  ~map();
  map& operator=(const map&);
  map& operator=(map&&);
  V& operator[](const K&);
  V& operator[](K&&);
  V& at(const K&);
  const V& at(const K&) const;
  size_t count(const K&) const;
  iterator find(const K&);
  const_iterator find(const K&) const;
  size_t size() const;
  bool empty() const;
  void clear();
  size_t erase(const K&);
  pair<iterator, bool> insert(const value_type&);
  pair<iterator, bool> insert(value_type&&);
  template <class... A> pair<iterator, bool> emplace(A&&...);
  iterator begin();
  iterator end();
  const_iterator begin() const;
  const_iterator end() const;
  const_iterator cbegin() const;
  const_iterator cend() const;
};

template <class T> class unique_ptr {
 public:
  unique_ptr();
  unique_ptr(nullptr_t);
  explicit unique_ptr(T*);
  unique_ptr(unique_ptr&&);
  unique_ptr(const unique_ptr&) = delete;
  ~unique_ptr();
  unique_ptr& operator=(unique_ptr&&);
  unique_ptr& operator=(nullptr_t);
  T* get() const;
  T* operator->() const;
  T& operator*() const;
  explicit operator bool() const;
  T* release();
  void reset(T* = nullptr);
};
template <class T, class... A> unique_ptr<T> make_unique(A&&...);
template <class T> bool operator==(const unique_ptr<T>&, nullptr_t);
template <class T> bool operator!=(const unique_ptr<T>&, nullptr_t);

struct nullopt_t {};
constexpr nullopt_t nullopt{};
template <class T> class optional {
 public:
  optional();
  optional(nullopt_t);
  optional(const T&);
  optional(T&&);
  optional(const optional&);
  optional(optional&&);
  ~optional();
  optional& operator=(nullopt_t);
  optional& operator=(const T&);
  optional& operator=(T&&);
  optional& operator=(const optional&);
  optional& operator=(optional&&);
  template <class... A> T& emplace(A&&...);
  void reset();
  explicit operator bool() const;
  bool has_value() const;
  T& value();
  const T& value() const;
  T& operator*();
  const T& operator*() const;
  T* operator->();
  const T* operator->() const;
};
namespace experimental {
using std::optional;
using std::nullopt;
using std::nullopt_t;
}

class exception {
 public:
  exception();
  exception(const exception&);
  virtual ~exception();
  virtual const char* what() const noexcept;
};
#define STUB_ERROR(name, base) \
  class name : public base { \
   public: \
    explicit name(const string&); \
    explicit name(const char*); \
    name(const name&); \
  };
class runtime_error : public exception {
 public:
  explicit runtime_error(const string&);
  explicit runtime_error(const char*);
  runtime_error(const runtime_error&);
};
class logic_error : public exception {
 public:
  explicit logic_error(const string&);
  explicit logic_error(const char*);
  logic_error(const logic_error&);
};
STUB_ERROR(overflow_error, runtime_error)
STUB_ERROR(range_error, runtime_error)
STUB_ERROR(invalid_argument, logic_error)
STUB_ERROR(domain_error, logic_error)
STUB_ERROR(out_of_range, logic_error)
STUB_ERROR(length_error, logic_error)

class regex {
 public:
  explicit regex(const char*);
  explicit regex(const string&);
  ~regex();
};
class sub_match {
 public:
  size_t length() const;
  string str() const;
  operator string() const;
};
class smatch {
 public:
  smatch();
  ~smatch();
  sub_match operator[](size_t) const;
};
bool regex_match(const string&, const regex&);
bool regex_match(const char*, const regex&);
bool regex_match(const string&, smatch&, const regex&);
bool regex_search(const string&, const regex&);

struct setfill_t {};
struct setw_t {};
setfill_t setfill(char);
setw_t setw(int);
class ostream {
 public:
  ostream& operator<<(const char*);
  ostream& operator<<(const string&);
  ostream& operator<<(char);
  ostream& operator<<(int);
  ostream& operator<<(long);
  ostream& operator<<(unsigned long);
  ostream& operator<<(unsigned);
  ostream& operator<<(double);
  ostream& operator<<(setfill_t);
  ostream& operator<<(setw_t);
};
class istream {
 public:
  bool fail() const;
  bool good() const;
  bool bad() const;
  bool eof() const;
  bool operator!() const;
  explicit operator bool() const;
  int peek();
  int get();
};
class stringstream : public ostream {
 public:
  stringstream();
  stringstream(const string&);
  ~stringstream();
  string str() const;
};
class ostringstream : public ostream {
 public:
  ostringstream();
  ~ostringstream();
  string str() const;
};
class istringstream : public istream {
 public:
  istringstream(const string&);
  ~istringstream();
};
template <class T> class numeric_limits {
 public:
  static constexpr T max();
  static constexpr T min();
  static constexpr T lowest();
};

namespace chrono {
class nanoseconds {
 public:
  typedef long rep;
  constexpr nanoseconds();
  explicit constexpr nanoseconds(long);
  nanoseconds(const nanoseconds&);
  nanoseconds& operator=(const nanoseconds&);
  long count() const;
};
class seconds {
 public:
  typedef long rep;
  seconds() = default;
  explicit constexpr seconds(long);
  seconds(const seconds&);
  seconds& operator=(const seconds&);
  long count() const;
  long r;
};
}

namespace filesystem {
class path {
 public:
  path();
  path(const string&);
  path(const char*);
  path(const path&);
  path(path&&);
  ~path();
  path& operator=(const path&);
  path& operator=(path&&);
  string string() const;
};
}
namespace experimental {
namespace filesystem {
using std::filesystem::path;
}
}
}  // namespace std

namespace boost {
using std::optional;
struct none_t {};
constexpr none_t none{};
namespace filesystem {
using std::filesystem::path;
}
}

namespace date {
class local_days {
 public:
  local_days() = default;
  local_days(const local_days&);
  local_days& operator=(const local_days&);
};
class local_seconds {
 public:
  local_seconds() = default;
  local_seconds(const local_seconds&);
  local_seconds& operator=(const local_seconds&);
};
template <class D> class time_of_day {
 public:
  time_of_day() = default;
  explicit time_of_day(D);
  time_of_day(const time_of_day&);
  time_of_day& operator=(const time_of_day&);
  D to_duration() const;
};
template <class D> time_of_day<D> make_time(const D&);
class time_zone {
 public:
  const std::string& name() const;
};
const time_zone* locate_zone(const std::string&);
template <class T> struct parse_manip {
  ~parse_manip();
};
parse_manip<local_days> parse(const char*, local_days&);
parse_manip<local_seconds> parse(const char*, local_seconds&);
parse_manip<std::chrono::seconds> parse(const char*, std::chrono::seconds&);
parse_manip<local_days> parse(const std::string&, local_days&);
parse_manip<local_seconds> parse(const std::string&, local_seconds&);
parse_manip<std::chrono::seconds> parse(const std::string&,
                                        std::chrono::seconds&);
template <class T> std::istream& operator>>(std::istream&,
                                            const parse_manip<T>&);
std::string format(const char*, const local_days&);
std::string format(const char*, const local_seconds&);
std::string format(const char*, const std::chrono::seconds&);
}

namespace Json {
enum ValueType {
  nullValue = 0,
  intValue,
  uintValue,
  realValue,
  stringValue,
  booleanValue,
  arrayValue,
  objectValue
};
class Value;
class ValueConstIterator {
 public:
  ValueConstIterator(const ValueConstIterator&);
  const Value& operator*() const;
  const Value* operator->() const;
  ValueConstIterator& operator++();
  ValueConstIterator operator++(int);
  bool operator==(const ValueConstIterator&) const;
  bool operator!=(const ValueConstIterator&) const;
  std::string name() const;
  Value key() const;
};
typedef long Int64;
typedef unsigned ArrayIndex;
class Value {
 public:
  typedef ValueConstIterator const_iterator;
  typedef unsigned ArrayIndex;
  typedef long Int64;
  Value(ValueType = nullValue);
  Value(int);
  Value(unsigned);
  Value(long);
  Value(unsigned long);
  Value(double);
  Value(const char*);
  Value(const std::string&);
  Value(bool);
  Value(const Value&);
  Value(Value&&);
  ~Value();
  Value& operator=(const Value&);
  Value& operator=(Value&&);
  ValueType type() const;
  bool isNull() const;
  bool isBool() const;
  bool isInt() const;
  bool isInt64() const;
  bool isUInt() const;
  bool isUInt64() const;
  bool isIntegral() const;
  bool isDouble() const;
  bool isNumeric() const;
  bool isString() const;
  bool isArray() const;
  bool isObject() const;
  bool asBool() const;
  int asInt() const;
  long asInt64() const;
  double asDouble() const;
  std::string asString() const;
  const char* asCString() const;
  unsigned size() const;
  bool empty() const;
  bool isMember(const char*) const;
  bool isMember(const std::string&) const;
  const Value& operator[](int) const;
  const Value& operator[](unsigned) const;
  const Value& operator[](const char*) const;
  const Value& operator[](const std::string&) const;
  Value& operator[](int);
  Value& operator[](unsigned);
  Value& operator[](const char*);
  Value& operator[](const std::string&);
  Value& append(const Value&);
  void resize(unsigned);
  void clear();
  ValueConstIterator begin() const;
  ValueConstIterator end() const;
};
}
