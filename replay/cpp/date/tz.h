// Names of time zones (the library of date.h loads its database from files).
#pragma once
#include <date/date.h>

#include <cstdlib>
#include <fstream>
#include <map>
#include <stdexcept>
#include <string>

namespace date {
class time_zone {
 public:
  explicit time_zone(const std::string& n) : n_(n) {}
  const std::string& name() const { return n_; }

 private:
  std::string n_;
};

inline const time_zone* locate_zone(const std::string& name) {
  static std::map<std::string, time_zone> zones;
  if (zones.empty()) {
    std::ifstream f(getenv("TIME_ZONES"));
    std::string line;
    while (std::getline(f, line)) zones.emplace(line, time_zone(line));
  }
  auto it = zones.find(name);
  if (it == zones.end())
    throw std::runtime_error(name + " not found in timezone database");
  return &it->second;
}
}  // namespace date
