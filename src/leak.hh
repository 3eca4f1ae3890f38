// What the engine still holds: live handles by type, live entities.
#pragma once
#include <map>
#include <set>
#include <sstream>
#include <string>
#include "IdTable.hh"
#include "Entity.hh"
namespace LK {
inline std::map<std::string, long> ids() {
  std::ostringstream o; EUROPA::IdTable::printTypeCnts(o);
  std::map<std::string, long> m; std::istringstream i(o.str()); std::string w;
  std::string line;
  while (std::getline(i, line)) {
    std::istringstream l(line); long n; std::string name;
    if (l >> n >> name) m[name] += n;
  }
  return m;
}
// type -> growth
inline std::map<std::string, long> grown(const std::map<std::string, long>& before, const std::map<std::string, long>& after) {
  std::map<std::string, long> d;
  for (auto& x : after) { auto it = before.find(x.first); long was = it == before.end() ? 0 : it->second; if (x.second != was) d[x.first] = x.second - was; }
  for (auto& x : before) if (!after.count(x.first) && x.second) d[x.first] = -x.second;
  return d;
}
}
