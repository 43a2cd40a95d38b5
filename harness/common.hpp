// Helpers shared by the probes: exact output of doubles, ndjson, input tokens.
#pragma once
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "BasicTypes.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Particle.hpp"
#include "Point.hpp"

inline std::string hx(double v) {
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64];
  std::snprintf(b, sizeof b, "\"%a\"", v);
  return b;
}
// components of a Point or Direction
inline double comp(const Point& p, int i) {
  return p.Dot(Point{i == 0 ? 1. : 0., i == 1 ? 1. : 0., i == 2 ? 1. : 0.});
}
inline std::string pt(const Point& p) {
  return "[" + hx(comp(p, 0)) + "," + hx(comp(p, 1)) + "," + hx(comp(p, 2)) + "]";
}
inline std::string js(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if (c == '\n') { r += "\\n"; continue; }
    r += c;
  }
  return r + "\"";
}
inline std::string energy(const Energy& e) {
  if (std::holds_alternative<Group>(e)) {
    const auto g = std::get<Group>(e);
    return std::to_string(g > 2000000000ull ? -1 : static_cast<long long>(g));
  }
  return hx(std::get<ContinuousEnergy>(e));
}
inline const char* eventName(Particle::Event e) {
  switch (e) {
  case Particle::Event::birth: return "birth";
  case Particle::Event::scatter: return "scatter";
  case Particle::Event::capture: return "capture";
  case Particle::Event::fission: return "fission";
  case Particle::Event::surface_cross: return "surface_cross";
  case Particle::Event::leak: return "leak";
  case Particle::Event::virtual_collision: return "virtual_collision";
  }
  return "?";
}
// identifies a cell by name and definition, so that voids have an identity too
inline std::string signature(const Cell& c) {
  std::map<std::string, bool> m;
  for (const auto& [s, neg] : c.surface_senses) m[s->name] = neg;
  std::string r = c.name;
  for (const auto& [n, neg] : m) r += "|" + n + (neg ? "-" : "+");
  return r;
}
// discards what the program prints (from any thread) until restored
struct Quiet {
  int saved;
  Quiet() {
    std::cout.flush(); std::fflush(stdout);
    saved = dup(1);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  void restore() { std::cout.flush(); std::fflush(stdout); dup2(saved, 1); }
};
// occupancy of equal cells of [0, 1], as fine as the number of values permits
struct Fine {
  std::vector<long> h = std::vector<long>(4096);
  void add(double u) { const int i = std::floor(u * 4096); h[i < 0 ? 0 : i > 4095 ? 4095 : i]++; }
  void operator+=(const Fine& o) { for (int i = 0; i < 4096; i++) h[i] += o.h[i]; }
  std::string json() const {
    long n = 0;
    for (const auto k : h) n += k;
    int cells = 4096;
    while (cells > 1 && n < 40l * cells) cells /= 2;
    long least = n, most = 0;
    for (int c = 0; c < cells; c++) {
      long k = 0;
      for (int i = c * (4096 / cells); i < (c + 1) * (4096 / cells); i++) k += h[i];
      least = std::min(least, k);
      most = std::max(most, k);
    }
    return "{\"n\":" + std::to_string(n) + ",\"cells\":" + std::to_string(cells) + ",\"least\":" + std::to_string(least) + ",\"most\":" + std::to_string(most) + "}";
  }
};
struct Tokens {
  std::istream& in;
  bool next(std::string& s) { return static_cast<bool>(in >> s); }
  std::string str() { std::string s; if (!(in >> s)) { std::cerr << "input ended\n"; std::exit(90); } for (auto& c : s) if (c == '\x01') c = ' '; return s; }
  double num() { return std::strtod(str().c_str(), nullptr); }
  long long integer() { return std::strtoll(str().c_str(), nullptr, 0); }
  Point point() { const double x = num(), y = num(), z = num(); return Point{x, y, z}; }
};
