// dirs < script > records. script lines:
//   turns dx dy dz n (mu phi)...     turn a direction
//   chain dx dy dz seed n mu...      scatter a particle repeatedly
//   scale x y z                      a direction of these components
//   azimuth dx dy dz seed n          histograms of the azimuth of scattering
//   isotropic seed n                 histograms of isotropic directions
#include "common.hpp"
#include "Verif.hpp"

namespace {
constexpr int B = 16;
#if MINIMC_VERIF == 2
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
#endif
struct Hist {
  std::vector<long> h = std::vector<long>(B);
  Fine fine;
  void add(double u, bool whole = true) { if (whole) fine.add(u); const int i = std::floor(u * B); h[i < 0 ? 0 : i >= B ? B - 1 : i]++; }
};
void print(const char* what, const Hist& h) {
  std::cout << "{\"t\":\"hist\",\"what\":\"" << what << "\",\"h\":[";
  for (int i = 0; i < B; i++) std::cout << (i ? "," : "") << h.h[i];
  std::cout << "],\"fine\":" << h.fine.json() << "}\n";
}
}

int main() {
#if MINIMC_VERIF == 2
  verif::ScriptedEngine::draw = draw;
#endif
  Tokens t{std::cin};
  std::string c;
  while (t.next(c)) {
    if (c == "turns") {
      const Direction d{t.point()};
      std::cout << "{\"t\":\"turns\",\"d\":" << pt(d) << ",\"turns\":[";
      const auto n = t.integer();
      for (int i = 0; i < n; i++) {
        const double mu = t.num(), phi = t.num();
        std::cout << (i ? "," : "") << "[" << hx(mu) << "," << hx(phi) << "," << pt(Direction{d, mu, phi}) << "]";
      }
      std::cout << "]}\n";
    }
    else if (c == "chain") {
      const Direction d{t.point()};
      Particle p{Point{0, 0, 0}, d, Group{1}, Particle::Type::neutron, static_cast<RNG::result_type>(t.integer())};
      std::cout << "{\"t\":\"chain\",\"d\":" << pt(d) << ",\"steps\":[";
      const auto n = t.integer();
      for (int i = 0; i < n; i++) {
        const double mu = t.num();
        p.Scatter(mu, Group{1});
        std::cout << (i ? "," : "") << "[" << hx(mu) << "," << pt(p.GetDirection()) << "]";
      }
      std::cout << "]}\n";
    }
    else if (c == "scale") {
      const Point v = t.point();
      const Direction a{comp(v, 0), comp(v, 1), comp(v, 2)};
      const Direction b{v};
      std::cout << "{\"t\":\"scale\",\"v\":" << pt(v) << ",\"out\":" << pt(a) << "}\n{\"t\":\"scale\",\"v\":" << pt(v) << ",\"out\":" << pt(b) << "}\n";
    }
    else if (c == "azimuth") {
      const Direction d{t.point()};
      Particle p{Point{0, 0, 0}, d, Group{1}, Particle::Type::neutron, static_cast<RNG::result_type>(t.integer())};
      double a[3] = {comp(d, 0), comp(d, 1), comp(d, 2)};
      int k = 0;
      for (int i = 1; i < 3; i++) if (std::fabs(a[i]) < std::fabs(a[k])) k = i;
      double e[3] = {0, 0, 0}; e[k] = 1;
      double e1[3], m = 0;
      for (int i = 0; i < 3; i++) { e1[i] = e[i] - a[k] * a[i]; m += e1[i] * e1[i]; }
      for (int i = 0; i < 3; i++) e1[i] /= std::sqrt(m);
      const double e2[3] = {a[1] * e1[2] - a[2] * e1[1], a[2] * e1[0] - a[0] * e1[2], a[0] * e1[1] - a[1] * e1[0]};
      const auto n = t.integer();
      Hist all, forward, backward;
      for (int i = 0; i < n; i++) {
        Particle q{Point{0, 0, 0}, d, Group{1}, Particle::Type::neutron, static_cast<RNG::result_type>(p.rng())};
        const double mu = -0.999 + 1.998 * (i % 997) / 997.;
        q.Scatter(mu, Group{1});
        const auto& o = q.GetDirection();
        const double f = (std::atan2(o.Dot(Point{e2[0], e2[1], e2[2]}), o.Dot(Point{e1[0], e1[1], e1[2]})) + M_PI) / (2 * M_PI);
        all.add(f);
        (mu > 0 ? forward : backward).add(f);
      }
      print("azimuth after scattering", all);
      print("azimuth after scattering forward", forward);
      print("azimuth after scattering backward", backward);
    }
    else if (c == "isotropic") {
      const auto seed = static_cast<RNG::result_type>(t.integer());
      RNG rng{seed};
      Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, seed};
      const auto n = t.integer();
      for (int kind = 0; kind < 2; kind++) {
        Hist h[6], joint;
        std::vector<std::string> units;
        for (int i = 0; i < n; i++) {
          if (kind) p.SetDirectionIsotropic();
          const Direction d = kind ? p.GetDirection() : Direction{rng};
          const double x = comp(d, 0), y = comp(d, 1), z = comp(d, 2);
          h[0].add((x + 1) / 2); h[1].add((y + 1) / 2); h[2].add((z + 1) / 2);
          const double fx = (std::atan2(z, y) + M_PI) / (2 * M_PI);
          h[3].add(fx); h[4].add((std::atan2(z, x) + M_PI) / (2 * M_PI)); h[5].add((std::atan2(y, x) + M_PI) / (2 * M_PI));
          joint.add((std::min(3., std::floor((x + 1) * 2)) * 4 + std::min(3., std::floor(fx * 4))) / 16 + 1e-3, false);
          if (i < 20) units.push_back(pt(d));
        }
        for (auto& x : h) print("isotropic directions", x);
        print("isotropic directions", joint);
        for (auto& u : units) std::cout << "{\"t\":\"scale\",\"v\":" << u << ",\"out\":" << u << "}\n";
      }
    }
  }
}
