// source < script > records. script lines:
//   instances <n> <file>            n instances of the source of this input
//   sample <instance> <seed>
//   hist <n> <first seed> x y z     histograms with reference direction
#include "common.hpp"
#include "Source.hpp"
#include "Verif.hpp"
#include "pugixml.hpp"

namespace {
constexpr int B = 16;
#if MINIMC_VERIF == 2
std::uint_fast64_t draw(verif::ScriptedEngine& e) {
  std::uint64_t z = (e.seed += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
#endif
struct Hist {
  std::vector<long> h = std::vector<long>(B);
  Fine fine;
  void add(double u, bool whole = true) { if (whole) fine.add(u); const int i = std::floor(u * B); h[i < 0 ? 0 : i >= B ? B - 1 : i]++; }
};
void print(const std::string& what, const Hist& h) {
  std::cout << "{\"t\":\"hist\",\"what\":\"" << what << "\",\"h\":[";
  for (int i = 0; i < B; i++) std::cout << (i ? "," : "") << h.h[i];
  std::cout << "],\"fine\":" << h.fine.json() << "}\n";
}
}

int main() {
#if MINIMC_VERIF == 2
  verif::ScriptedEngine::draw = draw;
#endif
  Tokens t{std::cin};
  std::string c;
  std::vector<std::unique_ptr<Source>> s;
  while (t.next(c)) {
    if (c == "instances") {
      const auto n = t.integer();
      pugi::xml_document doc;
      doc.load_file(t.str().c_str());
      s.clear();
      for (int i = 0; i < n; i++) s.push_back(std::make_unique<Source>(doc.child("minimc").child("problemtype").child("fixedsource")));
      std::cout << "{\"t\":\"source\"}\n";
    }
    else if (c == "sample") {
      const auto i = t.integer();
      const auto seed = t.integer();
      auto p = s.at(i)->Sample(seed);
      const bool g = std::holds_alternative<Group>(p.GetEnergy());
      std::cout << "{\"t\":\"sample\",\"inst\":" << i << ",\"seed\":" << seed << ",\"p\":" << pt(p.GetPosition()) << ",\"d\":" << pt(p.GetDirection())
                << ",\"e\":" << energy(p.GetEnergy()) << ",\"group\":" << (g ? "true" : "false") << ",\"ty\":\"" << (p.GetType() == Particle::Type::neutron ? "neutron" : "photon")
                << "\",\"event\":\"" << eventName(p.event) << "\",\"next\":\"" << p.rng() << "\"}\n";
    }
    else if (c == "hist") {
      const auto n = t.integer();
      const auto first = t.integer();
      const Direction r{t.point()};
      double a[3] = {comp(r, 0), comp(r, 1), comp(r, 2)};
      int k = 0;
      for (int i = 1; i < 3; i++) if (std::fabs(a[i]) < std::fabs(a[k])) k = i;
      double e[3] = {0, 0, 0}; e[k] = 1;
      double e1[3], m = 0;
      for (int i = 0; i < 3; i++) { e1[i] = e[i] - a[k] * a[i]; m += e1[i] * e1[i]; }
      for (int i = 0; i < 3; i++) e1[i] /= std::sqrt(m);
      const double e2[3] = {a[1] * e1[2] - a[2] * e1[1], a[2] * e1[0] - a[0] * e1[2], a[0] * e1[1] - a[1] * e1[0]};
      Hist mu, mu2, phi, joint, joint2, u1;
      for (int i = 0; i < n; i++) {
        const auto p = s.at(0)->Sample(first + i);
        const auto& o = p.GetDirection();
        const double x = o.Dot(r);
        const double f = (std::atan2(o.Dot(Point{e2[0], e2[1], e2[2]}), o.Dot(Point{e1[0], e1[1], e1[2]})) + M_PI) / (2 * M_PI);
        mu.add((x + 1) / 2); mu2.add(x * x); phi.add(f);
        joint.add((std::floor(std::min(0.999, (x + 1) / 2) * 4) * 4 + std::floor(std::min(.999, f) * 4)) / 16 + 1e-3, false);
        joint2.add((std::floor(std::min(0.999, x * x) * 4) * 4 + std::floor(std::min(.999, f) * 4)) / 16 + 1e-3, false);
        // the particle's own numbers are independent of its direction
        u1.add((std::floor(std::min(.999, f) * 4) * 4 + (p.rng.max() == ~0ull ? std::floor(4 * (Particle{p}.rng() / 18446744073709551616.)) : 0)) / 16 + 1e-3, false);
      }
      const bool flux = t.str() == "flux";
      print("azimuth", phi);
      print(flux ? "square of the cosine" : "cosine", flux ? mu2 : mu);
      print("cosine and azimuth", flux ? joint2 : joint);
      print("azimuth and the next number", u1);
    }
  }
}
